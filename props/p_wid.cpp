// props: K02
// variants: asan-i32 asan-gl asan-l64 asan-ll asan-def
// The library built with other integer widths than the usual ones.
#include "gs_model.hpp"
#include "fp.hpp"

struct Wd { int u, g; ull umax, gmax; };   // bytes of the local and of the global integer
static Wd widths(Case &c) { Lib &L = lib(c.variant, 0); Wd w; w.u = L.sh_typesize(0); w.g = L.sh_typesize(1); w.umax = w.u == 4 ? 0xffffffffull : ~0ull; w.gmax = w.g == 4 ? 0xffffffffull : ~0ull; return w; }
static void put(char *p, int w, ull v) { if (w == 4) { uint x = (uint)v; memcpy(p, &x, 4); } else memcpy(p, &v, 8); }
static ull get(const char *p, int w) { if (w == 4) { uint x; memcpy(&x, p, 4); return x; } ull v; memcpy(&v, p, 8); return v; }

static void w_gs(Case &c) {
  Wd W = widths(c); int np = 1 + (int)c.draw(6); std::string note; GsMachine m(c, np); TopoOpt o; o.maxn = 10; Topo t = gen_topo(c, np, o, &note);
  if (W.g == 4) { std::map<ll, ll> q; uint64_t s = c.draw(4); for (auto &v : t.id) for (auto &x : v) if (x) { ll a = std::llabs(x); auto it = q.insert({a, 0}); if (it.second) { ll k = (ll)q.size(); it.first->second = s == 0 ? k : s == 1 ? INT_MAX - k : s == 2 ? k * 65536 + 7 : k * np; } x = x < 0 ? -it.first->second : it.first->second; } }
  bool uq = c.chance(20), nbc = variant_has(c.variant, "i32") || variant_has(c.variant, "l64"); int a = m.add_handle(t, (int)c.draw(4), 0, c.chance(25) ? 2 : 0, 0, c.chance(5)); int f = -1;
  if (uq) { f = m.add_handle(t, 0, 0, 0, 0, 0); m.h[f].commkind = m.h[a].commkind; m.h[f].color = m.h[a].color; m.h[f].key = m.h[a].key; m.h[f].gr = m.h[a].gr; m.act(5, f); m.h[a].unique = 1; }
  m.act(0, a); int nops = 1 + (int)c.draw(4); m.waits.assign(np, {}); const bool noll = !variant_has(c.variant, "ll");   // no long long domain in the other builds

  for (int i = 0; i < nops; ++i) { GOp q = m.gen_op(a, 7, 4); if (noll && q.dom == 4) q.dom = 3; bool ib = c.chance(25) && (nbc || m.h[a].method < 2); int oi = m.add_op(q); if (ib) m.act(3, oi), m.act(4, oi); else m.act(2, oi); }
  m.act(1, a); c.desc("gather-scatter np=%d %s", np, note.c_str());
  // the first operation once more through the Fortran calls, whose arguments are local integers
  GOp q = m.ops[0]; int fd = q.dom == 0 ? 1 : q.dom == 2 ? (W.u == 4 ? 2 : 0) : q.dom == 1 ? 0 : W.u == 8 ? 2 + (int)(q.vs & 1) : W.g == 8 ? 3 : 0; bool fort = fd && q.mode < 2 && q.op < 4 && m.h[a].commkind == 0 && !uq; std::vector<Blk<char>> fres(np);
  m.go(c.sched(np), [&](Lib &L, int r, void *w) { if (!fort) return; Blk<char> u = m.data[0].in[r][0]; auto ids = blk(t.id[r]); int h = L.sh_fgs_setup(ids.p, ids.n, w, m.h[a].method); L.sh_fgs_op(h, u.p, q.mode == 1 ? q.k : -1, fd, q.op + 1, q.tr); L.sh_fgs_free(h); fres[r] = u; });
  if (uq) { verify_unique(c, t, m.uniq[f], m.h[f].color); m.h[a].eff = m.uniq[f]; }
  m.check_ops("gather-scatter"); c.nontrivial(m.h[a].gr.shared); c.label("part:gather-scatter");
  if (fort) { c.label("gs:fortran"); for (int r = 0; r < np; ++r) { auto &x = m.data[0].out[r][0]; CHECK(c, !x.n || !memcmp(x.p, fres[r].p, x.n), "the Fortran %s/%s operation on process %d differs from the C one", DOMN[q.dom], OPN[q.op], r); } }
}
static void w_comm(Case &c) {
  Wd W = widths(c); int np = 1 + (int)c.draw(7), vn = c.size(20), dom = (int)c.draw(variant_has(c.variant, "ll") ? 5 : 4), op = (int)c.draw(5); uint64_t vs = c.draw(1u << 20); c.desc("reduction and scan of %d %s %s np=%d", vn, DOMN[dom], OPN[op], np); c.label("part:reductions"); c.nontrivial(np > 1 && vn > 0);
  c.run(np, c.sched(np), [&](int r) { Lib &L = lib(c.variant, r); void *w = L.sh_comm_world(); with_dom(dom, [&](auto tag) { typedef typename decltype(tag)::type T; Blk<T> v(vn), b(2 * vn), s(2 * vn); std::vector<T> want(vn, op_id<T>(op)), pre(vn, op_id<T>(op)); for (int i = 0; i < vn; ++i) for (int q = 0; q < np; ++q) { T x = op_val<T>(op, hash64(vs, q, i), q); if (q == r) v[i] = x, pre[i] = want[i]; want[i] = op_do<T>(op, want[i], x); }
    L.sh_scan(s.p, w, dom, op, v.p, vn, b.p); L.sh_allreduce(w, dom, op, v.p, vn, b.p); for (int i = 0; i < vn; ++i) if (v[i] != want[i] || s[i] != pre[i] || s[vn + i] != want[i]) throw CaseFail(strf("process %d of %d entry %d: reduction %.17g, scan %.17g and %.17g; want %.17g and %.17g", r, np, i, (double)v[i], (double)s[i], (double)s[vn + i], (double)want[i], (double)pre[i])); });
    if ((int)L.sh_comm_id(w) != r || (int)L.sh_comm_np(w) != np) throw CaseFail("the communicator's id or size is wrong"); L.sh_comm_free(w); });
}
static void w_route(Case &c) {
  Wd W = widths(c); int np = 1 + (int)c.draw(8), most = c.size(20), ml = c.size(12); uint64_t vs = c.draw(1u << 20); typedef std::vector<ull> M; std::vector<std::vector<M>> out(np), got(np), want(np); c.desc("routing up to %d messages of up to %d integers, np=%d", most, ml, np);
  for (int p = 0; p < np; ++p) { int n = c.range(0, most); for (int i = 0; i < n; ++i) { M x{hash64(vs, p, i) % np, (ull)p, hash64(vs, p, i, 3) % (ml + 1)}; for (ull j = 0; j < x[2]; ++j) x.push_back(hash64(vs, p, i, j + 9) & W.umax); out[p].push_back(x); want[x[0]].push_back(x); } }
  c.run(np, c.sched(np), [&](int r) { Lib &L = lib(c.variant, r); void *w = L.sh_comm_world(), *cr = L.sh_cr_new(w); std::string s; for (auto &x : out[r]) for (ull v : x) { char b[8]; put(b, W.u, v); s.append(b, W.u); } L.sh_cr_route(cr, (const uint*)s.data(), s.size() / W.u); size_t n = L.sh_cr_n(cr), o = 0; const char *d = (const char*)L.sh_cr_data(cr); std::vector<ull> v(n); for (size_t i = 0; i < n; ++i) v[i] = get(d + i * W.u, W.u);
    while (o < n) { if (n - o < 3 || v[o + 2] > n - o - 3) throw CaseFail("the received data is not a sequence of messages"); got[r].push_back(M(v.begin() + o, v.begin() + o + 3 + v[o + 2])); o += 3 + v[o + 2]; } L.sh_cr_free(cr); L.sh_comm_free(w); });
  for (int p = 0; p < np; ++p) { std::sort(got[p].begin(), got[p].end()); std::sort(want[p].begin(), want[p].end()); CHECK(c, got[p] == want[p], "process %d received other messages than were sent to it (%zu, expected %zu)", p, got[p].size(), want[p].size()); }
  c.nontrivial(np > 1 && most > 0); c.label("part:crystal router");
}
static void w_rows(Case &c) {
  Wd W = widths(c); int np = 1 + (int)c.draw(7), most = c.size(c.chance(10) ? 300 : 30), ext = (int)c.draw(2), back = (int)c.draw(2); uint64_t vs = c.draw(1u << 20); Lib &L0 = lib(c.variant, 0); size_t S = L0.sh_tr_size(0), op = L0.sh_tr_size(1), oa = L0.sh_tr_size(2), ob = L0.sh_tr_size(3), oc = L0.sh_tr_size(4), od = L0.sh_tr_size(5); c.desc("moving up to %d rows, np=%d ext=%d", most, np, ext);
  std::vector<std::vector<std::string>> rows(np), got(np), want(np), home(np); std::vector<std::vector<ull>> to(np);
  for (int p = 0; p < np; ++p) { int n = c.range(0, most); for (int i = 0; i < n; ++i) { std::string r(S, 0); double a = (double)(hash64(vs, p, i) >> 20); memcpy(&r[oa], &a, 8); ull d = hash64(vs, p, i, 2) % np; put(&r[ob], W.g, hash64(vs, p, i, 3) & W.gmax); put(&r[oc], W.u, hash64(vs, p, i, 4) & W.umax); for (int k = 0; k < 3; ++k) r[od + k] = (char)hash64(vs, p, i, 5 + k); to[p].push_back(d); put(&r[op], W.u, ext ? hash64(vs, p, i, 9) & W.umax : d); rows[p].push_back(r); std::string x = r; if (!ext && back) put(&x[op], W.u, p); want[d].push_back(x); } }
  c.run(np, c.sched(np), [&](int r) { Lib &L = lib(c.variant, r); void *w = L.sh_comm_world(), *cr = L.sh_cr_new(w); std::string s; for (auto &x : rows[r]) s += x; void *A = L.sh_arr_new(s.data(), rows[r].size(), rows[r].size(), S);
    auto take = [&](std::vector<std::string> &v) { const char *d = (const char*)L.sh_arr_ptr(A); for (size_t i = 0; i < L.sh_arr_n(A); ++i) v.push_back(std::string(d + i * S, S)); };
    if (ext) { std::string pr; for (ull d : to[r]) { char b[8]; put(b, W.u, d); pr.append(b, W.u); } Blk<char> pb(pr.size()); memcpy(pb.p, pr.data(), pr.size()); L.sh_tr_ext_macro(A, (const uint*)pb.p, cr); } else L.sh_tr_macro(A, back, cr);
    take(got[r]); if (!ext && back) { L.sh_tr_macro(A, 0, cr); take(home[r]); } L.sh_arr_free(A); L.sh_cr_free(cr); L.sh_comm_free(w); });
  for (int p = 0; p < np; ++p) { std::sort(got[p].begin(), got[p].end()); std::sort(want[p].begin(), want[p].end()); CHECK(c, got[p] == want[p], "process %d holds other rows than were sent to it (%zu, expected %zu)", p, got[p].size(), want[p].size());
    if (!ext && back) { auto v = rows[p]; for (auto &x : v) put(&x[op], W.u, 0); for (auto &x : home[p]) put(&x[op], W.u, 0); std::sort(v.begin(), v.end()); std::sort(home[p].begin(), home[p].end()); CHECK(c, v == home[p], "the rows sent back to process %d are not its own", p); } }
  c.nontrivial(np > 1 && most > 0); c.label("part:rows");
}
static void w_sort(Case &c) {
  Wd W = widths(c); int n = c.chance(30) ? 250 + (int)c.draw(15) : c.size(c.chance(10) ? 2000 : 200), how = (int)c.draw(5), extra = (int)c.draw(3), span = (int)c.draw(4); uint64_t vs = c.draw(1u << 20); bool glob = how & 1; int w = glob ? W.g : W.u; c.desc("sorting %d %d-byte integers", n, w); c.label("part:sort"); c.nontrivial(n > 1);
  auto val = [&](int i, int k) { uint64_t h = hash64(vs, i, k); ull m = w == 4 ? 0xffffffffull : ~0ull; return m & (span == 0 ? h % 3 : span == 1 ? h : span == 2 ? (h % 5) << (8 * w - 8) : (h % 300) << 24); };
  c.run(1, mpi::Sched(), [&](int r) { Lib &L = lib(c.variant, r); void *buf = L.sh_buf_null();
    if (how < 4) { int st = w * (1 + extra); Blk<char> A(n ? (size_t)(n - 1) * st + w : 0); std::vector<ull> v(n); for (size_t i = 0; i < A.n; ++i) A[i] = 0x55; for (int i = 0; i < n; ++i) put(&A[(size_t)i * st], w, v[i] = val(i, 0));
      if (how < 2) { Blk<char> o((size_t)n * w); std::vector<ull> s = v; std::sort(s.begin(), s.end()); L.sh_sortv(glob, o.p, A.p, n, st, buf); for (int i = 0; i < n; ++i) if (get(&o[(size_t)i * w], w) != s[i]) throw CaseFail(strf("position %d of %d sorted values: got %llu, want %llu", i, n, get(&o[(size_t)i * w], w), s[i])); }
      else { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; std::stable_sort(p.begin(), p.end(), [&](int a, int b) { return v[a] < v[b]; }); const char *q = (const char*)L.sh_sortp(glob, buf, 0, A.p, n, st); for (int i = 0; i < n; ++i) if (get(q + (size_t)i * W.u, W.u) != (ull)p[i]) throw CaseFail(strf("position %d of the sorting permutation of %d: got %llu, want %d", i, n, get(q + (size_t)i * W.u, W.u), p[i])); } }
    else { size_t S = L.sh_srow(5), oa = L.sh_srow(0), ob = L.sh_srow(1), ot = L.sh_srow(4); Blk<char> A((size_t)n * S); memset(A.p, 0, A.n); struct K { ull a, b; int i; }; std::vector<K> v(n); int which = (int)(vs % 3); for (int i = 0; i < n; ++i) { v[i] = {val(i, 1) & W.umax, val(i, 2) & W.gmax, i}; put(&A[i * S + oa], W.u, v[i].a); put(&A[i * S + ob], W.g, v[i].b); put(&A[i * S + ot], W.u, i); }
      std::stable_sort(v.begin(), v.end(), [&](const K &x, const K &y) { return which == 0 ? x.a < y.a : which == 1 ? x.b < y.b : x.a != y.a ? x.a < y.a : x.b < y.b; }); L.sh_sarray_sort(which == 2 ? 5 : which, A.p, n, buf);
      for (int i = 0; i < n; ++i) if (get(&A[i * S + oa], W.u) != v[i].a || get(&A[i * S + ob], W.g) != v[i].b || get(&A[i * S + ot], W.u) != (ull)v[i].i) throw CaseFail(strf("row %d of %d sorted rows is the row that was at %llu, expected the one at %d", i, n, get(&A[i * S + ot], W.u), v[i].i)); }
    L.sh_buf_free(buf); });
}
static void w_fp(Case &c) {
  int d = c.range(2, 3); MeshOpt o; o.maxcells = 5; Mesh m = gen_mesh(c, d, o); Cfg g; static const int A[] = {C_API, C_MS, LOCAL}; g.api = A[c.draw(3)]; place(c, m, g, 4, c.chance(20)); g.sess.assign(g.np, 1); if (g.api == C_MS) { for (auto &s : g.sess) s = 1 + (unsigned)c.draw(2); g.match = (unsigned)c.draw(2); } std::vector<Call> calls(1, gen_call(c, m, g, 16, {INSIDE, INSIDE, FACE, NODE, NEAR, BOX, FAR})); if (g.api == C_MS) for (auto &s : calls[0].sid) s = 1 + (unsigned)c.draw(2); if (calls[0].s.sid == 0) for (auto &s : calls[0].sid) s = calls[0].sid[0];
  Eval e; e.set = 0; e.field = 0; e.out.resize(calls[0].pts.size()); e.touched.resize(e.out.size()); std::vector<double> u((size_t)m.nel * m.N), df(u.size(), 1); for (size_t i = 0; i < u.size(); ++i) u[i] = (double)(hash64(7, i) >> 40), df[i] = (double)(1 + i / m.N); g.distf = &df; c.desc("point search %s d=%d elements=%d np=%d", AN[g.api], d, m.nel, g.np);
  int v0 = c.variant; std::vector<Call> res[2]; Eval ev[2] = {e, e};
  for (int k = 0; k < 2; ++k) { c.variant = k ? v0 : find_variant("asan-def"); auto k2 = calls; c.run(g.np, g.sched, [&](int r) { Caller K(lib(c.variant, r), m, g, r); K.find(k2[0]); K.eval(k2, ev[k], u); K.done(); }); res[k] = k2; }
  bool some = false; for (size_t i = 0; i < e.out.size(); ++i) { Found &a = res[0][0].res[i], &b = res[1][0].res[i]; some |= a.code != 2; const Pt &p = calls[0].pts[i];
    CHECK(c, a.code == b.code, "point (%.17g,%.17g,%.17g): code %u with the usual widths, %u with these", p.x[0], p.x[1], p.x[2], a.code, b.code); if (a.code == 2) continue;
    CHECK(c, a.proc == b.proc && a.el == b.el && a.d2 == b.d2 && !memcmp(a.r, b.r, sizeof(double) * d), "point (%.17g,%.17g,%.17g): process %u element %u dist2 %g with the usual widths, process %u element %u dist2 %g with these", p.x[0], p.x[1], p.x[2], a.proc, a.el, a.d2, b.proc, b.el, b.d2);
    CHECK(c, ev[0].touched[i] == ev[1].touched[i] && ev[0].out[i] == ev[1].out[i], "evaluation at point %zu: %.17g with the usual widths, %.17g with these", i, ev[0].out[i], ev[1].out[i]); }
  c.nontrivial(some); c.label(std::string("part:point search ") + AN[g.api]);
}
static void K02(Case &c) { static void (*const S[])(Case &) = {w_gs, w_gs, w_fp, w_fp, w_comm, w_route, w_rows, w_sort}; static const char *const V[] = {"asan-i32", "asan-gl", "asan-l64", "asan-ll"}; c.variant = find_variant(V[c.draw(4)]); c.label(std::string("widths:") + (variant_has(c.variant, "i32") ? "int/int" : variant_has(c.variant, "gl") ? "int/long" : variant_has(c.variant, "l64") ? "long/long" : "long long/long long")); S[c.draw(8)](c); }
static RegProp r1({"K02", "one of four integer-width choices; a gather-scatter history (C, Fortran), a reduction and scan, routed messages, moved rows, a sort, or a point search compared with the usual widths, on 1-8 processes; non-trivial: there is data to combine, move, sort or find", K02, 40000, 1000000, 8, {"asan-i32", "asan-gl", "asan-l64", "asan-ll", "asan-def"}});
