// props: D01
// variants: asan-nbc fast-nbc asan-def
// The same program run twice: other message timing, other memory contents, other things done before.
#include "gs_model.hpp"
#include "fp.hpp"

// both runs use one reduction order: that of the MPI library is not gslib's to promise
template <class F> static void twice(Case &c, int np, F f) {
  mpi::Sched a = c.sched(np), b = c.sched(np); b.red_order = a.red_order; int o = heap_fill(); f(0, a); static const int alt[] = {0xfb, 0, 0xff, 1}; heap_fill(alt[c.draw(4)]); f(1, b); heap_fill(o); }

static void d_gs(Case &c) {
  int np = 2 + (int)c.draw(7); std::string note; TopoOpt o; o.big = c.chance(10); bool nbc = variant_has(c.variant, "nbc"); GsMachine m(c, np); int nh = 1 + (int)c.draw(2); std::vector<int> base, rep, ib, comp, at; bool nt = false;
  for (int i = 0; i < nh; ++i) { Topo t = gen_topo(c, np, o, &note); int api = c.chance(30), hi = m.add_handle(t, (int)c.draw(3), api ? 0 : c.chance(30), (int)c.draw(3), api, 0); m.h[hi].pick = true; m.act(5, hi); m.act(0, hi); nt |= m.h[hi].gr.shared; }
  int n = 1 + (int)c.draw(3);
  for (int i = 0; i < n; ++i) { int x = (int)c.draw(nh); GOp q = m.gen_op(x, 7, 4); q.rough = true; int b = m.add_op(q); m.act(2, b); base.push_back(b); rep.push_back(-1); ib.push_back(-1); comp.push_back(-1); at.push_back(0);
    if (c.coin()) { rep[i] = m.add_op(q); m.act(2, rep[i]); }
    if ((m.h[x].method < 2 || nbc) && c.coin()) { ib[i] = m.add_op(q); m.act(3, ib[i]); m.act(4, ib[i]); }
    if (q.mode && q.k && c.coin()) { GOp s = q; s.mode = 0; s.k = 1; s.c0 = at[i] = (int)c.draw(q.k); comp[i] = m.add_op(s); m.act(2, comp[i]); } }
  for (int i = 0; i < nh; ++i) m.act(1, i);
  c.desc("gather-scatter np=%d %s", np, note.c_str()); std::vector<GData> d[2]; std::vector<Topo> u[2];
  twice(c, np, [&](int k, const mpi::Sched &s) { m.data.clear(); for (int i = 0; i < nh; ++i) m.uniq[i] = m.h[i].t; m.go(s); d[k] = m.data; u[k] = m.uniq; });
  auto nm = [&](int b) { const GOp &q = m.ops[b]; return strf("%s %s transpose %d mode %d k %d method %d", DOMN[q.dom], OPN[q.op], q.tr, q.mode, q.k, m.h[q.h].method); };
  for (int i = 0; i < nh; ++i) CHECK(c, u[0][i].id == u[1][i].id, "the choice of the unflagged holder depends on message timing");
  auto same = [&](const GData &x, const GData &y, const std::string &what) { for (int p = 0; p < np; ++p) for (size_t a = 0; a < x.out[p].size(); ++a) { auto &v = x.out[p][a], &w = y.out[p][a]; CHECK(c, !v.n || !memcmp(v.p, w.p, v.n), "%s: the results on process %d differ", what.c_str(), p); } };
  for (size_t k = 0; k < m.ops.size(); ++k) same(d[0][k], d[1][k], nm(k) + ", run with two message timings");
  for (int i = 0; i < n; ++i) { auto &D = d[0]; if (rep[i] >= 0) same(D[base[i]], D[rep[i]], nm(base[i]) + ", done twice on the same values"); if (ib[i] >= 0) same(D[base[i]], D[ib[i]], nm(base[i]) + ", blocking and nonblocking");
    if (comp[i] >= 0) { const GOp &q = m.ops[base[i]]; size_t w = DOMSZ[q.dom]; for (int p = 0; p < np; ++p) { int len = m.h[q.h].t.id[p].size(); for (int e = 0; e < len; ++e) { int a; size_t f; locate(q, len, e, at[i], a, f); CHECK(c, !memcmp(D[base[i]].out[p][a].p + f * w, D[comp[i]].out[p][0].p + e * w, w), "%s: component %d on process %d entry %d differs from the scalar operation on it", nm(base[i]).c_str(), at[i], p, e); } } } }
  c.nontrivial(nt); c.label("part:gather-scatter");
}
static void d_rows(Case &c) {
  int np = 2 + (int)c.draw(9), w = 1 + (int)c.draw(6), na = 1 + (int)c.draw(3), mx = c.size(c.chance(10) ? 300 : 20), dist = (int)c.draw(3); bool ft = c.chance(40); uint64_t vs = c.draw(1u << 20); std::vector<int> n(np); bool any = false; for (auto &x : n) x = c.range(0, mx), any |= x > 0; int mi = w, ml = (int)c.draw(3), mr = (int)c.draw(3), nk = 1 + (int)c.draw(2); std::vector<std::string> log[2];
  c.desc("%s np=%d %d transfers of <=%d rows", ft ? "tuple list" : "rows and messages", np, na, mx);
  auto to = [&](int r, int i, int t) { uint64_t h = hash64(vs, r * 100000 + i, t); return (uint)(dist == 0 ? h % np : dist == 1 ? (h & 1 ? vs % np : h % np) : (r + 1 + h % 2) % np); };
  twice(c, np, [&](int k, const mpi::Sched &s) { log[k].assign(np, ""); c.run(np, s, [&](int r) { Lib &L = lib(c.variant, r); void *wd = L.sh_comm_world(), *cm = L.sh_comm_dup(wd); auto &lg = log[k][r];
    if (!ft) { std::vector<uint> q((size_t)n[r] * w); for (size_t i = 0; i < q.size(); ++i) q[i] = i % w ? (uint)hash64(vs, r, i) : to(r, i / w, 0); void *cr = L.sh_cr_new(cm), *a = L.sh_arr_new(q.data(), n[r], n[r] + 2, 4 * w);
      for (int t = 0; t < na; ++t) { L.sh_transfer(a, 4 * w, 0, t & 1, cr); lg.append((char *)L.sh_arr_ptr(a), (size_t)L.sh_arr_n(a) * 4 * w); lg += "|"; } L.sh_arr_free(a);
      std::vector<uint> msg; for (int i = 0; i < n[r]; ++i) { int l = (int)(hash64(vs, i, r) % 4); msg.push_back(to(r, i, 9)); msg.push_back(r); msg.push_back(l); for (int j = 0; j < l; ++j) msg.push_back((uint)hash64(vs, i, j)); } L.sh_cr_route(cr, msg.data(), msg.size()); lg.append((char *)L.sh_cr_data(cr), 4 * (size_t)L.sh_cr_n(cr)); L.sh_cr_free(cr); }
    else { int f = L.sh_comm_fint(cm), h = -1, nn = n[r], cap = mx * np + 1, key = 1, npi = np; Blk<int> vi((size_t)mi * cap); Blk<ll> vl((size_t)ml * cap); Blk<double> vr((size_t)mr * cap); for (int i = 0; i < nn; ++i) { for (int j = 0; j < mi; ++j) vi[(size_t)i * mi + j] = j ? (int)(hash64(vs, r, i, j) % 7) : (int)to(r, i, 0); for (int j = 0; j < ml; ++j) vl[(size_t)i * ml + j] = (ll)hash64(vs, r + 50, i, j); for (int j = 0; j < mr; ++j) vr[(size_t)i * mr + j] = (double)hash64(vs, r + 90, i, j); }
      typedef int *I; typedef const int *CI; L.f<void (*)(I, CI, CI)>("fgslib_crystal_setup_")(&h, &f, &npi);
      for (int t = 0; t < na; ++t) { L.f<void (*)(CI, I, CI, I, CI, ll *, CI, double *, CI, CI)>("fgslib_crystal_tuple_transfer_")(&h, &nn, &cap, vi.p, &mi, vl.p, &ml, vr.p, &mr, &key); lg += strf("%d:", nn); lg.append((char *)vi.p, (size_t)nn * mi * 4); lg.append((char *)vl.p, (size_t)nn * ml * 8); lg.append((char *)vr.p, (size_t)nn * mr * 8); }
      int keys[2] = {std::min(2, mi), mi}; L.f<void (*)(CI, CI, I, CI, ll *, CI, double *, CI, CI, CI)>("fgslib_crystal_tuple_sort_")(&h, &nn, vi.p, &mi, vl.p, &ml, vr.p, &mr, keys, &nk); lg.append((char *)vi.p, (size_t)nn * mi * 4); lg.append((char *)vl.p, (size_t)nn * ml * 8); L.f<void (*)(I)>("fgslib_crystal_free_")(&h); }
    L.sh_comm_free(cm); L.sh_comm_free(wd); }); });
  for (int r = 0; r < np; ++r) CHECK(c, log[0][r] == log[1][r], "what process %d holds, in order, depends on message timing (%zu and %zu bytes)", r, log[0][r].size(), log[1][r].size());
  c.nontrivial(any); c.label(ft ? "part:tuple list" : "part:rows and messages");
}
static void d_fp(Case &c) {
  int d = c.range(2, 3); MeshOpt o; o.maxcells = 5; Mesh m = gen_mesh(c, d, o); Cfg g; g.api = (int)c.draw(4); place(c, m, g, 7, c.chance(25)); std::vector<double> df((size_t)m.nel * m.N); uint64_t us = c.draw(1u << 20); for (size_t i = 0; i < df.size(); ++i) df[i] = (double)(hash64(us, i, 3) % 5); g.distf = &df; int ns = 1 + (int)c.draw(3); for (auto &x : g.sess) x = (unsigned)c.draw(ns); g.match = (unsigned)c.draw(2);
  Call k = gen_call(c, m, g, 16, {INSIDE, FACE, NODE, NEAR, BOX, FAR, NODE}); for (auto &x : k.sid) x = (unsigned)c.draw(ns); Call other = gen_call(c, m, g, 8, {INSIDE, FACE, NEAR}); std::vector<double> u((size_t)m.nel * m.N); for (size_t i = 0; i < u.size(); ++i) u[i] = rough_val<double>(0, hash64(us, i));
  bool between = c.coin(), alone = c.coin(); c.desc("point search %s d=%d elements=%d np=%d sessions=%d match=%u", AN[g.api], d, m.nel, g.np, ns, g.match); std::vector<Call> res[2]; Eval e0; e0.out.resize(k.pts.size()); e0.touched.resize(k.pts.size()); Eval ev[2][3];
  twice(c, g.np, [&](int t, const mpi::Sched &s) { std::vector<Call> ks = {k, other, k}; for (auto &e : ev[t]) e = e0; c.run(g.np, s, [&](int r) { Caller K(lib(c.variant, r), m, g, r); K.find(ks[0]); ev[t][0].set = 0; K.eval(ks, ev[t][0], u); ev[t][1].set = 0; K.eval(ks, ev[t][1], u); if (between && !(t && alone)) K.find(ks[1]); else K.code.push_back(K.code[0]), K.proc.push_back(K.proc[0]), K.el.push_back(K.el[0]), K.rr.push_back(K.rr[0]); K.find(ks[2]); ev[t][2].set = 2; K.eval(ks, ev[t][2], u); K.done(); }); res[t] = ks; });
  bool some = false; auto cmp = [&](const Call &x, const Call &y, const char *what) { for (size_t i = 0; i < x.pts.size(); ++i) { const Found &a = x.res[i], &b = y.res[i]; some |= a.code != 2; bool same = a.code == b.code && (a.code == 2 || (a.proc == b.proc && a.el == b.el && !memcmp(&a.d2, &b.d2, 8) && !memcmp(a.r, b.r, 8 * d)));
    CHECK(c, same, "%s: point (%.17g,%.17g,%.17g): code %u process %u element %u r (%.17g,%.17g,%.17g) dist2 %.17g, then code %u process %u element %u r (%.17g,%.17g,%.17g) dist2 %.17g", what, x.pts[i].x[0], x.pts[i].x[1], x.pts[i].x[2], a.code, a.proc, a.el, a.r[0], a.r[1], a.r[2], a.d2, b.code, b.proc, b.el, b.r[0], b.r[1], b.r[2], b.d2); } };
  cmp(res[0][0], res[1][0], "two message timings"); cmp(res[0][2], res[1][2], "two message timings, later search"); cmp(res[0][0], res[0][2], "the same search again");
  for (size_t i = 0; i < k.pts.size(); ++i) for (int t = 0; t < 2; ++t) for (int q = 0; q < 3; ++q) { auto &a = ev[0][0], &b = ev[t][q]; CHECK(c, a.touched[i] == b.touched[i] && (!a.touched[i] || !memcmp(&a.out[i], &b.out[i], 8)), "evaluation at point %zu: %.17g, then %.17g (timing %d, evaluation %d)", i, a.out[i], b.out[i], t, q); }
  c.nontrivial(some && g.np > 1); c.label(std::string("part:point search ") + AN[g.api]);
}
static void d_comm(Case &c) {
  int np = 2 + (int)c.draw(9), n = 1 + (int)c.draw(5), vn = 1 + c.size(20); uint64_t vs = c.draw(1u << 20); struct St { int kind, dom, op; }; std::vector<St> st; for (int i = 0; i < n; ++i) { St s; s.kind = (int)c.draw(4); s.dom = (int)c.draw(5); s.op = (int)c.draw(5); st.push_back(s); } c.desc("communicators np=%d, %d steps of %d values", np, n, vn); std::vector<std::string> log[2];
  twice(c, np, [&](int t, const mpi::Sched &s) { log[t].assign(np, ""); c.run(np, s, [&](int r) { Lib &L = lib(c.variant, r); void *w = L.sh_comm_world(), *k = L.sh_comm_dup(w); auto &lg = log[t][r];
    for (size_t q = 0; q < st.size(); ++q) { auto &x = st[q]; with_dom(x.dom, [&](auto tag) { typedef typename decltype(tag)::type T; Blk<T> v(vn), b(2 * vn), o(2 * vn); for (int i = 0; i < vn; ++i) v[i] = rough_val<T>(x.op, hash64(vs, r, i, q)); for (int rep = 0; rep < 2; ++rep) { Blk<T> v2(v); std::string res; switch (x.kind) { case 0: L.sh_allreduce(k, x.dom, x.op, v2.p, vn, b.p); res.assign((char *)v2.p, vn * sizeof(T)); break; case 1: L.sh_scan(o.p, k, x.dom, x.op, v2.p, vn, b.p); res.assign((char *)o.p, 2 * vn * sizeof(T)); break; case 2: { Blk<T> z(1); memset((void *)z.p, 0, sizeof(T)); L.sh_reduce(k, x.dom, x.op, v2.p, vn, z.p); res.assign((char *)z.p, sizeof(T)); break; } default: { std::vector<double> a, y; for (int i = 0; i < vn; ++i) a.push_back(rough_val<double>(0, hash64(vs, r, i, 5))), y.push_back(rough_val<double>(0, hash64(vs, r, i, 6))); double z = L.sh_dot(k, a.data(), y.data(), vn); res.assign((char *)&z, 8); } }
      if (rep && lg.compare(lg.size() - res.size(), res.size(), res)) throw CaseFail(strf("step %zu done twice gives two results on process %d", q, r)); if (!rep) lg += res; } }); }
    L.sh_comm_free(k); L.sh_comm_free(w); }); });
  for (int r = 0; r < np; ++r) CHECK(c, log[0][r] == log[1][r], "the results on process %d depend on message timing", r);
  c.nontrivial(); c.label("part:communicators");
}
static void D01(Case &c) { static void (*const S[])(Case &) = {d_gs, d_gs, d_rows, d_fp, d_fp, d_comm}; S[c.draw(6)](c); }
static RegProp r1({"D01", "a gather-scatter history on values whose sums depend on the order, routed rows, messages and tuple lists, point searches and evaluations, or reductions and scans, run with two message timings and two contents of fresh memory, and repeated within a run; non-trivial: several processes have something to exchange", D01, 60000, 1500000, 10, {"asan-nbc", "fast-nbc", "asan-def"}});
