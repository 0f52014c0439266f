// props: N01 N02 A01
// variants: asan-nbc fast-nbc asan-def
// What the library may spend: messages and words (N01), memory (N02), and the choice of the cheapest method (A01).
#include <unistd.h>
#include <sys/mman.h>
#include "gs_model.hpp"
#include "fp.hpp"

static int stages(int np) { int k = 0; while ((1 << k) < np) ++k; return k; }
static FILE *probe() { static FILE *f = getenv("VERIF_PROBE") ? fopen(getenv("VERIF_PROBE"), "a") : nullptr; if (f) setlinebuf(f); return f; }
#define probing() (probe() != nullptr)
struct Spent { long sends = 0, colls = 0; size_t bytes = 0, cbytes = 0; std::map<int, std::pair<int, size_t>> to; };
struct Meter {   // what one process sends between two points
  size_t at = 0, cb = 0; long co = 0; int r;
  explicit Meter(int r_) : at(mpi::sent().size()), cb(mpi::coll_bytes(r_)), co(mpi::colls(r_)), r(r_) {}
  Spent read() const { Spent s; auto &v = mpi::sent(); for (size_t i = at; i < v.size(); ++i) if (v[i].from == r) { ++s.sends; s.bytes += v[i].bytes; auto &t = s.to[v[i].to]; ++t.first; t.second += v[i].bytes; } s.colls = mpi::colls(r) - co; s.cbytes = mpi::coll_bytes(r) - cb; return s; }
};

// ---- gather-scatter
struct Shape { std::vector<std::map<int, int>> dir[2]; std::vector<int> shared, np; };   // dir[tr][p][q]: ids p has something to tell q about
static Shape shape(const GHandle &h) {
  int np = h.t.np; Shape s; s.shared.assign(np, 0); s.np.assign(np, 0); for (int t = 0; t < 2; ++t) s.dir[t].resize(np); for (int p = 0; p < np; ++p) for (int q = 0; q < np; ++q) s.np[p] += h.color[p] == h.color[q];
  for (auto &g : h.gr.g) { std::map<int, bool> un; for (auto &x : g) un[x.p] |= h.eff.id[x.p][x.i] > 0; if (un.size() < 2) continue; int col = h.color[g[0].p]; for (int p = 0; p < np; ++p) if (h.color[p] == col) ++s.shared[p];
    for (auto &a : un) for (auto &b : un) if (a.first != b.first) { if (a.second) ++s.dir[0][a.first][b.first]; if (b.second) ++s.dir[1][a.first][b.first]; } }
  return s; }
static std::string over_pairwise(const Spent &x, const Shape &s, int p, int tr, size_t unit) {
  for (auto &t : x.to) { auto it = s.dir[tr][p].find(t.first); if (it == s.dir[tr][p].end()) return strf("sends %zu bytes in %d message(s) to process %d, which needs nothing from it", t.second.second, t.second.first, t.first);
    if (t.second.first > 1) return strf("sends %d messages to process %d", t.second.first, t.first); if (t.second.second > unit * it->second) return strf("sends %zu bytes to process %d, which needs %d values of %zu bytes", t.second.second, t.first, it->second, unit); }
  return x.colls ? strf("enters %ld collective(s)", x.colls) : ""; }
static std::string over_crystal(const Spent &x, const Shape &s, int p, size_t unit) {
  int st = stages(s.np[p]); if (x.sends > st) return strf("sends %ld messages among %d processes", x.sends, s.np[p]); for (auto &t : x.to) if (t.second.second > unit * s.shared[p] * t.second.first) return strf("sends %zu bytes in %d message(s) with %d shared ids of %zu bytes", t.second.second, t.second.first, s.shared[p], unit);
  return x.colls ? strf("enters %ld collective(s)", x.colls) : ""; }
static std::string over_allreduce(const Spent &x, const Shape &s, int p, size_t unit, bool byhand) {
  int st = stages(s.np[p]); if (x.sends > (byhand ? 2 * st : 0)) return strf("sends %ld messages besides the reduction", x.sends); if (x.colls > 1) return strf("enters %ld collectives", x.colls); if (x.cbytes > unit * s.shared[p] || x.bytes > unit * s.shared[p] * (size_t)x.sends) return strf("reduces %zu bytes with %d shared ids of %zu bytes", std::max(x.cbytes, x.bytes), s.shared[p], unit); return ""; }

static void n_gs(Case &c) {
  int np = pick_np(c, 12); std::string note; TopoOpt o; o.big = c.chance(15); bool nbc = variant_has(c.variant, "nbc"); GsMachine m(c, np); Topo t = gen_topo(c, np, o, &note); int method = (int)c.draw(4), api = c.chance(25), unique = api ? 0 : c.chance(35), hi = m.add_handle(t, method, unique, c.chance(25) ? 2 : 0, api, 0); m.h[hi].pick = c.coin(); int eff = api && !m.h[hi].pick ? 3 : method; m.h[hi].method = eff;
  m.act(5, hi); m.act(0, hi); int n = 1 + (int)c.draw(4); std::vector<std::pair<int, int>> span(m.acts.size(), {-1, 0});
  for (int i = 0; i < n; ++i) { GOp q = m.gen_op(hi, 15 - (api ? 0 : 8), 5); bool ib = c.chance(35) && q.mode < 3 && (nbc || eff < 2); int oi = m.add_op(q); span.push_back({oi, ib ? 1 : 0}); if (ib) m.act(3, oi), m.act(4, oi), span.push_back({oi, 2}); else m.act(2, oi); }
  m.act(1, hi); span.push_back({-1, 0}); c.desc("gather-scatter np=%d method=%d unique=%d fortran=%d %s", np, eff, unique, api, note.c_str());
  std::vector<std::vector<Spent>> sp(n, std::vector<Spent>(np)), set(2, std::vector<Spent>(np)); std::vector<std::unique_ptr<Meter>> M(np); std::vector<std::vector<int>> nmsg(np); std::vector<std::vector<int>> size(np);
  m.on_act = [&](int r, size_t ai, int ph) { bool open = ph == 0 && span[ai].second < 2, shut = ph == 1 && span[ai].second != 1; if (open) M[r].reset(new Meter(r)); if (shut) { Spent s = M[r]->read(); if (ai < 2) set[ai][r] = s; else if (span[ai].first >= 0) sp[span[ai].first][r] = s; } };
  m.go(c.sched(np)); GHandle &h = m.h[hi]; if (unique) h.eff = m.uniq[hi]; Shape s = shape(h);
  static const char *const MN[] = {"pairwise", "crystal-router", "all-reduce", "automatic"};
  for (int i = 0; i < n; ++i) { const GOp &q = m.ops[i]; size_t unit = DOMSZ[q.dom] * (q.mode ? q.k : 1); bool ok[3] = {true, true, true}; std::string why;
    for (int p = 0; p < np; ++p) { Spent &x = sp[i][p]; if (s.np[p] == 1) { CHECK(c, !x.sends && !x.colls, "%s operation on one process sends %ld messages and enters %ld collectives", MN[eff], x.sends, x.colls); continue; }
      std::string w[3] = {over_pairwise(x, s, p, q.tr, unit), over_crystal(x, s, p, unit), over_allreduce(x, s, p, unit, q.op == 4)}; for (int k = 0; k < 3; ++k) if (!w[k].empty()) { if (eff < 3) { if (k == eff) c.fail("%s operation (%s %s transpose %d, %d component(s)%s): process %d of %d %s", MN[eff], DOMN[q.dom], OPN[q.op], q.tr, q.mode ? q.k : 1, unique ? ", unique" : "", p, s.np[p], w[k].c_str()); } else ok[k] = false, why += strf("; as %s: process %d %s", MN[k], p, w[k].c_str()); } }
    // a split communicator chooses by itself
    if (eff == 3 && h.commkind != 2) CHECK(c, ok[0] || ok[1] || ok[2], "an automatic handle's operation (%s %s transpose %d) costs more than each of the three methods%s", DOMN[q.dom], OPN[q.op], q.tr, why.substr(0, 600).c_str()); }
  for (int k = 0; k < 2; ++k) for (int p = 0; p < np; ++p) { Spent &x = set[k][p]; int st = stages(s.np[p]); if (probing() && !x.to.empty()) fprintf(probe(), "PROBE setup%d method %d st %d sends %ld colls %ld ratio %g\n", k, eff, st, x.sends, x.colls, st ? (double)x.sends / st : 0.); long lim = (k && (eff == 1 || eff == 3) ? 14 : 8) * st + (k && eff == 3 ? 36 * std::max(st, s.np[p] - 1) : 0); CHECK(c, x.sends <= lim, "%s: process %d of %d sends %ld messages, more than %ld", k ? "setting up" : "choosing unflagged members", p, s.np[p], x.sends, lim); }
  { size_t ids = 0, pairs = 0; for (auto &v : h.t.id) for (ll x : v) ids += x != 0; for (int p = 0; p < np; ++p) for (auto &q : s.dir[0][p]) pairs += q.second; for (int p = 0; p < np; ++p) for (auto &q : s.dir[1][p]) pairs += q.second; int st = stages(np); for (int k = 0; k < 2; ++k) { size_t b = 0; long ms = 0; for (int p = 0; p < np; ++p) b += set[k][p].bytes, ms += set[k][p].sends; if (k && eff == 3) continue; size_t lim = (size_t)(k ? 32 : 16) * ((ids + pairs) * 4 * st + 8 * ms); CHECK(c, b <= lim, "%s for %zu identifiers (%zu process pairs) on %d processes moves %zu bytes, more than %zu", k ? "setting up" : "choosing unflagged members", ids, pairs, np, b, lim); } }
  c.label(std::string("part:gs-") + MN[eff]); c.nontrivial(h.gr.shared && np > 1);
}
// ---- routing of rows
static void n_rows(Case &c) {
  int np = pick_np(c, 12), w = 1 + (int)c.draw(8), most = c.size(c.chance(10) ? 400 : 20), dist = (int)c.draw(6), ext = c.coin(), src = (int)c.draw(2); uint64_t vs = c.draw(1u << 20); if (!ext && w < 2) w = 2; bool nt = false; std::vector<int> n(np); for (int p = 0; p < np; ++p) n[p] = c.range(0, most);
  auto to = [&](int p, int i) -> uint { uint64_t x = hash64(vs, p, i); switch (dist) { case 0: return p; case 1: return x % np; case 2: return vs % np; case 3: return (p + 1) % np; case 4: return np - 1 - p; default: return x % 3 ? p : x % np; } };
  std::vector<Spent> sp(np); c.run(np, c.sched(np), [&](int r) { Lib &L = lib(c.variant, r); void *wd = L.sh_comm_world(), *cr = L.sh_cr_new(wd); std::vector<uint> q(n[r] * w), pr(n[r] + 1); for (int i = 0; i < n[r]; ++i) { for (int k = 0; k < w; ++k) q[i * w + k] = (uint)hash64(vs, r, i, k); pr[i] = to(r, i); if (!ext) q[i * w] = pr[i]; }
    void *a = L.sh_arr_new(q.data(), n[r], n[r], 4 * w); Meter M(r); if (ext) L.sh_transfer_ext(a, 4 * w, pr.data(), 4, cr); else L.sh_transfer(a, 4 * w, 0, src, cr); sp[r] = M.read(); L.sh_arr_free(a); L.sh_cr_free(cr); L.sh_comm_free(wd); });
  int st = stages(np); size_t words = 0, rows = 0; std::set<std::pair<int, int>> pairs; for (int p = 0; p < np; ++p) for (int i = 0; i < n[p]; ++i) { int d = to(p, i); if (d != p) ++rows, pairs.insert({p, d}), nt = true; } words = rows * (size_t)(ext ? w : w - 1) + 3 * pairs.size();
  size_t all = 0; long msgs = 0; for (int p = 0; p < np; ++p) { CHECK(c, sp[p].sends <= 2 * st, "a transfer among %d processes: process %d sends %ld messages", np, p, sp[p].sends); all += sp[p].bytes; msgs += sp[p].sends; }
  size_t lim = 4 * (words * st + msgs); if (probing() && nt) fprintf(probe(), "PROBE rows used/limit %g\n", (double)all / lim);
  CHECK(c, all <= lim, "a transfer of %zu rows of %d words between processes (%zu source-destination pairs, %d processes) moves %zu bytes, more than %zu", rows, ext ? w : w - 1, pairs.size(), np, all, lim); CHECK(c, st || !all, "a transfer on one process sends %zu bytes", all);
  c.desc("rows np=%d w=%d most=%d dist=%d ext=%d", np, w, most, dist, ext); c.label("part:rows"); c.nontrivial(nt);
}
// ---- communicators: scans and reductions done by hand
static void n_comm(Case &c) {
  int np = pick_np(c, 12), vn = c.size(30), what = (int)c.draw(4), dom = (int)c.draw(5), op = what == 1 ? 4 : (int)c.draw(5); auto sc = c.sched(np); std::vector<Spent> sp(np); size_t w = DOMSZ[dom]; bool nbc = variant_has(c.variant, "nbc"); if (what == 2 && !nbc) what = 1; if (what == 2) op %= 4;
  c.run(np, sc, [&](int r) { Lib &L = lib(c.variant, r); void *wd = L.sh_comm_world(); std::vector<double> v(vn + 1, 0), t(2 * vn + 2), o(2 * vn + 2); Meter M(r); if (what == 0) L.sh_scan(o.data(), wd, dom, op, v.data(), vn, t.data()); else if (what == 1) L.sh_allreduce(wd, dom, op, v.data(), vn, t.data()); else if (what == 2) L.sh_iallreduce(wd, dom, op, v.data(), vn, t.data()); else L.sh_dot(wd, v.data(), v.data(), vn); sp[r] = M.read(); L.sh_comm_free(wd); });
  int st = stages(np); static const char *const WN[] = {"scan", "reduction", "nonblocking reduction", "dot product"}; for (int p = 0; p < np; ++p) { Spent &x = sp[p]; if (probing() && np > 1) fprintf(probe(), "PROBE comm%d op %d st %d sends %ld colls %ld bytes/send/unit %g\n", what, op, st, x.sends, x.colls, x.sends && vn ? (double)x.bytes / x.sends / (w * vn) : 0.);
    CHECK(c, x.sends <= (what == 0 ? 2 : op == 4 && what == 1 ? 2 : 0) * st && x.colls <= 1, "a %s among %d processes: process %d sends %ld messages and enters %ld collectives", WN[what], np, p, x.sends, x.colls);
    size_t u = what == 3 ? 8 : w * vn; CHECK(c, x.bytes <= 2 * u * x.sends && x.cbytes <= u, "a %s of %d values of %zu bytes: process %d sends %zu bytes in %ld messages and gives %zu to collectives", WN[what], vn, w, p, x.bytes, x.sends, x.cbytes); }
  c.desc("%s np=%d vn=%d", WN[what], np, vn); c.label("part:comm"); c.nontrivial(np > 1 && vn);
}
// ---- point search
static void n_fp(Case &c) {
  int d = c.range(2, 3); MeshOpt o; o.maxcells = 5; Mesh m = gen_mesh(c, d, o); Cfg g; static const int AP[] = {C_API, C_MS, F_API, F_MS}; g.api = AP[c.draw(4)]; bool ms = g.api == C_MS || g.api == F_MS; place(c, m, g, 10, c.chance(25)); g.match = 1; int np = g.np, st = stages(np), how = (int)c.draw(3); Call k = how == 0 ? gen_call(c, m, g, 0, {INSIDE}) : gen_call(c, m, g, 14, how == 1 ? std::vector<int>{INSIDE} : std::vector<int>{INSIDE, FACE, NEAR, BOX, FAR});
  if (how == 1) { k.of.assign(np, {}); for (size_t i = 0; i < k.pts.size(); ++i) { int p = g.owner[k.pts[i].el]; k.rank[i] = p; k.slot[i] = (int)k.of[p].size(); k.of[p].push_back((int)i); } }
  std::vector<Call> calls{k}; std::vector<Spent> sp(np), ev(np), ev2(np); std::vector<double> u((size_t)m.nel * m.N, 1.5); bool e2 = c.coin();
  c.run(np, g.sched, [&](int r) { Caller K(lib(c.variant, r), m, g, r); { Meter M(r); K.find(calls[0]); sp[r] = M.read(); } Eval e; e.set = 0; e.out.resize(k.pts.size()); e.touched.resize(e.out.size()); { Meter M(r); K.eval(calls, e, u); ev[r] = M.read(); } if (e2) { Meter M(r); K.eval(calls, e, u); ev2[r] = M.read(); } K.done(); });
  long inner = 0, outer = 0, remote = 0; for (size_t i = 0; i < k.pts.size(); ++i) { Found &f = calls[0].res[i]; bool home = f.code == 0 && (int)f.proc == k.rank[i]; (home && !ms ? inner : outer)++; remote += f.code != 2 && (int)f.proc != k.rank[i]; }
  size_t all = 0, eall = 0; for (int p = 0; p < np; ++p) { CHECK(c, sp[p].sends <= 6 * st && !sp[p].colls, "a search among %d processes: process %d sends %ld messages and enters %ld collectives", np, p, sp[p].sends, sp[p].colls); for (auto *x : {&ev[p], &ev2[p]}) CHECK(c, x->sends <= 4 * st && !x->colls, "an evaluation among %d processes: process %d sends %ld messages and enters %ld collectives", np, p, x->sends, x->colls); all += sp[p].bytes - 4 * (sp[p].sends / 2); eall = std::max(eall + ev[p].bytes - 4 * (ev[p].sends / 2), (size_t)0); }
  // what each point needs: its own journey, its copies to the processes that may hold it, and their answers
  size_t pt = 8 * d + 8 + 12, out = 8 * (d + 2) + 8 + 20, lim = st * outer * ((pt + 12) + (np - 1) * (pt + 12 + out + 12)), elim = (size_t)st * remote * ((8 * d + 24 + 12) + (8 + 16 + 12));
  if (probing() && np > 1) fprintf(probe(), "PROBE fp api %d outer %ld remote %ld all %zu/%zu eval %zu/%zu\n", g.api, outer, remote, all, lim, eall, elim);
  CHECK(c, all <= lim, "a search among %d processes for %ld points inside the caller's elements and %ld others moves %zu bytes, more than %zu", np, inner, outer, all, lim); CHECK(c, eall <= elim, "evaluating at %ld points of other processes moves %zu bytes, more than %zu", remote, eall, elim);
  c.desc("search %s %dd np=%d elements=%d points=%zu (%ld inner, %ld remote)", AN[g.api], d, np, m.nel, k.pts.size(), inner, remote); c.label("part:search"); c.nontrivial(np > 1);
}
static void N01(Case &c) { static void (*const F[])(Case &) = {n_gs, n_gs, n_gs, n_gs, n_rows, n_rows, n_comm, n_fp}; F[c.draw(8)](c); }
static RegProp r1({"N01", "a gather-scatter handle with 1-4 operations (blocking or not, C or Fortran, split communicators), a transfer of rows, a scan or reduction, or a point search with evaluations, 1-20 processes, every message and its bytes recorded; non-trivial: an id is on two processes, a row leaves its process, or there is more than one process", N01, 60000, 1500000, 20, {"asan-nbc", "fast-nbc", "asan-def"}});

// ---- memory of the search tables
struct Live { long b; };
static long live_of(Case &c, const std::function<void()> &make, const std::function<void()> &drop) { long a = heap_live().bytes; make(); long b = heap_live().bytes - a; drop(); (void)c; return b; }
static void N02(Case &c) {
  static bool on = false; if (!on) heap_track(true), on = true;
  int d = c.range(2, 3); MeshOpt o; o.maxcells = 8; if (c.chance(30)) o.maxcells = 300, o.axis = 20, o.maxn2 = 5, o.maxn3 = 3; Mesh m = gen_mesh(c, d, o); Lib &L = lib(c.variant, 0); unsigned n[3], mm[3]; for (int k = 0; k < 3; ++k) n[k] = m.n[k], mm[k] = 2 * m.n[k]; const double *ex[3] = {m.X[0].data(), m.X[1].data(), d > 2 ? m.X[2].data() : nullptr}; bool ms = c.coin(); std::vector<double> df((size_t)m.nel * m.N, 1); unsigned sid = 1; static const double tols[] = {0.01, 0.1, 1e-6, 0.3, 0}; double tol = tols[c.draw(5)];
  auto local = [&](unsigned H, unsigned np) { void *h = nullptr; return live_of(c, [&] { c.run(1, mpi::Sched(), [&](int) { h = L.sh_loc_new(d, ex, n, m.nel, mm, tol, H, np, EPSN, ms ? &sid : nullptr, ms ? df.data() : nullptr); }); }, [&] { c.run(1, mpi::Sched(), [&](int) { L.sh_loc_free(h); }); }); };
  unsigned H0 = m.nel + 2, H; switch (c.draw(5)) { case 0: H = H0; break; case 1: H = H0 + (unsigned)c.draw(12); break; case 2: H = m.nel * m.N + 2; break; case 3: H = H0 + (unsigned)c.draw(m.nel * 64 + 1); break; default: H = (unsigned)pow(2.0, c.real(0, 16)) + H0; }
  unsigned P = 1 + (unsigned)c.draw(c.chance(20) ? 2000 : 40), Q = P + 1 + (unsigned)c.draw(300);
  long base = local(H0, P), lh = local(H, P), lp = local(H, Q); c.desc("%dd %dx%dx%d elements=%d table limit %u points at once %u and %u: %ld, %ld, %ld bytes", d, m.n[0], m.n[1], m.n[2], m.nel, H, P, Q, base, lh, lp);
  CHECK(c, lh - base <= 4l * (H - H0), "local table limit %u integers, %ld bytes more than with the trivial table of %u", H, lh - base, H0);
  long most = (1 << d) * (m.nel + 1l) + 1; if (H >= most) CHECK(c, m.nel < 2 || lh > base, "with %u integers allowed (%d elements) the table still is the trivial one", H, m.nel);
  double per = (double)(lp - lh) / 8 / (Q - P); int nr = m.n[0], ns = m.n[1], nt = d > 2 ? m.n[2] : 0; double doc = 12 + 2 * (nr + ns + nt + nr * ns), thin = 15 + 9 * std::max(nr, std::max(ns, nt));
  CHECK(c, per <= std::max(doc, thin) + 40, "each further point to iterate on simultaneously takes %g doubles, documented as %g (%dd, %dx%dx%d)", per, doc, d, nr, ns, nt);   // not in the formula: a record of fixed size for the point itself, and the work on edges, which matters for elements with one high and two low orders
  if (probing()) fprintf(probe(), "PROBE npt_max d %d n %d %d %d per %g doc %g ratio %g ms %d\n", d, nr, ns, nt, per, doc, per / doc, ms);
  c.nontrivial(H > H0); c.label(strf("%dd", d)); c.label(H >= most ? "table:more-than-one-cell-allowed" : "table:tight");
}
static RegProp r2({"N02", "a mesh of 1-300 elements and table limits from the smallest one on, the live heap measured after set-up; non-trivial: the limit is above the smallest", N02, 30000, 600000, 1, {"asan-nbc", "fast-nbc"}});

// ---- the choice of a method, and what setup says about it
struct Captured { int fd, old; Captured() { fflush(stdout); fd = memfd_create("verif", 0); old = dup(1); dup2(fd, 1); }
  std::string end() { if (old < 0) return ""; fflush(stdout); dup2(old, 1); close(old); old = -1; std::string s; char b[4096]; lseek(fd, 0, SEEK_SET); for (ssize_t k; (k = read(fd, b, sizeof b)) > 0;) s.append(b, k); close(fd); return s; }
  ~Captured() { end(); } };
static int numbers(const std::string &text, const char *key, double v[3]) { size_t q = text.find(key); if (q == std::string::npos) return -1; if (text.find(key, q + 1) != std::string::npos) return -2; size_t e = text.find('\n', q), k = text.find(": ", q); if (k == std::string::npos || k > e) return 0; return std::max(0, sscanf(text.c_str() + k + 2, "%lf %lf %lf", v, v + 1, v + 2)); }
static bool same(const Spent &a, const Spent &b) { return a.sends == b.sends && a.colls == b.colls && a.bytes == b.bytes && a.cbytes == b.cbytes && a.to == b.to; }
static void A01(Case &c) {
  static const char *const MN[] = {"pairwise", "crystal router", "allreduce"}, *const LN[] = {"pairwise times", "crystal router  ", "all reduce  "};
  int np = pick_np(c, 12); std::string note; TopoOpt o; o.big = c.chance(15); Topo t = gen_topo(c, np, o, &note); bool huge = np > 1 && np < 5 && c.draw(60) == 59; if (huge) { int n = 99998 + (int)c.draw(4); for (auto &v : t.id) { v.clear(); } for (int i = 0; i < n; ++i) t.id[0].push_back(i + 1), t.id[np - 1].push_back(n - i); note = strf("%d ids on processes 0 and %d", n, np - 1); c.label("choice:around-100000-ids"); }
  int unique = c.chance(25), api = c.chance(30) ? 1 + (int)c.draw(2) : 0, verbose = api ? 1 : (int)c.draw(2), dup = c.coin(), only = c.chance(15) ? (int)c.draw(3) : -1; if (api) unique = 0; auto sc = c.sched(np); std::vector<double> *const COST[] = {&sc.t_msg, &sc.t_byte, &sc.t_coll, &sc.t_cbyte};
  static const double LV[] = {0, 1e-7, 1e-5, 1e-3, 0.25}; for (auto *v : COST) { double base = LV[c.draw(5)] * (v == &sc.t_byte || v == &sc.t_cbyte ? 0.01 : 1); bool even = c.coin(); for (int p = 0; p < np; ++p) v->push_back(even ? base : base * c.real(0, 2)); }
  std::vector<int> zero(np, 0); Groups g = analyse(t, zero); long shared = 0; for (auto &s : g.g) { bool two = false, un = false; for (auto &x : s) two |= x.p != s[0].p, un |= t.id[x.p][x.i] > 0; shared += two && un; }
  std::vector<Spent> sp[4]; for (auto &v : sp) v.resize(np); std::vector<size_t> cap(np); long h0 = 0, h1 = 0; static bool on = false; if (!on) heap_track(true), on = true; std::string text;
  { Captured cap_out; c.run(np, sc, [&](int r) { Lib &L = lib(c.variant, r); void *w = L.sh_comm_world(), *d = dup ? L.sh_comm_dup(w) : w; uint n = t.id[r].size(); Blk<double> u(n + 1); for (uint i = 0; i <= n; ++i) u[i] = 1;
      for (int m = 0; m < 3 && only < 0; ++m) { Blk<ll> id(n); for (uint i = 0; i < n; ++i) id[i] = t.id[r][i]; void *h = L.sh_gs_setup(id.p, n, d, unique, m, 0), *b = L.sh_buf_null(); Meter M(r); L.sh_gs(u.p, 0, 0, 0, h, b); sp[m][r] = M.read(); L.sh_buf_free(b); L.sh_gs_free(h); }
      L.sh_barrier(w); if (r == 0) { fflush(stdout); if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET); h0 = heap_live().bytes; } L.sh_barrier(w);
      Blk<ll> id(n); for (uint i = 0; i < n; ++i) id[i] = t.id[r][i]; int fh = -1, f = L.sh_comm_fint(d), nn = n, nps = np, mc = L.sh_method_code(only < 0 ? 3 : only); typedef const int *I; void *h = nullptr; if (!api) h = L.sh_gs_setup(id.p, n, d, unique, only < 0 ? 3 : only, verbose); else if (api == 1 && only < 0) L.f<void (*)(int *, ll *, I, I, I)>("fgslib_gs_setup_")(&fh, id.p, &nn, &f, &nps); else L.f<void (*)(int *, ll *, I, I, I, I)>("fgslib_gs_setup_pick_")(&fh, id.p, &nn, &f, &nps, &mc); if (api) h = L.sh_gs_hf2c(fh);
      L.sh_barrier(w); if (r == 0) h1 = heap_live().bytes; L.sh_barrier(w);
      void *b = L.sh_buf_null(); Meter M(r); L.sh_gs(u.p, 0, 0, 0, h, b); sp[3][r] = M.read(); cap[r] = L.sh_arr_max(b); L.sh_buf_free(b); if (api) L.f<void (*)(I)>("fgslib_gs_free_")(&fh); else L.sh_gs_free(h); if (dup) L.sh_comm_free(d); L.sh_comm_free(w); }); text = cap_out.end(); }
  c.desc("np=%d unique=%d %s verbose=%d; costs of process 0: message %g byte %g collective %g byte %g; %s", np, unique, api ? "fortran" : "C", verbose, sc.t_msg[0], sc.t_byte[0], sc.t_coll[0], sc.t_cbyte[0], note.c_str()); double v[3]; int k;
  // what was said in setup, the same whichever method
  k = numbers(text, "gs_setup", v); CHECK(c, k == (verbose ? 0 : -1) || (verbose && k == 1), "setup with verbose=%d: '%s'", verbose, text.c_str()); if (verbose) { long ns = -1; sscanf(text.c_str() + text.find("gs_setup"), "gs_setup: %ld", &ns); CHECK(c, ns == shared, "setup reports %ld shared ids, there are %ld", ns, shared); }
  for (int i = 0; i < 2; ++i) { k = numbers(text, i ? "buffer bytes" : "handle bytes", v); CHECK(c, k == (verbose ? 3 : -1), "setup with verbose=%d: '%s'", verbose, text.c_str()); if (!verbose) continue; CHECK(c, v[1] <= v[0] * (1 + 1e-5) && v[0] <= v[2] * (1 + 1e-5) && (np > 1 || v[1] == v[2]), "%s bytes: average %g, least %g, most %g", i ? "buffer" : "handle", v[0], v[1], v[2]);
    if (i) { size_t lo = cap[0], hi = cap[0]; for (size_t x : cap) lo = std::min(lo, x), hi = std::max(hi, x); CHECK(c, v[2] <= hi && hi <= 1.5 * v[2] + 64 && v[1] <= lo && lo <= 1.5 * v[1] + 64, "buffers take %zu to %zu bytes, reported as %g to %g", lo, hi, v[1], v[2]); }
    else { double live = h1 - h0, rep = v[0] * np; CHECK(c, fabs(live - rep) <= 2e-5 * rep + (api ? 256 : 64) * np, "the handles take %g bytes on all processes, reported as %g", live, rep); } }
  if (only >= 0) { for (const char *l : {"pairwise times", "crystal router", "all reduce", "all_to_all"}) CHECK(c, text.find(l) == std::string::npos, "setup with the %s method times others: '%s'", MN[only], text.c_str()); c.label("choice:given"); c.nontrivial(verbose); return; }
  if (np == 1) { c.label("choice:one-process"); return; }
  double T[3][3]; int tried = shared < 100000 ? 3 : 2; double best = 1e300; for (int m = 0; m < tried; ++m) { T[m][0] = 0, T[m][1] = 1e300, T[m][2] = 0; for (int p = 0; p < np; ++p) { const Spent &x = sp[m][p]; double q = x.sends * sc.t_msg[p] + x.bytes * sc.t_byte[p] + x.colls * sc.t_coll[p] + x.cbytes * sc.t_cbyte[p]; T[m][0] += q / np; T[m][1] = std::min(T[m][1], q); T[m][2] = std::max(T[m][2], q); } best = std::min(best, T[m][2]); }
  for (int m = 0; m < 3; ++m) { k = numbers(text, LN[m], v); CHECK(c, k == (m < tried ? 3 : -1), "%ld shared ids, setup about the %s method: '%s'", shared, MN[m], text.c_str()); if (m < tried) for (int i = 0; i < 3; ++i) CHECK(c, fabs(v[i] - T[m][i]) <= 2e-5 * T[m][i] + 1e-12, "setup reports %g %g %g as average, least and longest time of the %s method, which takes %g %g %g", v[0], v[1], v[2], MN[m], T[m][0], T[m][1], T[m][2]); }
  char name[40] = ""; size_t q = text.find("used all_to_all method: "); CHECK(c, q != std::string::npos, "setup does not say which method it uses: '%s'", text.c_str()); sscanf(text.c_str() + q + 24, "%39[^\n]", name); int ch = -1; for (int m = 0; m < 3; ++m) if (!strcmp(name, MN[m])) ch = m; CHECK(c, ch >= 0 && ch < tried, "setup says it uses '%s'", name);
  CHECK(c, T[ch][2] <= best * (1 + 1e-9) + 1e-13, "setup picks the %s method, which takes %g; the fastest takes %g", MN[ch], T[ch][2], best);
  for (int p = 0; p < np; ++p) if (!same(sp[3][p], sp[ch][p])) { std::string like; for (int m = 0; m < 3; ++m) if (same(sp[3][p], sp[m][p])) like += std::string(" ") + MN[m]; c.fail("setup says it uses the %s method; process %d sends %ld messages of %zu bytes and enters %ld collectives, like:%s", MN[ch], p, sp[3][p].sends, sp[3][p].bytes, sp[3][p].colls, like.c_str()); }
  c.label(std::string("choice:") + MN[ch]); c.nontrivial(shared > 0);
}
static RegProp r3({"A01", "an id layout, 1-20 processes, what a message, its bytes, a collective and its bytes take on each process, C or Fortran setup with or without reports, the automatic method (85%) or a given one; non-trivial: ids are shared and the method is chosen, or a given method is reported about", A01, 10000, 300000, 20, {"asan-nbc", "fast-nbc", "asan-def"}});
