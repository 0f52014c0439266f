// props: F01 F02 F03 F04 F05 F06
// variants: asan-def fast-def fast-nbc fast-blas
#include "fp.hpp"

// ---- what a search result has to satisfy
static std::string ptxt(const Mesh &m, const Pt &p) { return m.d == 2 ? strf("(%.17g,%.17g) [%s]", p.x[0], p.x[1], KN[p.kind]) : strf("(%.17g,%.17g,%.17g) [%s]", p.x[0], p.x[1], p.x[2], KN[p.kind]); }
static std::string ftxt(const Mesh &m, const Found &f) { return strf("code %u process %u element %u r=(%.12g,%.12g,%.12g) dist2 %.9g", f.code, f.proc, f.el, f.r[0], f.r[1], m.d > 2 ? f.r[2] : 0, f.d2); }
static int global_el(Case &c, const Mesh &m, const Cfg &g, const Pt &p, const Found &f) {
  CHECK(c, f.proc < (unsigned)g.np && f.el < g.mine[f.proc].size(), "point %s: names an element that does not exist: %s", ptxt(m, p).c_str(), ftxt(m, f).c_str());
  return g.mine[f.proc][f.el];
}
static void basic(Case &c, const Mesh &m, const Cfg &g, const Pt &p, const Found &f, int home) {
  CHECK(c, f.code <= 2, "point %s: code %u", ptxt(m, p).c_str(), f.code);
  if (f.code == 2) return; (void)home;
  int e = global_el(c, m, g, p, f); ld r[3], y[3], s = 0; bool edge = false; for (int k = 0; k < m.d; ++k) { r[k] = f.r[k]; CHECK(c, f.r[k] >= -1 && f.r[k] <= 1, "point %s: reference coordinate outside [-1,1]: %s", ptxt(m, p).c_str(), ftxt(m, f).c_str()); edge |= fabs(f.r[k]) >= 1; }
  m.eval(e, r, y); for (int k = 0; k < m.d; ++k) s += (p.x[k] - y[k]) * (p.x[k] - y[k]);
  ld er = 4e-14L * m.d * (m.cmax + fabsl(sqrtl(s))) + 4 * g.newt * m.h, tol = 2 * sqrtl(s) * er + er * er + 1e-12L * s;
  CHECK(c, fabsl(s - f.d2) <= tol, "point %s: %s, but the distance to the named position is %.12Lg", ptxt(m, p).c_str(), ftxt(m, f).c_str(), s);
  if (f.code == 0) CHECK(c, s <= (ld)m.pos_tol() * m.pos_tol(), "point %s: reported inside, but the named position is %.6Lg away: %s", ptxt(m, p).c_str(), sqrtl(s), ftxt(m, f).c_str());
  if (f.code == 1 && !edge) CHECK(c, s <= (ld)m.pos_tol() * m.pos_tol(), "point %s: reported on the border, but the named position is interior and %.6Lg away: %s", ptxt(m, p).c_str(), sqrtl(s), ftxt(m, f).c_str());
}
static void inside_ok(Case &c, const Mesh &m, const Cfg &g, const Pt &p, const Found &f) {
  CHECK(c, f.code != 2, "point %s lies in element %d (process %d) but is not found", ptxt(m, p).c_str(), p.el, g.owner[p.el]);
  CHECK(c, sqrt(f.d2) <= m.pos_tol(), "point %s lies in element %d (process %d), found only at distance %.6g: %s", ptxt(m, p).c_str(), p.el, g.owner[p.el], sqrt(f.d2), ftxt(m, f).c_str());
  if (p.kind == INSIDE) { int e = global_el(c, m, g, p, f); bool strict = true; for (int k = 0; k < m.d; ++k) strict &= fabsl(p.r[k]) < 0.99995L;
    CHECK(c, f.code == 0, "point %s lies inside element %d but is reported on a border: %s", ptxt(m, p).c_str(), p.el, ftxt(m, f).c_str());
    if (strict) { CHECK(c, e == p.el, "point %s lies in element %d, found in element %d: %s", ptxt(m, p).c_str(), p.el, e, ftxt(m, f).c_str());
      for (int k = 0; k < m.d; ++k) CHECK(c, fabsl(f.r[k] - p.r[k]) <= 1e-6L, "point %s: reference coordinate %d is %.12Lg, found %.12g", ptxt(m, p).c_str(), k, p.r[k], f.r[k]); } }
}
static void outside_ok(Case &c, const Mesh &m, const Cfg &g, const Pt &p, const Found &f, const Boxes &B, const std::vector<int> *els = nullptr) {
  std::vector<int> cand; bool clear = true; for (int e = 0; e < m.nel; ++e) { if (els && !(*els)[e]) continue; double mg = B.margin(e, p.x); if (B.in(e, p.x)) cand.push_back(e); if (mg > -1e-9) clear = false; }
  if (!cand.empty()) CHECK(c, f.code != 2, "point %s lies in the bounding box of element %d (process %d) but is not found", ptxt(m, p).c_str(), cand[0], g.owner[cand[0]]);
  if (clear) CHECK(c, f.code == 2, "point %s lies outside every bounding box but is reported as found: %s", ptxt(m, p).c_str(), ftxt(m, f).c_str());
  if (f.code != 1) return;
  ld dist = sqrtl(f.d2); int R = m.d == 2 ? 8 : 4;
  for (int e : cand) { int tot = 1; for (int k = 0; k < m.d; ++k) tot *= R + 1; for (int i = 0; i < tot; ++i) { ld r[3], y[3], s = 0; int t = i; bool bd = false; for (int k = 0; k < m.d; ++k) { int q = t % (R + 1); t /= R + 1; r[k] = -1 + 2.0L * q / R; bd |= q == 0 || q == R; } if (!bd) continue;
    m.eval(e, r, y); for (int k = 0; k < m.d; ++k) s += (p.x[k] - y[k]) * (p.x[k] - y[k]); s = sqrtl(s);
    ld slack = m.pos_tol() + (m.affine ? 1e-7L * m.h : 1e-7L * m.h);
    CHECK(c, dist <= s + slack, "point %s: found at distance %.9Lg (%s), but element %d has a point at distance %.9Lg, r=(%.3Lg,%.3Lg,%.3Lg)", ptxt(m, p).c_str(), dist, ftxt(m, f).c_str(), e, s, r[0], r[1], m.d > 2 ? r[2] : 0); } }
}
// the search starts at the nearest mesh node and only ever gets closer
static void node_ok(Case &c, const Mesh &m, const Pt &p, const Found &f, const Boxes &B) {
  if (f.code == 2) return; ld dist = sqrtl(f.d2);
  for (int e = 0; e < m.nel; ++e) { if (!B.in(e, p.x)) continue; ld lo = INFINITY; int at = 0; for (int i = 0; i < m.N; ++i) { ld s = 0; for (int k = 0; k < m.d; ++k) { ld w = p.x[k] - m.X[k][(size_t)e * m.N + i]; s += w * w; } if (s < lo) lo = s, at = i; }
    CHECK(c, dist <= sqrtl(lo) * (1 + 1e-12L) + m.pos_tol(), "point %s: found at distance %.9Lg (%s), but node %d of element %d is at distance %.9Lg", ptxt(m, p).c_str(), dist, ftxt(m, f).c_str(), at, e, sqrtl(lo)); }
}
// how far the answer is from being the nearest position of its element, to first order:
// the largest slope of the distance along a direction the element allows, relative to the stretch of that direction
static ld slope(const Mesh &m, int e, const Pt &p, const Found &f) {
  ld r[3], y[3], J[3][3], s = 0, worst = 0; for (int a = 0; a < m.d; ++a) r[a] = f.r[a];
  m.eval(e, r, y, J); for (int a = 0; a < m.d; ++a) s += (p.x[a] - y[a]) * (p.x[a] - y[a]); s = sqrtl(s); if (s == 0) return 0;
  for (int b = 0; b < m.d; ++b) { ld g = 0, t = 0; for (int a = 0; a < m.d; ++a) g += (p.x[a] - y[a]) / s * J[a][b], t += J[a][b] * J[a][b]; t = sqrtl(t); if (t == 0) continue; g /= t;   // moving along +b shrinks the distance at rate g
    ld v = fabsl(r[b]) < 1 ? fabsl(g) : r[b] > 0 ? -g : g; worst = std::max(worst, v); }
  return worst;
}
static void describe(Case &c, const Mesh &m, const Cfg &g) { c.desc("d=%d orders=%d,%d,%d elements=%d warp=%.3g scale=%g np=%d api=%s box tolerance=%g", m.d, m.n[0], m.n[1], m.n[2], m.nel, m.amp, m.h, g.np, AN[g.api], g.tol); c.label(strf("%dd", m.d)); c.label(std::string("api:") + AN[g.api]); c.label(strf("np:%d", g.np)); c.label(m.affine ? "affine" : "curved"); }

// ---- F02: points inside the mesh
static void F02(Case &c) {
  int d = c.range(2, 3); MeshOpt o; o.maxcells = d == 2 ? 8 : 6; Mesh m = gen_mesh(c, d, o); Cfg g; g.api = (int)c.draw(2) ? (int)c.draw(N_API) : C_API; place(c, m, g, 6, c.chance(20)); int nc = c.range(1, 2); std::vector<Call> calls;
  for (int i = 0; i < nc; ++i) calls.push_back(gen_call(c, m, g, c.chance(10) ? 60 : 16, {INSIDE, INSIDE, FACE, NODE, FACE}));
  describe(c, m, g); bool nt = false; for (auto &k : calls) for (size_t i = 0; i < k.pts.size(); ++i) nt |= g.np == 1 || g.owner[k.pts[i].el] != k.rank[i]; c.nontrivial(nt && m.nel > 1);
  c.run(g.np, g.sched, [&](int r) { Caller K(lib(c.variant, r), m, g, r); for (auto &k : calls) K.find(k); K.done(); });
  for (auto &k : calls) for (size_t i = 0; i < k.pts.size(); ++i) { basic(c, m, g, k.pts[i], k.res[i], k.rank[i]); inside_ok(c, m, g, k.pts[i], k.res[i]); c.label(std::string("point:") + KN[k.pts[i].kind]); }
}
// elements of any shape, overlapping at random
static Mesh gen_wild(Case &c, int d, int maxel) {
  Mesh m; m.d = d; bool samen = c.coin(); for (int k = 0; k < d; ++k) m.n[k] = k && samen ? m.n[0] : c.range(2, d == 2 ? 7 : 5); m.N = npts(d, m.n); m.nel = c.range(1, maxel); m.amp = 9; m.affine = false; double sc = c.chance(20) ? pow(10.0, c.range(0, 6) - 3) : 1; m.h = sc; m.hmin = sc; m.cmax = 0;
  for (int k = 0; k < d; ++k) m.X[k].resize((size_t)m.nel * m.N);
  for (int e = 0; e < m.nel; ++e) {
    double ctr[3], A[3][3], amp = c.coin() ? c.real(0, 0.15) : c.chance(20) ? c.real(0, 1) : c.real(0, 0.4); int flat = c.chance(5) ? c.range(0, d - 1) : -1; bool dup = e && c.chance(10);
    for (int a = 0; a < d; ++a) { ctr[a] = c.real(-1.5, 1.5); for (int b = 0; b < d; ++b) A[a][b] = (a == b) + c.real(-0.5, 0.5); if (a == flat) for (int b = 0; b < d; ++b) A[a][b] *= 1e-3; }
    { double D = d == 2 ? A[0][0] * A[1][1] - A[0][1] * A[1][0] : A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]); if (fabs(D) < 1e-9) for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) A[a][b] = a == b; }   // not an element at all
    uint64_t seed = c.bits();
    for (int i = 0; i < m.N; ++i) { int id[3] = {i % m.n[0], i / m.n[0] % m.n[1], i / (m.n[0] * m.n[1])}; for (int a = 0; a < d; ++a) { double v = ctr[a]; for (int b = 0; b < d; ++b) v += A[a][b] * (double)gll(m.n[b])[id[b]]; v += amp * ((double)(hash64(seed, i, a) >> 11) / (double)(1ull << 52) - 1); v *= sc; if (dup) v = m.X[a][i]; m.X[a][(size_t)e * m.N + i] = v; m.cmax = std::max(m.cmax, fabs(v)); } }
  }
  return m;
}
// one element with every corner moved at random: edges twisted against one another, but nowhere folded
static Mesh gen_twist(Case &c, int d) {
  Mesh m; m.d = d; for (int k = 0; k < d; ++k) m.n[k] = c.range(2, 4); m.N = npts(d, m.n); m.nel = 1; m.affine = false; m.h = m.hmin = 1; double v[8][3], amp = c.real(0.1, 0.9), bow = c.coin() ? c.real(0, 0.3) : 0; uint64_t seed = c.bits();
  for (int i = 0; i < 1 << d; ++i) for (int a = 0; a < d; ++a) v[i][a] = (i >> a & 1 ? 1 : -1) + amp * c.real(-1, 1);
  for (int a = 0; a < d; ++a) m.X[a].resize(m.N);
  for (;; amp *= 0.7, bow *= 0.7) { m.cmax = 0; for (int i = 0; i < m.N; ++i) { int id[3] = {i % m.n[0], i / m.n[0] % m.n[1], i / (m.n[0] * m.n[1])}; for (int a = 0; a < d; ++a) { ld x = 0; for (int q = 0; q < 1 << d; ++q) { ld f = 1; for (int b = 0; b < d; ++b) f *= (1 + (q >> b & 1 ? 1 : -1) * gll(m.n[b])[id[b]]) / 2; x += f * v[q][a]; } x += bow * ((double)(hash64(seed, i, a) >> 11) / (double)(1ull << 52) - 1); m.X[a][i] = (double)x; m.cmax = std::max(m.cmax, fabs((double)x)); } }
    if (m.orderly()) break; for (int i = 0; i < 1 << d; ++i) for (int a = 0; a < d; ++a) { double z = i >> a & 1 ? 1 : -1; v[i][a] = z + 0.7 * (v[i][a] - z); } }
  m.amp = amp; return m; }
// ---- F03: points around and outside the mesh
static void F03(Case &c) {
  int d = c.range(2, 3); MeshOpt o; o.maxcells = d == 2 ? 8 : 6; o.maxamp = 0.08; bool bent = c.chance(30);   // strongly curved: only that the answer is a local optimum
  if (bent) o.maxamp = 0.5, o.maxcells = 2, o.valid = true, o.bend = 60; bool twist = bent && c.chance(40); Mesh m = twist ? gen_twist(c, d) : gen_mesh(c, d, o); if (twist) c.label("twisted"); Cfg g; g.api = (int)c.draw(2) ? (int)c.draw(N_API) : C_API; place(c, m, g, bent ? 2 : 6, c.chance(20)); if (bent) g.tol = c.coin() ? 0.3 : c.real(0, 2), c.label("bent"); else if (c.chance(15)) g.tol = 0; int nc = c.range(1, 2); std::vector<Call> calls; Boxes B = boxes(c, m, g.tol);
  for (int i = 0; i < nc; ++i) calls.push_back(gen_call(c, m, g, c.chance(10) ? 40 : 10, twist ? std::vector<int>{BOX, CORNER, CORNER, CORNER, HOLLOW, INSIDE} : bent ? std::vector<int>{HOLLOW, HOLLOW, HOLLOW, NEAR, BOX, CORNER} : std::vector<int>{NEAR, NEAR, BOX, BOX, FAR, INSIDE, CORNER})); for (auto &k : calls) for (auto &p : k.pts) if (c.chance(15)) snap(c, m, B, p);
  describe(c, m, g); bool nt = false;
  c.run(g.np, g.sched, [&](int r) { Caller K(lib(c.variant, r), m, g, r); for (auto &k : calls) K.find(k); K.done(); });
  for (auto &k : calls) for (size_t i = 0; i < k.pts.size(); ++i) { basic(c, m, g, k.pts[i], k.res[i], k.rank[i]); node_ok(c, m, k.pts[i], k.res[i], B); if (!bent) outside_ok(c, m, g, k.pts[i], k.res[i], B); if (k.res[i].code == 1) { ld v = slope(m, global_el(c, m, g, k.pts[i], k.res[i]), k.pts[i], k.res[i]), s = sqrtl(k.res[i].d2), al = 1e-6L * (m.h + s) + 10 * m.pos_tol();
      CHECK(c, v * s <= al, "point %s: %s, but the distance still falls at rate %.3Lg along the element there", ptxt(m, k.pts[i]).c_str(), ftxt(m, k.res[i]).c_str(), v); }
    if (k.pts[i].kind == INSIDE && !bent) inside_ok(c, m, g, k.pts[i], k.res[i]); static const char *const W[] = {"code:inside", "code:border", "code:not found"}; c.label(W[k.res[i].code]); nt |= k.res[i].code == 1; }
  c.nontrivial(nt);
}

// ---- the search in one element on its own
struct One { unsigned code = 2; double r[3] = {0, 0, 0}, d2 = 0; };
static std::vector<std::vector<One>> alone(Case &c, const Mesh &m, const Cfg &g, const std::vector<Pt> &pts) {
  Lib &L = lib(c.variant, 0); int d = m.d, n = (int)pts.size(); unsigned nn[3], mm[3]; for (int k = 0; k < 3; ++k) nn[k] = m.n[k], mm[k] = g.mf[k] * m.n[k]; std::vector<std::vector<One>> R(m.nel, std::vector<One>(n));
  std::vector<double> x[3]; for (int k = 0; k < 3; ++k) for (auto &p : pts) x[k].push_back(p.x[k]); if (!n) return R; unsigned xs[3] = {8, 8, 8}; const double *xb[3] = {x[0].data(), x[1].data(), x[2].data()};
  for (int e = 0; e < m.nel; ++e) { const double *ex[3] = {m.X[0].data() + (size_t)e * m.N, m.X[1].data() + (size_t)e * m.N, d > 2 ? m.X[2].data() + (size_t)e * m.N : nullptr}; void *h = L.sh_loc_new(d, ex, nn, 1, mm, g.tol, 3, 1, g.newt, nullptr, nullptr);
    std::vector<unsigned> co(n), el(n); std::vector<double> r((size_t)n * d), d2(n); L.sh_loc_find(h, co.data(), 4, el.data(), 4, r.data(), d * 8, d2.data(), 8, xb, xs, n);
    for (int i = 0; i < n; ++i) { One &o = R[e][i]; o.code = co[i]; if (co[i] != 2) { o.d2 = d2[i]; for (int k = 0; k < d; ++k) o.r[k] = r[(size_t)i * d + k]; } } L.sh_loc_free(h); }
  return R;
}
static double nearest_node(const Mesh &m, int e, const double *x) { double b = 1e300; for (int i = 0; i < m.N; ++i) { double s = 0; for (int k = 0; k < m.d; ++k) { double t = m.X[k][(size_t)e * m.N + i] - x[k]; s += t * t; } b = std::min(b, s); } return b; }

// whether some position of the element is as near as the squared distance claims: descents from the answer and from every mesh node
static bool reachable(const Mesh &m, int e, const Pt &p, const Found &f, ld goal) {
  int d = m.d; auto val = [&](const ld *r, ld *g) { ld y[3], J[3][3], s = 0; m.eval(e, r, y, g ? J : nullptr); for (int a = 0; a < d; ++a) { ld w = y[a] - p.x[a]; s += w * w; } if (g) for (int b = 0; b < d; ++b) { g[b] = 0; for (int a = 0; a < d; ++a) g[b] += 2 * (y[a] - p.x[a]) * J[a][b]; } return s; };
  for (int st = -1; st < m.N; ++st) { ld r[3]; for (int k = 0; k < d; ++k) { int id = k == 0 ? st % m.n[0] : k == 1 ? st / m.n[0] % m.n[1] : st / (m.n[0] * m.n[1]); r[k] = st < 0 ? (ld)f.r[k] : gll(m.n[k])[id]; }
    ld g[3], v = val(r, g), t = 1; if (v <= goal) return true;
    for (int it = 0; it < 200; ++it) { ld gn = 0; for (int k = 0; k < d; ++k) gn = std::max(gn, fabsl(g[k])); if (gn == 0) break; bool moved = false;
      for (t = std::min(t * 4, 1.0L); t > 1e-9L; t /= 2) { ld q[3]; for (int k = 0; k < d; ++k) q[k] = std::max(-1.0L, std::min(1.0L, r[k] - t * g[k] / gn)); ld u = val(q, nullptr); if (u < v) { ld dv = v - u; v = u; for (int k = 0; k < d; ++k) r[k] = q[k]; moved = dv > 1e-10L * v; break; } }
      if (v <= goal) return true; if (!moved) break; val(r, g); } }
  return false;
}
// ---- F01: elements of any shape
static void F01(Case &c) {
  int d = c.range(2, 3); Mesh m = gen_wild(c, d, 4); Cfg g; g.api = LOCAL; place(c, m, g, 1, false); if (c.chance(15)) g.tol = 0; Boxes B = boxes(c, m, g.tol); Call k = gen_call(c, m, g, 24, {INSIDE, FACE, NODE, NEAR, BOX, BOX, FAR, HOLLOW, CORNER}); for (auto &p : k.pts) if (c.chance(15)) snap(c, m, B, p); describe(c, m, g);
  c.run(1, g.sched, [&](int r) { Caller K(lib(c.variant, r), m, g, r); K.find(k); K.done(); });
  bool nt = false;
  for (size_t i = 0; i < k.pts.size(); ++i) { const Pt &p = k.pts[i]; const Found &f = k.res[i]; CHECK(c, f.code <= 2, "point %s: code %u", ptxt(m, p).c_str(), f.code);
    bool in = false, clear = true; double best = 1e300; for (int e = 0; e < m.nel; ++e) { double mg = B.margin(e, p.x); if (B.in(e, p.x)) in = true, best = std::min(best, nearest_node(m, e, p.x)); if (mg > -1e-9) clear = false; }
    if (in) CHECK(c, f.code != 2, "point %s lies in an element's bounding box but is not found", ptxt(m, p).c_str()); if (clear) CHECK(c, f.code == 2, "point %s lies outside every bounding box: %s", ptxt(m, p).c_str(), ftxt(m, f).c_str());
    static const char *const W[] = {"code:inside", "code:border", "code:not found"}; c.label(W[f.code]); if (f.code == 2) continue; nt = true;
    int e = global_el(c, m, g, p, f); ld r[3], y[3], s = 0, J[3][3]; for (int a = 0; a < d; ++a) { CHECK(c, f.r[a] >= -1 && f.r[a] <= 1, "point %s: reference coordinate outside [-1,1]: %s", ptxt(m, p).c_str(), ftxt(m, f).c_str()); r[a] = f.r[a]; }
    m.eval(e, r, y, J); ld jm = 0; for (int a = 0; a < d; ++a) { s += (p.x[a] - y[a]) * (p.x[a] - y[a]); for (int b = 0; b < d; ++b) jm = std::max(jm, fabsl(J[a][b])); }
    // the distance belongs to the position before the last, negligible, step
    ld er = 1e-13L * (m.cmax + m.h) * m.N + 16 * g.newt * (jm + m.h), tol = 2 * sqrtl(s) * er + er * er + 1e-12L * s; bool consistent = fabsl(s - f.d2) <= tol;
    if (f.code == 0) CHECK(c, consistent, "point %s: %s, but the distance to the named position is %.12Lg", ptxt(m, p).c_str(), ftxt(m, f).c_str(), s);
    if (!consistent) { c.label("search gave up"); CHECK(c, f.d2 <= nearest_node(m, e, p.x) * (1 + 1e-9), "point %s: %s, the distance to the named position is %.12Lg", ptxt(m, p).c_str(), ftxt(m, f).c_str(), s); CHECK(c, s <= f.d2 || reachable(m, e, p, f, (ld)f.d2 * (1 + 1e-3L) + er * er), "point %s: %s, but no position of the element is that near; the named one is at distance %.12Lg", ptxt(m, p).c_str(), ftxt(m, f).c_str(), s); }
    double nn = f.code == 1 ? best : nearest_node(m, e, p.x); CHECK(c, f.d2 <= nn * (1 + 1e-9) + (double)er * (double)er, "point %s: %s, but a mesh node is nearer: %.9g", ptxt(m, p).c_str(), ftxt(m, f).c_str(), nn); }
  c.nontrivial(nt);
}

// ---- F04: interpolation at found and at given points
static void F04(Case &c) {
  int d = c.range(2, 3); MeshOpt o; o.maxcells = 6; Mesh m = c.chance(20) ? gen_wild(c, d, 4) : gen_mesh(c, d, o); Cfg g; g.api = (int)c.draw(2) ? (int)c.draw(N_API) : C_API; place(c, m, g, 6, c.chance(25)); describe(c, m, g);
  std::vector<double> df((size_t)m.nel * m.N); for (auto &v : df) v = 1; g.distf = &df;
  int nset = c.range(1, 3); std::vector<Call> calls; std::vector<char> made;   // made: positions the caller made up
  for (int i = 0; i < nset; ++i) { Call k = gen_call(c, m, g, c.chance(10) ? 60 : 14, {INSIDE, INSIDE, FACE, NODE, NEAR, BOX, FAR});
    if (i && c.chance(40)) { const Call &z = calls[c.draw(i)]; k = z; for (auto &p : k.pts) p = gen_pt(c, m, INSIDE); for (auto &f : k.res) f = Found(); k.s = gen_strides(c, d); }   // as many points on each process as before
    bool mk = c.chance(40); made.push_back(mk);
    if (mk) for (auto &f : k.res) { int e = c.range(0, m.nel - 1); f.code = c.chance(15) ? 2 : c.range(0, 1); f.proc = g.owner[e]; f.el = g.lidx[e]; for (int a = 0; a < d; ++a) f.r[a] = c.chance(15) ? c.range(-1, 1) : c.real(-1, 1); }
    calls.push_back(k); }
  int nfield = c.range(1, 3); std::vector<std::vector<double>> u; for (int f = 0; f < nfield; ++f) { uint64_t seed = c.bits(); double sc = c.chance(20) ? pow(10.0, c.range(0, 12) - 6) : 1; bool lin = c.chance(20); std::vector<double> v((size_t)m.nel * m.N); for (size_t i = 0; i < v.size(); ++i) v[i] = lin ? m.X[f % d][i] : sc * ((double)(hash64(seed, i) >> 11) / (double)(1ull << 52) - 1); u.push_back(v); }
  // a history: searches in order, and evaluations of any set known by then
  struct Op { bool find; int set; int ev; }; std::vector<Op> ops; std::vector<Eval> evs; std::vector<int> serves; int cached = -1, next = 0; auto ready = [&](int s) { return s < next; };
  auto same = [&](int a, int b) { for (int r = 0; r < g.np; ++r) if (calls[a].of[r].size() != calls[b].of[r].size()) return false; return true; };
  int nops = c.range(2, 9); for (int i = 0; i < nops || next == 0; ++i) { bool f = next == 0 || (next < nset && c.chance(35));
    if (f) { bool srch = !made[next]; ops.push_back({true, next, -1}); if (srch) cached = -1; ++next; continue; }
    int s = (int)c.draw(next); (void)ready;
    if (g.api != LOCAL && cached >= 0 && cached != s && !same(cached, s)) s = cached;   // (a different number of points would make the library write where it must not)
    Eval ev; ev.set = s; ev.field = (int)c.draw(nfield); ev.copy = c.chance(30); ev.out.resize(calls[s].pts.size()); ev.touched.resize(calls[s].pts.size()); if (cached < 0) cached = s; serves.push_back(g.api == LOCAL ? s : cached); ops.push_back({false, s, (int)evs.size()}); evs.push_back(ev); }
  // local evaluation through the Fortran interface
  int lq = g.api == F_API || g.api == F_MS ? c.range(0, 9) : -1, lf = (int)c.draw(nfield), ls[3] = {c.range(1, 3), c.range(1, 3), c.range(d, d + 2)}; std::vector<std::vector<std::pair<int, std::array<double, 3>>>> q(g.np); std::vector<std::vector<double>> lres(g.np);
  for (int r = 0; r < g.np; ++r) if (!g.mine[r].empty()) for (int i = 0; i < lq; ++i) { std::array<double, 3> R{}; for (int a = 0; a < d; ++a) R[a] = c.chance(15) ? c.range(-1, 1) : c.real(-1, 1); q[r].push_back({(int)c.draw(g.mine[r].size()), R}); }
  c.run(g.np, g.sched, [&](int r) { Caller K(lib(c.variant, r), m, g, r);
    for (auto &op : ops) { if (op.find) { if (made[op.set]) K.synth(calls[op.set]); else K.find(calls[op.set]); } else K.eval(calls, evs[op.ev], u[evs[op.ev].field]); }
    if (lq >= 0) { Blk<double> in((size_t)K.nel * m.N); for (int i = 0; i < K.nel; ++i) memcpy(in.p + (size_t)i * m.N, u[lf].data() + (size_t)g.mine[r][i] * m.N, m.N * sizeof(double)); K.eval_local(q[r], ls[0], ls[1], ls[2], in, lres[r]); }
    K.done(); });
  bool nt = false; auto value = [&](int e, const double *R, int f, ld &tol) { ld r[3]; for (int a = 0; a < d; ++a) r[a] = R[a]; double mx = 0; for (int i = 0; i < m.N; ++i) mx = std::max(mx, fabs(u[f][(size_t)e * m.N + i])); tol = 4e-13L * mx * d; return field_at(d, m.n, u[f].data() + (size_t)e * m.N, r); };
  for (size_t x = 0; x < evs.size(); ++x) { Eval &ev = evs[x]; Call &k = calls[ev.set], &z = calls[serves[x]]; c.label(made[ev.set] ? "set:given" : "set:found");
    for (int r = 0; r < g.np; ++r) for (size_t i = 0; i < k.of[r].size(); ++i) { int id = k.of[r][i]; const Found &f = k.res[id]; std::string bad;
      auto test = [&](const Found &w) -> std::string { if (w.code == 2) { if (g.api == LOCAL) return ""; return ev.touched[id] ? strf("point %d of process %d was not found, yet its output was set to %.12g", (int)i, r, ev.out[id]) : ""; }
        int e = global_el(c, m, g, k.pts[id], w); ld tol; ld v = value(e, w.r, ev.field, tol); if (ev.touched[id] && fabsl(v - ev.out[id]) <= tol) return ""; return strf("point %d of process %d (%s) in evaluation %d: the field there is %.15Lg, got %.15g%s", (int)i, r, ftxt(m, w).c_str(), (int)x, v, ev.out[id], ev.touched[id] ? "" : " (not set)"); };
      bad = test(f); if (bad.empty()) { nt |= f.code != 2 && m.nel > 1; continue; }
      if (serves[x] != ev.set && test(z.res[z.of[r][i]]).empty()) { c.known("K2"); continue; }
      c.fail("%s", bad.c_str()); } }
  if (lq >= 0) for (int r = 0; r < g.np; ++r) for (size_t i = 0; i < q[r].size(); ++i) { int e = g.mine[r][q[r][i].first]; ld tol; ld v = value(e, q[r][i].second.data(), lf, tol); CHECK(c, fabsl(v - lres[r][i]) <= tol, "local evaluation %d on process %d (element %d): the field there is %.15Lg, got %.15g", (int)i, r, e, v, lres[r][i]); c.label("local evaluation"); }
  c.nontrivial(nt);
}

// the outcome of the whole search against the search in each element alone
static void merged_ok(Case &c, const Mesh &m, const Cfg &g, const std::vector<std::vector<One>> &A, const Call &k, size_t i, const std::vector<char> *ok = nullptr) {
  const Pt &p = k.pts[i]; const Found &f = k.res[i]; CHECK(c, f.code <= 2, "point %s: code %u", ptxt(m, p).c_str(), f.code); unsigned best = 2; double d2 = 1e300; int be = -1;
  for (int e = 0; e < m.nel; ++e) { if (ok && !(*ok)[e]) continue; const One &o = A[e][i]; if (o.code == 2) continue; if (o.code == 0 && best != 0) best = 0, d2 = o.d2, be = e; else if (o.code == 1 && best == 2) best = 1, d2 = o.d2, be = e; else if (o.code == best && o.d2 < d2) d2 = o.d2, be = e; }
  CHECK(c, f.code == best, "point %s: the elements one by one give code %u (element %d, dist2 %.9g), the search gives %s", ptxt(m, p).c_str(), best, be, be < 0 ? 0 : d2, ftxt(m, f).c_str());
  if (best == 2) return;
  int e = global_el(c, m, g, p, f); const One &o = A[e][i]; CHECK(c, !ok || (*ok)[e], "point %s: found in an element of an excluded session: %s", ptxt(m, p).c_str(), ftxt(m, f).c_str());
  CHECK(c, o.code == f.code && fabs(o.d2 - f.d2) <= 1e-9 * o.d2 + 1e-28 * m.cmax * m.cmax, "point %s: in element %d alone code %u dist2 %.12g, the search says %s", ptxt(m, p).c_str(), e, o.code, o.d2, ftxt(m, f).c_str());
  for (int a = 0; a < m.d; ++a) CHECK(c, fabs(o.r[a] - f.r[a]) <= 1e-9, "point %s: in element %d alone r%d=%.15g, the search says %s", ptxt(m, p).c_str(), e, a, o.r[a], ftxt(m, f).c_str());
  if (best == 1) CHECK(c, f.d2 <= d2 * (1 + 1e-9) + 1e-28 * m.cmax * m.cmax, "point %s: element %d is nearer (dist2 %.12g): %s", ptxt(m, p).c_str(), be, d2, ftxt(m, f).c_str());
}
// ---- F05: the distributed search is the search in every element
static void F05(Case &c) {
  int d = c.range(2, 3); MeshOpt o; o.maxcells = d == 2 ? 9 : 8; Mesh m = c.coin() ? gen_wild(c, d, 8) : gen_mesh(c, d, o); Cfg g; g.api = (int)c.draw(2) ? (int)c.draw(N_API) : C_API; place(c, m, g, 8, c.chance(25)); int nc = c.range(1, 3); std::vector<Call> calls;
  for (int i = 0; i < nc; ++i) calls.push_back(gen_call(c, m, g, c.chance(10) ? 60 : 14, {INSIDE, INSIDE, FACE, NODE, NEAR, BOX, BOX, FAR}));
  describe(c, m, g); bool nt = false; for (auto &k : calls) for (size_t i = 0; i < k.pts.size(); ++i) nt |= g.np > 1 && g.owner[k.pts[i].el] != k.rank[i];
  c.run(g.np, g.sched, [&](int r) { Caller K(lib(c.variant, r), m, g, r); for (auto &k : calls) K.find(k); K.done(); });
  for (auto &k : calls) { auto A = alone(c, m, g, k.pts); for (size_t i = 0; i < k.pts.size(); ++i) { merged_ok(c, m, g, A, k, i); static const char *const W[] = {"code:inside", "code:border", "code:not found"}; c.label(W[k.res[i].code]); } }
  c.nontrivial(nt && m.nel > 1);
}
// ---- F06: several sessions
static void F06(Case &c) {
  int d = c.range(2, 3); MeshOpt o; o.maxcells = d == 2 ? 8 : 6; Mesh m = c.chance(70) ? gen_wild(c, d, 8) : gen_mesh(c, d, o); Cfg g; g.api = c.coin() ? F_MS : C_MS; place(c, m, g, 6, c.chance(25)); int ns = c.range(1, 3); for (int r = 0; r < g.np; ++r) g.sess[r] = (unsigned)c.draw(ns) + (c.chance(5) ? 7 : 0); g.match = (unsigned)c.draw(2);
  std::vector<double> df((size_t)m.nel * m.N); uint64_t seed = c.bits(); bool flat = c.chance(15); for (size_t i = 0; i < df.size(); ++i) df[i] = flat ? 1 : (double)(hash64(seed, i) >> 11) / (double)(1ull << 52) - 1; g.distf = &df;
  int nc = c.range(1, 2); std::vector<Call> calls; for (int i = 0; i < nc; ++i) { Call k = gen_call(c, m, g, c.chance(10) ? 40 : 12, {INSIDE, INSIDE, FACE, NEAR, BOX, BOX, FAR}); std::vector<unsigned> per(g.np); for (auto &v : per) v = (unsigned)c.draw(ns + 1); for (size_t j = 0; j < k.pts.size(); ++j) k.sid[j] = k.s.sid == 0 ? per[k.rank[j]] : c.chance(70) ? g.sess[k.rank[j]] : (unsigned)c.draw(ns + 1); calls.push_back(k); }
  describe(c, m, g); c.label(g.match ? "match:same session" : "match:other sessions"); bool nt = false;
  c.run(g.np, g.sched, [&](int r) { Caller K(lib(c.variant, r), m, g, r); for (auto &k : calls) K.find(k); K.done(); });
  for (auto &k : calls) { auto A = alone(c, m, g, k.pts);
    for (size_t i = 0; i < k.pts.size(); ++i) { const Pt &p = k.pts[i]; const Found &f = k.res[i]; std::map<unsigned, std::vector<char>> by; for (int e = 0; e < m.nel; ++e) { unsigned s = g.sess[g.owner[e]]; if (A[e][i].code == 2 || (g.match ? s != k.sid[i] : s == k.sid[i])) continue; auto &v = by[s]; v.resize(m.nel); v[e] = 1; }
      if (by.empty()) { CHECK(c, f.code == 2, "point %s of session %u: no eligible element's box holds it, the search says %s", ptxt(m, p).c_str(), k.sid[i], ftxt(m, f).c_str()); c.label("code:not found"); continue; }
      CHECK(c, f.code != 2, "point %s of session %u is not found though an element of session %u has it in its box", ptxt(m, p).c_str(), k.sid[i], by.begin()->first);
      int e = global_el(c, m, g, p, f); unsigned s = g.sess[g.owner[e]]; CHECK(c, by.count(s) && by[s][e], "point %s of session %u: found in element %d of session %u, which is not eligible: %s", ptxt(m, p).c_str(), k.sid[i], e, s, ftxt(m, f).c_str());
      merged_ok(c, m, g, A, k, i, &by[s]);
      // the session whose winner has the largest field value
      auto val = [&](int el) { ld r[3]; for (int a = 0; a < d; ++a) r[a] = A[el][i].r[a]; return (double)field_at(d, m.n, df.data() + (size_t)el * m.N, r); };
      auto low = [&](const std::vector<char> &v) { unsigned bc = 2; double b = 1e300, lo = 1e300; for (int q = 0; q < m.nel; ++q) if (v[q]) { const One &w = A[q][i]; if (w.code < bc) bc = w.code, b = w.d2; else if (w.code == bc) b = std::min(b, w.d2); } for (int q = 0; q < m.nel; ++q) if (v[q] && A[q][i].code == bc && (bc == 0 || A[q][i].d2 <= b * (1 + 1e-9) + 1e-28 * m.cmax * m.cmax)) lo = std::min(lo, val(q)); return lo; };
      double mine = val(e); for (auto &kv : by) if (kv.first != s) { double v = low(kv.second); CHECK(c, mine >= v - 1e-9, "point %s of session %u: taken from session %u where the field is %.9g, but in session %u it is %.9g: %s", ptxt(m, p).c_str(), k.sid[i], s, mine, kv.first, v, ftxt(m, f).c_str()); }
      nt |= by.size() > 1 || g.owner[e] != k.rank[i]; c.label(f.code ? "code:border" : "code:inside"); c.label(strf("sessions:%d", (int)by.size())); } }
  c.nontrivial(nt);
}
static RegProp r1({"F01", "some point was found", F01, 150000, 4000000, 1, {"asan-def", "fast-def", "fast-blas"}});
static RegProp r2({"F02", "several elements, and some point was asked for by a process that does not own its element (or there is only one process)", F02, 80000, 4000000, 6, {"asan-def", "fast-def", "fast-blas"}});
static RegProp r3({"F03", "some point was answered with a closest border point", F03, 80000, 4000000, 6, {"asan-def", "fast-def", "fast-blas"}});
static RegProp r4({"F04", "several elements, and a value was interpolated at a located point", F04, 80000, 4000000, 6, {"asan-def", "fast-def", "fast-nbc", "fast-blas"}});
static RegProp r5({"F05", "several elements, and a point was asked for by a process that does not own the element it was made from", F05, 40000, 2000000, 8, {"asan-def", "fast-def", "fast-nbc"}});
static RegProp r6({"F06", "elements of several sessions compete for a point, or it was found on another process", F06, 40000, 2000000, 6, {"asan-def", "fast-def", "fast-nbc"}});
