// Spectral-element geometry, evaluated independently of the library:
// Gauss-Lobatto-Legendre nodes, Lagrange bases and element maps in long double.
#pragma once
#include "common.hpp"
typedef long double ld;

inline const std::vector<ld> &gll(int n) {   // n >= 2 nodes on [-1,1]
  static std::map<int, std::vector<ld>> memo; auto &z = memo[n]; if (!z.empty()) return z;
  z.assign(n, 0); int N = n - 1; const ld PI_ = 3.14159265358979323846264338327950288L;
  auto legd = [&](ld x, ld &P, ld &dP, ld &ddP) { ld p0 = 1, p1 = x; for (int k = 2; k <= N; ++k) { ld p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; } P = p1;
    dP = N * (p0 - x * p1) / (1 - x * x); ddP = (2 * x * dP - (ld)N * (N + 1) * P) / (1 - x * x); };
  z[0] = -1; z[N] = 1;
  for (int i = 1; i < N; ++i) { ld x = -cosl(PI_ * i / N); for (int it = 0; it < 100; ++it) { ld P, d, dd; legd(x, P, d, dd); ld s = d / dd; x -= s; if (fabsl(s) < 1e-19L) break; } z[i] = x; }
  for (int i = 0; i < n; ++i) if (2 * i == N) z[i] = 0;
  return z;
}
// values (and first derivatives) at x of the Lagrange basis on the n GLL nodes
inline void lagr(int n, ld x, ld *p, ld *dp = nullptr) {
  const auto &z = gll(n);
  static std::map<int, std::vector<ld>> memo; auto &w = memo[n];
  if (w.empty()) { w.assign(n, 1); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (j != i) w[i] /= z[i] - z[j]; }
  for (int i = 0; i < n; ++i) { ld v = w[i], d = 0; for (int j = 0; j < n; ++j) if (j != i) { d = d * (x - z[j]) + v; v *= x - z[j]; } p[i] = v; if (dp) dp[i] = d; }
}
// tensor-product field u (r fastest) on d dimensions, orders n[], at point r[]; optional gradient in reference coordinates
inline ld field_at(int d, const int *n, const double *u, const ld *r, ld *g = nullptr) {
  ld P[3][40], D[3][40]; for (int k = 0; k < d; ++k) lagr(n[k], r[k], P[k], g ? D[k] : nullptr);
  ld s = 0; if (g) for (int k = 0; k < d; ++k) g[k] = 0;
  int nt = d == 3 ? n[2] : 1, ns = n[1], nr = n[0]; if (d == 1) ns = 1;
  for (int t = 0; t < nt; ++t) for (int q = 0; q < ns; ++q) {
    ld v = 0, dv = 0; const double *row = u + ((size_t)t * ns + q) * nr; for (int i = 0; i < nr; ++i) { v += P[0][i] * row[i]; if (g) dv += D[0][i] * row[i]; }
    ld ps = d > 1 ? P[1][q] : 1, pt = d > 2 ? P[2][t] : 1; s += v * ps * pt;
    if (g) { g[0] += dv * ps * pt; if (d > 1) g[1] += v * D[1][q] * pt; if (d > 2) g[2] += v * ps * D[2][t]; }
  }
  return s;
}
inline int npts(int d, const int *n) { int k = 1; for (int i = 0; i < d; ++i) k *= n[i]; return k; }

// A conforming block mesh of curved elements: cells of an integer grid (some
// left out), a smooth invertible warp, an affine map, and per-element choices
// of the local axes.
struct Mesh {
  int d, n[3] = {1, 1, 1}, N, nel; std::vector<double> X[3]; double h, cmax, hmin; bool affine, bilinear; double amp;
  void eval(int e, const ld *r, ld *x, ld (*J)[3] = nullptr) const { for (int k = 0; k < d; ++k) x[k] = field_at(d, n, X[k].data() + (size_t)e * N, r, J ? J[k] : nullptr); }
  ld det(int e, const ld *r, ld *box = nullptr) const { ld x[3], J[3][3]; eval(e, r, x, J); if (box) { *box = 1; for (int k = 0; k < d; ++k) { ld q = 0; for (int a = 0; a < d; ++a) q += J[a][k] * J[a][k]; *box *= sqrtl(q); } } return d == 2 ? J[0][0] * J[1][1] - J[0][1] * J[1][0] : J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]); }
  bool orderly() const {   // no element is folded, nearly flat or strongly sheared anywhere
    const int k = d == 2 ? 9 : 6; for (int e = 0; e < nel; ++e) { ld lo = 1e30L, hi = 0, sg = 0; for (int i = 0; i < (d == 2 ? k * k : k * k * k); ++i) { ld r[3] = {2.0L * (i % k) / (k - 1) - 1, 2.0L * (i / k % k) / (k - 1) - 1, 2.0L * (i / k / k) / (k - 1) - 1}, b, v = det(e, r, &b); if (fabsl(v) < 0.3L * b) return false; if (sg == 0) sg = v > 0 ? 1 : -1; lo = std::min(lo, v * sg); hi = std::max(hi, v * sg); } if (lo < hi * 0.15L) return false; }
    return true; }
  double pos_tol() const { return 1e-9 * h + 2e-13 * cmax * (h / hmin); }
};
struct MeshOpt { int maxcells = 8; double maxamp = 0.12; bool orient = true, aspect = true; int minn = 2, maxn2 = 7, maxn3 = 5; double shift = 1; bool valid = false; int bend = 0, axis = 3; bool rare = true; };  // rare: now and then many elements, or of high order; bend: chance (%) of an arch
inline Mesh gen_mesh(Case &c, int d, MeshOpt o) {
  if (o.rare && !o.bend) switch (c.draw(120)) { case 119: o.maxcells = d == 2 ? 100 : 60, o.axis = 14; c.label("mesh:many-elements"); break; case 118: o.maxcells = 2; if (d == 2) o.minn = 8, o.maxn2 = 28; else o.minn = 6, o.maxn3 = 9; c.label("mesh:high-order"); break; default: break; }
  Mesh m; m.d = d; int E[3] = {1, 1, 1}; for (int k = 0, left = o.maxcells; k < d; ++k) { E[k] = c.range(1, std::max(1, std::min(o.axis, left))); left /= E[k]; }
  bool samen = c.coin(); for (int k = 0; k < d; ++k) m.n[k] = k && samen ? m.n[0] : c.range(o.minn, d == 2 ? o.maxn2 : o.maxn3);
  m.N = npts(d, m.n); int kind = c.range(0, 2); m.amp = kind == 0 ? 0 : c.real(0, o.maxamp); m.affine = m.amp == 0;
  double fr[3][3], ph[3]; for (int a = 0; a < d; ++a) { ph[a] = c.real(0, 6); for (int b = 0; b < d; ++b) fr[a][b] = c.real(-1.5, 1.5); }
  double A[9] = {0}; for (int i = 0; i < d; ++i) A[i * d + i] = 1;
  bool rot = c.coin(); double asp = o.aspect && c.chance(30) ? c.real(1, 10) : 1; int sk = (int)c.draw(d); double skew = c.chance(30) ? c.real(-0.5, 0.5) : 0;
  for (int i = 0; i < d; ++i) A[i * d + sk] /= asp;
  if (skew != 0) { int a = (int)c.draw(d), b = (a + 1) % d; for (int j = 0; j < d; ++j) A[a * d + j] += skew * A[b * d + j]; }
  if (rot) for (int a = 0; a < d; ++a) { int b = (a + 1) % d; if (d == 2 && a) break; double th = c.real(-3.2, 3.2); for (int j = 0; j < d; ++j) { double u = A[a * d + j], v = A[b * d + j]; A[a * d + j] = cos(th) * u - sin(th) * v; A[b * d + j] = sin(th) * u + cos(th) * v; } }
  double sc = c.chance(30) ? pow(10.0, c.range(0, 8) - 4) : 1, sh[3]; for (int k = 0; k < d; ++k) sh[k] = c.chance(30) ? c.real(-1, 1) * o.shift * (c.chance(20) ? 100 : 3) : 0;
  bool holes = c.chance(30); std::vector<std::array<int, 3>> cells; for (int k = 0; k < E[2]; ++k) for (int j = 0; j < E[1]; ++j) for (int i = 0; i < E[0]; ++i) if (!(holes && c.chance(25))) cells.push_back({i, j, k});
  if (cells.empty()) cells.push_back({0, 0, 0});
  m.nel = (int)cells.size(); for (int k = 0; k < d; ++k) m.X[k].resize((size_t)m.nel * m.N);
  std::vector<int> flips, swaps; for (int e = 0; e < m.nel; ++e) { flips.push_back(o.orient && c.coin() ? (int)c.draw(1 << d) : 0); swaps.push_back(o.orient && m.n[0] == m.n[1] && c.chance(20) ? 1 : 0); }
  double turn = c.chance(o.bend) ? c.real(0.5, 3.2) : 0, rad = c.real(0.25, 1.2); int ba = turn ? (int)c.draw(d) : 0, bb = turn ? (ba + 1 + (int)c.draw(d - 1)) % d : 1;   // an arch: axis ba turns about a centre, axis bb is the radius
  if (turn) { m.affine = false; for (double &v : A) v = 0; for (int i = 0; i < d; ++i) A[i * d + i] = 1; asp = 1; }
  for (m.h = sc;; m.amp *= 0.6, turn *= turn < 0.5 ? 0 : 0.8) { m.cmax = 0;
  for (int e = 0; e < m.nel; ++e) {
    int flip = flips[e], swap = swaps[e];
    for (int i = 0; i < m.N; ++i) {
      int id[3] = {i % m.n[0], i / m.n[0] % m.n[1], i / (m.n[0] * m.n[1])}; if (swap) std::swap(id[0], id[1]); ld q[3], y[3];
      for (int k = 0; k < d; ++k) { int t = flip >> k & 1 ? m.n[k] - 1 - id[k] : id[k]; q[k] = t == 0 ? cells[e][k] : t == m.n[k] - 1 ? cells[e][k] + 1 : cells[e][k] + (gll(m.n[k])[t] + 1) / 2; }
      for (int a = 0; a < d; ++a) { ld w = ph[a]; for (int b = 0; b < d; ++b) w += fr[a][b] * q[b]; y[a] = q[a] + m.amp * sinl(w); }
      if (turn) { ld th = turn * y[ba] / E[ba], rho = rad * E[bb] + y[bb]; y[ba] = rho * sinl(th), y[bb] = rho * cosl(th); }
      for (int a = 0; a < d; ++a) { ld v = sh[a]; for (int b = 0; b < d; ++b) v += A[a * d + b] * y[b]; double x = (double)(v * sc); m.X[a][(size_t)e * m.N + i] = x; m.cmax = std::max(m.cmax, fabs(x)); }
    }
  }
  if (!o.valid || m.affine || (m.amp < 1e-3 && turn == 0) || m.orderly()) break; }
  m.h = sc; m.hmin = sc / asp / 2;
  return m;
}
