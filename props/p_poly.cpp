// props: P01 P02 P03
// variants: asan-def fast-blas asan-mxm fast-def
#include "common.hpp"
typedef long double LD;
static const double EPS = 2.220446049250313e-16;

// Legendre polynomial and its derivative, by the textbook recurrence
static void leg(int n, LD x, LD &p, LD &dp) { LD a = 1, b = x; if (n == 0) { p = 1; dp = 0; return; } for (int i = 1; i < n; ++i) { LD t = ((2 * i + 1) * x * b - i * a) / (i + 1); a = b; b = t; } p = b; dp = fabsl(x) == 1 ? (LD)n * (n + 1) / 2 * (x > 0 || (n & 1) ? 1 : -1) : n * (x * b - a) / (x * x - 1); }
// reference rules, in extended precision: bisection on the sign changes, then weights by the classical formulas
static const std::vector<LD> &ref_nodes(int which, int n) {
  static std::map<std::pair<int, int>, std::vector<LD>> m; auto &z = m[{which, n}]; if (!z.empty()) return z;
  int k = which ? n - 1 : n; auto f = [&](LD x) { LD p, d; leg(k, x, p, d); return which ? d : p; };   // roots wanted in (-1,1)
  int need = which ? n - 2 : n, grid = 40 * (n + 1); std::vector<LD> r; const LD PI = 3.14159265358979323846264338327950288L;
  LD a = -cosl(0) + 1e-15L, fa = f(a); for (int i = 1; i <= grid && (int)r.size() < need; ++i) { LD b = i == grid ? 1 - 1e-15L : -cosl(PI * i / grid), fb = f(b); if (fa == 0) r.push_back(a); else if ((fa < 0) != (fb < 0) && fb != 0) { LD lo = a, hi = b, fl = fa; for (int t = 0; t < 90; ++t) { LD mid = (lo + hi) / 2, fm = f(mid); if (fm == 0) { lo = hi = mid; break; } if ((fm < 0) == (fl < 0)) lo = mid; else hi = mid; } r.push_back((lo + hi) / 2); } a = b, fa = fb; }
  if (which) r.insert(r.begin(), -1), r.push_back(1); z = r; return z; }

static void P01(Case &c) {
  int which = (int)c.draw(2), n = (which ? 2 : 1) + c.size(c.chance(15) ? 150 : 40); uint64_t vs = c.draw(1ull << 30); int deg = 2 * n - (which ? 3 : 1); int terms = 1 + (int)c.draw(6); bool top = c.coin();
  c.label(which ? "rule:lobatto" : "rule:gauss"); c.label(n <= 24 ? "n:<=24" : "n:>24"); c.desc("%s n=%d polynomial of %d Legendre terms up to degree %d", which ? "lobatto" : "gauss", n, terms, deg); c.nontrivial(n > 2);
  const std::vector<LD> &rz = ref_nodes(which, n); CHECK(c, (int)rz.size() == n, "reference has %zu nodes of %d", rz.size(), n);
  c.run(1, mpi::Sched(), [&](int r) { Lib &L = lib(c.variant, r); Blk<double> z(n), w(n), z2(n); L.sh_quad(which, z2.p, nullptr, n); L.sh_quad(2 + which, z.p, w.p, n); LD sum = 0;
    for (int i = 0; i < n; ++i) { if (z[i] != z2[i]) throw CaseFail(strf("node %d of %d: nodes alone gives %.17g, with weights %.17g", i, n, z2[i], z[i])); LD e = fabsl(z[i] - rz[i]); if (!(e <= 8 * EPS)) throw CaseFail(strf("node %d of %d is %.17g, want %.17Lg", i, n, z[i], rz[i]));
      if (i && !(z[i] > z[i - 1])) throw CaseFail(strf("nodes %d and %d are out of order", i - 1, i)); if (z[i] != -z[n - 1 - i] || w[i] != w[n - 1 - i]) throw CaseFail(strf("rule of %d is not symmetric at %d", n, i));
      LD p, d, want; if (which) { leg(n - 1, rz[i], p, d); want = 2 / ((LD)n * (n - 1) * p * p); } else { leg(n, rz[i], p, d); want = 2 / ((1 - rz[i] * rz[i]) * d * d); }
      if (!(fabsl(w[i] - want) <= want * EPS * (40 + 16.0 * n * n))) throw CaseFail(strf("weight %d of %d is %.17g, want %.17Lg", i, n, w[i], want)); sum += w[i]; }
    if (which && (z[0] != -1 || z[n - 1] != 1)) throw CaseFail(strf("end nodes are %.17g %.17g", z[0], z[n - 1])); if (n & 1 && z[n / 2] != 0) throw CaseFail(strf("middle node is %.17g", z[n / 2]));
    if (!(fabsl(sum - 2) <= 40 * EPS * (n + 4))) throw CaseFail(strf("weights of %d sum to %.17Lg", n, sum));
    // integrates a random polynomial of the guaranteed degree
    LD got = 0, mag = 1, want = 0; for (int t = 0; t < terms; ++t) { int k = t == 0 && top ? deg : (int)(hash64(vs, t) % (deg + 1)); LD co = (LD)(double)((long)(hash64(vs, t, 1) % 2001) - 1000) / 256; if (k == 0) want += 2 * co; mag += fabsl(co); for (int i = 0; i < n; ++i) { LD p, d; leg(k, z[i], p, d); got += co * w[i] * p; } }
    if (!(fabsl(got - want) <= mag * 100 * EPS * (n + 4))) throw CaseFail(strf("rule of %d: a polynomial of degree <= %d integrates to %.17Lg, want %.17Lg", n, deg, got, want));
  });
}

// h_i and its first two derivatives at x, with sums of magnitudes for the error bound
static void ref_lag(const std::vector<double> &z, double x, int i, LD v[3], LD m[3]) {
  int n = z.size(); LD d0 = 1, d1 = 0, d2 = 0, a0 = 1, a1 = 0, a2 = 0, s = 1;
  for (int j = 0; j < n; ++j) if (j != i) { LD t = (LD)x - z[j], ta = fabsl(t); d2 = d2 * t + 2 * d1, a2 = a2 * ta + 2 * a1; d1 = d1 * t + d0, a1 = a1 * ta + a0; d0 *= t, a0 *= ta; s *= (LD)z[i] - z[j]; }
  v[0] = d0 / s, v[1] = d1 / s, v[2] = d2 / s; s = fabsl(s); m[0] = a0 / s, m[1] = a1 / s, m[2] = a2 / s; }

static void P02(Case &c) {
  int kind = (int)c.draw(4), n = kind == 0 ? 2 + (int)c.draw(c.chance(20) ? 40 : 23) : 1 + c.size(30), ne = 1 + (int)c.draw(8); if (kind == 2 && n < 2) n = 2; uint64_t vs = c.draw(1ull << 30);
  static const char *const K[] = {"gll-specialised", "random", "lobatto", "uneven"}; c.label(std::string("nodes:") + K[kind]); if (kind == 0) c.label(n <= 24 ? "gll:table" : "gll:general"); c.desc("%s n=%d", K[kind], n); c.nontrivial(n > 2);
  std::vector<double> z(n); 
  if (kind == 1) { double s = std::ldexp(1.0, (int)(hash64(vs, 99) % 7) - 3), o = (double)(hash64(vs, 98) % 9) - 4; std::vector<int> ix(3 * n + 3); for (size_t i = 0; i < ix.size(); ++i) ix[i] = i; for (int i = 0; i < n; ++i) { int j = i + hash64(vs, i, 1) % (ix.size() - i); std::swap(ix[i], ix[j]); z[i] = (o + (ix[i] + 0.5 * (hash64(vs, i, 2) % 1000) / 1000.0) * 2.0 / ix.size()) * s; } }
  else if (kind == 3) { double x = -1; for (int i = 0; i < n; ++i) { z[i] = x; x += 2.0 / n * (0.05 + (hash64(vs, i) % 1000) / 500.0); } }
  struct E { int d; double x; bool at; }; std::vector<E> ev; for (int i = 0; i < ne; ++i) { E e; e.d = (int)c.draw(3); e.at = false; e.x = 0; int how = (int)c.draw(5); double u = c.unit(); if (how == 0) e.x = 2 * u - 1; else if (how == 1) { e.at = true; e.x = floor(u * n); } else if (how == 2) e.x = u < 0.5 ? -1 : 1; else if (how == 3) e.x = (2 * u - 1) * 1.5; else e.x = 0; ev.push_back(e); c.label(strf("order:%d", e.d)); static const char *const H[] = {"x:inside", "x:node", "x:end", "x:outside", "x:zero"}; c.label(H[how]); }
  c.run(1, mpi::Sched(), [&](int r) { Lib &L = lib(c.variant, r); if (kind == 0 || kind == 2) L.sh_quad(1, z.data(), nullptr, n);
    double lo = *std::min_element(z.begin(), z.end()), hi = *std::max_element(z.begin(), z.end());
    Blk<double> zb = blk(z); void *l = kind == 0 ? L.sh_gll_new(n) : L.sh_lag_new(zb.p, n); memset((void*)zb.p, 0x7f, n * 8);
    for (auto &e : ev) { double x = e.at ? z[std::min(n - 1, (int)e.x)] : kind == 0 || kind == 2 ? e.x : n > 1 ? lo + (e.x + 1) / 2 * (hi - lo) : lo + e.x; Blk<double> p((size_t)n * (e.d + 1)); for (size_t i = 0; i < p.n; ++i) p[i] = NAN; L.sh_lag_eval(l, p.p, e.d, x);
      for (int i = 0; i < n; ++i) { LD v[3], m[3]; ref_lag(z, x, i, v, m); for (int k = 0; k <= e.d; ++k) { double g = p[(size_t)k * n + i]; LD tol = (16 * n + 40) * EPS * m[k] + 1e-280L; if (!(fabsl(g - v[k]) <= tol)) throw CaseFail(strf("basis function %d of %d, derivative %d at %.17g: got %.17g, want %.17Lg (tolerance %.3Lg)", i, n, k, x, g, v[k], tol)); }
        if (e.at) { double want = z[i] == x; if (!(fabs(p[i] - want) <= (want ? 64 * n * EPS : 0.0))) throw CaseFail(strf("basis function %d of %d at node %.17g is %.17g", i, n, x, p[i])); } } }
    L.sh_lag_free(l); });
}

// the small dense kernels, on integers, where every configuration must be exact
static void P03(Case &c) {
  static const char *const K[] = {"dot", "mxv", "mtxv", "mxm", "mtxm", "i1", "i2", "i3", "ig1", "ig2", "ig3", "2t", "3t"}; int k = (int)c.draw(13); int big = c.chance(10) ? 40 : 9; auto dim = [&] { return (uint)(1 + c.size(big)); };
  uint a = dim(), b = dim(), d = dim(), m1 = dim(), m2 = dim(), m3 = dim(); if (k == 7 || k == 10 || k == 12) a = std::min(a, 16u), b = std::min(b, 16u), d = std::min(d, 16u), m1 = std::min(m1, 12u), m2 = std::min(m2, 12u), m3 = std::min(m3, 12u); uint64_t vs = c.draw(1ull << 30); c.label(std::string("kernel:") + K[k]); c.desc("%s %u %u %u / %u %u %u", K[k], a, b, d, m1, m2, m3); c.nontrivial(a > 1 && b > 1);
  typedef std::vector<double> V; int salt = 0; auto gen = [&](size_t n) { V v(n); ++salt; for (size_t i = 0; i < n; ++i) v[i] = (double)((long)(hash64(vs, i, salt) % 17) - 8); return v; };
  c.run(1, mpi::Sched(), [&](int r) { Lib &L = lib(c.variant, r); V want; Blk<double> out;
    auto in = [&](const V &v) { return blk(v); }; auto o = [&](size_t n) { out = Blk<double>(n); for (size_t i = 0; i < n; ++i) out[i] = NAN; };
    auto wk = [&](size_t n) { Blk<double> w(n); for (size_t i = 0; i < n; ++i) w[i] = NAN; return w; };
    // contraction of u (n0 x n1 x n2) with row vectors
    auto con = [&](const V &u, uint n0, uint n1, uint n2, const double *x, const double *y, const double *z) { double s = 0; for (uint q = 0; q < n2; ++q) for (uint p = 0; p < n1; ++p) for (uint t = 0; t < n0; ++t) s += u[t + n0 * (p + (size_t)n1 * q)] * x[t] * (y ? y[p] : 1) * (z ? z[q] : 1); return s; };
    switch (k) {
      case 0: { V x = gen(a), y = gen(a); o(1); out[0] = L.sh_dot_local(in(x).p, in(y).p, a); want = {0}; for (uint i = 0; i < a; ++i) want[0] += x[i] * y[i]; break; }
      case 1: { V A = gen(a * b), x = gen(b); o(a); L.sh_mxv(out.p, a, in(A).p, in(x).p, b); want.assign(a, 0); for (uint j = 0; j < b; ++j) for (uint i = 0; i < a; ++i) want[i] += A[i + a * j] * x[j]; break; }
      case 2: { V A = gen(a * b), x = gen(b); o(a); L.sh_mtxv(out.p, a, in(A).p, in(x).p, b); want.assign(a, 0); for (uint j = 0; j < b; ++j) for (uint i = 0; i < a; ++i) want[i] += A[j + b * i] * x[j]; break; }
      case 3: { V A = gen(a * b), B = gen(b * d); o(a * d); L.sh_mxm(out.p, a, in(A).p, b, in(B).p, d); want.assign(a * d, 0); for (uint l = 0; l < d; ++l) for (uint j = 0; j < b; ++j) for (uint i = 0; i < a; ++i) want[i + a * l] += A[i + a * j] * B[j + b * l]; break; }
      case 4: { V A = gen(a * b), B = gen(b * d); o(a * d); L.sh_mtxm(out.p, a, in(A).p, b, in(B).p, d); want.assign(a * d, 0); for (uint l = 0; l < d; ++l) for (uint j = 0; j < b; ++j) for (uint i = 0; i < a; ++i) want[i + a * l] += A[j + b * i] * B[j + b * l]; break; }
      case 5: { V J = gen(a), u = gen(a); o(1); out[0] = L.sh_i1(in(J).p, a, in(u).p); want = {con(u, a, 1, 1, J.data(), 0, 0)}; break; }
      case 6: { V J = gen(a), K_ = gen(b), u = gen(a * b); o(1); out[0] = L.sh_i2(in(J).p, a, in(K_).p, b, in(u).p, wk(b).p); want = {con(u, a, b, 1, J.data(), K_.data(), 0)}; break; }
      case 7: { V J = gen(a), K_ = gen(b), Q = gen(d), u = gen(a * b * d); o(1); out[0] = L.sh_i3(in(J).p, a, in(K_).p, b, in(Q).p, d, in(u).p, wk(b * d + d).p); want = {con(u, a, b, d, J.data(), K_.data(), Q.data())}; break; }
      case 8: { V J = gen(2 * a), u = gen(a); o(2); out[0] = L.sh_ig1(out.p + 1, in(J).p, a, in(u).p); want = {con(u, a, 1, 1, J.data(), 0, 0), con(u, a, 1, 1, J.data() + a, 0, 0)}; break; }
      case 9: { V J = gen(2 * a), K_ = gen(2 * b), u = gen(a * b); o(3); out[0] = L.sh_ig2(out.p + 1, in(J).p, a, in(K_).p, b, in(u).p, wk(2 * a).p); want = {con(u, a, b, 1, J.data(), K_.data(), 0), con(u, a, b, 1, J.data() + a, K_.data(), 0), con(u, a, b, 1, J.data(), K_.data() + b, 0)}; break; }
      case 10: { V J = gen(2 * a), K_ = gen(2 * b), Q = gen(2 * d), u = gen(a * b * d); o(4); out[0] = L.sh_ig3(out.p + 1, in(J).p, a, in(K_).p, b, in(Q).p, d, in(u).p, wk(2 * a * b + 3 * a).p); want = {con(u, a, b, d, J.data(), K_.data(), Q.data()), con(u, a, b, d, J.data() + a, K_.data(), Q.data()), con(u, a, b, d, J.data(), K_.data() + b, Q.data()), con(u, a, b, d, J.data(), K_.data(), Q.data() + d)}; break; }
      case 11: { V J = gen(m1 * a), K_ = gen(m2 * b), u = gen(m1 * m2); o(a * b); L.sh_2t(out.p, in(J).p, a, m1, in(K_).p, b, m2, in(u).p, wk(a * m2).p); for (uint y = 0; y < b; ++y) for (uint x = 0; x < a; ++x) want.push_back(con(u, m1, m2, 1, &J[x * m1], &K_[y * m2], 0)); break; }
      default: { V J = gen(m1 * a), K_ = gen(m2 * b), Q = gen(m3 * d), u = gen(m1 * m2 * m3); o(a * b * d); L.sh_3t(out.p, in(J).p, a, m1, in(K_).p, b, m2, in(Q).p, d, m3, in(u).p, wk(a * (m2 + b) * m3).p); for (uint t = 0; t < d; ++t) for (uint y = 0; y < b; ++y) for (uint x = 0; x < a; ++x) want.push_back(con(u, m1, m2, m3, &J[x * m1], &K_[y * m2], &Q[t * m3])); }
    }
    for (size_t i = 0; i < want.size(); ++i) if (!(out[i] == want[i])) throw CaseFail(strf("%s (%u %u %u / %u %u %u): entry %zu is %.17g, want %.17g", K[k], a, b, d, m1, m2, m3, i, out[i], want[i]));
  });
}
static RegProp r1({"P01", "rule (Gauss, Lobatto), n up to 150, and a random polynomial of the guaranteed degree in Legendre form; non-trivial: more than two nodes", P01, 130000, 600000, 1, {"asan-def", "fast-def"}});
static RegProp r2({"P02", "node set (specialised GLL, Lobatto, random unordered, uneven), n up to 41, 1-8 evaluations over one workspace at interior points, nodes, ends, outside, with 0-2 derivatives; non-trivial: more than two nodes", P02, 500000, 3000000, 1, {"asan-def", "fast-def"}});
static RegProp r3({"P03", "one of 13 kernels, dimensions 1-41, integer data, in the naive, BLAS and application-supplied configurations; non-trivial: two dimensions above one", P03, 500000, 4000000, 1, {"asan-def", "fast-blas", "asan-mxm"}});
