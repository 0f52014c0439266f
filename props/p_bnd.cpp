// props: B01 B02
// variants: asan-def fast-def
#include "mesh.hpp"

static double Lb(Case &c, int k) { return k ? c.real(-1, 1) : 0; }

// ---- B01: bounds on polynomials
static void B01(Case &c) {
  Lib &L = lib(c); int d = c.range(1, 3), n[3], m[3];
  for (int k = 0; k < d; ++k) { n[k] = c.range(2, d == 1 ? 20 : d == 2 ? 10 : 6); m[k] = n[k] <= 3 ? c.range(n[k] == 2 ? 2 : 4, 20) : c.range(2 * n[k], d == 3 ? 3 * n[k] : 4 * n[k]); }
  int N = npts(d, n), un = c.range(1, 3); int kind = c.range(0, 5);
  double sc = pow(10.0, c.range(0, 8) - 4), off = c.chance(30) ? c.real(-1, 1) * pow(10.0, c.range(0, 6) - 2) : 0;
  Blk<double> u((size_t)N * un); std::vector<std::vector<double>> aff(un);
  for (int f = 0; f < un; ++f) {
    std::vector<double> a(d + 1); for (auto &x : a) x = c.real(-1, 1); aff[f] = a; ld fr[3] = {c.real(0, 9), c.real(0, 9), c.real(0, 9)}; int spike = c.range(0, N - 1);
    for (int i = 0; i < N; ++i) {
      int id[3] = {i % n[0], d > 1 ? i / n[0] % n[1] : 0, d > 2 ? i / (n[0] * n[1]) : 0}; ld r[3]; for (int k = 0; k < d; ++k) r[k] = gll(n[k])[id[k]];
      ld v = a[d]; for (int k = 0; k < d; ++k) v += a[k] * r[k];
      switch (kind) { case 0: break; case 1: v = c.real(-1, 1); break; case 2: v = (int)c.draw(3) - 1; break; case 3: v = i == spike ? 1 : 0; break;
        case 4: v = 1; for (int k = 0; k < d; ++k) v *= sinl(fr[k] * r[k] + a[k]); break; default: v += 0.2L * (d > 1 ? r[0] * r[1] : r[0] * r[0]) + 1e-3L * c.real(-1, 1); }
      u[(size_t)f * N + i] = (double)(v * sc + off);
    }
  }
  c.nontrivial(kind != 0 && N > 4); c.label(strf("%dd", d)); c.desc("d=%d n=%d,%d,%d m=%d,%d,%d fields=%d kind=%d", d, n[0], d > 1 ? n[1] : 0, d > 2 ? n[2] : 0, m[0], d > 1 ? m[1] : 0, d > 2 ? m[2] : 0, un, kind);
  void *B[3]; for (int k = 0; k < d; ++k) B[k] = L.sh_lob_new(n[k], m[k]);
  int M = npts(d, m); Blk<double> lin((size_t)2 * M * un);
  if (d == 1) L.sh_lin_1(lin.p, B[0], n[0], m[0], u.p, un); else if (d == 2) L.sh_lin_2(lin.p, B[0], n[0], m[0], B[1], n[1], m[1], u.p, un); else L.sh_lin_3(lin.p, B[0], n[0], m[0], B[1], n[1], m[1], B[2], n[2], m[2], u.p, un);
  std::vector<ld> h[3]; for (int k = 0; k < d; ++k) for (int j = 0; j < m[k]; ++j) h[k].push_back(j == 0 ? -1 : j == m[k] - 1 ? 1 : cosl((m[k] - 1 - j) * acosl(-1.0L) / (m[k] - 1)));
  for (int f = 0; f < un; ++f) {
    const double *uf = u.p + (size_t)f * N, *b = lin.p + (size_t)2 * M * f; double rg[2]; ld amax = 0; for (int i = 0; i < N; ++i) amax = std::max<ld>(amax, fabsl(uf[i]));
    ld tol = 1e-12L * amax * (d == 3 ? 8 : 4) + 1e-300L; Blk<double> one((size_t)N); memcpy(one.p, uf, N * sizeof(double));
    if (d == 1) L.sh_lob_1(rg, B[0], n[0], m[0], one.p); else if (d == 2) L.sh_lob_2(rg, B[0], n[0], m[0], B[1], n[1], m[1], one.p); else L.sh_lob_3(rg, B[0], n[0], m[0], B[1], n[1], m[1], B[2], n[2], m[2], one.p);
    double mn = b[0], mx = b[1]; for (int i = 0; i < M; ++i) { CHECK(c, b[2 * i] <= b[2 * i + 1] + tol, "lower bound %.17g above upper bound %.17g at bound node %d", b[2 * i], b[2 * i + 1], i); mn = std::min(mn, b[2 * i]); mx = std::max(mx, b[2 * i + 1]); }
    CHECK(c, fabsl(mn - rg[0]) <= tol && fabsl(mx - rg[1]) <= tol, "range [%.17g,%.17g] is not the extreme values [%.17g,%.17g] of the piecewise bounds", rg[0], rg[1], mn, mx);
    int ns = d == 3 ? 12 : 20;
    for (int q = 0; q < ns; ++q) {
      ld r[3]; int cell[3]; ld t[3];
      for (int k = 0; k < d; ++k) { int how = c.range(0, 4); r[k] = how == 0 ? (c.coin() ? 1 : -1) : how == 1 ? h[k][c.draw(m[k])] : how == 2 ? gll(n[k])[c.draw(n[k])] : (ld)c.real(-1, 1);
        int j = 0; while (j + 2 < m[k] && h[k][j + 1] <= r[k]) ++j; cell[k] = j; t[k] = (r[k] - h[k][j]) / (h[k][j + 1] - h[k][j]); }
      ld v = field_at(d, n, uf, r), lo = 0, hi = 0;
      for (int z = 0; z < (1 << d); ++z) { ld w = 1; size_t ix = 0, str = 1; for (int k = d; k-- > 0;) { int bit = z >> k & 1; w *= bit ? t[k] : 1 - t[k]; ix += str * (cell[k] + bit); str *= m[k]; } lo += w * b[2 * ix]; hi += w * b[2 * ix + 1]; }
      CHECK(c, v >= rg[0] - tol && v <= rg[1] + tol, "field value %.17Lg at (%.6Lg,%.6Lg,%.6Lg) outside the computed range [%.17g,%.17g]", v, r[0], d > 1 ? r[1] : 0, d > 2 ? r[2] : 0, rg[0], rg[1]);
      CHECK(c, v >= lo - tol && v <= hi + tol, "field value %.17Lg at (%.6Lg,%.6Lg,%.6Lg) outside the piecewise bounds [%.17Lg,%.17Lg] (n=%d,%d,%d m=%d,%d,%d)", v, r[0], d > 1 ? r[1] : 0, d > 2 ? r[2] : 0, lo, hi, n[0], d > 1 ? n[1] : 0, d > 2 ? n[2] : 0, m[0], d > 1 ? m[1] : 0, d > 2 ? m[2] : 0);
      if (kind == 0) CHECK(c, hi - lo <= 2 * tol, "an affine field is bounded by [%.17Lg,%.17Lg], not exactly", lo, hi);
    }
    if (kind == 0) { ld lo = aff[f][d], hi = lo; for (int k = 0; k < d; ++k) lo -= fabsl(aff[f][k]), hi += fabsl(aff[f][k]); lo = lo * sc + off; hi = hi * sc + off; CHECK(c, fabsl(rg[0] - lo) <= tol && fabsl(rg[1] - hi) <= tol, "an affine field spanning [%.17Lg,%.17Lg] is given the range [%.17g,%.17g]", lo, hi, rg[0], rg[1]); }
    // no wider than a modest multiple of what the nodal values span (quality)
    { double a = uf[0], e = uf[0]; for (int i = 0; i < N; ++i) a = std::min(a, uf[i]), e = std::max(e, uf[i]); ld ex = (rg[1] - rg[0] - 4 * tol) / std::max<ld>(e - a, 1e-300L); CHECK(c, e - a <= 1e-6L * amax || ex <= 10, "range [%.17g,%.17g] is %.3Lg times as wide as the nodal values span", rg[0], rg[1], ex); }
  }
  for (int k = 0; k < d; ++k) L.sh_free(B[k]);
}

// ---- B02: bounding boxes of elements
static void B02(Case &c) {
  Lib &L = lib(c); int d = c.range(2, 3), n[3]; unsigned un[3], um[3];
  for (int k = 0; k < d; ++k) { n[k] = c.range(2, d == 2 ? 9 : 6); un[k] = n[k]; um[k] = c.range(2 * n[k], d == 2 ? 4 * n[k] : 3 * n[k]); }
  int N = npts(d, n), nel = c.range(1, 4); static const double tols[] = {0.01, 0.1, 1e-6, 1e-10, 0.5}; double tol = tols[c.draw(5)];
  int kind = c.range(0, 3); double amp = kind == 0 ? 0 : kind == 1 ? c.real(0, 0.15) : c.real(0, 0.6); double scale = pow(10.0, c.range(0, 8) - 4), shift = c.chance(30) ? c.real(-1, 1) * pow(10.0, c.range(0, 4)) : 0; double aspect = pow(10.0, c.range(0, 3));
  Blk<double> X[3]; for (int k = 0; k < d; ++k) X[k] = Blk<double>((size_t)N * nel);
  std::vector<std::array<double, 12>> Am(nel);
  for (int e = 0; e < nel; ++e) {
    // a well-conditioned linear part times an aspect ratio
    double Q[9]; for (int i = 0; i < d * d; ++i) Q[i] = c.real(-0.35, 0.35); for (int i = 0; i < d; ++i) Q[i * d + i] += 1;
    if (c.coin()) { double th = c.real(-3.2, 3.2), R[4] = {cos(th), -sin(th), sin(th), cos(th)}; for (int j = 0; j < d; ++j) { double a = Q[j], b = Q[d + j]; Q[j] = R[0] * a + R[1] * b; Q[d + j] = R[2] * a + R[3] * b; } }
    double t[3]; for (int k = 0; k < d; ++k) t[k] = c.real(-3, 3) * scale + shift * scale;
    double s[3] = {1, 1, 1}; s[c.draw(d)] = 1 / aspect; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) Q[i * d + j] *= s[j] * scale;
    for (int i = 0; i < d * d; ++i) Am[e][i] = Q[i]; for (int k = 0; k < d; ++k) Am[e][9 + k] = t[k];
    double fr[3][3], ph[3]; for (int a = 0; a < d; ++a) { ph[a] = c.real(0, 6); for (int b = 0; b < d; ++b) fr[a][b] = c.real(-1.5, 1.5); }
    for (int i = 0; i < N; ++i) {
      int id[3] = {i % n[0], i / n[0] % n[1], d > 2 ? i / (n[0] * n[1]) : 0}; ld r[3], y[3]; for (int k = 0; k < d; ++k) r[k] = gll(n[k])[id[k]];
      for (int a = 0; a < d; ++a) { ld w = ph[a]; for (int b = 0; b < d; ++b) w += fr[a][b] * r[b]; y[a] = r[a] + amp * 0.5L * sinl(w); if (kind == 3) y[a] += amp * (c.unit() - 0.5) * 0.3; }
      for (int a = 0; a < d; ++a) { ld v = t[a]; for (int b = 0; b < d; ++b) v += Q[a * d + b] * y[b]; X[a][(size_t)e * N + i] = (double)v; }
    }
  }
  c.nontrivial(kind != 0); c.label(strf("%dd %s", d, kind == 0 ? "affine" : kind == 1 ? "mild" : kind == 2 ? "curved" : "rough")); c.desc("d=%d n=%d,%d,%d nel=%d tol=%g kind=%d amplitude=%.3g scale=%g aspect=%g", d, n[0], n[1], d > 2 ? n[2] : 0, nel, tol, kind, amp, scale, aspect);
  const double *ex[3] = {X[0].p, X[1].p, d > 2 ? X[2].p : nullptr}; int W = d == 2 ? 10 : 18; Blk<double> out((size_t)W * nel);
  L.sh_obbox(d, out.p, ex, un, nel, um, tol);
  for (int e = 0; e < nel; ++e) {
    const double *b = out.p + (size_t)W * e, *c0 = b, *A = b + d, *bb = b + d + d * d; ld cm = 0; for (int k = 0; k < d; ++k) for (int i = 0; i < N; ++i) cm = std::max<ld>(cm, fabsl(X[k][(size_t)e * N + i]));
    // far elements in higher-distortion cases may have a degenerate centre Jacobian: nothing is promised about the oriented box then
    bool degen = false; { ld J[3][3], o[3] = {0, 0, 0}; for (int k = 0; k < d; ++k) field_at(d, n, X[k].p + (size_t)e * N, o, J[k]); ld det = d == 2 ? J[0][0] * J[1][1] - J[0][1] * J[1][0] : J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]); degen = !(fabsl(det) > 1e-3L * powl(scale, d) / aspect); }
    ld slackA = 1e-12L * cm; bool interior = kind <= 1;
    for (int q = 0; q < (kind == 0 ? 24 : 60); ++q) {
      ld r[3], x[3]; int face = c.range(0, 2 * d - 1); bool inner = interior && c.chance(30); bool corner = !inner && c.chance(20);
      for (int k = 0; k < d; ++k) { r[k] = c.real(-1, 1); if (corner) r[k] = c.coin() ? 1 : -1; } if (!inner) r[face / 2] = face % 2 ? 1 : -1;
      for (int k = 0; k < d; ++k) x[k] = field_at(d, n, X[k].p + (size_t)e * N, r);
      for (int k = 0; k < d; ++k) CHECK(c, x[k] >= bb[2 * k] - slackA && x[k] <= bb[2 * k + 1] + slackA, "element %d point r=(%.5Lg,%.5Lg,%.5Lg) has coordinate %d = %.15Lg outside the axis-aligned box [%.15g,%.15g]", e, r[0], r[1], d > 2 ? r[2] : 0, k, x[k], bb[2 * k], bb[2 * k + 1]);
      if (degen) continue;
      for (int a = 0; a < d; ++a) { ld s = 0, mag = 0; for (int k = 0; k < d; ++k) s += (ld)A[a * d + k] * (x[k] - c0[k]), mag += fabsl(A[a * d + k]) * (fabsl(x[k]) + fabsl(c0[k])); ld sl = 1e-12L * (mag + aspect * aspect * 10) ;
        CHECK(c, fabsl(s) <= 1 + sl, "element %d point r=(%.5Lg,%.5Lg,%.5Lg) lies outside the oriented box: coordinate %d = %.15Lg", e, r[0], r[1], d > 2 ? r[2] : 0, a, s);
        if (kind == 0 && corner) CHECK(c, fabsl(fabsl(s) * (1 + tol) - 1) <= sl, "the oriented box of an affine element does not touch its corners: coordinate %.15Lg, expected %.15Lg", s, 1 / (1 + (ld)tol));
        if (kind == 0) CHECK(c, fabsl(s * (1 + tol) - r[a]) <= sl, "the oriented box of an affine element does not recover the reference coordinate: %.15Lg instead of %.15Lg", s * (1 + tol), r[a]); }
      if (tol >= 1e-6 && cm < 1e3L * scale) { Blk<double> bx((size_t)W); memcpy(bx.p, b, W * sizeof(double)); double xd[3] = {(double)x[0], (double)x[1], d > 2 ? (double)x[2] : 0}; CHECK(c, L.sh_obbox_in(d, bx.p, xd), "the box test excludes element %d's own point r=(%.5Lg,%.5Lg,%.5Lg)", e, r[0], r[1], d > 2 ? r[2] : 0); }
    }
    if (kind == 0) for (int k = 0; k < d; ++k) { ld mid = Am[e][9 + k], half = 0; for (int j = 0; j < d; ++j) half += fabsl(Am[e][k * d + j]); half *= 1 + tol; CHECK(c, fabsl(bb[2 * k] - (mid - half)) <= slackA * 10 && fabsl(bb[2 * k + 1] - (mid + half)) <= slackA * 10, "affine element: axis box [%.15g,%.15g], expected [%.15Lg,%.15Lg]", bb[2 * k], bb[2 * k + 1], mid - half, mid + half); }
  }
}

static RegProp r1({"B01", "dimension 1-3, GLL orders 2-20, bound resolutions 2n to 4n (any for n<=3), 1-3 fields (affine, random, ternary, spike, oscillating, smooth), sampled at random points, ends, GLL and bound nodes; non-trivial: not affine and more than four nodes", B01, 400000, 12000000, 1, {"asan-def", "fast-def"}});
static RegProp r2({"B02", "dimension 2-3, orders 2-9, 1-4 elements (affine, mildly deformed, curved, rough; rotated, scaled, shifted, stretched up to 1000:1), box tolerance 1e-10 to 0.5; boundary and interior points sampled; non-trivial: not affine", B02, 250000, 8000000, 1, {"asan-def", "fast-def"}});
