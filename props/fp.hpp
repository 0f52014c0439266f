// The caller's side of the point search, shared by the checks.
#pragma once
#include "mesh.hpp"

static const double EPSN = 1024 * DBL_EPSILON;

// ---- the search set-up of one case
struct Pt { double x[3] = {0, 0, 0}; int kind = 0, el = -1; ld r[3] = {0, 0, 0}; };
enum { INSIDE, FACE, NODE, NEAR, BOX, FAR, HOLLOW, CORNER };
static const char *const KN[] = {"inside", "on a face", "mesh node", "just outside", "around", "far", "in a hollow", "around a corner"};
static Pt gen_pt(Case &c, const Mesh &m, int kind) {
  Pt p; p.kind = kind; p.el = c.range(0, m.nel - 1); ld x[3];
  if (kind == FAR || kind == BOX) { ld r[3]; for (int k = 0; k < m.d; ++k) r[k] = c.real(-1, 1); m.eval(p.el, r, x); double f = kind == FAR ? pow(10.0, c.range(0, 6)) : 0.7; for (int k = 0; k < m.d; ++k) p.x[k] = (double)x[k] + c.real(-1, 1) * m.h * f;
    if (kind == FAR && c.chance(12)) { static const double ex[] = {1e12, 3e9, 1e20, 1e300, DBL_MAX, INFINITY, NAN}; double v = ex[c.draw(7)]; p.x[c.draw(m.d)] = c.coin() ? v : -v; } return p; }
  if (kind == HOLLOW) {   // near or past the centre of curvature of an edge, where the distance along the edge is nearly flat or concave
    int de = (int)c.draw(m.d); ld r[3], y[3], z[3], T[3], H[3], th = 0, tt = 0, hh = 0; for (int k = 0; k < m.d; ++k) r[k] = k == de ? c.real(-0.9, 0.9) : c.coin() ? 1 : -1; const ld D = 1e-3L; double s = c.real(0.7, 2.5), off = c.chance(50) ? pow(10.0, -c.real(1, 6)) : 0;
    r[de] += D; m.eval(p.el, r, y); r[de] -= 2 * D; m.eval(p.el, r, z); r[de] += D; m.eval(p.el, r, x); for (int k = 0; k < m.d; ++k) { T[k] = (y[k] - z[k]) / (2 * D), H[k] = (y[k] - 2 * x[k] + z[k]) / (D * D); th += T[k] * H[k]; tt += T[k] * T[k]; }
    for (int k = 0; k < m.d; ++k) H[k] -= th / tt * T[k], hh += H[k] * H[k]; for (int k = 0; k < m.d; ++k) p.x[k] = (double)(x[k] + (hh > 1e-6L * tt ? s * tt / hh * H[k] : 0) + off * m.h * c.real(-1, 1)); return p; }
  if (kind == NODE) { int i = c.range(0, m.N - 1); int id[3] = {i % m.n[0], i / m.n[0] % m.n[1], i / (m.n[0] * m.n[1])}; for (int k = 0; k < m.d; ++k) p.r[k] = gll(m.n[k])[id[k]], p.x[k] = m.X[k][(size_t)p.el * m.N + i]; return p; }
  for (int k = 0; k < m.d; ++k) p.r[k] = c.real(-0.9999, 0.9999); if (kind == INSIDE && c.chance(10)) for (int k = 0; k < m.d; ++k) p.r[k] = c.coin() ? 0 : 0.5L;
  if (kind == FACE) { static const double near1[] = {1, 1, 1, 1 - 1e-9, 1 - 1e-6, 1 - 1e-13}; double v = near1[c.draw(6)]; bool some = false; int first = (int)c.draw(m.d); for (int k = 0; k < m.d; ++k) if (k == first || c.chance(25)) p.r[k] = c.coin() ? v : -v, some = true; (void)some; }
  if (kind == CORNER) for (int k = 0; k < m.d; ++k) { double dl = pow(10.0, -c.real(0.1, 3)); p.r[k] = (c.coin() ? 1 : -1) * (c.chance(30) ? 1 - dl : 1 + dl); }   // the nearest node and the nearest position need not agree
  if (kind == NEAR) { double dl = pow(10.0, -c.real(0.3, 9)); p.r[c.draw(m.d)] = (c.coin() ? 1 : -1) * (1 + dl); }
  m.eval(p.el, p.r, x); for (int k = 0; k < m.d; ++k) p.x[k] = (double)x[k];
  return p;
}

// boxes of every element, straight from the bounding-box interface
struct Boxes { int d; std::vector<double> b;
  // >0: inside by that relative margin, <0 outside
  double margin(int e, const double *x) const { int W = d == 2 ? 10 : 18; const double *c0 = &b[(size_t)e * W], *A = c0 + d, *bb = A + d * d; double m = 1e300; for (int k = 0; k < d; ++k) if (std::isnan(x[k])) return -1;   // nowhere
    for (int k = 0; k < d; ++k) { double w = bb[2 * k + 1] - bb[2 * k]; m = std::min(m, std::min(x[k] - bb[2 * k], bb[2 * k + 1] - x[k]) / w); }
    for (int a = 0; a < d; ++a) { double s = 0; for (int k = 0; k < d; ++k) s += A[a * d + k] * (x[k] - c0[k]); m = std::min(m, 1 - fabs(s)); }
    return m; }
  // inside the closed box: by a margin, or, close to its sides, by the library's own test of one box
  bool in(int e, const double *x) const { double g = margin(e, x); if (g > 1e-9) return true; return g > -1e-9 && L->sh_obbox_in(d, &b[(size_t)e * (d == 2 ? 10 : 18)], x) != 0; }
  Lib *L = nullptr; };
static Boxes boxes(Case &c, const Mesh &m, double tol) { Lib &L = lib(c.variant, 0); Boxes B; B.L = &L; B.d = m.d; B.b.resize((size_t)(m.d == 2 ? 10 : 18) * m.nel); unsigned n[3], mm[3]; for (int k = 0; k < 3; ++k) n[k] = m.n[k], mm[k] = 2 * m.n[k];
  const double *ex[3] = {m.X[0].data(), m.X[1].data(), m.d > 2 ? m.X[2].data() : nullptr}; L.sh_obbox(m.d, B.b.data(), ex, n, m.nel, mm, tol); return B; }

// a point exactly on a side of the axis-aligned box of an element, next to the element
static void snap(Case &c, const Mesh &m, const Boxes &B, Pt &p) {
  p = gen_pt(c, m, c.coin() ? NODE : FACE); p.kind = BOX; int k = (int)c.draw(m.d), W = m.d == 2 ? 10 : 18; const double *bb = &B.b[(size_t)p.el * W] + m.d + m.d * m.d + 2 * k; p.x[k] = fabs(p.x[k] - bb[0]) < fabs(p.x[k] - bb[1]) ? bb[0] : bb[1]; }

// one column of caller data with a stride, exactly as long as needed
template <class T> struct Col {
  int n = 0, st = 1, w = 1; Blk<T> b; static T sent() { T t; memset(&t, 0xB7, sizeof t); return t; }
  Col() {} Col(int n_, int st_, int w_ = 1) : n(n_), st(st_), w(w_), b(n_ ? (size_t)(n_ - 1) * st_ + w_ : 0) { for (size_t i = 0; i < b.n; ++i) b[i] = sent(); }
  T *at(int i) { return b.p + (size_t)i * st; }
  void gaps(const char *what) { T s = sent(); for (int i = 0; i + 1 < n; ++i) for (int k = w; k < st; ++k) if (memcmp(at(i) + k, &s, sizeof s)) throw CaseFail(strf("%s: memory between entries was written", what)); }
  bool untouched(int i, int k = 0) { T s = sent(); return !memcmp(at(i) + k, &s, sizeof s); }
};
struct Strides { int code = 1, proc = 1, el = 1, r = 3, d2 = 1, x[3] = {1, 1, 1}, out = 1, sid = 1; };
static Strides gen_strides(Case &c, int d) { Strides s; s.r = d; if (c.coin()) { s.code = c.range(1, 3); s.proc = c.range(1, 3); s.el = c.range(1, 3); s.r = c.range(d, d + 2); s.d2 = c.range(1, 3); for (int k = 0; k < d; ++k) s.x[k] = c.range(1, 3); s.out = c.range(1, 3); s.sid = c.range(0, 2); } return s; }

enum Api { C_API, F_API, C_MS, F_MS, LOCAL, N_API };
static const char *const AN[] = {"C", "Fortran", "C ms", "Fortran ms", "local"};
struct Cfg {
  int np = 1, api = C_API; std::vector<int> owner, lidx; std::vector<std::vector<int>> mine; double tol = 0.01, newt = EPSN; std::vector<unsigned> lh, gh; std::vector<unsigned> npt_max; mpi::Sched sched; int mf[3] = {2, 2, 2};
  // several sessions
  std::vector<unsigned> sess; const std::vector<double> *distf = nullptr; unsigned match = 1;
};
static void place(Case &c, const Mesh &m, Cfg &g, int maxnp, bool empty_ranks) {
  g.np = g.api == LOCAL ? 1 : c.range(1, maxnp); if (!empty_ranks) g.np = std::min(g.np, m.nel); g.owner.resize(m.nel); g.lidx.resize(m.nel); g.mine.assign(g.np, {});
  int how = c.range(0, 2); auto pm = c.perm(m.nel);
  for (int i = 0; i < m.nel; ++i) { int e = how == 2 ? pm[i] : i; int p = how == 0 ? (int)((long)i * g.np / m.nel) : !empty_ranks && i < g.np ? i : (int)c.draw(g.np); g.owner[e] = p; g.lidx[e] = (int)g.mine[p].size(); g.mine[p].push_back(e); }
  static const double tols[] = {0.01, 0.1, 1e-6, 0.3, 1e-3}; g.tol = tols[c.draw(5)];
  g.lh.resize(g.np); g.gh.resize(g.np); g.npt_max.resize(g.np);
  for (int p = 0; p < g.np; ++p) { int ne = (int)g.mine[p].size(); g.lh[p] = c.chance(20) ? ne + 2 : c.chance(20) ? ne + 2 + c.range(0, 12) : m.N * std::max(ne, 1) + 2; g.gh[p] = c.chance(20) ? 1 : c.chance(20) ? c.range(1, 12) : m.N * std::max(ne, 1); static const int pm_[] = {256, 1, 2, 3, 7, 16}; g.npt_max[p] = pm_[c.draw(6)]; }
  g.sched = c.sched(g.np); g.sess.assign(g.np, 1);
}
struct Found { unsigned code = 99, proc = 0, el = 0; double r[3] = {0, 0, 0}, d2 = 0; bool touched = false; };
struct Call {   // one search and the evaluations that follow it
  std::vector<Pt> pts; std::vector<int> rank, slot; std::vector<std::vector<int>> of; Strides s; std::vector<Found> res; std::vector<unsigned> sid;
};
struct Eval { int set; int field; bool copy = false; std::vector<double> out; std::vector<char> touched; };
static Call gen_call(Case &c, const Mesh &m, const Cfg &g, int maxpt, const std::vector<int> &kinds) {
  Call k; int n = c.range(0, maxpt); if (c.draw(150) == 149) n = 100 + (int)c.draw(500), c.label("search:hundreds-of-points"); k.s = gen_strides(c, m.d); k.of.assign(g.np, {}); int how = c.range(0, 2); int only = (int)c.draw(g.np);
  for (int i = 0; i < n; ++i) { Pt p = i && c.chance(5) ? k.pts[c.draw(i)] : gen_pt(c, m, kinds[c.draw(kinds.size())]); int r = how == 0 ? (int)c.draw(g.np) : how == 1 ? only : i % g.np; k.pts.push_back(p); k.rank.push_back(r); k.slot.push_back((int)k.of[r].size()); k.of[r].push_back(i); }
  k.res.resize(n); k.sid.assign(n, 1); return k;
}

// the caller's side on one process
struct Caller {
  Lib &L; const Mesh &m; const Cfg &g; int r; void *w = nullptr, *cm = nullptr, *h = nullptr; int fh = -1; std::vector<Blk<double>> X; Blk<double> df; int nel; unsigned nsid; std::vector<Col<unsigned>> code, proc, el; std::vector<Col<double>> rr;
  Caller(Lib &L_, const Mesh &m_, const Cfg &g_, int r_) : L(L_), m(m_), g(g_), r(r_) {
    nel = (int)g.mine[r].size(); nsid = g.sess[r]; for (int k = 0; k < m.d; ++k) { Blk<double> b((size_t)nel * m.N); for (int i = 0; i < nel; ++i) memcpy(b.p + (size_t)i * m.N, m.X[k].data() + (size_t)g.mine[r][i] * m.N, m.N * sizeof(double)); X.push_back(b); }
    df = Blk<double>((size_t)nel * m.N); for (int i = 0; i < nel; ++i) for (int j = 0; j < m.N; ++j) df[(size_t)i * m.N + j] = g.distf ? (*g.distf)[(size_t)g.mine[r][i] * m.N + j] : 1;
    w = L.sh_comm_world(); cm = L.sh_comm_dup(w); unsigned n[3], mm[3]; for (int k = 0; k < 3; ++k) n[k] = m.n[k], mm[k] = g.mf[k] * m.n[k]; const double *ex[3] = {X[0].p, X[1].p, m.d > 2 ? X[2].p : nullptr};
    if (g.api == C_API) h = L.sh_fp_new(m.d, cm, ex, n, nel, mm, g.tol, g.lh[r], g.gh[r], g.npt_max[r], g.newt);
    else if (g.api == C_MS) h = L.sh_ms_new(m.d, cm, ex, n, nel, mm, g.tol, g.lh[r], g.gh[r], g.npt_max[r], g.newt, &nsid, df.p);
    else if (g.api == LOCAL) h = L.sh_loc_new(m.d, ex, n, nel, mm, g.tol, g.lh[r], g.npt_max[r], g.newt, nullptr, nullptr);
    else { int fc = L.sh_comm_fint(cm), np = g.np, d = m.d, in[3] = {m.n[0], m.n[1], m.n[2]}, im[3] = {(int)mm[0], (int)mm[1], (int)mm[2]}, lh = g.lh[r], gh = g.gh[r], pm = g.npt_max[r]; double tol = g.tol, nt = g.newt;
      typedef int *I; typedef const double *Dp;
      if (g.api == F_API) L.f<void (*)(I, I, I, I, Dp, Dp, Dp, I, I, I, I, I, I, I, Dp, I, I, I, Dp)>("fgslib_findpts_setup_")(&fh, &fc, &np, &d, ex[0], ex[1], ex[2], in, in + 1, in + 2, &nel, im, im + 1, im + 2, &tol, &lh, &gh, &pm, &nt);
      else L.f<void (*)(I, I, I, I, Dp, Dp, Dp, I, I, I, I, I, I, I, Dp, I, I, I, Dp, unsigned *, Dp)>("fgslib_findptsms_setup_")(&fh, &fc, &np, &d, ex[0], ex[1], ex[2], in, in + 1, in + 2, &nel, im, im + 1, im + 2, &tol, &lh, &gh, &pm, &nt, &nsid, df.p); }
  }
  void find(Call &k) {
    int n = (int)k.of[r].size(), d = m.d; Strides &s = k.s; Col<unsigned> cc(n, s.code), pp(n, s.proc), ee(n, s.el); Col<double> R(n, s.r, d), D2(n, s.d2), xs[3]; Col<unsigned> sid(s.sid ? n : 1, s.sid ? s.sid : 1);
    for (int a = 0; a < d; ++a) { xs[a] = Col<double>(n, s.x[a]); for (int i = 0; i < n; ++i) *xs[a].at(i) = k.pts[k.of[r][i]].x[a]; }
    if (s.sid == 0) *sid.at(0) = k.sid.empty() ? 1 : n ? k.sid[k.of[r][0]] : 1; else for (int i = 0; i < n; ++i) *sid.at(i) = k.sid[k.of[r][i]];
    const double *xb[3] = {xs[0].b.p, xs[1].b.p, d > 2 ? xs[2].b.p : nullptr}; unsigned xst[3] = {s.x[0] * 8u, s.x[1] * 8u, s.x[2] * 8u}; unsigned match = g.match, sst = s.sid * 4u;
    if (g.api == C_API) L.sh_fp_find(d, h, cc.b.p, s.code * 4, pp.b.p, s.proc * 4, ee.b.p, s.el * 4, R.b.p, s.r * 8, D2.b.p, s.d2 * 8, xb, xst, n);
    else if (g.api == C_MS) L.sh_ms_find(d, h, cc.b.p, s.code * 4, pp.b.p, s.proc * 4, ee.b.p, s.el * 4, R.b.p, s.r * 8, D2.b.p, s.d2 * 8, xb, xst, sid.b.p, sst, &match, n);
    else if (g.api == LOCAL) { L.sh_loc_find(h, cc.b.p, s.code * 4, ee.b.p, s.el * 4, R.b.p, s.r * 8, D2.b.p, s.d2 * 8, xb, xst, n); for (int i = 0; i < n; ++i) *pp.at(i) = 0; }
    else { typedef int *I; typedef unsigned *U; typedef double *Dp; typedef const double *CD; unsigned us = s.sid;
      if (g.api == F_API) L.f<void (*)(I, U, I, U, I, U, I, Dp, I, Dp, I, CD, I, CD, I, CD, I, I)>("fgslib_findpts_")(&fh, cc.b.p, &s.code, pp.b.p, &s.proc, ee.b.p, &s.el, R.b.p, &s.r, D2.b.p, &s.d2, xb[0], &s.x[0], xb[1], &s.x[1], xb[2], &s.x[2], &n);
      else L.f<void (*)(I, U, I, U, I, U, I, Dp, I, Dp, I, CD, I, CD, I, CD, I, U, U, U, I)>("fgslib_findptsms_")(&fh, cc.b.p, &s.code, pp.b.p, &s.proc, ee.b.p, &s.el, R.b.p, &s.r, D2.b.p, &s.d2, xb[0], &s.x[0], xb[1], &s.x[1], xb[2], &s.x[2], sid.b.p, &us, &match, &n); }
    cc.gaps("code"); pp.gaps("proc"); ee.gaps("el"); R.gaps("r"); D2.gaps("dist2");
    for (int a = 0; a < d; ++a) for (int i = 0; i < n; ++i) if (memcmp(xs[a].at(i), &k.pts[k.of[r][i]].x[a], sizeof(double))) throw CaseFail("the search changed the caller's coordinates");
    for (int i = 0; i < n; ++i) { Found &f = k.res[k.of[r][i]]; f.code = *cc.at(i); f.proc = *pp.at(i); f.el = *ee.at(i); for (int a = 0; a < d; ++a) f.r[a] = R.at(i)[a]; f.d2 = *D2.at(i); f.touched = !D2.untouched(i); }
    code.push_back(cc); proc.push_back(pp); el.push_back(ee); rr.push_back(R);
  }
  void eval(std::vector<Call> &calls, Eval &ev, const std::vector<double> &u) {
    Call &k = calls[ev.set]; Strides &s = k.s; int n = (int)k.of[r].size(); Blk<double> in((size_t)nel * m.N); for (int i = 0; i < nel; ++i) memcpy(in.p + (size_t)i * m.N, u.data() + (size_t)g.mine[r][i] * m.N, m.N * sizeof(double));
    Col<double> out(n, s.out); auto &cc = code[ev.set], &pp = proc[ev.set], &ee = el[ev.set]; auto &R = rr[ev.set]; int d = m.d;
    typedef int *I; typedef unsigned *U; typedef double *Dp; typedef const double *CD; bool oc = false;
    Col<unsigned> c2(cc), p2(pp), e2(ee); Col<double> R2(R); if (ev.copy) oc = true;   // the caller may keep the results elsewhere
    auto &cu = oc ? c2 : cc, &pu = oc ? p2 : pp, &eu = oc ? e2 : ee; auto &ru = oc ? R2 : R;
    if (g.api == C_API) L.sh_fp_eval(d, h, out.b.p, s.out * 8, cu.b.p, s.code * 4, pu.b.p, s.proc * 4, eu.b.p, s.el * 4, ru.b.p, s.r * 8, n, in.p);
    else if (g.api == C_MS) L.sh_ms_eval(d, h, out.b.p, s.out * 8, cu.b.p, s.code * 4, pu.b.p, s.proc * 4, eu.b.p, s.el * 4, ru.b.p, s.r * 8, n, in.p);
    else if (g.api == LOCAL) { // the local call takes found points only
      std::vector<int> f; for (int i = 0; i < n; ++i) if (*cu.at(i) != 2) f.push_back(i); Blk<unsigned> e(f.size()); Blk<double> q(f.size() * d), o(f.size()); for (size_t i = 0; i < f.size(); ++i) { e[i] = *eu.at(f[i]); for (int a = 0; a < d; ++a) q[i * d + a] = ru.at(f[i])[a]; }
      L.sh_loc_eval(h, o.p, 8, e.p, 4, q.p, d * 8, f.size(), in.p); for (size_t i = 0; i < f.size(); ++i) *out.at(f[i]) = o[i]; }
    else L.f<void (*)(I, Dp, I, U, I, U, I, U, I, CD, I, I, CD)>(g.api == F_API ? "fgslib_findpts_eval_" : "fgslib_findptsms_eval_")(&fh, out.b.p, &s.out, cu.b.p, &s.code, pu.b.p, &s.proc, eu.b.p, &s.el, ru.b.p, &s.r, &n, in.p);
    out.gaps("evaluation output");
    for (int i = 0; i < n; ++i) ev.out[k.of[r][i]] = *out.at(i), ev.touched[k.of[r][i]] = !out.untouched(i);
  }
  // a set of points the caller made up
  void synth(const Call &k) {
    int n = (int)k.of[r].size(); const Strides &s = k.s; Col<unsigned> cc(n, s.code), pp(n, s.proc), ee(n, s.el); Col<double> R(n, s.r, m.d);
    for (int i = 0; i < n; ++i) { const Found &f = k.res[k.of[r][i]]; *cc.at(i) = f.code; *pp.at(i) = f.proc; *ee.at(i) = f.el; for (int a = 0; a < m.d; ++a) R.at(i)[a] = f.r[a]; }
    code.push_back(cc); proc.push_back(pp); el.push_back(ee); rr.push_back(R);
  }
  // evaluation of local points, element by element
  void eval_local(const std::vector<std::pair<int, std::array<double, 3>>> &q, int ostr, int estr, int rstr, const Blk<double> &in, std::vector<double> &res) {
    int n = (int)q.size(), d = m.d; Col<double> out(n, ostr), R(n, rstr, d); Col<unsigned> e(n, estr); for (int i = 0; i < n; ++i) { *e.at(i) = q[i].first; for (int a = 0; a < d; ++a) R.at(i)[a] = q[i].second[a]; }
    typedef int *I; typedef unsigned *U; typedef double *Dp; typedef const double *CD;
    L.f<void (*)(I, Dp, I, U, I, CD, I, I, CD)>(g.api == F_API ? "fgslib_findpts_eval_local_" : "fgslib_findptsms_eval_local_")(&fh, out.b.p, &ostr, e.b.p, &estr, R.b.p, &rstr, &n, in.p);
    out.gaps("evaluation output"); res.clear(); for (int i = 0; i < n; ++i) res.push_back(*out.at(i));
  }
  void done() {
    if (g.api == C_API) L.sh_fp_free(m.d, h); else if (g.api == C_MS) L.sh_ms_free(m.d, h); else if (g.api == LOCAL) L.sh_loc_free(h);
    else L.f<void (*)(int *)>(g.api == F_API ? "fgslib_findpts_free_" : "fgslib_findptsms_free_")(&fh);
    L.sh_comm_free(cm); L.sh_comm_free(w);
  }
};
