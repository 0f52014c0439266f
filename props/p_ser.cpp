// props: K01
// variants: asan-ser asan-def
// The library built without MPI against the library built with it, on one process.
#include "gs_model.hpp"
#include "fp.hpp"

template <class F> static void both(Case &c, F f) { for (const char *v : {"asan-ser", "asan-def"}) { c.variant = find_variant(v); f(!strcmp(v, "asan-ser")); } }

static void k_gs(Case &c) {
  std::string note; TopoOpt o; o.big = true; o.maxn = 30; Topo t = gen_topo(c, 1, o, &note); GsMachine m(c, 1); int nh = 1 + (int)c.draw(2); for (int i = 0; i < nh; ++i) { int api = c.chance(40), hi = m.add_handle(t, (int)c.draw(4), api ? 0 : c.chance(30), (int)c.draw(3), api, c.chance(10)); m.h[hi].pick = c.coin(); m.act(5, hi); m.act(0, hi); }
  int n = 1 + (int)c.draw(4); m.waits.assign(1, {}); for (int i = 0; i < n; ++i) { int x = (int)c.draw(nh); bool f = m.h[x].api, ib = c.chance(30) && (!f || m.h[x].pick) && m.h[x].method < 2; int oi = m.add_op(m.gen_op(x, ib || !f ? 7 : 15, 5)); if (ib) m.act(3, oi), m.act(4, oi); else m.act(2, oi); }
  for (int i = 0; i < nh; ++i) m.act(1, i); c.desc("gather-scatter %s", note.c_str()); std::vector<GData> d[2]; std::vector<Topo> u[2];
  both(c, [&](bool ser) { m.data.clear(); m.uniq.assign(nh, t); m.go(mpi::Sched()); d[ser] = m.data; u[ser] = m.uniq; if (ser) for (int i = 0; i < nh; ++i) verify_unique(c, t, m.uniq[i], m.h[i].color); });
  for (int i = 0; i < nh; ++i) CHECK(c, u[0][i].id == u[1][i].id, "unique ids differ between the build without MPI and the one with it (%s)", note.c_str());
  for (size_t k = 0; k < m.ops.size(); ++k) for (size_t a = 0; a < d[0][k].out[0].size(); ++a) { auto &x = d[1][k].out[0][a], &y = d[0][k].out[0][a]; CHECK(c, !x.n || !memcmp(x.p, y.p, x.n), "operation %zu (%s %s transpose %d mode %d): the results of the build without MPI differ", k, DOMN[m.ops[k].dom], OPN[m.ops[k].op], m.ops[k].tr, m.ops[k].mode); }
  c.nontrivial(m.h[0].gr.multi); c.label("part:gather-scatter");
}
static void k_fp(Case &c) {
  int d = c.range(2, 3); MeshOpt o; o.maxcells = 5; Mesh m = gen_mesh(c, d, o); Cfg g; g.api = (int)c.draw(N_API); place(c, m, g, 1, false); g.sess.assign(1, 1 + (unsigned)c.draw(2)); g.match = (unsigned)c.draw(2); std::vector<Call> calls; int nc = 1 + (int)c.draw(2); for (int i = 0; i < nc; ++i) calls.push_back(gen_call(c, m, g, 14, {INSIDE, FACE, NODE, NEAR, BOX, FAR}));
  Eval e; e.set = nc - 1; e.field = 0; e.out.resize(calls[nc - 1].pts.size()); e.touched.resize(e.out.size()); std::vector<double> u((size_t)m.nel * m.N); uint64_t us = c.draw(1u << 20); for (size_t i = 0; i < u.size(); ++i) u[i] = (double)(hash64(us, i) >> 40); c.desc("point search %s d=%d elements=%d", AN[g.api], d, m.nel);
  std::vector<Call> res[2]; Eval ev[2] = {e, e};
  both(c, [&](bool ser) { auto k2 = calls; c.run(1, g.sched, [&](int r) { Caller K(lib(c.variant, r), m, g, r); for (auto &k : k2) K.find(k); K.eval(k2, ev[ser], u); K.done(); }); res[ser] = k2; });
  bool some = false; for (int k = 0; k < nc; ++k) for (size_t i = 0; i < calls[k].pts.size(); ++i) { Found &a = res[0][k].res[i], &b = res[1][k].res[i]; bool same = a.code == b.code && (a.code == 2 || (a.proc == b.proc && a.el == b.el && a.d2 == b.d2 && !memcmp(a.r, b.r, sizeof(double) * d))); some |= a.code != 2;
    CHECK(c, same, "point (%.17g,%.17g,%.17g): code %u element %u dist2 %g without MPI, code %u element %u dist2 %g with it", calls[k].pts[i].x[0], calls[k].pts[i].x[1], calls[k].pts[i].x[2], b.code, b.el, b.d2, a.code, a.el, a.d2); }
  for (size_t i = 0; i < e.out.size(); ++i) CHECK(c, ev[0].touched[i] == ev[1].touched[i] && (!ev[0].touched[i] || ev[0].out[i] == ev[1].out[i]), "evaluation at point %zu: %.17g without MPI, %.17g with it", i, ev[1].out[i], ev[0].out[i]);
  c.nontrivial(some); c.label(std::string("part:point search ") + AN[g.api]);
}
static void k_cr(Case &c) {
  int w = 1 + (int)c.draw(6), n = c.size(80), na = c.range(1, 2), cap = n + (int)c.draw(3), mode = (int)c.draw(4); uint64_t vs = c.draw(1u << 20); c.desc("transfer mode %d of %d rows of %d", mode, n, w); std::vector<uint> out[2]; std::vector<int> cnt[2];
  both(c, [&](bool ser) { std::vector<uint> q((size_t)n * w); for (size_t i = 0; i < q.size(); ++i) q[i] = i % w ? (uint)hash64(vs, i) : 0; c.run(1, mpi::Sched(), [&](int r) { Lib &L = lib(c.variant, r); void *wd = L.sh_comm_world(), *cm = mode & 1 ? L.sh_comm_dup(wd) : L.sh_comm_split(wd, 3, 1);
    if (mode < 2) { void *cr = L.sh_cr_new(cm), *a = L.sh_arr_new(q.data(), n, cap, 4 * w); for (int t = 0; t < na; ++t) L.sh_transfer(a, 4 * w, 0, t & 1, cr); size_t k = L.sh_arr_n(a); const uint *p = (uint *)L.sh_arr_ptr(a); out[ser].assign(p, p + k * w); L.sh_arr_free(a);
      std::vector<uint> msg; for (int i = 0; i < n; ++i) { msg.push_back(0); msg.push_back(0); msg.push_back(i % 3); for (int j = 0; j < i % 3; ++j) msg.push_back((uint)hash64(vs, i, j)); } L.sh_cr_route(cr, msg.data(), msg.size()); const uint *z = L.sh_cr_data(cr); out[ser].insert(out[ser].end(), z, z + L.sh_cr_n(cr)); L.sh_cr_free(cr); }
    else { int f = L.sh_comm_fint(cm), h = -1, one = 1, nn = n, mx = cap, nk = 1, key = 1, k2 = std::min(w, 2); Blk<int> vi((size_t)w * cap); memcpy(vi.p, q.data(), q.size() * 4); for (size_t i = 0; i < q.size(); ++i) vi[i] &= 0x7fffffff; L.f<void(*)(int*, const int*, const int*)>("fgslib_crystal_setup_")(&h, &f, &one); L.f<void(*)(const int*, int*, const int*, int*, const int*, const int*)>("fgslib_crystal_ituple_transfer_")(&h, vi.p, &w, &nn, &mx, &key);
      cnt[ser].push_back(nn); L.f<void(*)(const int*, int*, const int*, const int*, const int*, const int*)>("fgslib_crystal_ituple_sort_")(&h, vi.p, &w, &nn, &k2, &nk); out[ser].assign(vi.p, vi.p + (size_t)nn * w); L.f<void(*)(int*)>("fgslib_crystal_free_")(&h); }
    L.sh_comm_free(cm); L.sh_comm_free(wd); }); });
  CHECK(c, cnt[0] == cnt[1], "the table transfer counts differ between the builds"); CHECK(c, out[0] == out[1], "the rows after the transfer differ between the builds (%zu and %zu integers)", out[1].size(), out[0].size()); c.nontrivial(n > 0); c.label("part:crystal router");
}
static void k_comm(Case &c) {
  int n = 1 + (int)c.draw(6), vn = c.size(9); uint64_t vs = c.draw(1u << 20); struct St { int kind, dom, op, on; }; std::vector<St> st; for (int i = 0; i < n; ++i) { St s; s.kind = (int)c.draw(7); s.dom = (int)c.draw(5); s.op = (int)c.draw(5); s.on = (int)c.draw(3); st.push_back(s); } c.desc("communicators, %d steps of %d values", n, vn); std::vector<std::string> log[2];
  both(c, [&](bool ser) { c.run(1, mpi::Sched(), [&](int r) { Lib &L = lib(c.variant, r); void *w = L.sh_comm_world(), *d = L.sh_comm_dup(w), *s = L.sh_comm_split(w, 7, -2); void *cm[3] = {w, d, s}; auto &lg = log[ser]; for (void *k : cm) lg.push_back(strf("id %u np %u", L.sh_comm_id(k), L.sh_comm_np(k))); lg.push_back(strf("global %u %u", L.sh_gbl(0), L.sh_gbl(1)));
    for (auto &x : st) with_dom(x.dom, [&](auto tag) { typedef typename decltype(tag)::type T; Blk<T> v(vn), b(2 * vn), o(2 * vn); for (int i = 0; i < vn; ++i) v[i] = op_val<T>(x.op, hash64(vs, i), i); memset((void*)o.p, 0, o.n * sizeof(T)); void *k = cm[x.on]; std::string res;
      switch (x.kind) { case 0: L.sh_allreduce(k, x.dom, x.op, v.p, vn, b.p); break; case 1: L.sh_scan(o.p, k, x.dom, x.op, v.p, vn, b.p); res.assign((char*)o.p, 2 * vn * sizeof(T)); break; case 2: { Blk<T> q(1); L.sh_reduce(k, x.dom, x.op, v.p, vn, q.p); res.assign((char*)q.p, sizeof(T)); break; } case 3: L.sh_bcast(k, v.p, vn * sizeof(T), 0); break; case 4: L.sh_gather(k, v.p, vn * sizeof(T), o.p, vn * sizeof(T), 0); res.assign((char*)o.p, vn * sizeof(T)); break; case 5: { std::vector<double> a, bb; for (int i = 0; i < vn; ++i) a.push_back(i + 1), bb.push_back(2 * i - 3); double q = L.sh_dot(k, a.data(), bb.data(), vn); res.assign((char*)&q, 8); break; } default: L.sh_barrier(k); }
      res.append((char*)v.p, vn * sizeof(T)); lg.push_back(res); });
    L.sh_comm_free(s); L.sh_comm_free(d); L.sh_comm_free(w); }); });
  for (size_t i = 0; i < log[0].size(); ++i) CHECK(c, log[0][i] == log[1][i], i < 4 ? "communicator %zu: %s without MPI, %s with it" : "step %zu (counting four communicators): the results differ between the builds%.0s%.0s", i, log[1][i].c_str(), log[0][i].c_str());
  c.nontrivial(vn > 0); c.label("part:communicators");
}
static void K01(Case &c) { static void (*const S[])(Case &) = {k_gs, k_gs, k_fp, k_fp, k_cr, k_comm}; S[c.draw(6)](c); }
static RegProp r1({"K01", "one process; a gather-scatter history (C and Fortran, every method, unique, nonblocking), a point search and evaluation, routed tables and messages, or communicator operations, done with the library built without MPI and with it; non-trivial: there is data to combine, find or move", K01, 160000, 4000000, 1, {"asan-ser", "asan-def"}});
