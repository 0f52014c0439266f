// props: M02 E01 E02 E03
// variants: asan-nbc asan-def asan-usr
// Whole uses of each part of the library, set up, used and torn down, that can be run again
// and again from the same description: what they leave behind, and what happens when one
// of their memory requests is refused.
#include "gs_model.hpp"
#include "fp.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>

struct Scene { std::string name; int np = 1; bool nontriv = true; std::function<mpi::Result()> go; };

// ---- gather-scatter
static Scene sc_gs(Case &c) {
  Scene s; s.name = "gather-scatter"; int np = s.np = c.range(1, 6); auto m = std::make_shared<GsMachine>(c, np); TopoOpt o; o.maxn = 9; std::string note; bool nbc = variant_has(c.variant, "nbc"); s.nontriv = false;
  int nh = 1 + (int)c.draw(3);
  for (int i = 0; i < nh; ++i) { Topo t = gen_topo(c, np, o, &note); int api = c.chance(35), hi = m->add_handle(t, (int)c.draw(4), api ? 0 : c.chance(25), (int)c.draw(3), api, 0); m->h[hi].pick = c.coin(); if (c.chance(30)) { m->act(5, hi); } m->act(0, hi); s.nontriv |= m->h[hi].gr.shared; }
  m->waits.assign(np, {}); int n = (int)c.draw(5);
  for (int i = 0; i < n; ++i) { int x = (int)c.draw(nh); bool f = m->h[x].api, ib = c.chance(35) && (!f || m->h[x].pick) && (nbc || m->h[x].method < 2); GOp q = m->gen_op(x, ib || !f ? 7 : 15, 5); int oi = m->add_op(q); if (ib) m->act(3, oi), m->act(4, oi); else m->act(2, oi); }
  if (c.chance(25)) { m->act(1, 0); m->act(0, 0); } for (int i = 0; i < nh; ++i) m->act(1, i);
  for (auto &g : m->h) { static const char *const M[] = {"pairwise", "crystal", "allreduce", "auto"}; c.label(std::string("gs:") + M[g.method]); if (g.api) c.label("gs:fortran"); if (g.unique) c.label("gs:unique"); }
  c.desc("np=%d %s", np, note.c_str()); auto sc = c.sched(np); s.go = [m, sc] { return m->go(sc); }; return s;
}
// ---- point search
static Scene sc_fp(Case &c) {
  Scene s; int d = c.range(2, 3); MeshOpt o; o.maxcells = 4; auto m = std::make_shared<Mesh>(gen_mesh(c, d, o)); auto g = std::make_shared<Cfg>(); g->api = (int)c.draw(N_API); place(c, *m, *g, 4, c.chance(25)); int np = s.np = g->np;
  if (g->api == C_MS || g->api == F_MS) for (auto &x : g->sess) x = (unsigned)c.range(1, 2);
  auto calls = std::make_shared<std::vector<Call>>(); auto evs = std::make_shared<std::vector<Eval>>(); int nc = 1 + (int)c.draw(3); for (int i = 0; i < nc; ++i) calls->push_back(gen_call(c, *m, *g, 10, {INSIDE, FACE, NEAR, BOX, FAR})); g->match = (int)c.draw(2);
  auto when = std::make_shared<std::vector<int>>(); for (int j = 0; j < nc; ++j) { int ne = (int)c.draw(3), es = (int)c.draw(j + 1); for (int i = 0; i < ne; ++i) { Eval e; e.set = es; e.field = 0; e.out.resize((*calls)[e.set].pts.size()); e.touched.resize(e.out.size()); evs->push_back(e); when->push_back(j); } }
  int ne = (int)evs->size();
  auto u = std::make_shared<std::vector<double>>((size_t)m->nel * m->N, 1.5); s.name = std::string("point search ") + AN[g->api]; s.nontriv = nc > 0 && m->nel > 1; c.label(strf("%dd", d)); c.desc("np=%d d=%d elements=%d searches=%d evaluations=%d", np, d, m->nel, nc, ne);
  Case *cp = &c; s.go = [=] { return cp->run(np, g->sched, [=](int r) { Caller K(lib(cp->variant, r), *m, *g, r); for (size_t j = 0; j < calls->size(); ++j) { K.find((*calls)[j]); for (size_t i = 0; i < evs->size(); ++i) if ((*when)[i] == (int)j) K.eval(*calls, (*evs)[i], *u); } K.done(); }); }; return s;
}
// ---- routing
static Scene sc_cr(Case &c) {
  Scene s; s.name = "crystal router"; int np = s.np = c.range(1, 8), rounds = c.range(1, 3); uint64_t vs = c.draw(1u << 20); int most = c.size(40), w = 1 + (int)c.draw(6); bool ft = c.coin(); auto sc = c.sched(np); s.nontriv = most > 0 && np > 1; if (ft) c.label("router:fortran"); c.desc("np=%d rounds=%d rows<=%d of %d ints%s", np, rounds, most, w, ft ? " (Fortran tables)" : "");
  Case *cp = &c; s.go = [=] { return cp->run(np, sc, [=](int r) { Lib &L = lib(cp->variant, r); void *wd = L.sh_comm_world(); int n = most ? (int)(hash64(vs, r) % (most + 1)) : 0;
    if (!ft) { void *cr = L.sh_cr_new(wd); for (int t = 0; t < rounds; ++t) { std::vector<uint> q(n * w); for (size_t i = 0; i < q.size(); ++i) q[i] = i % w ? (uint)hash64(vs, t, i) : (uint)(hash64(vs, t, i) % np); void *a = L.sh_arr_new(q.data(), n, n, 4 * w); L.sh_transfer(a, 4 * w, 0, 1, cr);
        void *b = L.sh_buf_null(); uint *pm = L.sh_sortp(0, b, 0, L.sh_arr_ptr(a), L.sh_arr_n(a), 4 * w); (void)pm; L.sh_buf_free(b); L.sh_arr_free(a); } L.sh_cr_free(cr); }
    else { int f = L.sh_comm_fint(wd), h = -1, np_ = np, key = 1, nk = 1, zero = 0, mx = np * most + 1, nn = n, mi = w; L.f<void(*)(int*, const int*, const int*)>("fgslib_crystal_setup_")(&h, &f, &np_);
      Blk<int> vi((size_t)mi * mx); Blk<ll> vl(1); Blk<double> vr(1); for (int t = 0; t < rounds; ++t) { for (int i = 0; i < nn * mi; ++i) vi[i] = i % mi ? (int)(hash64(vs, t, i) >> 34) : (int)(hash64(vs, t, i) % np);
        if (t & 1) L.f<void(*)(const int*, int*, const int*, int*, const int*, const int*)>("fgslib_crystal_ituple_transfer_")(&h, vi.p, &mi, &nn, &mx, &key);
        else L.f<void(*)(const int*, int*, const int*, int*, const int*, ll*, const int*, double*, const int*, const int*)>("fgslib_crystal_tuple_transfer_")(&h, &nn, &mx, vi.p, &mi, vl.p, &zero, vr.p, &zero, &key);
        L.f<void(*)(const int*, int*, const int*, const int*, const int*, const int*)>("fgslib_crystal_ituple_sort_")(&h, vi.p, &mi, &nn, &key, &nk); nn = std::min(nn, n); }
      L.f<void(*)(int*)>("fgslib_crystal_free_")(&h); }
    L.sh_comm_free(wd); }); }; return s;
}
// ---- communicators
static Scene sc_comm(Case &c) {
  Scene s; s.name = "communicators"; int np = s.np = c.range(1, 8), n = 1 + (int)c.draw(6); std::vector<int> kind, a, b; for (int i = 0; i < n; ++i) kind.push_back((int)c.draw(7)), a.push_back((int)c.draw(5)), b.push_back((int)c.draw(5)); std::vector<int> col; for (int p = 0; p < np; ++p) col.push_back((int)c.draw(3)); auto sc = c.sched(np); int vn = 1 + (int)c.draw(5); s.nontriv = np > 1; c.desc("np=%d steps=%d", np, n);
  bool nbc = variant_has(c.variant, "nbc");
  Case *cp = &c; s.go = [=] { return cp->run(np, sc, [=](int r) { Lib &L = lib(cp->variant, r); void *w = L.sh_comm_world(); std::vector<void*> st{w}; double v[8] = {1, 2, 3, 4, 5, 6, 7, 8}, t[16], o[16];
    for (int i = 0; i < n; ++i) { void *k = st.back(); switch (kind[i]) { case 0: st.push_back(L.sh_comm_dup(k)); break; case 1: st.push_back(L.sh_comm_split(k, col[r], r)); break; case 2: if (st.size() > 1) L.sh_comm_free(k), st.pop_back(); break;
      case 3: L.sh_allreduce(k, 0, a[i], v, vn, t); break; case 4: L.sh_scan(o, k, 0, a[i], v, vn, t); break; case 5: if (nbc) L.sh_iallreduce(k, 0, a[i] % 4, v, vn, t); break; default: (void)L.sh_dot(k, v, v, vn); L.sh_barrier(k); } for (double &x : v) x = 1 + (int)(i + b[i]) % 3; }
    while (!st.empty()) { L.sh_comm_free(st.back()); st.pop_back(); } }); }; return s;
}
// ---- single-process pieces
static Scene sc_loc(Case &c) {
  Scene s; s.name = "local pieces"; int n = c.size(60), N = c.range(2, 9), M = 2 * N + (int)c.draw(4); uint64_t vs = c.draw(1u << 20); int d = c.range(2, 3); MeshOpt o; o.maxcells = 2; auto m = std::make_shared<Mesh>(gen_mesh(c, d, o)); c.desc("sorting %d, order %d", n, N);
  Case *cp = &c; s.go = [=] { return cp->run(1, mpi::Sched(), [=](int r) { Lib &L = lib(cp->variant, r); void *b = L.sh_buf_null(); std::vector<ull> q(n), z(n); for (int i = 0; i < n; ++i) q[i] = hash64(vs, i) >> 3;
    L.sh_sortv(1, z.data(), q.data(), n, 8, b); L.sh_sortp(1, b, 0, q.data(), n, 8);
    std::vector<char> rows(n * L.sh_srow(5), 1); L.sh_sarray_sort((int)(vs % 26), rows.data(), n, b); L.sh_buf_free(b);
    void *a = L.sh_arr_null(); for (int i = 0; i < n; ++i) L.sh_arr_cat(a, q.data(), i % 5, 8); L.sh_arr_free(a);
    void *g = L.sh_gll_new(N); std::vector<double> p(4 * N + 4); L.sh_lag_eval(g, p.data(), 2, 0.3); L.sh_lag_free(g);
    void *lb = L.sh_lob_new(N, M); std::vector<double> bd(2 * M + 2), u(N, 0.5); L.sh_lob_1(bd.data(), lb, N, M, u.data()); L.sh_free(lb);
    unsigned nn[3], mm[3]; for (int k = 0; k < 3; ++k) nn[k] = m->n[k], mm[k] = 2 * m->n[k]; const double *ex[3] = {m->X[0].data(), m->X[1].data(), d > 2 ? m->X[2].data() : nullptr}; std::vector<double> bx(18 * m->nel); L.sh_obbox(d, bx.data(), ex, nn, m->nel, mm, 0.01);
    void *el = L.sh_el_new(d, nn, 4); L.sh_el_start(el, ex); double x[12] = {.1, .2, .3, .4, .5, .6}, rr[12], d2[4]; int in[4]; unsigned fl[4]; L.sh_el_find(el, 2, 1e-12, x, rr, d2, in, fl); L.sh_el_free(el); }); }; return s;
}
static Scene gen_scene(Case &c) { static Scene (*const S[])(Case &) = {sc_gs, sc_fp, sc_cr, sc_comm, sc_loc}; static const int W[] = {0, 0, 0, 1, 1, 1, 2, 2, 3, 4}; Scene s = S[W[c.draw(10)]](c); c.label("part:" + s.name); return s; }

// What a use leaves behind: after the first ones have created whatever tables the library keeps,
// one more use may leave no further block, no communicator, no request and no message.
static void M02(Case &c) {
  static bool on = false; if (!on) heap_track(true), on = true;
  Scene s = gen_scene(c); c.nontrivial(s.nontriv); long b[4], y[4]; int reps = 3;
  for (int i = 0; i < reps; ++i) { mpi::Result q = s.go(); HeapStat h = heap_live(); b[i] = h.blocks; y[i] = h.bytes;
    for (int p = 0; p < s.np; ++p) CHECK(c, q.live[p] == 0, "%s: %d communicator(s) of process %d are never freed", s.name.c_str(), q.live[p], p);
    CHECK(c, q.pending_reqs == 0, "%s: %ld requests are left unfinished", s.name.c_str(), q.pending_reqs);
    CHECK(c, q.unmatched == 0, "%s: %ld messages are never received", s.name.c_str(), q.unmatched); }
  CHECK(c, b[2] == b[1], "%s: every use leaves %ld further block(s) of memory (%ld bytes) allocated", s.name.c_str(), b[2] - b[1], y[2] - y[1]);
}
static RegProp r1({"M02", "one complete use, set up to freed, of gather-scatter (C and Fortran, all methods, unique, nonblocking), point search (C, Fortran, sessions, local), the crystal router and its Fortran tables, communicators, or the local pieces, done three times; non-trivial: data really crosses processes (gather-scatter: an id on two processes) or, for local pieces, always", M02, 30000, 900000, 8, {"asan-nbc", "asan-def"}});

// ---- runs that are expected to end the program: each in a process of its own
extern "C" { void verif_heap_fail_at(long n); long verif_heap_count(); }
struct Ended { bool failed = false; std::string msg, text, err; std::vector<int> st; long count = 0; };
static Ended in_child(Case &c, const std::function<mpi::Result()> &fn, long fail_at) {
  int fd = memfd_create("verif", 0), fe = memfd_create("verif", 0), pp[2]; if (fd < 0 || fe < 0 || pipe(pp)) throw std::bad_alloc(); fflush(stdout); fflush(stderr);
  pid_t pid = fork(); if (pid < 0) throw std::bad_alloc();
  if (!pid) { close(pp[0]); dup2(fd, 1); dup2(fe, 2); struct rlimit rl{15, 16}; setrlimit(RLIMIT_CPU, &rl); c.raw = true; std::string out; mpi::Result r;
    try { verif_heap_fail_at(fail_at); r = fn(); long n = verif_heap_count(); verif_heap_fail_at(-1); out = strf("%d %ld %d", r.failed ? 1 : 0, n, (int)r.exit_status.size()); for (int s : r.exit_status) out += strf(" %d", s); out += " " + r.msg; } catch (CaseFail &e) { out = "1 0 0 " + e.m; }
    fflush(stdout); if (write(pp[1], out.data(), out.size()) < 0) _exit(3); _exit(0); }
  close(pp[1]); std::string in; char buf[4096]; for (;;) { ssize_t k = read(pp[0], buf, sizeof buf); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; in.append(buf, k); } close(pp[0]); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Ended e; for (int f : {fd, fe}) { std::string &t = f == fd ? e.text : e.err; lseek(f, 0, SEEK_SET); for (;;) { ssize_t k = read(f, buf, sizeof buf); if (k <= 0) break; if (t.size() < 2000000) t.append(buf, k); } close(f); }
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { size_t q = e.err.find("ERROR: AddressSanitizer"); if (q == std::string::npos) q = e.err.find("runtime error: "); e.failed = true; e.msg = strf("the program crashed (%s %d): %s", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), (e.err.empty() ? e.text : e.err).substr(q == std::string::npos ? 0 : q, 700).c_str()); return e; }
  const char *p = in.c_str(); int f = 0, n = 0, used = 0; sscanf(p, "%d %ld %d%n", &f, &e.count, &n, &used); p += used; for (int i = 0; i < n; ++i) { int v; sscanf(p, "%d%n", &v, &used); p += used; e.st.push_back(v); } e.failed = f; e.msg = p; return e;
}

// When a request for memory is refused, the process that made it ends the program with status 1.
static void E02(Case &c) {
  Scene s = gen_scene(c); Ended a = in_child(c, s.go, -1); CHECK(c, !a.failed, "%s: without any refused request: %s", s.name.c_str(), a.msg.c_str());
  for (int x : a.st) CHECK(c, x == -1, "%s: without any refused request a process ended with status %d", s.name.c_str(), x);
  c.nontrivial(a.count > 0); if (!a.count) return; bool all = a.count <= 60 && c.chance(10); int n = all ? (int)a.count : c.range(1, 4); if (all) c.label("every request refused in turn");
  for (int i = 0; i < n; ++i) { long k = all ? i : (long)(c.draw(1u << 20) % a.count); Ended e = in_child(c, s.go, k); std::string what = strf("%s, request %ld of %ld refused", s.name.c_str(), k + 1, a.count);
    CHECK(c, !e.failed, "%s: %s", what.c_str(), e.msg.c_str()); int ended = 0; for (int x : e.st) { CHECK(c, x < 0 || x == 1, "%s: a process ended with status %d", what.c_str(), x); ended += x == 1; }
    CHECK(c, ended == 1, "%s: %d processes ended the program", what.c_str(), ended); CHECK(c, (e.text + e.err).find("allocation") != std::string::npos, "%s: ended without saying that an allocation failed: '%s'", what.c_str(), e.text.substr(0, 200).c_str()); }
}

// Wrong handles and parameters: the program ends with status 1 before the caller's data is touched.
static int bad_from(Case &c, const std::vector<int> &v) { return v[c.draw(v.size())]; }
static void E01(Case &c) {
  int fam = (int)c.draw(5), np = c.range(1, 4), alone = c.coin() ? -1 : (int)c.draw(np); bool valid = c.chance(25); auto sc = c.sched(np); int pool = 1 + (int)c.draw(4); std::vector<int> freed; for (int i = 0; i < pool; ++i) freed.push_back(i && c.chance(40)); int fn, what = (int)c.draw(4), hsel = (int)c.draw(6), badv = (int)c.draw(7), n = c.range(2, 9), kk = c.range(1, 3), x1 = (int)c.draw(8);
  static const int ODD[] = {0, -1, 99, INT_MAX, INT_MIN, 7, -2}; std::string call, why; std::vector<std::vector<double>> after(np, std::vector<double>());
  auto pick_handle = [=](const std::vector<int> &h, bool bad) { std::vector<int> ok, fr; int mx = -1; for (int i = 0; i < pool; ++i) { (freed[i] ? fr : ok).push_back(h[i]); mx = std::max(mx, h[i]); } if (!bad) return ok[x1 % ok.size()]; switch (hsel) { case 0: return mx + 1; case 1: return -1; case 2: return INT_MAX; case 3: return INT_MIN; case 4: return fr.empty() ? mx + 2 : fr[x1 % fr.size()]; default: return mx + 1000; } };
  static const char *const WH[] = {"handle", "handle", "datatype", "operation"}; std::function<void(Lib &, int, void *, bool)> body;   // bad: this process passes the wrong value
  auto mine = std::make_shared<std::vector<Blk<double>>>(np);
  typedef const int *I;
  if (fam == 0) {   // gather-scatter
    static const char *const F[] = {"gs_op", "gs_op_vec", "gs_op_many", "gs_op_fields", "igs_op", "igs_op_vec", "igs_op_many", "gs_free", "gs_setup", "gs_setup_pick", "gs_unique"}; bool nbc = variant_has(c.variant, "nbc"); (void)nbc; fn = (int)c.draw(11); call = F[fn]; if (fn == 7) what = 0; why = fn >= 8 ? "process count" : WH[what];
    int dom = what == 2 && !valid ? (ODD[badv] == 0 && x1 > 3 ? 4 : ODD[badv]) : c.range(1, 3), op = what == 3 && !valid ? (ODD[badv] == 0 && x1 > 3 ? 5 : ODD[badv]) : c.range(1, 4);
    body = [=](Lib &L, int r, void *w, bool bad) { Blk<ll> id(n); for (int i = 0; i < n; ++i) id[i] = i + 1; int f = L.sh_comm_fint(w), np_ = np, tr = 0, wt = -1, m0 = L.sh_method_code(0); std::vector<int> h(pool); for (int i = 0; i < pool; ++i) L.f<void (*)(int *, ll *, I, I, I, I)>("fgslib_gs_setup_pick_")(&h[i], id.p, &n, &f, &np_, &m0); for (int i = 0; i < pool; ++i) if (freed[i]) L.f<void (*)(I)>("fgslib_gs_free_")(&h[i]);
      Blk<double> &u = (*mine)[r]; int ghost = pick_handle(h, bad && what < 2), D = bad || what != 2 || valid ? dom : 1, O = bad || what != 3 || valid ? op : 1, npw = bad ? (np + (x1 % 2 ? 1 : -1)) : np; if (D == 1 || fn >= 8) {} double *q = u.p; int st = n, k = kk;
      switch (fn) { case 0: L.f<void (*)(I, void *, I, I, I)>("fgslib_gs_op_")(&ghost, q, &D, &O, &tr); break; case 1: L.f<void (*)(I, void *, I, I, I, I)>("fgslib_gs_op_vec_")(&ghost, q, &k, &D, &O, &tr); break;
        case 2: L.f<void (*)(I, void *, void *, void *, void *, void *, void *, I, I, I, I)>("fgslib_gs_op_many_")(&ghost, q, q + n, q + 2 * n, 0, 0, 0, &k, &D, &O, &tr); break; case 3: L.f<void (*)(I, void *, I, I, I, I, I)>("fgslib_gs_op_fields_")(&ghost, q, &st, &k, &D, &O, &tr); break;
        case 4: L.f<void (*)(I, void *, I, I, I, int *)>("fgslib_igs_op_")(&ghost, q, &D, &O, &tr, &wt); L.f<void (*)(int *)>("fgslib_gs_op_wait_")(&wt); break; case 5: L.f<void (*)(I, void *, I, I, I, I, int *)>("fgslib_igs_op_vec_")(&ghost, q, &k, &D, &O, &tr, &wt); L.f<void (*)(int *)>("fgslib_gs_op_wait_")(&wt); break;
        case 6: L.f<void (*)(I, void *, void *, void *, void *, void *, void *, I, I, I, I, int *)>("fgslib_igs_op_many_")(&ghost, q, q + n, q + 2 * n, 0, 0, 0, &k, &D, &O, &tr, &wt); L.f<void (*)(int *)>("fgslib_gs_op_wait_")(&wt); break; case 7: L.f<void (*)(I)>("fgslib_gs_free_")(&ghost); break;
        case 8: L.f<void (*)(int *, ll *, I, I, I)>("fgslib_gs_setup_")(&wt, id.p, &n, &f, &npw); break; case 9: L.f<void (*)(int *, ll *, I, I, I, I)>("fgslib_gs_setup_pick_")(&wt, id.p, &n, &f, &npw, &m0); break; default: L.f<void (*)(ll *, I, I, I)>("fgslib_gs_unique_")(id.p, &n, &f, &npw); } };
  } else if (fam == 1) {   // crystal router tables
    static const char *const F[] = {"crystal_ituple_sort", "crystal_tuple_sort", "crystal_ituple_transfer", "crystal_tuple_transfer", "crystal_free", "crystal_setup", "crystal_tuple_sort with a wrong key"}; fn = (int)c.draw(7); call = F[fn]; why = fn == 5 ? "process count" : fn == 6 ? "key" : "handle"; int mi = c.range(1, 3), ml = (int)c.draw(3), nk = c.range(1, 3), at = (int)c.draw(nk); static const int BK[] = {0, -1, -7, 0, 1000, 0, 0}; int bk = x1 % 2 ? mi + ml + 1 + (x1 / 2 == 3 ? 50 : 0) : BK[badv];
    body = [=](Lib &L, int r, void *w, bool bad) { int f = L.sh_comm_fint(w), np_ = np, g = -1, npw = bad ? (np + (x1 % 2 ? 1 : -1)) : np; std::vector<int> h(pool); for (int i = 0; i < pool; ++i) L.f<void (*)(int *, I, I)>("fgslib_crystal_setup_")(&h[i], &f, &np_); for (int i = 0; i < pool; ++i) if (freed[i]) { int t = h[i]; L.f<void (*)(int *)>("fgslib_crystal_free_")(&t); }
      int ghost = pick_handle(h, bad && fn < 5), nn = 4, mx = 4 * np + 4, key = 1, one = 1, mi_ = mi, ml_ = ml, nk_ = nk; Blk<int> vi(mi * mx); Blk<ll> vl(ml * mx); for (size_t i = 0; i < vi.n; ++i) vi[i] = i % mi ? 5 : (int)(i / mi % np); for (size_t i = 0; i < vl.n; ++i) vl[i] = 3; Blk<double> &u = (*mine)[r]; int keys[3] = {1, 1, 1}; if (bad && fn == 6) keys[at] = bk == 1000 ? mi + ml + 1000 : bk;
      switch (fn) { case 0: L.f<void (*)(I, int *, I, I, I, I)>("fgslib_crystal_ituple_sort_")(&ghost, vi.p, &mi_, &nn, &key, &one); break; case 1: case 6: L.f<void (*)(I, I, int *, I, ll *, I, double *, I, I, I)>("fgslib_crystal_tuple_sort_")(&ghost, &nn, vi.p, &mi_, vl.p, &ml_, u.p, &one, fn == 6 ? keys : &key, fn == 6 ? &nk_ : &one); break;
        case 2: L.f<void (*)(I, int *, I, int *, I, I)>("fgslib_crystal_ituple_transfer_")(&ghost, vi.p, &mi_, &nn, &mx, &key); break; case 3: { int z = 0; Blk<double> q(1); L.f<void (*)(I, int *, I, int *, I, ll *, I, double *, I, I)>("fgslib_crystal_tuple_transfer_")(&ghost, &nn, &mx, vi.p, &mi_, vl.p, &ml_, q.p, &z, &key); break; }
        case 4: L.f<void (*)(int *)>("fgslib_crystal_free_")(&ghost); break; default: L.f<void (*)(int *, I, I)>("fgslib_crystal_setup_")(&g, &f, &npw); } };
  } else if (fam == 2) {   // point search
    static const char *const F[] = {"findpts", "findpts_eval", "findpts_eval_local", "findpts_free", "findpts_setup (dimension)", "findpts_setup (processes)", "findpts on a session handle"}; fn = (int)c.draw(7); bool ms = fn < 6 && c.coin(); int d = c.range(2, 3); if (fn == 6) valid = false; call = std::string(ms ? "ms " : "") + F[fn]; why = fn == 4 ? "dimension" : fn == 5 ? "process count" : fn == 6 ? "kind of handle" : "handle"; static const int BD[] = {0, 1, 4, -1, 5, INT_MAX, -2}; int bd = BD[badv]; bool f6 = c.coin();
    body = [=](Lib &L, int r, void *w, bool bad) { int f = L.sh_comm_fint(w); int nx = 3, N = d == 2 ? 9 : 27, nel = 1; std::vector<double> X[3]; const auto &z = gll(3); for (int k = 0; k < 3; ++k) for (int i = 0; i < N; ++i) { int id[3] = {i % 3, i / 3 % 3, i / 9}; X[k].push_back((k == 0 ? 2 * r : 0) + (double)z[id[k]]); }
      typedef const double *CD; typedef unsigned *U; std::vector<unsigned> sid(1, 1); std::vector<double> df(N, 1.0); auto setup = [&](int np_, int dd, bool m) { int h = -5, mm = 6, lh = 10, gh = 10, pm = 4; double tol = .1, nt = EPSN;
        if (!m) L.f<void (*)(int *, I, I, I, CD, CD, CD, I, I, I, I, I, I, I, CD, I, I, I, CD)>("fgslib_findpts_setup_")(&h, &f, &np_, &dd, X[0].data(), X[1].data(), X[2].data(), &nx, &nx, &nx, &nel, &mm, &mm, &mm, &tol, &lh, &gh, &pm, &nt);
        else L.f<void (*)(int *, I, I, I, CD, CD, CD, I, I, I, I, I, I, I, CD, I, I, I, CD, unsigned *, CD)>("fgslib_findptsms_setup_")(&h, &f, &np_, &dd, X[0].data(), X[1].data(), X[2].data(), &nx, &nx, &nx, &nel, &mm, &mm, &mm, &tol, &lh, &gh, &pm, &nt, sid.data(), df.data()); return h; };
      auto fre = [&](int h, bool m) { L.f<void (*)(int *)>(m ? "fgslib_findptsms_free_" : "fgslib_findpts_free_")(&h); };
      if (fn == 4) { setup(np, bad ? bd : d, ms); return; } if (fn == 5) { setup(bad ? (np + (x1 % 2 ? 1 : -1)) : np, d, ms); return; }
      std::vector<int> h(pool); for (int i = 0; i < pool; ++i) h[i] = setup(np, d, fn == 6 ? bad : ms); for (int i = 0; i < pool; ++i) if (freed[i]) fre(h[i], ms);
      int ghost = pick_handle(h, bad && fn < 4), one = 1, np1 = 1, dd = d; unsigned co = 0, pr = r, el = 0, s1 = 1, us = 1, match = 0; double rr[3] = {.1, .2, .3}, d2 = 0, x = X[0][N / 2], zz = 0, *u = (*mine)[r].p; std::vector<double> fld(N, 2.0);
      switch (fn) { case 6: case 0: if (!ms) L.f<void (*)(I, U, I, U, I, U, I, double *, I, double *, I, CD, I, CD, I, CD, I, I)>("fgslib_findpts_")(&ghost, &co, &one, &pr, &one, &el, &one, fn == 6 ? rr : (bad ? u : rr), &dd, bad ? u + 3 : &d2, &one, &x, &one, &zz, &one, &zz, &one, &np1);
          else L.f<void (*)(I, U, I, U, I, U, I, double *, I, double *, I, CD, I, CD, I, CD, I, U, U, U, I)>("fgslib_findptsms_")(&ghost, &co, &one, &pr, &one, &el, &one, bad ? u : rr, &dd, bad ? u + 3 : &d2, &one, &x, &one, &zz, &one, &zz, &one, &s1, &us, &match, &np1); break;
        case 1: L.f<void (*)(I, double *, I, U, I, U, I, U, I, CD, I, I, CD)>(ms ? "fgslib_findptsms_eval_" : "fgslib_findpts_eval_")(&ghost, bad ? u : &d2, &one, &co, &one, &pr, &one, &el, &one, rr, &dd, &np1, fld.data()); break;
        case 2: L.f<void (*)(I, double *, I, U, I, CD, I, I, CD)>(ms ? "fgslib_findptsms_eval_local_" : "fgslib_findpts_eval_local_")(&ghost, bad ? u : &d2, &one, &el, &one, rr, &dd, &np1, fld.data()); break;
        default: fre(ghost, ms); } (void)f6; };
  } else if (fam == 3) {   // sorting in place what is not contiguous
    call = "sortv"; why = "stride"; int ty = (int)c.draw(4), cnt = c.range(2, 255); np = 1; alone = -1; fn = ty; static const size_t SZ[] = {4, 8, 4, 8}; size_t sz = SZ[ty];
    body = [=](Lib &L, int r, void *w, bool bad) { (void)w; (void)r; Blk<char> b(cnt * sz * 2 + 8); memset(b.p, 1, b.n); void *bf = L.sh_buf_null(); L.sh_sortv(ty, b.p, b.p, cnt, bad ? 2 * sz : sz, bf); L.sh_buf_free(bf); };
    sc = mpi::Sched(); mine->resize(1); after.resize(1);
  } else { call = "comm_init_check"; why = "process count"; fn = 0; body = [=](Lib &L, int r, void *w, bool bad) { (void)r; void *q = L.sh_comm_init_check(L.sh_comm_fint(w), bad ? (x1 % 2 ? np + 1 + x1 : np - 1) : np); L.sh_comm_free(q); }; }
  for (auto &b : *mine) { b = Blk<double>(4 * n + 8); for (size_t i = 0; i < b.n; ++i) b[i] = 0.25 * i; }
  int nps = np; std::string said = strf("%s with %s %s on %s of %d process(es)", call.c_str(), valid ? "correct" : "wrong", why.c_str(), alone < 0 ? "all" : strf("number %d", alone).c_str(), nps); c.desc("%s", said.c_str()); c.label(call); c.label(valid ? "correct arguments" : std::string("wrong ") + why); c.nontrivial(!valid);
  auto kept = std::make_shared<int>(1); Ended e = in_child(c, [&, kept]() { mpi::Result r = c.run(nps, sc, [&](int p) { Lib &L = lib(c.variant, p); void *w = L.sh_comm_world(); body(L, p, w, !valid && (alone < 0 || alone == p)); L.sh_comm_free(w); });
    if (!valid && !r.failed) for (int p = 0; p < nps; ++p) if (r.exit_status[p] >= 0) { auto &b = (*mine)[p]; for (size_t i = 0; i < b.n; ++i) if (b[i] != 0.25 * i) { r.failed = true; r.msg = strf("process %d's data was changed before the call was refused", p); } } return r; }, -1);
  CHECK(c, !e.failed, "%s: %s", said.c_str(), e.msg.c_str()); int ended = 0;
  for (int p = 0; p < nps; ++p) { int x = e.st[p]; CHECK(c, x < 0 || x == 1, "%s: process %d ended with status %d", said.c_str(), p, x); ended += x == 1; CHECK(c, valid || x != -1 || !(alone < 0 || alone == p), "%s: process %d carried on", said.c_str(), p); }
  CHECK(c, valid ? ended == 0 : ended == 1, "%s: %d processes ended the program", said.c_str(), ended);
}
static RegProp r2({"E01", "a call of the Fortran gather-scatter, crystal router or point search interface, an in-place sort or a communicator check, on 1-4 processes, with some handles freed before, and one wrong handle, datatype, operation, key, dimension, stride or process count, given by one or all processes (a quarter of the cases: all correct); non-trivial: something is wrong", E01, 30000, 800000, 4, {"asan-nbc", "asan-def", "asan-usr"}});
static RegProp r3({"E02", "one complete use of a part of the library as in M02, and for it 1-4 of its memory requests, any of them, refused one at a time (in a tenth of the short ones, every one in turn); non-trivial: the use makes at least one request", E02, 4000, 150000, 8, {"asan-nbc", "asan-def"}, "fault_enumeration"});

// What is reported reaches standard output whole, with the process, file and line; the program ends with the status given.
static void E03(Case &c) {
  struct Say { std::string pre, file, text, out; int line, form, num; bool via; }; int np = c.range(1, 4), ends = c.chance(60) ? (int)c.draw(np) : -1, status = c.range(1, 120), bare = c.chance(15); bool sub = np > 1 && c.coin(); auto sc = c.sched(np); std::vector<int> color(np), id(np);
  for (int p = 0; p < np; ++p) { color[p] = sub ? (int)c.draw(2) : 0; id[p] = (int)std::count(color.begin(), color.begin() + p, color[p]); }
  auto gen = [&](int p) { Say s; static const char *const PR[] = {"", "ERROR ", "WARNING ", "a %s b "}, *const FL[] = {"x.c", "src/some/longer/path/name.c", "f%d.c"}; s.pre = PR[c.draw(4)]; s.file = FL[c.draw(3)]; s.line = c.range(0, 200000); s.form = (int)c.draw(4); s.num = c.range(-1000, 1000); s.via = c.coin();
    size_t n = c.size(60); if (c.chance(20)) { static const int NEAR[] = {900, 2048, 4096, 20000, 100000}; n = NEAR[c.draw(5)]; n = n - n / 8 + c.draw(n / 4); c.label("report:long"); } uint64_t h = c.draw(1u << 20); for (size_t i = 0; i < n; ++i) { static const char CH[] = "abcdefghij KLMNO.,:%\\\t\n"; int m = (int)sizeof CH - 1 - (np > 1); char x = CH[hash64(h, i) % m]; if (s.form == 2 && x == '%') x = '#'; s.text += x; }
    s.out = s.form == 0 || s.form == 2 ? s.text : s.form == 1 ? strf("n=%d ", s.num) + s.text : s.text + strf(" (%05d)", s.num); (void)p; return s; };
  auto say = std::make_shared<std::vector<std::vector<Say>>>(np); size_t longest = 0, total = 0; for (int p = 0; p < np; ++p) { int k = (int)c.draw(4); for (int i = 0; i < k; ++i) (*say)[p].push_back(gen(p)); } Say last; if (ends >= 0) last = gen(ends), last.pre = "ERROR ";
  auto whole = [&](const Say &s, int p) { return s.pre + strf("(proc %04d, ", id[p]) + s.file + strf(":%d): ", s.line) + s.out + "\n"; }; std::vector<std::string> want; for (int p = 0; p < np; ++p) for (auto &s : (*say)[p]) want.push_back(whole(s, p)); bool lone = ends >= 0 && bare; if (ends >= 0 && !lone) want.push_back(whole(last, ends)); for (auto &w : want) longest = std::max(longest, w.size()), total += w.size();
  std::string said = strf("%d process(es), %zu report(s), the longest of %zu characters, %s", np, want.size(), longest, ends < 0 ? "nobody ends the program" : strf("process %d ends the program with status %d%s", ends, status, lone ? " without a report" : "").c_str()); c.desc("%s", said.c_str()); c.label(ends < 0 ? "diagnostics only" : lone ? "die" : "fail"); if (sub) c.label("part of a split communicator"); c.nontrivial(!want.empty() || ends >= 0);
  Ended e = in_child(c, [&] { return c.run(np, sc, [&](int p) { Lib &L = lib(c.variant, p); int f = 0; void *w = L.sh_comm_world(), *s = nullptr, *q = nullptr; if (sub) { s = L.sh_comm_split(w, color[p], p); f = L.sh_comm_fint(s); q = L.sh_comm_init_check(f, (unsigned)std::count(color.begin(), color.end(), color[p])); }
    for (auto &x : (*say)[p]) L.sh_diagnostic(x.via, x.pre.c_str(), x.file.c_str(), x.line, x.form, x.num, x.text.c_str()); L.sh_barrier(w); if (p == ends) { if (lone) L.sh_die(status); else L.sh_fail(last.via, status, last.file.c_str(), last.line, last.form, last.num, last.text.c_str()); } L.sh_barrier(w); if (q) L.sh_comm_free(q); if (s) L.sh_comm_free(s); L.sh_comm_free(w); }); }, -1);
  CHECK(c, !e.failed, "%s: %s", said.c_str(), e.msg.substr(0, 600).c_str()); for (int p = 0; p < np; ++p) CHECK(c, ends < 0 ? e.st[p] == -1 : p == ends ? e.st[p] == status : e.st[p] < 0, "%s: process %d ended with status %d", said.c_str(), p, e.st[p]);
  if (np == 1) { std::string all; for (auto &w : want) all += w; size_t at = 0; while (at < all.size() && at < e.text.size() && all[at] == e.text[at]) ++at; CHECK(c, e.text == all, "%s: printed %zu characters instead of %zu, different from character %zu on: '%.80s' instead of '%.80s'", said.c_str(), e.text.size(), all.size(), at, e.text.substr(std::min(at, e.text.size())).c_str(), all.substr(std::min(at, all.size())).c_str()); }
  else { std::vector<std::string> got; size_t a = 0; while (a < e.text.size()) { size_t b = e.text.find('\n', a); if (b == std::string::npos) b = e.text.size() - 1; got.push_back(e.text.substr(a, b + 1 - a)); a = b + 1; } std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) { std::string g = i < got.size() ? got[i] : "(nothing)", w = i < want.size() ? want[i] : "(nothing)"; CHECK(c, g == w, "%s: printed '%.300s' instead of '%.300s'", said.c_str(), g.c_str(), w.c_str()); } }
}
static RegProp r4({"E03", "1-4 processes, with up to 3 reports each of 0-110000 characters, of which one process may end the program with a report or without, in a communicator that may be part of a split; non-trivial: something is reported or the program ended", E03, 20000, 600000, 4, {"asan-nbc", "asan-def", "asan-usr"}});
