// props: G01 G02 G03 G04 G05 G06
// variants: asan-nbc asan-def fast-def fast-nbc
#include "gs_model.hpp"

static void say(Case &c, const GsMachine &m, const std::string &note) {
  c.desc("np=%d %s;", m.np, note.c_str());
  for (auto &o : m.ops) c.desc(" {h%d %s/%s t%d mode%d k%d}", o.h, DOMN[o.dom], OPN[o.op], o.tr, o.mode, o.k);
}
static void labels(Case &c, const GsMachine &m) {
  for (auto &g : m.h) { static const char *const M[] = {"pairwise", "crystal", "allreduce", "auto"}; c.label(std::string("method:") + M[g.method]); if (g.gr.flagged) c.label("gs:flagged"); if (g.gr.shared) c.label("gs:shared-across-processes"); if (g.commkind == 2) c.label("gs:split-communicator"); }
  for (auto &o : m.ops) { c.label(std::string("dom:") + DOMN[o.dom]); c.label(std::string("op:") + OPN[o.op]); c.label(o.tr ? "transpose:1" : "transpose:0"); static const char *const D[] = {"mode:plain", "mode:vec", "mode:many", "mode:fields"}; c.label(D[o.mode]); }
}

static void gs_one(Case &c, int modes, int maxk) {
  int np = pick_np(c, c.chance(25) ? 12 : 8); std::string note; GsMachine m(c, np); TopoOpt o; o.big = true; Topo t = gen_topo(c, np, o, &note);
  int hi = m.add_handle(t, (int)c.draw(4), 0, c.chance(15) ? 2 : 0, 0, c.chance(10)); m.act(0, hi);
  int nops = 1 + (int)c.draw(4); for (int i = 0; i < nops; ++i) m.act(2, m.add_op(m.gen_op(hi, modes, maxk)));
  m.act(1, hi); say(c, m, note); labels(c, m); m.go(c.sched(np)); m.check_ops("gs"); c.nontrivial(m.h[hi].gr.shared);
}
static void G01(Case &c) { gs_one(c, 1, 1); }
static void G02(Case &c) { gs_one(c, 6, 7); }

static RegProp r1({"G01", "a case is a process count 1-20, an id layout (random pool, overlapping chain, id-to-holder lists, large) with flags and zeros, a method, a communicator, a message schedule and 1-4 operations; non-trivial: some id is held by two processes", G01, 80000, 1600000, 20, {"asan-nbc", "fast-def"}});
static RegProp r2({"G02", "as G01 with vector and multi-array operations of 0-7, rarely up to 40, components; non-trivial: some id is held by two processes", G02, 64000, 1200000, 20, {"asan-nbc", "fast-def"}});

static std::string tail(const std::string &n) { return n.substr(0, 220); }

// Several handles; operations started, overlapped with blocking work on other
// handles, and completed in an order that each process chooses for itself.
static void G03(Case &c) {
  int np = pick_np(c, 8); std::string note, notes; GsMachine m(c, np); TopoOpt o; o.maxn = 9; bool nbc = variant_has(c.variant, "nbc");
  int nh = 1 + (int)c.draw(c.chance(25) ? 6 : 3); bool any = false; if (c.draw(40) == 39) nh = 7 + (int)c.draw(18), o.maxn = 4, c.label("igs:many-handles");
  for (int i = 0; i < nh; ++i) { Topo t = gen_topo(c, np, o, &note); notes += tail(note) + " "; static const int MB[] = {0, 1, 2, 3}; int api = c.chance(20);
    int meth = nbc ? MB[c.draw(4)] : (int)c.draw(2); int hi = m.add_handle(t, meth, 0, c.chance(20) ? 2 : 0, api, 0); if (api) m.h[hi].pick = true; m.act(0, hi); any |= m.h[hi].gr.shared; }
  m.waits.resize(np); for (int r = 0; r < np; ++r) m.waits[r] = c.perm(nh);
  bool overlap = false;
  if (nh > 1 && c.coin()) {   // a long history: every process keeps its own set of operations in flight
    c.label("igs:rolling"); int steps = 3 + (int)c.draw(c.draw(20) == 19 ? 60 : 12); std::vector<std::vector<int>> out(np);
    auto settle = [&](std::function<bool(int, int)> must, int pct) { m.rw.emplace_back(np); for (int r = 0; r < np; ++r) { auto q = c.perm((int)out[r].size()); std::vector<int> left; for (int j : q) { int o = out[r][j]; if (must(r, o) || c.chance(pct)) m.rw.back()[r].push_back(o); else left.push_back(o); } std::sort(left.begin(), left.end()); out[r] = left; } m.act(6, (int)m.rw.size() - 1); };
    static const int PCT[] = {0, 15, 50}; int pct = PCT[c.draw(3)];
    for (int k = 0; k < steps; ++k) { int x = (int)c.draw(nh); bool api = m.h[x].api;
      settle([&](int, int o) { int y = m.ops[o].h; return y == x || (api && m.h[y].api); }, pct);
      if (!api && c.chance(25)) { GOp b = m.gen_op(x, 7, 3); if (!b.buf) b.buf = 1; m.act(2, m.add_op(b)); c.label("igs:blocking-op-meanwhile"); continue; }
      int oi = m.add_op(m.gen_op(x, 7, 5)); m.act(3, oi); for (int r = 0; r < np; ++r) { out[r].push_back(oi); if (out[r].size() > 1) c.label("igs:several-outstanding"); } }
    settle([](int, int) { return true; }, 0);
  }
  else { int rounds = 1 + (int)c.draw(3);
  for (int k = 0; k < rounds; ++k) {
    std::vector<int> order = c.perm(nh), started; bool fapi = false; std::vector<int> ids;
    for (int x : order) { if (started.size() && c.coin()) continue; bool api = m.h[x].api; if (api && fapi) continue; fapi |= api; int oi = m.add_op(m.gen_op(x, 7, 5)); m.act(3, oi); started.push_back(x); ids.push_back(oi); }
    // blocking operations with their own buffers while the others are pending
    for (int x = 0; x < nh; ++x) if (std::find(started.begin(), started.end(), x) == started.end() && !m.h[x].api && c.coin()) { GOp b = m.gen_op(x, 7, 3); if (!b.buf) b.buf = 1; m.act(2, m.add_op(b)); c.label("igs:blocking-op-meanwhile"); }
    if (started.size() > 1) overlap = true, c.label("igs:several-outstanding");
    if (c.coin()) m.act(4, -1); else { auto q = c.perm(ids.size()); for (int j : q) m.act(4, ids[j]); }
  }
  }
  for (int i = 0; i < nh; ++i) m.act(1, i);
  say(c, m, notes); labels(c, m); m.go(c.sched(np)); m.check_ops("nonblocking"); c.nontrivial(any); (void)overlap;
}

static void G04(Case &c) {
  int np = pick_np(c, c.chance(25) ? 12 : 8); std::string note; GsMachine m(c, np); TopoOpt o; o.big = true; Topo t = gen_topo(c, np, o, &note);
  int a = m.add_handle(t, (int)c.draw(4), 1, c.chance(25) ? 2 : 0, 0, 0); m.act(0, a);
  int f = m.add_handle(t, 0, 0, m.h[a].commkind, c.chance(30), 0); m.h[f].color = m.h[a].color; m.h[f].key = m.h[a].key; m.h[f].gr = m.h[a].gr; m.act(5, f);
  int nops = (int)c.draw(4); for (int i = 0; i < nops; ++i) m.act(2, m.add_op(m.gen_op(a, 7, 3)));
  m.act(1, a); say(c, m, note); labels(c, m); mpi::Sched sc = c.sched(np); m.go(sc);
  verify_unique(c, t, m.uniq[f], m.h[f].color); m.h[a].eff = m.uniq[f]; m.check_ops("unique");
  if (c.coin()) {   // again, on its own result: nothing left to do; and the explicit route agrees
    GsMachine m2(c, np); int g = m2.add_handle(m.uniq[f], (int)c.draw(4), 0, 0, 0, 0); m2.h[g].commkind = m.h[f].commkind; m2.h[g].color = m.h[f].color; m2.h[g].key = m.h[f].key; m2.h[g].gr = m.h[f].gr; m2.act(5, g); m2.act(0, g); m2.act(2, m2.add_op(m2.gen_op(g, 7, 3))); m2.act(1, g); m2.go(sc);
    for (int p = 0; p < np; ++p) for (size_t i = 0; i < t.id[p].size(); ++i) CHECK(c, m2.uniq[g].id[p][i] == m.uniq[f].id[p][i], "unique applied twice: process %d entry %zu: %lld became %lld", p, i, m.uniq[f].id[p][i], m2.uniq[g].id[p][i]);
    m2.check_ops("setup after unique"); c.label("gs:unique-twice");
  }
  c.nontrivial(m.h[a].gr.multi);
}

// Handles on different communicators come and go; each behaves as if alone.
static void G05(Case &c) {
  int np = pick_np(c, 8); std::string note, notes; GsMachine m(c, np); TopoOpt o; o.maxn = 8; int nh = 2 + (int)c.draw(4); bool any = false; std::vector<int> live; size_t most = 8; if (c.draw(25) == 24) nh = 8 + (int)c.draw(30), most = 60, o.maxn = 3, c.label("gs:many-handles");
  auto fresh = [&] { Topo t = gen_topo(c, np, o, &note); notes += tail(note) + " "; int api = c.chance(25); int hi = m.add_handle(t, (int)c.draw(4), 0, (int)c.draw(3), api, 0); m.h[hi].pick = c.coin(); m.act(0, hi); live.push_back(hi); any |= m.h[hi].gr.shared; };
  for (int i = 0; i < nh; ++i) fresh();
  int steps = 3 + (int)c.draw(most > 8 ? 40 : 8);
  for (int s = 0; s < steps; ++s) { int k = (int)c.draw(10);
    if (k == 8 && live.size() > 1) { int j = (int)c.draw(live.size()); m.act(1, live[j]); live.erase(live.begin() + j); c.label("gs:freed-in-between"); }
    else if (k == 9 && m.h.size() < most) { fresh(); c.label("gs:setup-in-between"); }
    else { int x = live[c.draw(live.size())]; m.act(2, m.add_op(m.gen_op(x, m.h[x].api ? 15 : 7, 4))); } }
  // message statistics of the pairwise method
  std::vector<std::vector<int>> st(np);
  for (int x : live) m.act(1, x);
  say(c, m, notes); labels(c, m); Topo t2 = gen_topo(c, np, o, &note); std::vector<int> col(np, 0);
  m.go(c.sched(np), [&](Lib &L, int r, void *w) { auto ids = blk(t2.id[r]); void *h = L.sh_gs_setup(ids.p, ids.n, w, 0, 0, 0); int n = -1; L.sh_pw_nmsg(h, &n); std::vector<int> v(n > 0 ? n : 1); L.sh_pw_size(h, v.data()); v.resize(n > 0 ? n : 0); st[r] = v; L.sh_gs_free(h); });
  m.check_ops("interleaved handles");
  for (int p = 0; p < np; ++p) { std::vector<int> want; for (int q = 0; q < np; ++q) if (q != p) { std::set<ll> mine, theirs; for (ll v : t2.id[p]) if (v) mine.insert(std::llabs(v)); for (ll v : t2.id[q]) if (v > 0 && mine.count(v)) theirs.insert(v); if (theirs.size()) want.push_back(theirs.size()); }
    auto a = st[p], b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(c, a == b, "pairwise statistics of process %d: %zu messages, expected %zu (%s)", p, a.size(), b.size(), note.c_str()); }
  c.nontrivial(any && nh > 1);
}

static void G06(Case &c) {
  int np = pick_np(c, 8); std::string note; GsMachine m(c, np); TopoOpt o; o.maxn = 10; Topo t = gen_topo(c, np, o, &note);
  bool uq = c.chance(25);
  int hi = m.add_handle(t, (int)c.draw(4), 0, (int)c.draw(3), 1, 0); m.h[hi].pick = c.coin();
  int nops = 1 + (int)c.draw(4); bool nbc = variant_has(c.variant, "nbc"); m.waits.assign(np, {});
  if (uq) m.act(5, hi);
  m.act(0, hi);
  for (int i = 0; i < nops; ++i) { bool ib = c.chance(30) && m.h[hi].pick && (nbc || m.h[hi].method < 2); GOp q = m.gen_op(hi, ib ? 7 : 15, 6); int oi = m.add_op(q); if (ib) m.act(3, oi), m.act(4, oi), c.label("fortran:nonblocking"); else m.act(2, oi); }
  m.act(1, hi); say(c, m, note); labels(c, m); m.go(c.sched(np)); if (uq) verify_unique(c, t, m.uniq[hi], m.h[hi].color); m.check_ops("fortran"); c.nontrivial(m.h[hi].gr.shared);
}
static RegProp r3({"G03", "1-24 handles; either 1-3 rounds in which operations are started on several handles, blocking operations run meanwhile and every process completes the started ones in its own order, or a rolling history of 3-62 starts where every process keeps its own set in flight; non-trivial: some id is held by two processes", G03, 48000, 1000000, 8, {"asan-nbc", "asan-def", "fast-nbc"}});
static RegProp r4({"G04", "as G01 with ids made unique, by the explicit call (C and Fortran) and at setup, then 0-3 operations; non-trivial: some id occurs twice", G04, 48000, 1000000, 20, {"asan-nbc", "fast-def"}});
static RegProp r5({"G05", "2-60 handles on the world, duplicated and split communicators, C and Fortran, with 3-42 operations, setups and frees interleaved; non-trivial: some id is held by two processes", G05, 27000, 600000, 8, {"asan-nbc", "fast-def"}});
static RegProp r6({"G06", "Fortran entry points: setup, setup_pick, op, vec, many, fields, nonblocking, unique, free; non-trivial: some id is held by two processes", G06, 56000, 1000000, 8, {"asan-nbc", "asan-def"}});
