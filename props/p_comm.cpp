// props: C01 C02 C03
// variants: asan-nbc asan-def
#include "common.hpp"


// the communicator a rank works in: world, a duplicate, or its part of a split
struct Comms { int kind; std::vector<int> color, key, id, np; std::vector<std::vector<int>> members; };
static Comms gen_comms(Case &c, int np) {
  Comms k; k.kind = (int)c.draw(3); k.color.assign(np, 0); k.key.assign(np, 0); k.id.resize(np); k.np.resize(np); k.members.resize(np);
  if (k.kind == 2) { int nc = 1 + (int)c.draw(3); for (int p = 0; p < np; ++p) k.color[p] = (int)c.draw(nc), k.key[p] = (int)c.draw(5) - 1; }
  for (int p = 0; p < np; ++p) { std::vector<int> m; for (int q = 0; q < np; ++q) if (k.color[q] == k.color[p]) m.push_back(q);
    std::stable_sort(m.begin(), m.end(), [&](int a, int b) { return k.key[a] < k.key[b]; }); k.members[p] = m; k.np[p] = m.size(); k.id[p] = std::find(m.begin(), m.end(), p) - m.begin(); }
  c.label(k.kind == 2 ? "comm:split" : k.kind ? "comm:dup" : "comm:world");
  return k;
}
static void *make(Lib &L, const Comms &k, int r, void *w) {
  void *m = k.kind == 0 ? L.sh_comm_dup(w) : k.kind == 1 ? L.sh_comm_init_check(L.sh_comm_fint(w), L.sh_comm_np(w)) : L.sh_comm_split(w, k.color[r], k.key[r]);
  if ((int)L.sh_comm_id(m) != k.id[r] || (int)L.sh_comm_np(m) != k.np[r]) throw CaseFail(strf("process %d: communicator says id %u of %u, expected %d of %d", r, L.sh_comm_id(m), L.sh_comm_np(m), k.id[r], k.np[r]));
  return m;
}

// allreduce (blocking and not), reduce, dot: everybody gets the reduction over all
static void C01(Case &c) {
  int np = pick_np(c, 12); Comms k = gen_comms(c, np); int nops = 1 + (int)c.draw(4); bool nbc = variant_has(c.variant, "nbc");
  struct O { int what, dom, op, vn; uint64_t vs; std::vector<int> n; };
  std::vector<O> ops; for (int i = 0; i < nops; ++i) { O o; o.what = (int)c.draw(nbc ? 4 : 3); o.dom = (int)c.draw(5); o.op = (int)c.draw(5); o.vn = c.draw(2000) == 1999 ? 20000 + (int)c.draw(60000) : c.size(c.chance(5) ? 400 : 12); o.vs = c.draw(1u << 20); for (int p = 0; p < np; ++p) o.n.push_back(c.size(9)); ops.push_back(o);
    static const char *const W[] = {"allreduce", "reduce", "dot", "iallreduce"}; c.label(std::string("comm:") + W[o.what]); c.label(std::string("op:") + OPN[o.op]); c.label(std::string("dom:") + DOMN[o.dom]); c.desc("{%s %s %s vn=%d} ", W[o.what], DOMN[o.dom], OPN[o.op], o.vn); }
  c.desc("np=%d comm=%d", np, k.kind); c.nontrivial(np > 1);
  c.run(np, c.sched(np), [&](int r) {
    Lib &L = lib(c.variant, r); void *w = L.sh_comm_world(), *m = make(L, k, r, w);
    for (auto &o : ops) with_dom(o.dom, [&](auto tag) { typedef typename decltype(tag)::type T; auto &mem = k.members[r];
      if (o.what == 2) { auto val = [&](int q, int i, int s) { return (double)((long)(hash64(o.vs, q, i, s) % 2001) - 1000); }; int n = o.n[r]; Blk<double> a(n), b(n); double want = 0;
        for (int i = 0; i < n; ++i) a[i] = val(r, i, 0), b[i] = val(r, i, 1); for (int q : mem) for (int i = 0; i < o.n[q]; ++i) want += val(q, i, 0) * val(q, i, 1);
        double got = L.sh_dot(m, a.p, b.p, n); if (got != want) throw CaseFail(strf("dot on process %d of %d: got %.17g, want %.17g", r, k.np[r], got, want)); return; }
      if (o.what == 1) { T want = op_id<T>(o.op); long j = 0; Blk<T> v(o.n[r]); for (int q : mem) for (int i = 0; i < o.n[q]; ++i) { T x = op_val<T>(o.op, hash64(o.vs, q, i), j++); want = op_do<T>(o.op, want, x); if (q == r) v[i] = x; }
        Blk<T> out(1); L.sh_reduce(m, o.dom, o.op, v.p, v.n, out.p); if (out[0] != want) throw CaseFail(strf("reduce %s %s on process %d of %d: got %.17g, want %.17g", DOMN[o.dom], OPN[o.op], r, k.np[r], (double)out[0], (double)want)); return; }
      Blk<T> v(o.vn), b(o.vn); std::vector<T> want(o.vn, op_id<T>(o.op)); for (int i = 0; i < o.vn; ++i) { long j = 0; for (int q : mem) { T x = op_val<T>(o.op, hash64(o.vs, q, i), j++); want[i] = op_do<T>(o.op, want[i], x); if (q == r) v[i] = x; } memset(&b[i], 0xff, sizeof(T)); }
      if (o.what == 0) L.sh_allreduce(m, o.dom, o.op, v.p, o.vn, b.p); else L.sh_iallreduce(m, o.dom, o.op, v.p, o.vn, b.p);
      for (int i = 0; i < o.vn; ++i) { T g = o.what == 0 ? v[i] : b[i]; if (g != want[i]) throw CaseFail(strf("%sallreduce %s %s of %d on process %d of %d: entry %d: got %.17g, want %.17g", o.what ? "i" : "", DOMN[o.dom], OPN[o.op], o.vn, r, k.np[r], i, (double)g, (double)want[i])); }
    });
    L.sh_comm_free(m); L.sh_comm_free(w);
  });
}

// exclusive scan and total
static void C02(Case &c) {
  int np = pick_np(c, 12); Comms k = gen_comms(c, np); int nops = 1 + (int)c.draw(4);
  struct O { int dom, op, vn; uint64_t vs; }; std::vector<O> ops; for (int i = 0; i < nops; ++i) { O o; o.dom = (int)c.draw(5); o.op = (int)c.draw(5); o.vn = c.draw(2000) == 1999 ? 20000 + (int)c.draw(60000) : c.size(c.chance(5) ? 300 : 10); o.vs = c.draw(1u << 20); ops.push_back(o); c.label(std::string("op:") + OPN[o.op]); c.label(std::string("dom:") + DOMN[o.dom]); c.desc("{scan %s %s vn=%d} ", DOMN[o.dom], OPN[o.op], o.vn); }
  c.label(strf("np:%d", np)); c.desc("np=%d comm=%d", np, k.kind); c.nontrivial(np > 2);
  c.run(np, c.sched(np), [&](int r) {
    Lib &L = lib(c.variant, r); void *w = L.sh_comm_world(), *m = make(L, k, r, w);
    for (auto &o : ops) with_dom(o.dom, [&](auto tag) { typedef typename decltype(tag)::type T;
      Blk<T> v(o.vn), out(2 * o.vn), b(2 * o.vn); std::vector<T> want(2 * o.vn, op_id<T>(o.op)), in(o.vn);
      for (int i = 0; i < o.vn; ++i) { long j = 0; bool before = true; for (int q : k.members[r]) { T x = op_val<T>(o.op, hash64(o.vs, q, i), j++); if (q == r) v[i] = x, in[i] = x, before = false; if (before) want[i] = op_do<T>(o.op, want[i], x); want[o.vn + i] = op_do<T>(o.op, want[o.vn + i], x); } }
      L.sh_scan(out.p, m, o.dom, o.op, v.p, o.vn, b.p);
      for (int i = 0; i < 2 * o.vn; ++i) if (out[i] != want[i]) throw CaseFail(strf("scan %s %s of %d on process %d of %d: %s entry %d: got %.17g, want %.17g", DOMN[o.dom], OPN[o.op], o.vn, k.id[r], k.np[r], i < o.vn ? "prefix" : "total", i % o.vn, (double)out[i], (double)want[i]));
      for (int i = 0; i < o.vn; ++i) if (v[i] != in[i]) throw CaseFail("scan changed its input");
    });
    L.sh_comm_free(m); L.sh_comm_free(w);
  });
}

// broadcast, gather, point-to-point, barrier, on several communicators at once
static void C03(Case &c) {
  int np = pick_np(c, 10); Comms k = gen_comms(c, np); int nops = 1 + (int)c.draw(6);
  struct O { int what, n, how, tag, rooti, shift; uint64_t vs; bool onworld; std::vector<int> hows; };
  std::vector<O> ops; for (int i = 0; i < nops; ++i) { O o; o.what = (int)c.draw(5); o.n = c.draw(1000) == 999 ? 60000 + (int)c.draw(300000) : c.size(c.chance(10) ? 5000 : 40); o.how = (int)c.draw(3); o.tag = (int)c.draw(5); o.rooti = (int)c.draw(12); o.shift = (int)c.draw(12); o.vs = c.draw(1u << 20); o.onworld = c.coin(); ops.push_back(o);
    static const char *const W[] = {"bcast", "gather", "point-to-point", "barrier", "crossing-communicators"}; c.label(std::string("comm:") + W[o.what]); c.desc("{%s n=%d} ", W[o.what], o.n); }
  c.desc("np=%d comm=%d", np, k.kind); c.nontrivial(np > 1); std::vector<int> entered(ops.size() * np, 0);
  c.run(np, c.sched(np), [&](int r) {
    Lib &L = lib(c.variant, r); void *w = L.sh_comm_world(), *m = make(L, k, r, w);
    if ((int)L.sh_gbl(0) < 0) throw CaseFail("unreachable");
    auto byte = [](uint64_t vs, int q, int i) { return (char)hash64(vs, q, i); };
    std::vector<int> all; for (int q = 0; q < np; ++q) all.push_back(q);
    for (size_t oi = 0; oi < ops.size(); ++oi) { O &o = ops[oi]; void *x = o.onworld ? w : m; const std::vector<int> &mem = o.onworld ? all : k.members[r]; int n = mem.size(), me = std::find(mem.begin(), mem.end(), r) - mem.begin(), root = o.rooti % n;
      if (o.what == 0) { Blk<char> b(o.n); for (int i = 0; i < o.n; ++i) b[i] = me == root ? byte(o.vs, mem[root], i) : 0; L.sh_bcast(x, b.p, o.n, root); for (int i = 0; i < o.n; ++i) if (b[i] != byte(o.vs, mem[root], i)) throw CaseFail(strf("bcast of %d bytes from %d: byte %d differs on process %d of %d", o.n, root, i, me, n)); }
      else if (o.what == 1) { Blk<char> out(o.n), in(me == root ? (size_t)o.n * n : 0); for (int i = 0; i < o.n; ++i) out[i] = byte(o.vs, r, i); L.sh_gather(x, out.p, o.n, in.p, o.n, root); if (me == root) for (int q = 0; q < n; ++q) for (int i = 0; i < o.n; ++i) if (in[(size_t)q * o.n + i] != byte(o.vs, mem[q], i)) throw CaseFail(strf("gather of %d bytes to %d: byte %d of process %d differs", o.n, root, i, q)); }
      else if (o.what == 2) { int s = o.shift % n, dst = (me + s) % n, src = (me - s + n) % n; Blk<char> out(o.n), in(o.n); for (int i = 0; i < o.n; ++i) out[i] = byte(o.vs, r, i), in[i] = 0; L.sh_shift(x, out.p, in.p, o.n, dst, src, o.tag, o.how); for (int i = 0; i < o.n; ++i) if (in[i] != byte(o.vs, mem[src], i)) throw CaseFail(strf("message of %d bytes from %d to %d: byte %d differs", o.n, src, me, i)); }
      else if (o.what == 3) { entered[oi * np + r] = 1; L.sh_barrier(x); for (int q : mem) if (!entered[oi * np + q]) throw CaseFail(strf("process %d left a barrier before process %d entered it", r, q)); }
      else { // the same message pattern, same tag, on two duplicates in opposite order
        void *d1 = L.sh_comm_dup(x), *d2 = L.sh_comm_dup(x); int s = o.shift % n, dst = (me + s) % n, src = (me - s + n) % n; Blk<char> o1(o.n), o2(o.n), i1(o.n), i2(o.n); for (int i = 0; i < o.n; ++i) o1[i] = byte(o.vs, r, i), o2[i] = byte(o.vs + 1, r, i), i1[i] = i2[i] = 0;
        L.sh_shift(d1, o1.p, i1.p, o.n, dst, src, o.tag, 0); L.sh_shift(d2, o2.p, i2.p, o.n, dst, src, o.tag, 0);
        for (int i = 0; i < o.n; ++i) if (i1[i] != byte(o.vs, mem[src], i) || i2[i] != byte(o.vs + 1, mem[src], i)) throw CaseFail("a message crossed from one communicator to another");
        L.sh_comm_free(d2); L.sh_comm_free(d1); }
    }
    L.sh_comm_free(m); L.sh_comm_free(w);
  });
}
static RegProp r1({"C01", "process count 1-20, communicator (duplicate, by handle, split), 1-4 calls among allreduce, nonblocking allreduce, reduce, dot in every domain and operator, lengths 0-400, a message schedule; non-trivial: more than one process", C01, 240000, 2700000, 20, {"asan-nbc", "asan-def"}});
static RegProp r2({"C02", "process count 1-20, communicator, 1-4 scans in every domain and operator, lengths 0-300, a message schedule; non-trivial: more than two processes", C02, 160000, 1800000, 20, {"asan-nbc", "asan-def"}});
static RegProp r3({"C03", "process count 1-20, communicator, 1-6 calls among bcast, gather, point-to-point, barrier and same-tag traffic on two duplicates; non-trivial: more than one process", C03, 240000, 2700000, 20, {"asan-nbc", "asan-def"}});
