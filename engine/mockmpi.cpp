#include "mpi.h"
#include "mockmpi.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <list>
#include <map>
#include <memory>
#include <unordered_set>
#include <algorithm>

extern "C" void __sanitizer_start_switch_fiber(void **fake, const void *bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void *fake, const void **bottom_old, size_t *size_old);
extern "C" void __asan_unpoison_memory_region(void const volatile *addr, size_t size);

struct Group;
struct mock_comm { Group *g; int rank; int owner; bool freed; bool internal; };

struct Msg { int src, tag; size_t bytes; std::vector<char> data; const void *sbuf; bool captured; mock_req *sreq; };
struct Coll;
struct mock_req {
  enum K { SEND, RECV, COLL } kind; int owner; Group *g = nullptr;
  void *buf = nullptr; size_t bytes = 0; int src = 0, tag = 0;
  Msg *msg = nullptr; bool matched = false, complete = false, freed = false;
  size_t actual = 0; Coll *coll = nullptr; int crank = 0;
};
struct Part { bool here = false, finished = false; std::vector<char> data; const void *s = nullptr; void *r = nullptr;
  int count = 0, dt = 0, op = 0, root = 0, rcount = 0; const int *rcounts = nullptr, *displs = nullptr;
  int color = 0, key = 0; mock_req *req = nullptr; bool late = false; mock_comm *out = nullptr; };
enum CK { C_BARRIER, C_BCAST, C_GATHER, C_GATHERV, C_SCATTER, C_ALLGATHER, C_ALLGATHERV, C_ALLTOALL, C_REDUCE, C_ALLREDUCE,
  C_SCAN, C_EXSCAN, C_DUP, C_SPLIT, C_IALLREDUCE, C_IBARRIER, C_IBCAST };
static const char *ck_name[] = {"Barrier","Bcast","Gather","Gatherv","Scatter","Allgather","Allgatherv","Alltoall","Reduce",
  "Allreduce","Scan","Exscan","Comm_dup","Comm_split","Iallreduce","Ibarrier","Ibcast"};
struct Coll { CK kind; int arrived = 0; std::vector<Part> p; bool built = false; };
struct Group {
  int id; std::vector<int> members; std::vector<mock_comm*> h;
  std::vector<std::list<Msg*>> unexpected; std::vector<std::list<mock_req*>> posted;
  std::vector<size_t> seq; std::vector<std::unique_ptr<Coll>> colls;
};

namespace {
const size_t STACK = 1u << 20;
enum St { NEW, READY, BLOCKED, DONE };
struct Fiber { ucontext_t ctx; char *stack = nullptr; void *fake = nullptr; St st = NEW; std::function<bool()> pred; };
std::vector<Fiber> fib;          // persistent stacks
ucontext_t main_ctx; void *main_fake; const void *main_bottom; size_t main_size;

struct World {
  int np = 0; mpi::Sched s; const std::function<void(int)> *fn = nullptr; mpi::Result res;
  uint64_t rng = 0; int cur = -1; bool cancel = false; int rr = 0;
  std::vector<std::unique_ptr<mock_comm>> comms; std::vector<std::unique_ptr<Group>> groups;
  std::vector<std::unique_ptr<mock_req>> reqs; std::vector<std::unique_ptr<Msg>> msgs;
  std::unordered_set<mock_req*> live; std::unordered_set<mock_comm*> comm_set;
  std::list<mock_req*> undelivered; std::vector<mock_comm*> ftab; std::vector<mock_comm*> self;
  std::vector<double> clock; std::vector<mpi::Sent> sent; std::vector<long> ncoll; std::vector<size_t> collb; Group *world = nullptr; long steps = 0;
} *W = nullptr;

uint64_t rnd() { uint64_t z = (W->rng += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
bool chance(int pct) { if (pct <= 0) return false; if (pct >= 100) return true; return (int)(rnd() % 100) < pct; }

void hyg(const char *fmt, ...) { char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (W->res.hygiene.size() < 20) W->res.hygiene.push_back(b); }
[[noreturn]] void die(const char *fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); mpi::fail(b); }

void fiber_main();
void switch_to(int to) {   // -1: main
  int from = W->cur; if (to == from) return;
  W->res.switches++;
  void **save = from < 0 ? &main_fake : (fib[from].st == DONE ? nullptr : &fib[from].fake);
  const void *bot; size_t sz;
  if (to < 0) bot = main_bottom, sz = main_size; else bot = fib[to].stack, sz = STACK;
  W->cur = to;
  __sanitizer_start_switch_fiber(save, bot, sz);
  swapcontext(from < 0 ? &main_ctx : &fib[from].ctx, to < 0 ? &main_ctx : &fib[to].ctx);
  // resumed
  const void *ob; size_t os;
  __sanitizer_finish_switch_fiber(from < 0 ? main_fake : fib[from].fake, &ob, &os);
}
bool can_run(int r) {
  Fiber &f = fib[r];
  if (f.st == DONE) return false;
  if (W->cancel) return f.st != NEW;
  if (f.st == NEW || f.st == READY) return true;
  return f.pred();
}
int pick() {
  int c[64], n = 0;
  for (int r = 0; r < W->np; ++r) if (can_run(r)) c[n++] = r;
  if (!n) return -1;
  switch (W->s.order) {
    case 1: return c[n - 1];
    case 2: return c[rnd() % n];
    case 3: { for (int i = 0; i < n; ++i) if (c[i] > W->rr) return W->rr = c[i]; return W->rr = c[0]; }
    default: return c[0];
  }
}
void check_cancel() { if (W->cancel && !std::uncaught_exceptions()) throw mpi::Cancelled(); }
void deliver(mock_req *r) {
  if (r->complete) return;
  Msg *m = r->msg; r->actual = m->bytes;
  if (m->bytes) memcpy(r->buf, m->captured ? m->data.data() : m->sbuf, m->bytes);
  r->complete = true; if (m->sreq) m->sreq->complete = true;
  W->undelivered.remove(r);
}
void network() { // random progress
  if (!W->undelivered.empty() && chance(100 - W->s.p_late)) { size_t k = rnd() % W->undelivered.size(); auto it = W->undelivered.begin(); std::advance(it, k); deliver(*it); }
}
void point() {
  check_cancel();
  if (++W->steps > 4000000) die("livelock: over 4000000 MPI calls in one case");
  network();
  if (W->np > 1 && chance(W->s.p_switch)) {
    int me = W->cur, t = pick();
    if (t >= 0 && t != me) { switch_to(t); check_cancel(); }
  }
}
void block(std::function<bool()> pred, const char *what) {
  int me = W->cur; Fiber &f = fib[me];
  if (pred()) return;
  f.pred = pred; f.st = BLOCKED;
  int t = pick();
  if (t < 0) {
    std::string s = "deadlock: every unfinished process is blocked (process " + std::to_string(me) + " in " + what + ")";
    f.st = READY; mpi::fail(s);
  }
  if (t != me) switch_to(t);
  f.st = READY; f.pred = nullptr;
  check_cancel();
}
void fiber_main() {
  const void *ob; size_t os;
  __sanitizer_finish_switch_fiber(nullptr, &ob, &os);
  if (!main_bottom) main_bottom = ob, main_size = os;
  int me = W->cur; fib[me].st = READY;
  try { (*W->fn)(me); W->res.exit_status[me] = -1; }
  catch (mpi::RankExit &e) { W->res.exit_status[me] = e.status; W->cancel = true; }
  catch (mpi::Cancelled &) { W->res.exit_status[me] = -2; }
  catch (mpi::Failed &) { W->res.exit_status[me] = -2; W->cancel = true; }
  catch (std::exception &e) { if (!W->res.failed) W->res.failed = true, W->res.msg = e.what(); W->cancel = true; W->res.exit_status[me] = -2; }
  fib[me].st = DONE;
  int t = pick();
  if (t < 0) {
    bool all = true; for (int r = 0; r < W->np; ++r) if (fib[r].st != DONE && !(W->cancel && fib[r].st == NEW)) all = false;
    if (!all) { if (!W->res.failed) W->res.failed = true, W->res.msg = "deadlock: process " + std::to_string(me) + " finished and every other unfinished process is blocked"; W->cancel = true; t = pick(); }
  }
  switch_to(t);
  abort();
}

mock_comm *new_comm(Group *g, int rank, int owner) { W->comms.emplace_back(new mock_comm{g, rank, owner, false, false}); mock_comm *c = W->comms.back().get(); W->comm_set.insert(c); return c; }
Group *new_group(const std::vector<int> &mem) {
  W->groups.emplace_back(new Group); Group *g = W->groups.back().get(); size_t n = mem.size();
  g->id = W->groups.size(); g->members = mem; g->unexpected.resize(n); g->posted.resize(n); g->seq.assign(n, 0);
  for (size_t i = 0; i < n; ++i) g->h.push_back(new_comm(g, i, mem[i]));
  return g;
}
Group *grp(MPI_Comm c, const char *fn) {
  if (!W) abort();
  if (!c || !W->comm_set.count(c)) die("%s on an invalid communicator", fn);
  if (c->freed) die("%s on a freed communicator", fn);
  if (c->owner != W->cur) die("%s: communicator of process %d used by process %d", fn, c->owner, W->cur);
  return c->g;
}
size_t tsize(int dt) {
  switch (dt) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_C_BOOL: case MPI_INT8_T: case MPI_UINT8_T: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: return 8;
  }
  die("invalid MPI datatype %d", dt);
}
template <class T> void red1(T *a, const T *b, int n, int op) {
  for (int i = 0; i < n; ++i) switch (op) {
    case MPI_SUM: a[i] = (T)(a[i] + b[i]); break; case MPI_PROD: a[i] = (T)(a[i] * b[i]); break;
    case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break; case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break;
    case MPI_LAND: a[i] = a[i] && b[i]; break; case MPI_LOR: a[i] = a[i] || b[i]; break;
    default: die("MPI reduction operator %d not valid here", op);
  }
}
template <class T> void redi(T *a, const T *b, int n, int op) {
  for (int i = 0; i < n; ++i) switch (op) {
    case MPI_BAND: a[i] &= b[i]; break; case MPI_BOR: a[i] |= b[i]; break; case MPI_BXOR: a[i] ^= b[i]; break;
    case MPI_SUM: a[i] = (T)((uint64_t)a[i] + (uint64_t)b[i]); break; case MPI_PROD: a[i] = (T)((uint64_t)a[i] * (uint64_t)b[i]); break;
    default: red1(a + i, b + i, 1, op);
  }
}
void red(std::vector<char> &acc, const std::vector<char> &x, int n, int dt, int op) {
  void *a = acc.data(); const void *b = x.data();
  switch (dt) {
    case MPI_DOUBLE: red1((double*)a, (const double*)b, n, op); break;
    case MPI_FLOAT: red1((float*)a, (const float*)b, n, op); break;
    case MPI_INT: case MPI_INT32_T: redi((int*)a, (const int*)b, n, op); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: redi((unsigned*)a, (const unsigned*)b, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: redi((long long*)a, (const long long*)b, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: redi((unsigned long long*)a, (const unsigned long long*)b, n, op); break;
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: redi((signed char*)a, (const signed char*)b, n, op); break;
    case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_UINT8_T: redi((unsigned char*)a, (const unsigned char*)b, n, op); break;
    default: die("reduction on unsupported datatype %d", dt);
  }
}
// reduce ranks lo..hi-1
std::vector<char> reduce_range(Coll *c, int lo, int hi) {
  int n = c->p[lo].count, dt = c->p[lo].dt, op = c->p[lo].op;
  if (W->s.red_order == 2 && hi - lo > 1) {
    int mid = (lo + hi) / 2; auto a = reduce_range(c, lo, mid), b = reduce_range(c, mid, hi); red(a, b, n, dt, op); return a;
  }
  if (W->s.red_order == 1) { auto a = c->p[hi - 1].data; for (int i = hi - 2; i >= lo; --i) red(a, c->p[i].data, n, dt, op); return a; }
  auto a = c->p[lo].data; for (int i = lo + 1; i < hi; ++i) red(a, c->p[i].data, n, dt, op); return a;
}
void build(Group *g, Coll *c) { // dup / split once all have arrived
  int n = g->members.size();
  if (c->kind == C_DUP) { Group *ng = new_group(g->members); for (int i = 0; i < n; ++i) c->p[i].out = ng->h[i]; }
  else {
    std::map<int, std::vector<std::pair<int,int>>> m;
    for (int i = 0; i < n; ++i) if (c->p[i].color != MPI_UNDEFINED) m[c->p[i].color].push_back({c->p[i].key, i});
    for (auto &e : m) {
      std::stable_sort(e.second.begin(), e.second.end());
      std::vector<int> mem; for (auto &k : e.second) mem.push_back(g->members[k.second]);
      Group *ng = new_group(mem); for (size_t j = 0; j < e.second.size(); ++j) c->p[e.second[j].second].out = ng->h[j];
    }
  }
  c->built = true;
}
bool ready(Group *g, Coll *c, int me) {
  int n = g->members.size(); Part &p = c->p[me];
  if (c->arrived == n) return true;
  if (W->s.sync_coll) return false;
  switch (c->kind) {
    case C_BCAST: case C_SCATTER: case C_IBCAST: return me == p.root || c->p[p.root].here;
    case C_GATHER: case C_GATHERV: case C_REDUCE: return me != p.root;
    case C_SCAN: for (int i = 0; i <= me; ++i) if (!c->p[i].here) return false; return true;
    case C_EXSCAN: for (int i = 0; i < me; ++i) if (!c->p[i].here) return false; return true;
    default: return false;
  }
}
void put(void *dst, const std::vector<char> &v) { if (!v.empty()) memcpy(dst, v.data(), v.size()); }
void finish(Group *g, Coll *c, int me) {
  Part &p = c->p[me]; if (p.finished) return; p.finished = true; int n = g->members.size();
  switch (c->kind) {
    case C_BARRIER: case C_IBARRIER: break;
    case C_BCAST: case C_IBCAST: if (me != p.root) { if (c->p[p.root].data.size() > p.count * tsize(p.dt)) die("Bcast truncation"); put(p.r, c->p[p.root].data); } break;
    case C_GATHER: case C_ALLGATHER: if (c->kind == C_ALLGATHER || me == p.root) { size_t o = 0, w = p.rcount * tsize(p.dt); for (int i = 0; i < n; ++i, o += w) { if (c->p[i].data.size() != w) die("%s: receive count does not match process %d", ck_name[c->kind], i); put((char*)p.r + o, c->p[i].data); } } break;
    case C_GATHERV: case C_ALLGATHERV: if (c->kind == C_ALLGATHERV || me == p.root) for (int i = 0; i < n; ++i) { if (c->p[i].data.size() != p.rcounts[i] * tsize(p.dt)) die("%s: receive count does not match process %d", ck_name[c->kind], i); put((char*)p.r + p.displs[i] * tsize(p.dt), c->p[i].data); } break;
    case C_SCATTER: { size_t w = p.rcount * tsize(p.dt); auto &d = c->p[p.root].data; if (d.size() < (me + 1) * w) die("Scatter: count mismatch"); if (w) memcpy(p.r, d.data() + me * w, w); break; }
    case C_ALLTOALL: { size_t w = p.rcount * tsize(p.dt); for (int i = 0; i < n; ++i) { auto &d = c->p[i].data; if (d.size() != n * w) die("Alltoall: count mismatch"); if (w) memcpy((char*)p.r + i * w, d.data() + me * w, w); } break; }
    case C_REDUCE: if (me == p.root) put(p.r, reduce_range(c, 0, n)); break;
    case C_ALLREDUCE: case C_IALLREDUCE: put(p.r, reduce_range(c, 0, n)); break;
    case C_SCAN: put(p.r, reduce_range(c, 0, me + 1)); break;
    case C_EXSCAN: if (me) put(p.r, reduce_range(c, 0, me)); break;
    case C_DUP: case C_SPLIT: if (!c->built) build(g, c); break;
  }
}
Coll *arrive(Group *g, int me, CK kind, Part &&part, const char *fn) {
  size_t k = g->seq[me]++; W->ncoll[W->cur]++; if (part.count > 0 && part.dt) W->collb[W->cur] += (size_t)part.count * tsize(part.dt);
  if (!W->s.t_coll.empty()) W->clock[W->cur] += W->s.t_coll[W->cur] + (part.count > 0 && part.dt ? W->s.t_cbyte[W->cur] * (double)part.count * tsize(part.dt) : 0);
  while (g->colls.size() <= k) g->colls.emplace_back();
  if (!g->colls[k]) { g->colls[k].reset(new Coll); g->colls[k]->kind = kind; g->colls[k]->p.resize(g->members.size()); W->res.colls++; }
  Coll *c = g->colls[k].get();
  if (c->kind != kind) die("collective mismatch: process %d calls %s where another calls %s", g->members[me], fn, ck_name[c->kind]);
  for (auto &q : c->p) if (q.here) {
    bool redk = kind == C_REDUCE || kind == C_ALLREDUCE || kind == C_SCAN || kind == C_EXSCAN || kind == C_IALLREDUCE;
    if (redk && (q.count != part.count || q.dt != part.dt || q.op != part.op)) die("collective mismatch: %s with different count, type or operation on different processes (%d/%d)", fn, q.count, part.count);
    if ((kind == C_BCAST || kind == C_REDUCE || kind == C_GATHER || kind == C_SCATTER || kind == C_GATHERV || kind == C_IBCAST) && q.root != part.root) die("collective mismatch: %s with different roots", fn);
    if ((kind == C_BCAST) && (size_t)q.count * tsize(q.dt) != (size_t)part.count * tsize(part.dt)) die("collective mismatch: Bcast with different sizes");
    break;
  }
  if ((kind == C_BCAST || kind == C_REDUCE || kind == C_GATHER || kind == C_SCATTER || kind == C_GATHERV || kind == C_IBCAST) && (part.root < 0 || part.root >= (int)g->members.size())) die("%s: root %d out of range", fn, part.root);
  part.here = true; c->p[me] = std::move(part); c->arrived++;
  if (c->arrived == (int)g->members.size()) { // nonblocking: capture late inputs, maybe complete
    for (auto &q : c->p) if (q.late && q.s) { size_t w = q.count * tsize(q.dt); q.data.assign((const char*)q.s, (const char*)q.s + w); }
    for (size_t i = 0; i < c->p.size(); ++i) if (c->p[i].req && !chance(W->s.p_late)) { finish(g, c, i); c->p[i].req->complete = true; }
  }
  return c;
}
std::vector<char> cap(const void *s, size_t bytes) { if (!bytes) return {}; return std::vector<char>((const char*)s, (const char*)s + bytes); }
void overlap2(const void *a, size_t n, const void *b, size_t m, const char *what) {
  const char *x = (const char*)a, *y = (const char*)b; if (n && m && x < y + m && y < x + n) hyg("%s: send and receive buffers overlap", what);
}
int collective(MPI_Comm c, CK kind, Part part, const char *fn) {
  Group *g = grp(c, fn); point(); int me = c->rank;
  Coll *k = arrive(g, me, kind, std::move(part), fn);
  block([=] { return ready(g, k, me); }, fn);
  finish(g, k, me);
  point();
  return 0;
}
void reg_overlap(mock_req *r, const char *fn) {
  if (!r->bytes) return;
  for (auto *q : W->live) if (q != r && q->owner == r->owner && q->kind != mock_req::COLL && !q->complete && q->bytes) {
    if (r->kind == mock_req::SEND && q->kind == mock_req::SEND) continue;
    const char *a = (char*)r->buf, *b = (char*)q->buf;
    if (a < b + q->bytes && b < a + r->bytes) { hyg("%s: buffer overlaps that of another pending request", fn); return; }
  }
}
mock_req *new_req(mock_req::K k, int owner) { W->reqs.emplace_back(new mock_req); auto *r = W->reqs.back().get(); r->kind = k; r->owner = owner; W->live.insert(r); return r; }
void match(mock_req *r, Msg *m) {
  if (m->bytes > r->bytes) die("message truncated: process %d receives %zu bytes from %d (tag %d) into %zu", r->owner, m->bytes, m->src, m->tag, r->bytes);
  r->matched = true; r->msg = m; W->undelivered.push_back(r);
  if (chance(W->s.p_late)) W->res.late++; else deliver(r);
}
bool fits(mock_req *r, Msg *m) { return (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }
mock_req *start_send(MPI_Comm c, const void *buf, int n, int dt, int dst, int tag, bool sync, const char *fn) {
  Group *g = grp(c, fn); size_t bytes = (size_t)n * tsize(dt);
  if (n < 0) die("%s: negative count %d", fn, n);
  if (tag < 0) die("%s: invalid tag %d", fn, tag);
  mock_req *r = new_req(mock_req::SEND, W->cur); r->g = g;
  if (dst == MPI_PROC_NULL) { r->complete = true; return r; }
  if (dst < 0 || dst >= (int)g->members.size()) die("%s: invalid destination %d", fn, dst);
  W->res.messages++; W->sent.push_back({W->cur, g->members[dst], bytes}); if (!W->s.t_msg.empty()) W->clock[W->cur] += W->s.t_msg[W->cur] + W->s.t_byte[W->cur] * (double)bytes;
  r->buf = (void*)buf; r->bytes = bytes; reg_overlap(r, fn);
  W->msgs.emplace_back(new Msg{c->rank, tag, bytes, {}, buf, false, r}); Msg *m = W->msgs.back().get(); r->msg = m;
  if (!sync && chance(W->s.p_eager)) { m->data = cap(buf, bytes); m->captured = true; m->sreq = nullptr; r->complete = true; } else W->res.rendezvous++;
  auto &pl = g->posted[dst];
  for (auto it = pl.begin(); it != pl.end(); ++it) if (fits(*it, m)) { mock_req *rr = *it; pl.erase(it); r->matched = true; match(rr, m); return r; }
  g->unexpected[dst].push_back(m);
  return r;
}
mock_req *start_recv(MPI_Comm c, void *buf, int n, int dt, int src, int tag, const char *fn) {
  Group *g = grp(c, fn); if (n < 0) die("%s: negative count %d", fn, n);
  mock_req *r = new_req(mock_req::RECV, W->cur); r->g = g;
  if (src == MPI_PROC_NULL) { r->complete = true; return r; }
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)g->members.size())) die("%s: invalid source %d", fn, src);
  if (tag < 0 && tag != MPI_ANY_TAG) die("%s: invalid tag %d", fn, tag);
  r->buf = buf; r->bytes = (size_t)n * tsize(dt); r->src = src; r->tag = tag; reg_overlap(r, fn);
  auto &u = g->unexpected[c->rank];
  for (auto it = u.begin(); it != u.end(); ++it) if (fits(r, *it)) { Msg *m = *it; u.erase(it); if (m->sreq) m->sreq->matched = true; match(r, m); return r; }
  g->posted[c->rank].push_back(r);
  return r;
}
mock_req *find_recv_of(Msg *m) { for (auto *r : W->undelivered) if (r->msg == m) return r; return nullptr; }
bool try_complete(mock_req *r) {   // called while the owner is inside a completion call
  if (r->complete) return true;
  if (r->kind == mock_req::RECV) { if (r->matched) deliver(r); return r->complete; }
  if (r->kind == mock_req::SEND) { if (auto *q = find_recv_of(r->msg)) deliver(q); return r->complete; }
  if (ready(r->g, r->coll, r->crank)) { finish(r->g, r->coll, r->crank); r->complete = true; }
  return r->complete;
}
void validate(MPI_Request r, const char *fn) {
  if (!r) return;
  if (!W->live.count(r)) die("%s on a request that was never started or is already complete", fn);
  if (r->owner != W->cur) die("%s: request of process %d used by process %d", fn, r->owner, W->cur);
}
void retire(MPI_Request *rp, MPI_Status *st) {
  mock_req *r = *rp; if (!r) { if (st) st->MPI_SOURCE = MPI_ANY_SOURCE, st->MPI_TAG = MPI_ANY_TAG, st->count_bytes = 0, st->MPI_ERROR = 0; return; }
  if (st) { st->MPI_SOURCE = r->msg ? r->msg->src : 0; st->MPI_TAG = r->msg ? r->msg->tag : 0; st->MPI_ERROR = 0; st->count_bytes = r->actual; }
  W->live.erase(r); *rp = MPI_REQUEST_NULL;
}
bool cancelled_now() { return W->cancel && std::uncaught_exceptions(); }
}

namespace mpi {
int cur_rank() { return W ? W->cur : 0; }
std::vector<Sent> &sent() { return W->sent; }
long colls(int rank) { return W->ncoll[rank]; }
size_t coll_bytes(int rank) { return W->collb[rank]; }
void fail(const std::string &msg) {
  if (!W->res.failed) W->res.failed = true, W->res.msg = msg;
  W->cancel = true; throw Failed();
}
int live_comms(int rank) { int n = 0; for (auto &c : W->comms) if (!c->internal && c->owner == rank && !c->freed) ++n; return n; }
Result run(int np, const Sched &s, const std::function<void(int)> &fn) {
  World w; W = &w; w.np = np; w.s = s; w.fn = &fn; w.rng = s.seed * 0x2545F4914F6CDD1Dull + 12345; w.res.exit_status.assign(np, -2);
  w.clock.assign(np, 0); w.ncoll.assign(np, 0); w.collb.assign(np, 0); w.rr = np;
  if ((int)fib.size() < np) fib.resize(np);
  std::vector<int> all; for (int i = 0; i < np; ++i) all.push_back(i);
  w.world = new_group(all); for (auto *c : w.world->h) c->internal = true;
  for (int i = 0; i < np; ++i) { Group *g = new_group({i}); g->h[0]->internal = true; w.self.push_back(g->h[0]); }
  for (int i = 0; i < np; ++i) {
    Fiber &f = fib[i];
    if (!f.stack) { char *p = (char*)mmap(0, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(9); } mprotect(p, 4096, PROT_NONE); f.stack = p + 4096; }
    else __asan_unpoison_memory_region(f.stack + STACK - 65536, 65536); // a finished fiber leaves only its last frames poisoned: every throw clears the stack above it
    f.st = NEW; f.fake = nullptr; f.pred = nullptr;
    getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = nullptr; makecontext(&f.ctx, fiber_main, 0); f.ctx.uc_stack.ss_size = 0; /* or every switch to it would clear the shadow of the whole stack */
  }
  switch_to(pick());
  for (auto &g : w.groups) { for (auto &u : g->unexpected) w.res.unmatched += u.size(); }
  for (auto *r : w.live) { (void)r; w.res.pending_reqs++; }
  for (int i = 0; i < np; ++i) w.res.live.push_back(live_comms(i));
  Result out = std::move(w.res); W = nullptr; return out;
}
}

extern "C" {
void verif_exit_hook(int status) { if (!W) { fprintf(stderr, "verif: exit(%d) outside a run\n", status); _exit(99); } throw mpi::RankExit(status, false); }
MPI_Comm mock_comm_world(void) { return W->world->h[W->cur]; }
MPI_Comm mock_comm_self(void) { return W->self[W->cur]; }
int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Abort(MPI_Comm, int status) { throw mpi::RankExit(status, true); }
double MPI_Wtime(void) { // virtual time: advances by schedule-chosen amounts
  double &t = W->clock[W->cur]; if (!W->s.t_msg.empty()) return t; uint64_t r = rnd(); t += 1e-6 * (1 + (double)(r % 1000)) * ((r >> 20) % 4 ? 1 : 50); return t; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Comm_rank(MPI_Comm c, int *r) { grp(c, "MPI_Comm_rank"); *r = c->rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { Group *g = grp(c, "MPI_Comm_size"); *n = g->members.size(); return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { *r = a == b ? 0 : 1; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { if (cancelled_now()) return 0; Group *g = grp(c, "MPI_Comm_dup"); size_t k = g->seq[c->rank]; int me = c->rank; collective(c, C_DUP, Part(), "MPI_Comm_dup"); *out = g->colls[k]->p[me].out; return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) { Group *g = grp(c, "MPI_Comm_split"); size_t k = g->seq[c->rank]; int me = c->rank; Part p; p.color = color; p.key = key; collective(c, C_SPLIT, p, "MPI_Comm_split"); *out = g->colls[k]->p[me].out; return 0; }
int MPI_Comm_free(MPI_Comm *c) { if (cancelled_now()) return 0; grp(*c, "MPI_Comm_free"); point(); (*c)->freed = true; *c = MPI_COMM_NULL; return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { if (f < 1000 || f - 1000 >= (int)W->ftab.size()) return MPI_COMM_NULL; return W->ftab[f - 1000]; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { for (size_t i = 0; i < W->ftab.size(); ++i) if (W->ftab[i] == c) return 1000 + i; W->ftab.push_back(c); return 1000 + W->ftab.size() - 1; }
int MPI_Type_size(MPI_Datatype d, int *n) { *n = tsize(d); return 0; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype d, int *n) { *n = s->count_bytes / tsize(d); return 0; }

int MPI_Isend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *r) { point(); *r = start_send(c, b, n, d, dst, tag, false, "MPI_Isend"); point(); return 0; }
int MPI_Issend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *r) { point(); *r = start_send(c, b, n, d, dst, tag, true, "MPI_Issend"); point(); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Request *r) { point(); *r = start_recv(c, b, n, d, src, tag, "MPI_Irecv"); point(); return 0; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) {
  for (int i = 0; i < n; ++i) validate(r[i], "MPI_Waitall");
  point();
  block([=] { bool ok = true; for (int i = 0; i < n; ++i) if (r[i] && !try_complete(r[i])) ok = false; return ok; }, "MPI_Waitall");
  for (int i = 0; i < n; ++i) retire(&r[i], st ? st + i : nullptr);
  return 0;
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) { return MPI_Waitall(1, r, st); }
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) {
  bool any = false; for (int i = 0; i < n; ++i) validate(r[i], "MPI_Waitany"), any |= r[i] != 0;
  if (!any) { *idx = MPI_UNDEFINED; return 0; }
  point(); int found = -1; int *fp = &found;
  block([=] { for (int i = 0; i < n; ++i) if (r[i] && try_complete(r[i])) { *fp = i; return true; } return false; }, "MPI_Waitany");
  *idx = found; retire(&r[found], st); return 0;
}
int MPI_Waitsome(int n, MPI_Request *r, int *cnt, int *idx, MPI_Status *st) { int i; MPI_Waitany(n, r, &i, st); if (i == MPI_UNDEFINED) *cnt = MPI_UNDEFINED; else *cnt = 1, idx[0] = i; return 0; }
static void spin() { int me = W->cur; for (int k = 0; k < W->np; ++k) { int t = (me + 1 + k) % W->np; if (t != me && can_run(t)) { switch_to(t); check_cancel(); return; } } check_cancel(); }
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) { validate(*r, "MPI_Test"); point(); if (!*r || try_complete(*r)) { *flag = 1; retire(r, st); } else { *flag = 0; spin(); } return 0; }
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *st) { for (int i = 0; i < n; ++i) validate(r[i], "MPI_Testall"); point(); bool ok = true; for (int i = 0; i < n; ++i) if (r[i] && !try_complete(r[i])) ok = false; *flag = ok; if (ok) for (int i = 0; i < n; ++i) retire(&r[i], st ? st + i : nullptr); else spin(); return 0; }
int MPI_Testany(int n, MPI_Request *r, int *idx, int *flag, MPI_Status *st) { point(); *flag = 0; *idx = MPI_UNDEFINED; bool any = false; for (int i = 0; i < n; ++i) if (r[i]) { any = true; validate(r[i], "MPI_Testany"); if (try_complete(r[i])) { *flag = 1; *idx = i; retire(&r[i], st); return 0; } } if (!any) *flag = 1; else spin(); return 0; }
int MPI_Request_free(MPI_Request *r) { validate(*r, "MPI_Request_free"); W->live.erase(*r); *r = MPI_REQUEST_NULL; return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { MPI_Request r; MPI_Isend(b, n, d, dst, tag, c, &r); return MPI_Waitall(1, &r, 0); }
int MPI_Ssend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { MPI_Request r; MPI_Issend(b, n, d, dst, tag, c, &r); return MPI_Waitall(1, &r, 0); }
int MPI_Recv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Status *st) { MPI_Request r; MPI_Irecv(b, n, d, src, tag, c, &r); return MPI_Waitall(1, &r, st); }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sd, int dst, int stag, void *rb, int rn, MPI_Datatype rd, int src, int rtag, MPI_Comm c, MPI_Status *st) {
  MPI_Request r[2]; MPI_Status s2[2]; MPI_Irecv(rb, rn, rd, src, rtag, c, &r[0]); MPI_Isend(sb, sn, sd, dst, stag, c, &r[1]); MPI_Waitall(2, r, s2); if (st) *st = s2[0]; return 0; }
static Msg *peek(MPI_Comm c, int src, int tag) { for (auto *m : c->g->unexpected[c->rank]) if ((src == MPI_ANY_SOURCE || src == m->src) && (tag == MPI_ANY_TAG || tag == m->tag)) return m; return nullptr; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) { grp(c, "MPI_Probe"); point(); block([=] { return peek(c, src, tag) != nullptr; }, "MPI_Probe"); Msg *m = peek(c, src, tag); if (st) st->MPI_SOURCE = m->src, st->MPI_TAG = m->tag, st->count_bytes = m->bytes, st->MPI_ERROR = 0; return 0; }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *st) { grp(c, "MPI_Iprobe"); point(); Msg *m = peek(c, src, tag); *flag = m != 0; if (m && st) st->MPI_SOURCE = m->src, st->MPI_TAG = m->tag, st->count_bytes = m->bytes, st->MPI_ERROR = 0; if (!m) spin(); return 0; }

int MPI_Barrier(MPI_Comm c) { return collective(c, C_BARRIER, Part(), "MPI_Barrier"); }
int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c) { grp(c, "MPI_Bcast"); Part p; p.count = n; p.dt = d; p.root = root; p.r = b; if (n < 0) die("MPI_Bcast: negative count"); if (c->rank == root) p.data = cap(b, n * tsize(d)); return collective(c, C_BCAST, p, "MPI_Bcast"); }
int MPI_Gather(const void *s, int n, MPI_Datatype d, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c) { grp(c, "MPI_Gather"); Part p; p.count = n; p.dt = rd; p.rcount = rn; p.root = root; p.r = r; if (s == MPI_IN_PLACE) p.data = cap((char*)r + c->rank * rn * tsize(rd), rn * tsize(rd)); else { p.data = cap(s, n * tsize(d)); if (c->rank == root) overlap2(s, n * tsize(d), r, rn * tsize(rd) * c->g->members.size(), "MPI_Gather"); } return collective(c, C_GATHER, p, "MPI_Gather"); }
int MPI_Gatherv(const void *s, int n, MPI_Datatype d, void *r, const int *rc, const int *dp, MPI_Datatype rd, int root, MPI_Comm c) { grp(c, "MPI_Gatherv"); Part p; p.count = n; p.dt = rd; p.rcounts = rc; p.displs = dp; p.root = root; p.r = r; if (s == MPI_IN_PLACE) p.data = cap((char*)r + dp[c->rank] * tsize(rd), rc[c->rank] * tsize(rd)); else p.data = cap(s, n * tsize(d)); return collective(c, C_GATHERV, p, "MPI_Gatherv"); }
int MPI_Scatter(const void *s, int n, MPI_Datatype d, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c) { grp(c, "MPI_Scatter"); Part p; p.count = n; p.dt = rd; p.rcount = rn; p.root = root; p.r = r; if (c->rank == root) p.data = cap(s, n * tsize(d) * c->g->members.size()); if (r == MPI_IN_PLACE) p.rcount = 0; return collective(c, C_SCATTER, p, "MPI_Scatter"); }
int MPI_Allgather(const void *s, int n, MPI_Datatype d, void *r, int rn, MPI_Datatype rd, MPI_Comm c) { grp(c, "MPI_Allgather"); Part p; p.count = n; p.dt = rd; p.rcount = rn; p.r = r; if (s == MPI_IN_PLACE) p.data = cap((char*)r + c->rank * rn * tsize(rd), rn * tsize(rd)); else p.data = cap(s, n * tsize(d)); return collective(c, C_ALLGATHER, p, "MPI_Allgather"); }
int MPI_Allgatherv(const void *s, int n, MPI_Datatype d, void *r, const int *rc, const int *dp, MPI_Datatype rd, MPI_Comm c) { grp(c, "MPI_Allgatherv"); Part p; p.count = n; p.dt = rd; p.rcounts = rc; p.displs = dp; p.r = r; if (s == MPI_IN_PLACE) p.data = cap((char*)r + dp[c->rank] * tsize(rd), rc[c->rank] * tsize(rd)); else p.data = cap(s, n * tsize(d)); return collective(c, C_ALLGATHERV, p, "MPI_Allgatherv"); }
int MPI_Alltoall(const void *s, int n, MPI_Datatype d, void *r, int rn, MPI_Datatype rd, MPI_Comm c) { grp(c, "MPI_Alltoall"); Part p; p.count = n; p.dt = rd; p.rcount = rn; p.r = r; size_t np = c->g->members.size(); p.data = s == MPI_IN_PLACE ? cap(r, rn * tsize(rd) * np) : cap(s, n * tsize(d) * np); return collective(c, C_ALLTOALL, p, "MPI_Alltoall"); }
static Part redpart(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, const char *fn) { Part p; if (n < 0) die("%s: negative count", fn); p.count = n; p.dt = d; p.op = op; p.r = r; size_t w = n * tsize(d); if (s == MPI_IN_PLACE) p.data = cap(r, w); else { p.data = cap(s, w); } return p; }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) { Part p = redpart(s, r, n, d, op, "MPI_Reduce"); p.root = root; return collective(c, C_REDUCE, p, "MPI_Reduce"); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { Part p = redpart(s, r, n, d, op, "MPI_Allreduce"); if (s != MPI_IN_PLACE) overlap2(s, n * tsize(d), r, n * tsize(d), "MPI_Allreduce"); return collective(c, C_ALLREDUCE, p, "MPI_Allreduce"); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return collective(c, C_SCAN, redpart(s, r, n, d, op, "MPI_Scan"), "MPI_Scan"); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return collective(c, C_EXSCAN, redpart(s, r, n, d, op, "MPI_Exscan"), "MPI_Exscan"); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c, MPI_Request *req) {
  Group *g = grp(c, "MPI_Iallreduce"); point(); Part p = redpart(s, r, n, d, op, "MPI_Iallreduce");
  if (s != MPI_IN_PLACE) { overlap2(s, n * tsize(d), r, n * tsize(d), "MPI_Iallreduce"); if (chance(W->s.p_late)) p.s = s, p.late = true; }
  mock_req *q = new_req(mock_req::COLL, W->cur); q->g = g; q->crank = c->rank; p.req = q;
  size_t k = g->seq[c->rank]; *req = q;
  while (g->colls.size() <= k) g->colls.emplace_back();
  q->coll = nullptr; Coll *cc = arrive(g, c->rank, C_IALLREDUCE, std::move(p), "MPI_Iallreduce"); q->coll = cc; point(); return 0; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *req) { Group *g = grp(c, "MPI_Ibarrier"); point(); Part p; mock_req *q = new_req(mock_req::COLL, W->cur); q->g = g; q->crank = c->rank; p.req = q; *req = q; q->coll = arrive(g, c->rank, C_IBARRIER, std::move(p), "MPI_Ibarrier"); point(); return 0; }
int MPI_Ibcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c, MPI_Request *req) { Group *g = grp(c, "MPI_Ibcast"); point(); Part p; p.count = n; p.dt = d; p.root = root; p.r = b; if (c->rank == root) p.data = cap(b, n * tsize(d)); mock_req *q = new_req(mock_req::COLL, W->cur); q->g = g; q->crank = c->rank; p.req = q; *req = q; q->coll = arrive(g, c->rank, C_IBCAST, std::move(p), "MPI_Ibcast"); point(); return 0; }
}
