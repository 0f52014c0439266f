#include "engine.hpp"
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <sched.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <malloc.h>

std::string strf(const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
std::vector<PropDef> &props() { static std::vector<PropDef> v; return v; }

static std::vector<Variant> variants; static std::vector<std::vector<void*>> handles;
static std::set<std::string> known_listed;
int n_variants() { return variants.size(); }
const char *variant_name(int v) { return variants[v].name.c_str(); }
int find_variant(const char *n) { for (size_t i = 0; i < variants.size(); ++i) if (variants[i].name == n) return i; return -1; }
bool variant_has(int v, const char *w) { return ("-" + variants[v].name + "-").find(std::string("-") + w + "-") != std::string::npos; }
void *lib_sym(int v, int rank, const char *name) {
  void *p = dlsym(handles[v][rank], name);
  if (!p) { fprintf(stderr, "verif: symbol %s missing: %s\n", name, dlerror()); _exit(98); }
  return p;
}

// ------------------------------------------------------------------ heap
static long heap_blocks, heap_bytes; static bool heap_on;
static long fail_at = -1, alloc_no = 0;
struct HeapHdr { uint64_t magic, size; };
static std::map<void*, size_t> *heap_tab;
static int fill = 0xfb;   // what fresh memory holds; chosen per case
extern "C" {
void verif_heap_fail_at(long n) { fail_at = n; alloc_no = 0; }
long verif_heap_count() { return alloc_no; }
static bool inject() { ++alloc_no; return fail_at >= 0 && alloc_no - 1 == fail_at; }
static void reg(void *p, size_t n) { if (heap_on && p) { (*heap_tab)[p] = n; heap_blocks++; heap_bytes += n; } }
static void unreg(void *p) { if (p && heap_tab && !heap_tab->empty()) { auto it = heap_tab->find(p); if (it != heap_tab->end()) { heap_blocks--; heap_bytes -= it->second; heap_tab->erase(it); } } }
void *verif_malloc(size_t n) { if (n && inject()) return 0; if (n > (1ull << 32)) return 0; void *p = malloc(n); if (p) { memset(p, fill, n); reg(p, n); } return p; }
void *verif_calloc(size_t a, size_t b) { if (a && b && inject()) return 0; if (b && a > (1ull << 32) / b) return 0; void *p = calloc(a, b); reg(p, a * b); return p; }
void *verif_realloc(void *o, size_t n) {
  if (n && inject()) return 0; if (n > (1ull << 32)) return 0;
  size_t on = o ? malloc_usable_size(o) : 0;
  unreg(o); void *p = realloc(o, n); if (p && n > on) memset((char*)p + on, fill, n - on); if (n) reg(p, n); return p; }
void verif_free(void *p) { unreg(p); free(p); }
}
int heap_fill(int v) { int o = fill; if (v >= 0) fill = v; return o; }
HeapStat heap_live() { return {heap_blocks, heap_bytes}; }
void heap_track(bool on) { if (!heap_tab) heap_tab = new std::map<void*, size_t>; heap_on = on; if (on) { heap_tab->clear(); heap_blocks = heap_bytes = 0; } }

// ------------------------------------------------------------------ case
static const size_t MAXC = 1 << 18;
static uint64_t smix(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct Slot {
  volatile long cur; volatile uint32_t nch; volatile int state; // 0 idle 1 in case 2 between
  volatile int failed; long done; double cpu0;
  char msg[6000]; uint64_t ch[MAXC];
  int nlab; struct { char n[56]; long c; } lab[96];
  int nknown; struct { char n[24]; long c; } kn[8];
  int nh; uint64_t hash[1024]; unsigned char nt[1024];
  int nsamp; char samp[4][2500];
  long draws, msgs;
};
static Slot *cur_slot = nullptr;

uint64_t Case::draw(uint64_t n) {
  uint64_t v;
  if (rep) { v = pos < rep->size() ? (*rep)[pos] : 0; }
  else {
    uint64_t s1 = s[0], s0 = s[1], r = s0 + s1; s[0] = s0; s1 ^= s1 << 23; s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); v = r;
    if (n) v = (uint64_t)(((__uint128_t)v * n) >> 64);
  }
  if (n) { if (v >= n) v %= n; }
  if (pos >= MAXC) return 0;
  cur_slot->ch[pos] = v; ++pos; cur_slot->nch = pos;
  return v;
}
int Case::size(int max) {
  static const int w[] = {1, 2, 3, 5, 8, 13, 20, 32, 60, 120, 260, 600, 1500, 4000, 10000};
  if (max <= 0) return 0;
  int k = 0; while (k < 15 && w[k] < max) ++k;
  int c = range(0, k), hi = c < 15 ? w[c] : max; if (hi > max || c == k) hi = max;
  int lo = c ? w[c - 1] : 0;
  return range(lo, hi);
}
std::vector<int> Case::perm(int n) { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 0; --i) { int j = i - (int)draw(i + 1); std::swap(p[i], p[j]); } return p; }
void Case::fail(const char *fmt, ...) { char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); throw CaseFail(b); }
void Case::desc(const char *fmt, ...) { char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (text.size() < 2300) text += b; }
mpi::Sched Case::sched(int np) {
  mpi::Sched sc; if (np <= 1) return sc;
  sc.order = (int)draw(4); static const int sw[] = {0, 5, 30, 80, 100}; sc.p_switch = sw[draw(5)];
  static const int eg[] = {100, 0, 50, 90}; sc.p_eager = eg[draw(4)];
  static const int lt[] = {0, 100, 50}; sc.p_late = lt[draw(3)];
  sc.red_order = (int)draw(3); sc.sync_coll = !coin(); sc.seed = draw(1u << 20);
  return sc;
}
mpi::Result Case::run(int np, const mpi::Sched &sc, const std::function<void(int)> &fn) {
  mpi::Result r = mpi::run(np, sc, fn);
  cur_slot->msgs += r.messages;
  if (r.late) label("mpi:late-delivery"); if (r.rendezvous) label("mpi:rendezvous");
  if (raw) return r;
  if (r.failed) throw CaseFail(r.msg);
  for (int i = 0; i < np; ++i) if (r.exit_status[i] >= 0) throw CaseFail(strf("process %d ended the program with status %d", i, r.exit_status[i]));
  return r;
}

// ------------------------------------------------------------------ running
static const PropDef *P; static uint64_t SEED; static bool THOROUGH;
static uint64_t hstr(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }

static void run_one(Slot *sl, long idx, const std::vector<uint64_t> *rep) {
  cur_slot = sl; Case c; c.prop = P->id; c.thorough = THOROUGH; c.rep = rep;
  uint64_t x = SEED * 0x9e3779b97f4a7c15ull ^ hstr(P->id) ^ ((uint64_t)idx * 0xd1342543de82ef95ull); c.s[0] = smix(x); c.s[1] = smix(x);
  sl->nch = 0; sl->cur = idx; struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); sl->cpu0 = ts.tv_sec + ts.tv_nsec * 1e-9;
  sl->state = 1; fail_at = -1;
  std::string fm; bool failed = false;
  try { c.variant = (int)c.draw(variants.size()); static const int fills[] = {0xfb, 0, 0xff, 1}; fill = fills[c.draw(4)]; P->fn(c); } catch (CaseFail &e) { failed = true; fm = e.m; } catch (std::bad_alloc &) { failed = true; fm = "harness: out of memory"; }
  if (!failed) for (auto &k : c.knowns) if (!known_listed.count(k)) { failed = true; fm = "finding " + k + " (not listed as known): " + c.text; break; }
  sl->state = 2;
  if (failed) { if (fm.find(c.text) == std::string::npos) fm += " | case [" + variants[c.variant].name + "]: " + c.text; snprintf(sl->msg, sizeof sl->msg, "%s", fm.c_str()); sl->failed = 1; return; }
  c.labels.insert(std::string("build:") + variants[c.variant].name);
  for (auto &l : c.labels) { int i; for (i = 0; i < sl->nlab; ++i) if (l == sl->lab[i].n) break; if (i == sl->nlab) { if (i >= 96 || l.size() > 55) continue; strcpy(sl->lab[i].n, l.c_str()); sl->lab[i].c = 0; sl->nlab++; } sl->lab[i].c++; }
  for (auto &l : c.knowns) { int i; for (i = 0; i < sl->nknown; ++i) if (l == sl->kn[i].n) break; if (i == sl->nknown) { if (i >= 8) continue; snprintf(sl->kn[i].n, 24, "%s", l.c_str()); sl->kn[i].c = 0; sl->nknown++; } sl->kn[i].c++; }
  uint64_t h = 1469598103934665603ull; for (uint32_t i = 0; i < sl->nch; ++i) h = (h ^ sl->ch[i]) * 1099511628211ull;
  if (sl->nh < 1024) sl->hash[sl->nh] = h, sl->nt[sl->nh] = c.nontriv, sl->nh++;
  if (c.nontriv && sl->nsamp < 2 && !c.text.empty()) snprintf(sl->samp[sl->nsamp++], 2500, "case %ld [%s]: %s", idx, variants[c.variant].name.c_str(), c.text.c_str());
  sl->done++; sl->draws += sl->nch;
}
static std::vector<int> cpus;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const double CPU_LIMIT = 40;   // a case takes milliseconds; this only catches endless loops

struct Child { pid_t pid = 0; int slot = 0; long b0 = 0, b1 = 0; int errfd = -1; };
static Slot *slots; static int nslots;
static std::string tail_of(int fd) { std::string s; char b[65536]; ssize_t n = pread(fd, b, sizeof b - 1, 0); if (n > 0) { b[n] = 0; s = b; } return s; }
static std::string crash_text(int status, int fd) {
  std::string e = tail_of(fd), out; size_t p = e.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = e.find("runtime error:");
  if (p != std::string::npos) { out = e.substr(p, 1800); } else out = e.substr(0, 600);
  if (WIFSIGNALED(status)) return strf("crash: signal %d; ", WTERMSIG(status)) + out;
  return strf("crash: process ended with code %d; ", WEXITSTATUS(status)) + out;
}
static bool harness_trouble(int status) { return WIFEXITED(status) && (WEXITSTATUS(status) == 98 || WEXITSTATUS(status) == 9); }
static int start_err() { int fd = memfd_create("err", 0); return fd; }
static pid_t spawn(Slot *sl, int errfd, const std::function<void()> &fn, int cpu) {
  fflush(stdout); fflush(stderr);
  sl->failed = 0; sl->state = 0; sl->done = 0; sl->nlab = sl->nknown = sl->nh = sl->nsamp = 0; sl->nch = 0; sl->draws = sl->msgs = 0; sl->msg[0] = 0; sl->cur = -1;
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); dup2(errfd, 2);
    if (cpu >= 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); sched_setaffinity(0, sizeof s, &s); }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    fn();
    if (getenv("VERIF_COV")) for (auto &h : handles) for (void *l : h) { void (*d)() = (void(*)())dlsym(l, "sh_cov_dump"); if (d) d(); }
    _exit(sl->failed ? 97 : 0);
  }
  return p;
}
static double cpu_of(pid_t p) { clockid_t id; if (clock_getcpuclockid(p, &id)) return 0; struct timespec t; if (clock_gettime(id, &t)) return 0; return t.tv_sec + t.tv_nsec * 1e-9; }

struct Outcome { bool failed = false; bool infra = false; std::string msg; std::vector<uint64_t> used; long at = -1; };
static double hang_limit = CPU_LIMIT;
// run a sequence of recorded cases in a fresh process; the outcome is that of the last
static Outcome exec_cases(const std::vector<std::vector<uint64_t>> &cs) {
  Slot *sl = &slots[nslots]; int fd = start_err(); Outcome o;
  pid_t p = spawn(sl, fd, [&] { for (size_t i = 0; i < cs.size(); ++i) { run_one(sl, (long)i, &cs[i]); if (sl->failed) break; } }, cpus.empty() ? -1 : cpus[0]);
  int st = 0; bool hang = false;
  for (int it = 0;; ++it) {
    pid_t w = waitpid(p, &st, WNOHANG); if (w == p) break;
    if (cpu_of(p) > sl->cpu0 + hang_limit) { hang = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
    usleep(it < 50 ? 200 : 2000);
  }
  o.at = sl->cur; o.used.assign(sl->ch, sl->ch + sl->nch);
  if (hang) o.failed = true, o.msg = "the call never returns (endless loop)";
  else if (sl->failed) o.failed = true, o.msg = sl->msg;
  else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { o.msg = crash_text(st, fd); if (harness_trouble(st)) o.infra = true; else o.failed = true; }
  close(fd); return o;
}
static std::string kind_of(const std::string &m) { // coarse failure identity kept while shrinking
  if (m.compare(0, 5, "crash") == 0) return "crash"; if (m.find("never returns") != std::string::npos) return "hang"; if (m.find("deadlock") == 0) return "deadlock";
  return "check"; }

static std::vector<uint64_t> shrink(std::vector<uint64_t> c, std::string &msg, double budget, long &tries) {
  double t0 = now(); std::string k = kind_of(msg); tries = 0; while (!c.empty() && c.back() == 0) c.pop_back();
  auto ok = [&](const std::vector<uint64_t> &x) -> bool {
    if (now() - t0 > budget) return false; ++tries;
    Outcome o = exec_cases({x}); if (o.failed && kind_of(o.msg) == k) {
      auto u = o.used; while (!u.empty() && u.back() == 0) u.pop_back();   // missing choices read as 0
      if (u.size() < c.size() || (u.size() == c.size() && u < c)) { c = u; msg = o.msg; return true; } }
    return false; };
  bool prog = true;
  while (prog && now() - t0 < budget) {
    prog = false;
    for (size_t w = c.size() / 2; w >= 1; w = w / 2) {
      for (size_t i = 0; i + w <= c.size();) { auto x = c; x.erase(x.begin() + i, x.begin() + i + w); if (ok(x)) prog = true; else i += w; if (now() - t0 > budget) return c; }
    }
    for (size_t w = std::min<size_t>(c.size(), 32); w >= 1; w = w / 2)
      for (size_t i = 0; i + w <= c.size(); i += w) { bool nz = false; for (size_t j = i; j < i + w; ++j) nz |= c[j] != 0; if (!nz) continue; auto x = c; for (size_t j = i; j < i + w; ++j) x[j] = 0; if (ok(x)) prog = true; if (now() - t0 > budget) return c; }
    for (size_t i = 0; i < c.size(); ++i) {
      uint64_t lo = 0; // values below lo known to pass
      for (int it = 0; i < c.size() && it < 12 && c[i] > lo; ++it) { uint64_t mid = lo + (c[i] - lo) / 2; auto x = c; x[i] = mid; uint64_t before = c[i]; if (ok(x)) prog = true; else lo = mid + 1; if (i < c.size() && c[i] > before) break; if (now() - t0 > budget) return c; }
    }
  }
  return c;
}

static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') o += '\\', o += ch; else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) o += strf("\\u%04x", ch < 32 ? ch : '?'); else o += ch; } return o + "\""; }

static void write_replay(const std::string &path, const std::string &msg, const std::vector<std::vector<uint64_t>> &cs) {
  std::ofstream f(path); f << "gslib-verif-replay 1\nproperty " << P->id << "\nvariants"; for (auto &v : variants) f << " " << v.name; f << "\nmessage " << jstr(msg) << "\n";
  for (auto &c : cs) { f << "case"; for (auto v : c) f << " " << v; f << "\n"; }
}

int main(int argc, char **argv) {
  if (!getenv("VERIF_NOASLR_DONE")) { setenv("VERIF_NOASLR_DONE", "1", 1); int p = personality(0xffffffff); if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  std::string prop, tier = "quick", evid, replay, outdir = "."; SEED = 1; int workers = 8; double cap = 0; long ncases = 0, only = -1; bool list = false; double scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") SEED = strtoull(nx().c_str(), 0, 10);
    else if (a == "--evidence") evid = nx(); else if (a == "--replay") replay = nx(); else if (a == "--workers") workers = atoi(nx().c_str());
    else if (a == "--outdir") outdir = nx(); else if (a == "--cap") cap = atof(nx().c_str()); else if (a == "--cases") ncases = atol(nx().c_str());
    else if (a == "--only") only = atol(nx().c_str()); else if (a == "--list") list = true; else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--known") { std::stringstream ss(nx()); std::string k; while (std::getline(ss, k, ',')) if (!k.empty()) known_listed.insert(k); }
    else if (a == "--variant") { std::string v = nx(); size_t e = v.find('='); Variant x; x.name = v.substr(0, e); std::stringstream ss(v.substr(e + 1)); std::string k; while (std::getline(ss, k, ',')) x.libs.push_back(k); variants.push_back(x); }
  }
  if (list) { for (auto &p : props()) { printf("%s %d", p.id, p.max_ranks); for (auto &v : p.variants) printf(" %s", v.c_str()); printf("\n"); } return 0; }
  for (auto &p : props()) if (prop == p.id) P = &p;
  if (!P) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  THOROUGH = tier == "thorough";
  for (auto &v : variants) { std::vector<void*> h; for (int r = 0; r < P->max_ranks && r < (int)v.libs.size(); ++r) { void *p = dlopen(v.libs[r].c_str(), RTLD_NOW | RTLD_LOCAL); if (!p) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 2; } h.push_back(p); } handles.push_back(h); }
  cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs); for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &cs)) cpus.push_back(i);
  if (workers > (int)cpus.size() && !cpus.empty()) workers = cpus.size();
  nslots = workers; slots = (Slot*)mmap(0, sizeof(Slot) * (nslots + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (slots == MAP_FAILED) { perror("mmap"); return 2; }

  if (!replay.empty()) {
    std::ifstream f(replay); std::string line; std::vector<std::vector<uint64_t>> cs2;
    while (std::getline(f, line)) if (line.compare(0, 4, "case") == 0) { std::stringstream ss(line.substr(4)); std::vector<uint64_t> v; uint64_t x; while (ss >> x) v.push_back(x); cs2.push_back(v); }
    Outcome o = exec_cases(cs2);
    if (o.failed) { printf("replay: FAILS: %s\n", o.msg.c_str()); printf("VIOLATION property=%s replay=%s\n", P->id, replay.c_str()); return 1; }
    printf("replay: passes%s\n", o.infra ? " (infrastructure trouble)" : ""); return o.infra ? 2 : 0;
  }
  double t0 = now(); long total = ncases ? ncases : (long)((THOROUGH ? P->thorough_cases : P->quick_cases) * scale); if (!cap) cap = THOROUGH ? 600 : 60;
  const long B = 64; long next = only >= 0 ? only : 0; if (only >= 0) total = only + 1;
  std::vector<Child> ch(workers); std::map<std::string, long> labels, knowns; std::set<uint64_t> distinct; long evals = 0, nontriv = 0, draws = 0, msgs = 0; std::vector<std::string> samples;
  bool found = false; long fidx = -1, fb0 = 0; std::string fmsg; std::vector<uint64_t> fch; bool infra = false; std::string inframsg; int active = 0; bool stop = false;
  int nunrep = 0; std::string unmsg; bool unrepro = false; int rc = 0; std::string rpath;
again:
  for (;;) {
    for (int w = 0; w < workers; ++w) if (!ch[w].pid && !stop && next < total && now() - t0 < cap) {
      Child &c = ch[w]; c.slot = w; c.b0 = next; c.b1 = std::min(total, next + B); next = c.b1; c.errfd = start_err(); Slot *sl = &slots[w]; long b0 = c.b0, b1 = c.b1; double tend = t0 + cap + 15;
      c.pid = spawn(sl, c.errfd, [sl, b0, b1, tend] { for (long i = b0; i < b1; ++i) { run_one(sl, i, nullptr); if (sl->failed) break; if (now() > tend) break; } }, cpus.empty() ? -1 : cpus[w % cpus.size()]); ++active;
    }
    if (!active) break;
    bool any = false;
    for (int w = 0; w < workers; ++w) if (ch[w].pid) {
      Child &c = ch[w]; Slot *sl = &slots[w]; int st = 0; pid_t r = waitpid(c.pid, &st, WNOHANG); bool hang = false;
      if (r == 0) { if (sl->state == 1 && cpu_of(c.pid) - sl->cpu0 > CPU_LIMIT) { hang = true; kill(c.pid, SIGKILL); waitpid(c.pid, &st, 0); } else continue; }
      any = true; --active; c.pid = 0;
      evals += sl->done; draws += sl->draws; msgs += sl->msgs;
      for (int i = 0; i < sl->nlab; ++i) labels[sl->lab[i].n] += sl->lab[i].c;
      for (int i = 0; i < sl->nknown; ++i) knowns[sl->kn[i].n] += sl->kn[i].c;
      for (int i = 0; i < sl->nh; ++i) if (sl->nt[i]) { ++nontriv; distinct.insert(sl->hash[i]); }
      for (int i = 0; i < sl->nsamp && samples.size() < 6; ++i) samples.push_back(sl->samp[i]);
      std::string m; bool bad = false;
      if (hang) bad = true, m = "the call never returns (endless loop)";
      else if (sl->failed) bad = true, m = sl->msg;
      else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { m = crash_text(st, c.errfd); if (harness_trouble(st)) infra = true, inframsg = m; else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) infra = true, inframsg = "worker killed: " + m; else bad = true; }
      if (bad && (!found || sl->cur < fidx)) { found = true; fidx = sl->cur; fb0 = c.b0; fmsg = m; fch.assign(sl->ch, sl->ch + sl->nch); }
      if (bad) { stop = true; ++evals; }
      close(c.errfd);
    }
    if (infra) stop = true;
    if (!any) usleep(2000);
    if (found && now() - t0 > 0) for (auto &c : ch) if (c.pid && c.b0 > fb0) { kill(c.pid, SIGKILL); int st; waitpid(c.pid, &st, 0); c.pid = 0; --active; close(c.errfd); }
  }
  if (infra && !found) { fprintf(stderr, "verif: infrastructure trouble: %s\n", inframsg.c_str()); }
  if (found) {
    printf("case %ld failed: %.1500s\n", fidx, fmsg.c_str()); fflush(stdout);
    std::vector<std::vector<uint64_t>> rc_cases; int good = 0; bool hang = kind_of(fmsg) == "hang"; if (hang) hang_limit = 25;
    for (int k = 0; k < 3; ++k) { Outcome o = exec_cases({fch}); if (o.failed) { ++good; fmsg = o.msg; } if (hang && good) break; }
    if (good) {
      long tries = 0; auto c = fch; std::string m = fmsg; if (!hang) c = shrink(fch, m, THOROUGH ? 60 : 25, tries);
      int g2 = 0; for (int k = 0; k < 3; ++k) { Outcome o = exec_cases({c}); if (o.failed) { ++g2; m = o.msg; } if (hang && g2) break; }
      if (g2) fmsg = m; else c = fch;
      printf("shrunk: %zu -> %zu choices in %ld attempts; replayed %d/3\n", fch.size(), c.size(), tries, g2); rc_cases = {c};
    } else { // depends on what ran before it in the same process: replay the whole block
      std::vector<std::vector<uint64_t>> seq; bool okb = false;
      // regenerate the choices of the preceding cases
      for (long i = fb0; i < fidx; ++i) { Slot *sl = &slots[nslots]; int fd = start_err(); pid_t p = spawn(sl, fd, [=] { run_one(sl, i, nullptr); }, -1); int st; waitpid(p, &st, 0); seq.emplace_back(sl->ch, sl->ch + sl->nch); close(fd); }
      seq.push_back(fch);
      for (int k = 0; k < 3 && !okb; ++k) { Outcome o = exec_cases(seq); if (o.failed) okb = true, fmsg = o.msg; }
      if (okb) { double ts = now(); for (size_t w = seq.size() / 2; w >= 1; w /= 2) for (size_t i = 0; i + w < seq.size() && now() - ts < 20;) { auto x = seq; x.erase(x.begin() + i, x.begin() + i + w); Outcome o = exec_cases(x); if (o.failed && o.at == (long)x.size() - 1) seq = x; else i += w; } rc_cases = seq; printf("needs %zu cases in one process\n", seq.size()); }
      else {   // not repeatable, so the library's answer depends on something undefined: go on, and report it when it happens again
        unmsg = fmsg; printf("note: case %ld failed and could not be reproduced: %.300s\n", fidx, fmsg.c_str()); fflush(stdout);
        if (++nunrep < 3) { found = stop = false; next = fb0 + B; fidx = -1; goto again; }
        rc_cases = seq;
      }
    }
    {
      mkdir(outdir.c_str(), 0777); rpath = outdir + "/" + P->id + "-" + std::to_string(SEED) + ".replay"; write_replay(rpath, fmsg, rc_cases);
      printf("minimal failure: %.2500s\n", fmsg.c_str()); printf("VIOLATION property=%s replay=%s\n", P->id, rpath.c_str()); rc = 1;
    }
  }
  unrepro = nunrep > 0; double wall = now() - t0;
  if (!evid.empty()) {
    std::ofstream f(evid); f << "{\n \"property\": " << jstr(P->id) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << SEED << ",\n \"level\": " << jstr(P->level) << ",\n \"coverage\": {\n";
    f << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"nontrivial\": " << nontriv << ",\n  \"rule\": " << jstr(P->rule) << ",\n  \"planned\": " << total << ",\n  \"random_choices\": " << draws << ",\n  \"messages_sent\": " << msgs << ",\n";
    f << "  \"classes\": {"; bool first = true; for (auto &l : labels) { f << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; } f << "},\n";
    f << "  \"known_findings_seen\": {"; first = true; for (auto &l : knowns) { f << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; } f << "},\n";
    f << "  \"samples\": ["; first = true; for (auto &s : samples) { f << (first ? "\n   " : ",\n   ") << jstr(s); first = false; } f << "]\n },\n";
    f << " \"assumptions\": [\"MPI is a deterministic in-process model of the MPI standard; 4-byte sint/uint and 8-byte slong/ulong (the Makefile's choice)\"],\n \"wall_s\": " << wall << ",\n \"violations\": " << rc << (unrepro ? ",\n \"unreproducible\": " + jstr(unmsg) : "") << "\n}\n";
  }
  for (auto &k : knowns) printf("known-finding-count %s %ld\n", k.first.c_str(), k.second);
  printf("%s: %ld cases, %zu distinct non-trivial, %.1f s, violations %d\n", P->id, evals, distinct.size(), wall, rc);
  if (infra && !found) return 2;
  return rc;
}
