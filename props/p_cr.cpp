// props: R01 R02 R03 R04
// variants: asan-nbc asan-def fast-def
#include "common.hpp"


// where things go: a pure function of the item, so that the order of the items does not matter
static const char *const DIST[] = {"stay", "all-to-one", "uniform", "ring", "half", "reverse", "two"};
static uint dest(int dist, uint64_t salt, uint64_t h, int me, int np) {
  uint64_t x = hash64(salt, h);
  switch (dist) { case 0: return me; case 1: return salt % np; case 2: return x % np; case 3: return (me + 1 + salt % 3) % np; case 4: return x % ((np + 1) / 2); case 5: return np - 1 - me; default: return (x & 1) ? salt % np : (salt / 7) % np; } }

// communicator the router is built on: ranks with the same colour
struct Cm { int kind; std::vector<int> color, me, np; std::vector<std::vector<int>> mem; };
static Cm gen_cm(Case &c, int np) { Cm k; k.kind = c.chance(25); k.color.assign(np, 0); k.me.resize(np); k.np.resize(np); k.mem.resize(np);
  if (k.kind) for (int p = 0; p < np; ++p) k.color[p] = (int)c.draw(2);
  for (int p = 0; p < np; ++p) { for (int q = 0; q < np; ++q) if (k.color[q] == k.color[p]) { if (q == p) k.me[p] = k.mem[p].size(); k.mem[p].push_back(q); } k.np[p] = k.mem[p].size(); }
  if (k.kind) c.label("router:on-a-split-communicator"); return k; }
static void *mk(Lib &L, const Cm &k, int r, void *w) { return k.kind ? L.sh_comm_split(w, k.color[r], r) : L.sh_comm_dup(w); }

// messages with any lengths: each arrives once, at its target, with source and contents intact
static void R01(Case &c) {
  int np = pick_np(c, 12); Cm k = gen_cm(c, np); int rounds = 1 + (int)c.draw(3);
  struct Rd { int dist, maxlen; uint64_t salt; std::vector<std::vector<int>> len; }; std::vector<Rd> rd(rounds); bool any = false;
  for (auto &x : rd) { x.dist = (int)c.draw(7); x.salt = c.draw(1u << 20); x.maxlen = c.size(c.chance(5) ? 3000 : 20); x.len.resize(np); int most = c.size(c.chance(8) ? 200 : 14); if (c.draw(500) == 499) x.maxlen = 40000 + (int)c.draw(60000), most = std::min(most, 4), c.label("messages:huge"); else if (c.draw(500) == 499) x.maxlen = std::min(x.maxlen, 4), most = 2000, c.label("messages:thousands");
    for (int p = 0; p < np; ++p) { int n = c.range(0, most); for (int i = 0; i < n; ++i) x.len[p].push_back(c.range(0, x.maxlen)); any |= n > 0; }
    c.label(std::string("to:") + DIST[x.dist]); c.desc("{%s <=%d messages of <=%d ints} ", DIST[x.dist], most, x.maxlen); }
  c.desc("np=%d split=%d", np, k.kind); c.nontrivial(any && np > 1);
  typedef std::vector<uint> Msg; std::vector<std::vector<std::vector<Msg>>> got(rounds, std::vector<std::vector<Msg>>(np));
  auto make_ = [&](Rd &x, int p, int i) { Msg m{dest(x.dist, x.salt, p * 1000 + i, k.me[p], k.np[p]), (uint)k.me[p], (uint)x.len[p][i]}; for (int j = 0; j < x.len[p][i]; ++j) m.push_back((uint)hash64(x.salt, p, i, j)); return m; };
  c.run(np, c.sched(np), [&](int r) {
    Lib &L = lib(c.variant, r); void *w = L.sh_comm_world(), *m = mk(L, k, r, w), *cr = L.sh_cr_new(m);
    for (int t = 0; t < rounds; ++t) { std::vector<uint> in; for (size_t i = 0; i < rd[t].len[r].size(); ++i) { Msg x = make_(rd[t], r, i); in.insert(in.end(), x.begin(), x.end()); }
      L.sh_cr_route(cr, in.data(), in.size()); uint n = L.sh_cr_n(cr); const uint *d = L.sh_cr_data(cr);
      for (uint o = 0; o < n;) { if (n - o < 3 || d[o + 2] > n - o - 3) throw CaseFail(strf("round %d process %d: the received data is not a sequence of messages (%u integers, at %u)", t, r, n, o)); uint l = 3 + d[o + 2]; got[t][r].push_back(Msg(d + o, d + o + l)); o += l; } }
    L.sh_cr_free(cr); L.sh_comm_free(m); L.sh_comm_free(w);
  });
  for (int t = 0; t < rounds; ++t) { std::vector<std::vector<Msg>> want(np);
    for (int p = 0; p < np; ++p) for (size_t i = 0; i < rd[t].len[p].size(); ++i) { Msg x = make_(rd[t], p, i); want[k.mem[p][x[0]]].push_back(x); }
    for (int p = 0; p < np; ++p) { auto a = got[t][p], b = want[p]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
        c.fail("round %d process %d received %zu messages, expected %zu; first difference at sorted position %zu: got %s, want %s", t, p, a.size(), b.size(), i, i < a.size() ? strf("(to %u from %u, %u integers)", a[i][0], a[i][1], a[i][2]).c_str() : "nothing", i < b.size() ? strf("(to %u from %u, %u integers)", b[i][0], b[i][1], b[i][2]).c_str() : "nothing"); } } }
}

typedef std::string Row;   // the bytes of one row across all arrays
static std::string hex(const Row &r) { std::string s; for (size_t i = 0; i < r.size() && i < 40; ++i) s += strf("%02x", (unsigned char)r[i]); return s; }
static void compare(Case &c, const char *what, int p, std::vector<Row> a, std::vector<Row> b) {
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a == b) return; size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  c.fail("%s: process %d holds %zu rows, expected %zu; at sorted position %zu: got %s want %s", what, p, a.size(), b.size(), i, i < a.size() ? hex(a[i]).c_str() : "-", i < b.size() ? hex(b[i]).c_str() : "-"); }
static Row rnd_row(uint64_t h, size_t n) { Row r(n, 0); for (size_t i = 0; i < n; ++i) r[i] = (char)hash64(h, i); return r; }
static uint64_t hrow(const Row &r, size_t skip0, size_t skip1) { uint64_t h = 7; for (size_t i = 0; i < r.size(); ++i) if (i < skip0 || i >= skip1) h = h * 1099511628211ull ^ (unsigned char)r[i]; return hash64(h); }
static void setp(Row &r, size_t off, uint v) { memcpy(&r[off], &v, 4); }
static uint getp(const Row &r, size_t off) { uint v; memcpy(&v, &r[off], 4); return v; }

// a history of transfers of one table (1-3 parallel arrays) over one router
static void R02(Case &c) {
  int np = pick_np(c, 10); Cm k = gen_cm(c, np); int na = c.chance(35) ? 2 + (int)c.draw(2) : 1; std::vector<uint> size(na); uint off = 0; bool bytes = c.chance(25), macro = na == 1 && c.chance(15);
  for (int i = 0; i < na; ++i) size[i] = macro ? 0 : i == 0 ? (bytes ? 1 + (uint)c.draw(30) : 4 * (1 + (uint)c.draw(10))) : (uint)c.draw(4) * 4 + (bytes ? (uint)c.draw(4) : 0);
  if (!bytes) off = 4 * (uint)c.draw(size[0] ? size[0] / 4 : 1);
  if (macro) { Lib &L = lib(c); bytes = false; size[0] = L.sh_tr_size(0); off = L.sh_tr_size(1); c.label("row:declared-struct"); }
  size_t w = 0; for (auto s : size) w += s;
  int most = c.size(c.chance(10) ? 700 : 25); if (c.draw(600) == 599) most = 70000 / np + (int)c.draw(5000), c.label("rows:thousands"); std::vector<int> n0(np); for (auto &x : n0) x = c.range(0, most); uint64_t vs = c.draw(1u << 20); bool dup = c.chance(20);
  struct Op { int kind, dist, set_src, extra; uint64_t salt; uint pstride; }; int nops = 1 + (int)c.draw(4); std::vector<Op> ops; bool moved = false;
  for (int i = 0; i < nops; ++i) { Op o; o.kind = bytes ? 1 : macro ? (int)c.draw(3) : (int)c.draw(3); o.dist = (int)c.draw(7); o.set_src = (int)c.draw(2); o.salt = c.draw(1u << 20); o.extra = c.size(5); o.pstride = 4 * (1 + (uint)c.draw(3)); ops.push_back(o);
    static const char *const K[] = {"transfer", "transfer-ext", "there-and-back"}; c.label(std::string("transfer:") + K[o.kind]); c.label(std::string("to:") + DIST[o.dist]); moved |= o.dist != 0; c.desc("{%s %s src%d} ", K[o.kind], DIST[o.dist], o.set_src); }
  if (na > 1) c.label("transfer:parallel-arrays"); if (most > 255) c.label("rows:hundreds");
  c.desc("np=%d split=%d arrays=%d width=%zu off=%u rows<=%d", np, k.kind, na, w, off, most); c.nontrivial(np > 1 && moved && *std::max_element(n0.begin(), n0.end()) > 0);
  std::vector<std::vector<Row>> tab(np); for (int p = 0; p < np; ++p) for (int i = 0; i < n0[p]; ++i) { Row r = rnd_row(hash64(vs, dup ? 0 : p, dup ? i % 3 : i), w); if (!bytes) setp(r, off, 0); tab[p].push_back(r); }
  std::vector<std::vector<std::vector<Row>>> got(nops, std::vector<std::vector<Row>>(np)), mid = got; auto start = tab;
  size_t po = bytes ? w + 1 : off, pe = bytes ? w + 1 : off + 4;
  c.run(np, c.sched(np), [&](int r) {
    Lib &L = lib(c.variant, r); void *wd = L.sh_comm_world(), *m = mk(L, k, r, wd), *cr = L.sh_cr_new(m); std::vector<void*> A(na); std::vector<Row> cur = start[r];
    auto fill = [&](int extra, std::vector<Row> &rows) { size_t o = 0; for (int a = 0; a < na; ++a) { std::string s; for (auto &x : rows) s += x.substr(o, size[a]); A[a] = L.sh_arr_new(s.data(), rows.size(), rows.size() + (a == 0 ? extra : 0), size[a]); o += size[a]; } };
    auto take = [&]() { size_t n = L.sh_arr_n(A[0]); for (int a = 1; a < na; ++a) if (L.sh_arr_n(A[a]) != n) throw CaseFail(strf("parallel arrays have different lengths %zu and %zu", n, L.sh_arr_n(A[a]))); for (int a = 0; a < na; ++a) if (L.sh_arr_max(A[a]) < n) throw CaseFail("an array holds more than its capacity");
      std::vector<Row> v(n); for (int a = 0; a < na; ++a) for (size_t i = 0; i < n; ++i) if (size[a]) v[i].append((char*)L.sh_arr_ptr(A[a]) + i * size[a], size[a]); return v; };
    auto go = [&](Op &o, bool set) { if (macro) L.sh_tr_macro(A[0], set, cr); else if (na == 1) L.sh_transfer(A[0], size[0], off, set, cr); else { uint rc = L.sh_transfer_many(A.data(), size.data(), na, 0, 0, set, off, (uint*)((char*)L.sh_arr_ptr(A[0]) + off), size[0], cr); if (rc != L.sh_arr_n(A[0])) throw CaseFail(strf("the transfer reported %u rows but left %zu", rc, L.sh_arr_n(A[0]))); } };
    for (int t = 0; t < nops; ++t) { Op &o = ops[t];
      if (o.kind != 1) for (auto &x : cur) setp(x, off, dest(o.dist, o.salt, hrow(x, po, pe), k.me[r], k.np[r]));
      fill(o.extra, cur);
      if (o.kind == 0) go(o, o.set_src);
      else if (o.kind == 2) { go(o, true); mid[t][r] = take(); go(o, true); }
      else { uint ps = macro ? 4 : o.pstride; Blk<char> pr(cur.size() * ps); for (size_t i = 0; i < cur.size(); ++i) { uint d = dest(o.dist, o.salt, hrow(cur[i], po, pe), k.me[r], k.np[r]); memset(pr.p + i * ps, 0x5a, ps); memcpy(pr.p + i * ps, &d, 4); }
        if (macro) L.sh_tr_ext_macro(A[0], (uint*)pr.p, cr); else if (na == 1) L.sh_transfer_ext(A[0], size[0], (uint*)pr.p, ps, cr); else L.sh_transfer_many(A.data(), size.data(), na, 0, 1, 0, 0, (uint*)pr.p, ps, cr); }
      cur = take(); got[t][r] = cur; for (int a = 0; a < na; ++a) L.sh_arr_free(A[a]);
      if (!bytes) { /* the next destinations depend on the contents only */ } }
    L.sh_cr_free(cr); L.sh_comm_free(m); L.sh_comm_free(wd);
  });
  for (int t = 0; t < nops; ++t) { Op &o = ops[t]; std::vector<std::vector<Row>> nx(np);
    for (int p = 0; p < np; ++p) for (auto x : tab[p]) { uint d = dest(o.dist, o.salt, hrow(x, po, pe), k.me[p], k.np[p]); int q = k.mem[p][d]; if (o.kind == 0) setp(x, off, o.set_src ? k.me[p] : d); else if (o.kind == 2) setp(x, off, k.me[p]); nx[q].push_back(x); }
    if (o.kind == 2) { for (int p = 0; p < np; ++p) compare(c, strf("step %d (outward)", t).c_str(), p, mid[t][p], nx[p]);
      for (int p = 0; p < np; ++p) for (auto &x : tab[p]) setp(x, off, dest(o.dist, o.salt, hrow(x, po, pe), k.me[p], k.np[p])); for (int p = 0; p < np; ++p) compare(c, strf("step %d (there and back)", t).c_str(), p, got[t][p], tab[p]); }
    else { for (int p = 0; p < np; ++p) compare(c, strf("step %d", t).c_str(), p, got[t][p], nx[p]); tab = nx; } }
}

// Fortran tables of fixed capacity
static void R03(Case &c) {
  int np = pick_np(c, 10); bool tup = c.coin(); int mi = 1 + (int)c.draw(6), ml = tup ? (int)c.draw(4) : 0, md = tup ? (int)c.draw(4) : 0, kp = 1 + (int)c.draw(mi); int rounds = 1 + (int)c.draw(3);
  int cap = c.size(c.chance(10) ? 400 : 24); if (c.draw(600) == 599) cap = 70000 / np, c.label("table:thousands"); std::vector<int> max(np), n0(np); for (int p = 0; p < np; ++p) max[p] = c.coin() ? cap : c.range(0, cap), n0[p] = c.range(0, max[p]); uint64_t vs = c.draw(1u << 20);
  struct Rd { int dist; uint64_t salt; }; std::vector<Rd> rd(rounds); for (auto &x : rd) { x.dist = (int)c.draw(7); x.salt = c.draw(1u << 20); c.label(std::string("to:") + DIST[x.dist]); c.desc("{%s} ", DIST[x.dist]); }
  size_t w = 4 * mi + 8 * ml + 8 * md, off = 4 * (kp - 1); c.desc("np=%d %s mi=%d ml=%d mr=%d key=%d capacity<=%d", np, tup ? "tuple" : "ituple", mi, ml, md, kp, cap);
  std::vector<std::vector<Row>> tab(np); for (int p = 0; p < np; ++p) for (int i = 0; i < n0[p]; ++i) { Row r = rnd_row(hash64(vs, p, i), w); setp(r, off, 0); tab[p].push_back(r); }
  bool lost = false, moved = false; std::vector<std::vector<std::vector<Row>>> before(rounds, std::vector<std::vector<Row>>(np)), got = before; std::vector<std::vector<int>> cnt(rounds, std::vector<int>(np)); auto start = tab;
  c.run(np, c.sched(np), [&](int r) {
    Lib &L = lib(c.variant, r); void *wd = L.sh_comm_world(); int f = L.sh_comm_fint(wd), h = -7, n = n0[r], np_ = np; std::vector<Row> cur = start[r];
    L.f<void(*)(int*, const int*, const int*)>("fgslib_crystal_setup_")(&h, &f, &np_);
    Blk<int> vi((size_t)mi * max[r]); Blk<ll> vl((size_t)ml * max[r]); Blk<double> vr((size_t)md * max[r]);
    for (int t = 0; t < rounds; ++t) { for (auto &x : cur) setp(x, off, dest(rd[t].dist, rd[t].salt, hrow(x, off, off + 4), r, np)); before[t][r] = cur;
      for (size_t i = 0; i < cur.size(); ++i) { memcpy(vi.p + i * mi, cur[i].data(), 4 * mi); if (ml) memcpy(vl.p + i * ml, cur[i].data() + 4 * mi, 8 * ml); if (md) memcpy(vr.p + i * md, cur[i].data() + 4 * mi + 8 * ml, 8 * md); } n = cur.size();
      if (tup) L.f<void(*)(const int*, int*, const int*, int*, const int*, ll*, const int*, double*, const int*, const int*)>("fgslib_crystal_tuple_transfer_")(&h, &n, &max[r], vi.p, &mi, vl.p, &ml, vr.p, &md, &kp);
      else L.f<void(*)(const int*, int*, const int*, int*, const int*, const int*)>("fgslib_crystal_ituple_transfer_")(&h, vi.p, &mi, &n, &max[r], &kp);
      cnt[t][r] = n; if (n < 0) throw CaseFail(strf("process %d reports %d columns", r, n)); int have = std::min(n, max[r]); cur.assign(have, Row(w, 0));
      for (int i = 0; i < have; ++i) { memcpy(&cur[i][0], vi.p + (size_t)i * mi, 4 * mi); if (ml) memcpy(&cur[i][4 * mi], vl.p + (size_t)i * ml, 8 * ml); if (md) memcpy(&cur[i][4 * mi + 8 * ml], vr.p + (size_t)i * md, 8 * md); } got[t][r] = cur; }
    L.f<void(*)(int*)>("fgslib_crystal_free_")(&h); L.sh_comm_free(wd);
  });
  for (int t = 0; t < rounds; ++t) { std::vector<std::vector<Row>> want(np); for (int p = 0; p < np; ++p) for (auto x : before[t][p]) { uint d = getp(x, off); if ((int)d != p) moved = true; setp(x, off, p); want[d].push_back(x); }
    for (int p = 0; p < np; ++p) { CHECK(c, cnt[t][p] == (int)want[p].size(), "round %d process %d (capacity %d) reports %d columns received, %zu were sent to it", t, p, max[p], cnt[t][p], want[p].size());
      if ((int)want[p].size() <= max[p]) compare(c, strf("round %d", t).c_str(), p, got[t][p], want[p]);
      else { lost = true; auto a = got[t][p], b = want[p]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (!std::includes(b.begin(), b.end(), a.begin(), a.end())) c.fail("round %d process %d (capacity %d, %zu sent to it): a stored column is not one of those sent", t, p, max[p], want[p].size()); } } }
  if (lost) c.label("table:overflowed"); c.nontrivial(moved);
}

// Fortran table sort: lexicographic by the keys, ties in the order they had
static void R04(Case &c) {
  bool tup = c.coin(); int mi = (tup ? (int)c.draw(5) : 1 + (int)c.draw(6)), ml = tup ? (int)c.draw(4) : 0, md = tup ? (int)c.draw(3) : 0; int n = c.draw(1000) == 999 ? 900 + (int)c.draw(70000) : c.size(c.chance(25) ? 900 : 60), nk = (int)c.draw(5); if (mi + ml == 0) nk = 0; std::vector<int> key; for (int i = 0; i < nk; ++i) key.push_back(1 + (int)c.draw(mi + ml));
  int span = (int)c.draw(5), rounds = 1 + (int)c.draw(2); uint64_t vs = c.draw(1u << 20); c.desc("%s mi=%d ml=%d mr=%d n=%d keys", tup ? "tuple" : "ituple", mi, ml, md, n); for (int x : key) c.desc(" %d", x); c.desc(" span=%d", span);
  c.label(tup ? "sort:tuple" : "sort:ituple"); c.label(strf("keys:%d", nk)); c.label(n >= 256 ? "n:256+" : n < 2 ? "n:0-1" : "n:2-255"); c.nontrivial(n > 1 && nk > 0);
  auto val = [&](uint64_t i, uint64_t j, bool l) -> ll { uint64_t h = hash64(vs, i, j, l); switch (span) { case 0: return h % 3; case 1: return h % 200; case 2: return l ? (ll)(h >> 1) : (ll)(h >> 33); case 3: return (ll)(h % 4) << (l ? 60 : 29); default: return (h & 7) ? (ll)(h % 70000) : l ? LLONG_MAX - (ll)(h % 3) : INT_MAX - (ll)(h % 3); } };
  c.run(1, mpi::Sched(), [&](int r) {
    Lib &L = lib(c.variant, r); void *wd = L.sh_comm_world(); int f = L.sh_comm_fint(wd), h = -7, one = 1; L.f<void(*)(int*, const int*, const int*)>("fgslib_crystal_setup_")(&h, &f, &one);
    Blk<int> vi((size_t)mi * n); Blk<ll> vl((size_t)ml * n); Blk<double> vr((size_t)md * n); Blk<int> keys = blk(key); struct Rw { std::vector<int> a; std::vector<ll> b; std::vector<double> d; }; std::vector<Rw> rows(n);
    for (int i = 0; i < n; ++i) { for (int j = 0; j < mi; ++j) rows[i].a.push_back(vi[(size_t)i * mi + j] = (int)val(i, j, 0)); for (int j = 0; j < ml; ++j) rows[i].b.push_back(vl[(size_t)i * ml + j] = val(i, j, 1)); for (int j = 0; j < md; ++j) rows[i].d.push_back(vr[(size_t)i * md + j] = (double)(hash64(vs, i, j, 9) >> 11) * 1e-7); }
    for (int t = 0; t < rounds; ++t) { std::vector<int> ks(key); if (t) std::reverse(ks.begin(), ks.end()), keys = blk(ks);
      std::stable_sort(rows.begin(), rows.end(), [&](const Rw &x, const Rw &y) { for (int q : ks) { ll u = q <= mi ? x.a[q - 1] : x.b[q - 1 - mi], v = q <= mi ? y.a[q - 1] : y.b[q - 1 - mi]; if (u != v) return u < v; } return false; });
      if (tup) L.f<void(*)(const int*, const int*, int*, const int*, ll*, const int*, double*, const int*, const int*, const int*)>("fgslib_crystal_tuple_sort_")(&h, &n, vi.p, &mi, vl.p, &ml, vr.p, &md, keys.p, &nk);
      else L.f<void(*)(const int*, int*, const int*, const int*, const int*, const int*)>("fgslib_crystal_ituple_sort_")(&h, vi.p, &mi, &n, keys.p, &nk);
      for (int i = 0; i < n; ++i) { for (int j = 0; j < mi; ++j) if (vi[(size_t)i * mi + j] != rows[i].a[j]) throw CaseFail(strf("sort %d: column %d of %d, integer %d: got %d, want %d", t, i, n, j + 1, vi[(size_t)i * mi + j], rows[i].a[j]));
        for (int j = 0; j < ml; ++j) if (vl[(size_t)i * ml + j] != rows[i].b[j]) throw CaseFail(strf("sort %d: column %d of %d, long %d: got %lld, want %lld", t, i, n, j + 1, vl[(size_t)i * ml + j], rows[i].b[j]));
        for (int j = 0; j < md; ++j) if (vr[(size_t)i * md + j] != rows[i].d[j]) throw CaseFail(strf("sort %d: column %d of %d: real %d does not belong to its integers", t, i, n, j + 1)); } }
    L.f<void(*)(int*)>("fgslib_crystal_free_")(&h); L.sh_comm_free(wd);
  });
}
static RegProp r1({"R01", "process count 1-20, router on a whole or split communicator, 1-3 rounds, per process up to 14 (sometimes 200) messages of up to 20 (sometimes 3000) integers, seven destination patterns, a message schedule; non-trivial: more than one process and at least one message", R01, 120000, 2700000, 20, {"asan-nbc", "asan-def"}});
static RegProp r2({"R02", "process count 1-20, row layout (1-3 parallel arrays, widths from 1 byte, position of the process field), up to 25 (sometimes 700) rows per process, 1-4 transfers among plain, external-destination and there-and-back, a message schedule; non-trivial: rows exist and some pattern moves them between processes", R02, 90000, 1800000, 20, {"asan-nbc", "asan-def"}});
static RegProp r3({"R03", "process count 1-20, table shape (integer, long, real columns, key row), capacities down to zero, 1-3 transfers; non-trivial: some column changed process", R03, 150000, 3000000, 20, {"asan-nbc", "asan-def"}});
static RegProp r4({"R04", "table shape, 0-900 columns, 0-4 keys (repeats allowed), value spans from three values to the full nonnegative range, sorted once or twice; non-trivial: two columns and one key", R04, 400000, 1500000, 1, {"asan-def", "fast-def"}});
