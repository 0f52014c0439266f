// Reference model and call-history machine for the gather-scatter interface.
#pragma once
#include "common.hpp"

struct Topo { int np = 0; std::vector<std::vector<ll>> id; };

inline ll style_id(int style, uint64_t k, int np) {   // k -> a nonzero identifier, injective
  switch (style) {
    case 0: return (ll)k + 1;
    case 1: return (ll)(k + 1) * np;                   // all fall on one working process
    case 2: return (ll)(k + 1) * 4294967296ll + 5;     // differ only in the high half
    case 3: return LLONG_MAX - (ll)k;
    case 4: return (ll)((hash64(k, 991) >> 8) << 8 >> 1) + (ll)(k & 127) + 1;
    default: return 4294967290ll + (ll)k;              // straddles 2^32
  }
}

struct TopoOpt { bool flags = true; bool big = false; int maxn = 14; };
inline Topo gen_topo(Case &c, int np, TopoOpt o, std::string *note = nullptr) {
  Topo t; t.np = np; t.id.resize(np);
  int mode = o.big && c.chance(12) ? 4 : (int)c.draw(4), style = (int)c.draw(6);
  static const int PF[] = {0, 0, 20, 50, 90}, PZ[] = {0, 10, 40};
  int pf = o.flags ? PF[c.draw(5)] : 0, pz = PZ[c.draw(3)];
  auto put = [&](int p, uint64_t k) { ll v = style_id(style, k, np); t.id[p].push_back(v); };
  if (mode == 0 || mode == 3) {      // random members of a small pool
    int K = 1 + c.size(mode == 3 ? 3 : 24);
    for (int p = 0; p < np; ++p) { int n = c.size(o.maxn); for (int i = 0; i < n; ++i) put(p, c.draw(K)); }
  } else if (mode == 1) {            // a chain of blocks sharing their ends, as in a mesh
    int w = 1 + (int)c.draw(6), ov = (int)c.draw(3); bool per = c.coin();
    for (int p = 0; p < np; ++p) for (int i = 0; i < w + ov; ++i) { long k = (long)p * w + i; if (per) k %= (long)np * w; put(p, k); }
  } else if (mode == 2) {            // identifiers listed with the processes that hold them
    int G = 1 + c.size(16);
    for (int g = 0; g < G; ++g) { int m = 1 + c.size(6); for (int j = 0; j < m; ++j) put((int)c.draw(np), g); }
    for (int p = 0; p < np; ++p) { int n = t.id[p].size(); auto q = c.perm(n); auto s = t.id[p]; for (int i = 0; i < n; ++i) t.id[p][i] = s[q[i]]; }
  } else {                           // large, from one seed
    uint64_t h = c.draw(1u << 20); int K = 1 + (int)c.draw(600), M = 500; c.label("gs:large"); if (c.draw(100) == 99) M = 1 + 70000 / np, K = 1 + (int)c.draw(90000), c.label("gs:tens-of-thousands");
    for (int p = 0; p < np; ++p) { int n = (int)c.draw(M); for (int i = 0; i < n; ++i) { uint64_t r = hash64(h, p, i); put(p, r % K); int f = (r >> 32) % 100; if ((int)((r >> 40) % 100) < pz) t.id[p].back() = 0; else if (f < pf) t.id[p].back() *= -1; } }
    if (note) *note = strf("topo large K=%d style=%d", K, style);
    return t;
  }
  for (int p = 0; p < np; ++p) for (auto &v : t.id[p]) { if (pz && c.chance(pz)) v = 0; else if (pf && c.chance(pf)) v = -v; }
  if (note) { std::string s = strf("ids(style %d):", style); for (int p = 0; p < np; ++p) { s += " ["; for (size_t i = 0; i < t.id[p].size() && i < 20; ++i) s += strf("%s%lld", i ? "," : "", t.id[p][i]); s += "]"; } *note = s; }
  return t;
}

struct Site { int p, i; };
struct Groups { std::vector<std::vector<Site>> g; std::vector<std::vector<int>> of, idx; bool shared = false, flagged = false, multi = false; };
inline Groups analyse(const Topo &t, const std::vector<int> &color) {
  Groups r; std::map<std::pair<int, ll>, int> m; r.of.resize(t.np); r.idx.resize(t.np);
  for (int p = 0; p < t.np; ++p) for (int i = 0; i < (int)t.id[p].size(); ++i) {
    ll v = t.id[p][i]; if (v == 0) { r.of[p].push_back(-1); r.idx[p].push_back(0); continue; }
    auto it = m.insert({{color[p], v < 0 ? -v : v}, (int)r.g.size()}); if (it.second) r.g.emplace_back();
    int k = it.first->second; r.of[p].push_back(k); r.idx[p].push_back(r.g[k].size()); r.g[k].push_back({p, i});
    if (v < 0) r.flagged = true; if (r.g[k].size() > 1) r.multi = true; if (r.g[k][0].p != p) r.shared = true;
  }
  return r;
}

struct GHandle {
  Topo t, eff;               // as given; with the flags that apply
  std::vector<int> color, key; int commkind = 0;   // 0 world, 1 duplicate, 2 split
  int method = 0, unique = 0, verbose = 0, api = 0; Groups gr; bool setup_alive = false;
  bool pick = false;
};
struct GOp { int h = 0, dom = 0, op = 0, tr = 0, mode = 0, k = 1, buf = 0; uint64_t vs = 0; int stride_extra = 0; bool rough = false; int c0 = 0; bool viac = false; };   // rough: values whose reduction depends on the order; c0: number of the first component; viac: on a Fortran handle through gs_hf2c and the C interface
struct GAct { int kind = 0; int h = 0; int o = 0; };   // 0 setup 1 free 2 blocking op 3 start op 4 wait op 5 unique-on-copy

struct GData { std::vector<std::vector<Blk<char>>> in, out; std::vector<std::vector<char>> done; };   // [rank][array]

// Element (i, component c) of an operation's data lives in array a at element e.
inline void locate(const GOp &o, int n, int i, int c, int &a, size_t &e) {
  if (o.mode == 0) a = 0, e = i; else if (o.mode == 1) a = 0, e = (size_t)i * o.k + c; else if (o.mode == 2) a = c, e = i;
  else a = 0, e = (size_t)c * (n + o.stride_extra) + i;   // mode 3: one block of fields
}
inline int n_arrays(const GOp &o) { return o.mode == 2 ? o.k : 1; }
inline size_t arr_len(const GOp &o, int n) { return o.mode == 1 ? (size_t)n * o.k : o.mode == 3 ? (size_t)o.k * (n + o.stride_extra) : (size_t)n; }

template <class T> T rough_val(int op, uint64_t h) {
  uint64_t r = hash64(h, 78); if (op == 4) return op_val<T>(4, h, 0); if (std::is_integral<T>::value) return (T)r;
  double u = (double)(r >> 11) / (double)(1ull << 53); return (T)(op == 1 ? (u + 0.5) * (r & 1 ? 1 : -1) : (u - 0.5) * pow(2.0, (int)(r % 24))); }
inline void fill(const GHandle &h, const GOp &o, GData &d) {
  int np = h.t.np; d.in.assign(np, {}); d.out.assign(np, {});
  with_dom(o.dom, [&](auto tag) { typedef typename decltype(tag)::type T;
    for (int p = 0; p < np; ++p) { int n = h.t.id[p].size();
      for (int a = 0; a < n_arrays(o); ++a) { Blk<char> b(arr_len(o, n) * sizeof(T)); for (size_t e = 0; e < arr_len(o, n); ++e) { T v = op_val<T>(o.op, hash64(o.vs, p, e, a + 900), 99); memcpy(b.p + e * sizeof(T), &v, sizeof(T)); } d.in[p].push_back(b); }
      for (int i = 0; i < n; ++i) for (int c = 0; c < (o.mode ? o.k : 1); ++c) { int a; size_t e; locate(o, n, i, c, a, e); T v = o.rough ? rough_val<T>(o.op, hash64(o.vs, p, i, c + o.c0)) : op_val<T>(o.op, hash64(o.vs, p, i, c), h.gr.of[p][i] < 0 ? 99 : h.gr.idx[p][i]); memcpy(d.in[p][a].p + e * sizeof(T), &v, sizeof(T)); }
      d.out[p] = d.in[p]; } });
}

// Compare a finished operation with the definition.  'K1' is the recorded
// finding: with several flagged and no unflagged local members, one of them
// is overwritten with the local partial result when transpose is set.
inline void verify(Case &c, const GHandle &h, const GOp &o, const GData &d, const char *what) {
  int np = h.t.np;
  with_dom(o.dom, [&](auto tag) { typedef typename decltype(tag)::type T;
    auto at = [&](const std::vector<Blk<char>> &b, int a, size_t e) { T v; memcpy(&v, b[a].p + e * sizeof(T), sizeof(T)); return v; };
    int K = o.mode ? o.k : 1;
    std::vector<T> red(h.gr.g.size() * K);
    for (size_t g = 0; g < h.gr.g.size(); ++g) for (int k = 0; k < K; ++k) { T acc = op_id<T>(o.op);
      for (auto &s : h.gr.g[g]) { if (!o.tr && h.eff.id[s.p][s.i] < 0) continue; int a; size_t e; locate(o, h.t.id[s.p].size(), s.i, k, a, e); acc = op_do<T>(o.op, acc, at(d.in[s.p], a, e)); }
      red[g * K + k] = acc; }
    for (int p = 0; p < np; ++p) { int n = h.t.id[p].size();
      std::vector<std::vector<char>> seen(n_arrays(o)); std::map<std::pair<int, int>, int> k1; for (auto &s : seen) s.assign(arr_len(o, n), 0);
      for (int i = 0; i < n; ++i) for (int k = 0; k < K; ++k) { int a; size_t e; locate(o, n, i, k, a, e); seen[a][e] = 1;
        T got = at(d.out[p], a, e), in = at(d.in[p], a, e); int g = h.gr.of[p][i]; bool flag = h.eff.id[p][i] < 0, set = g >= 0 && !(o.tr && flag); T want = set ? red[g * K + k] : in;
        if (got == want) continue;
        if (o.tr && flag && g >= 0) {   // the recorded finding?
          int nl = 0; bool unfl = false; T part = op_id<T>(o.op);
          for (auto &s : h.gr.g[g]) if (s.p == p) { ++nl; if (h.eff.id[p][s.i] > 0) unfl = true; int a2; size_t e2; locate(o, n, s.i, k, a2, e2); part = op_do<T>(o.op, part, at(d.in[p], a2, e2)); }
          if (nl > 1 && !unfl && got == part && !k1[{g, k}]++) { c.known("K1"); continue; }
        }
        c.fail("%s %s %s transpose=%d mode=%d k=%d method=%d: process %d entry %d component %d (id %lld): got %.17g, want %.17g (%s)", what, DOMN[o.dom], OPN[o.op], o.tr, o.mode, o.k, h.method, p, i, k, h.eff.id[p][i], (double)got, (double)want, set ? "the reduction" : "unchanged");
      }
      for (int a = 0; a < n_arrays(o); ++a) for (size_t e = 0; e < seen[a].size(); ++e) if (!seen[a][e] && at(d.out[p], a, e) != at(d.in[p], a, e)) c.fail("%s: process %d: wrote between the fields at element %zu", what, p, e);
    } });
}

// valid outcome of making ids unique
inline void verify_unique(Case &c, const Topo &before, const Topo &after, const std::vector<int> &color) {
  Groups g = analyse(before, color);
  for (int p = 0; p < before.np; ++p) for (size_t i = 0; i < before.id[p].size(); ++i) { ll b = before.id[p][i], a = after.id[p][i];
    if ((b < 0 ? -b : b) != (a < 0 ? -a : a)) c.fail("unique: process %d entry %zu: id %lld became %lld", p, i, b, a);
    if (b < 0 && a > 0) c.fail("unique: process %d entry %zu: flagged id %lld became unflagged", p, i, b); }
  for (auto &s : g.g) { int nb = 0, na = 0; for (auto &x : s) { nb += before.id[x.p][x.i] > 0; na += after.id[x.p][x.i] > 0; }
    if (nb && na != 1) c.fail("unique: id %lld has %d unflagged members after the call (%d before)", before.id[s[0].p][s[0].i], na, nb);
    if (!nb && na) c.fail("unique: id %lld was entirely flagged and now has %d unflagged", before.id[s[0].p][s[0].i], na); }
}

struct GsMachine {
  Case &c; int np; std::vector<GHandle> h; std::vector<GOp> ops; std::vector<GAct> acts; std::vector<GData> data; std::vector<int> hops;
  std::vector<Topo> uniq; std::vector<std::vector<int>> waits;   // waits[r]: order in which rank r completes a batch
  std::function<void(int, size_t, int)> on_act;   // called by a process around each of its actions
  std::vector<std::vector<std::vector<int>>> rw;   // rw[k][r]: operations rank r completes at point k
  GsMachine(Case &c_, int np_) : c(c_), np(np_) {}

  int add_handle(const Topo &t, int method, int unique, int commkind, int api, int verbose) {
    GHandle g; g.t = g.eff = t; g.method = method; g.unique = unique; g.commkind = commkind; g.api = api; g.verbose = verbose; g.color.assign(np, 0); g.key.assign(np, 0);
    if (commkind == 2) { int nc = 1 + (int)c.draw(3); for (int p = 0; p < np; ++p) g.color[p] = (int)c.draw(nc), g.key[p] = (int)c.draw(3); }
    g.gr = analyse(t, g.color); h.push_back(g); uniq.push_back(t); return h.size() - 1;
  }
  GOp gen_op(int hi, int modes, int maxk) {   // modes: bit mask of allowed modes
    GOp o; o.h = hi; o.dom = (int)c.draw(5); o.op = (int)c.draw(5); o.tr = (int)c.draw(2);
    std::vector<int> ms; for (int m = 0; m < 4; ++m) if (modes >> m & 1) ms.push_back(m);
    o.mode = c.pick(ms); o.k = o.mode ? c.draw(12) == 11 ? 0 : 1 + (int)c.draw(maxk) : 1; if (o.mode && c.draw(40) == 39) { size_t all = 0; for (auto &v : h[hi].t.id) all += v.size(); if (all < 3000) o.k = 8 + (int)c.draw(33), c.label("gs:many-components"); } o.vs = c.draw(1u << 20); o.buf = (int)c.draw(3);
    if (h[hi].api) { static const int D[] = {0, 2, 4}; o.dom = D[o.dom % 3]; o.op %= 4; if (o.mode == 2 && o.k > 6) o.k = 6; o.buf = 0; if (o.mode == 3) o.stride_extra = (int)c.draw(4); else o.viac = c.chance(20); if (o.viac) c.label("gs:hf2c"); }
    return o;
  }
  int add_op(const GOp &o) { ops.push_back(o); return ops.size() - 1; }
  void act(int kind, int a) { GAct x; x.kind = kind; if (kind <= 1 || kind == 5) x.h = a; else x.o = a; acts.push_back(x); }

  void start(Lib &L, int r, const GOp &o, GData &d, void *hc, int fh, void *buf, int *tok, std::vector<void*> &ptrs) {
    GHandle &g = h[o.h]; auto &B = d.out[r]; ptrs.clear(); for (auto &b : B) ptrs.push_back(b.p);
    if (!g.api || o.viac) { if (o.viac) hc = L.sh_gs_hf2c(fh); if (!hc) throw CaseFail("gs_hf2c returned no handle");
      if (!tok) { if (o.mode == 0) L.sh_gs(B[0].p, o.dom, o.op, o.tr, hc, buf); else if (o.mode == 1) L.sh_gs_vec(B[0].p, o.k, o.dom, o.op, o.tr, hc, buf); else L.sh_gs_many(ptrs.data(), o.k, o.dom, o.op, o.tr, hc, buf); }
      else { if (o.mode == 0) L.sh_igs(B[0].p, o.dom, o.op, o.tr, hc, buf, tok); else if (o.mode == 1) L.sh_igs_vec(B[0].p, o.k, o.dom, o.op, o.tr, hc, buf, tok); else L.sh_igs_many(ptrs.data(), o.k, o.dom, o.op, o.tr, hc, buf, tok); }
      return;
    }
    int dom = o.dom == 0 ? 1 : o.dom == 2 ? 2 : 3, op = o.op + 1, tr = o.tr, k = o.k, n = g.t.id[r].size(), stride = n + o.stride_extra;
    if (o.mode == 3) { L.f<void(*)(const int*, void*, const int*, const int*, const int*, const int*, const int*)>("fgslib_gs_op_fields_")(&fh, B[0].p, &stride, &k, &dom, &op, &tr); return; }
    if (o.mode == 2) { void *u[6]; for (int i = 0; i < 6; ++i) u[i] = i < k ? ptrs[i] : nullptr;
      if (!tok) L.f<void(*)(const int*, void*, void*, void*, void*, void*, void*, const int*, const int*, const int*, const int*)>("fgslib_gs_op_many_")(&fh, u[0], u[1], u[2], u[3], u[4], u[5], &k, &dom, &op, &tr);
      else L.f<void(*)(const int*, void*, void*, void*, void*, void*, void*, const int*, const int*, const int*, const int*, int*)>("fgslib_igs_op_many_")(&fh, u[0], u[1], u[2], u[3], u[4], u[5], &k, &dom, &op, &tr, tok);
      return; }
    if (o.mode == 1) { if (!tok) L.f<void(*)(const int*, void*, const int*, const int*, const int*, const int*)>("fgslib_gs_op_vec_")(&fh, B[0].p, &k, &dom, &op, &tr);
      else L.f<void(*)(const int*, void*, const int*, const int*, const int*, const int*, int*)>("fgslib_igs_op_vec_")(&fh, B[0].p, &k, &dom, &op, &tr, tok); return; }
    if (!tok) L.f<void(*)(const int*, void*, const int*, const int*, const int*)>("fgslib_gs_op_")(&fh, B[0].p, &dom, &op, &tr);
    else L.f<void(*)(const int*, void*, const int*, const int*, const int*, int*)>("fgslib_igs_op_")(&fh, B[0].p, &dom, &op, &tr, tok);
  }

  mpi::Result go(const mpi::Sched &sc, const std::function<void(Lib&, int, void*)> &extra = nullptr) {
    data.resize(ops.size()); for (size_t i = 0; i < ops.size(); ++i) fill(h[ops[i].h], ops[i], data[i]);
    return c.run(np, sc, [&](int r) {
      Lib &L = lib(c.variant, r); void *w = L.sh_comm_world(); std::vector<void*> hc(h.size(), nullptr); std::vector<int> fh(h.size(), -1);
      void *shared = L.sh_buf_null(); std::vector<void*> priv(ops.size(), nullptr); std::vector<int> tok(ops.size(), -1); std::vector<std::vector<void*>> ptrs(ops.size());
      int nw = 0; std::vector<int> batch; auto finish = [&](int o) {
        if (h[ops[o].h].api && !ops[o].viac) L.f<void(*)(int*)>("fgslib_gs_op_wait_")(&tok[o]); else L.sh_gs_wait(tok[o]); };
      for (size_t ai = 0; ai < acts.size(); ++ai) { GAct &a = acts[ai]; if (on_act) on_act(r, ai, 0);
        if (a.kind == 0 || a.kind == 5) { GHandle &g = h[a.h]; void *cm = w;
          if (g.commkind == 1) cm = L.sh_comm_dup(w); else if (g.commkind == 2) cm = L.sh_comm_split(w, g.color[r], g.key[r]);
          auto ids = blk(g.t.id[r]); int n = ids.n, f = L.sh_comm_fint(cm), np_ = L.sh_comm_np(cm);
          if (a.kind == 5) { if (g.api) L.f<void(*)(ll*, const int*, const int*, const int*)>("fgslib_gs_unique_")(ids.p, &n, &f, &np_); else L.sh_gs_unique(ids.p, n, cm); uniq[a.h].id[r].assign(ids.p, ids.p + n); }
          else { if (g.api) { int mc = L.sh_method_code(g.method); if (g.pick) L.f<void(*)(int*, const ll*, const int*, const int*, const int*, const int*)>("fgslib_gs_setup_pick_")(&fh[a.h], ids.p, &n, &f, &np_, &mc); else L.f<void(*)(int*, const ll*, const int*, const int*, const int*)>("fgslib_gs_setup_")(&fh[a.h], ids.p, &n, &f, &np_); }
            else hc[a.h] = L.sh_gs_setup(ids.p, n, cm, g.unique, g.method, g.verbose);
            for (int i = 0; i < n; ++i) if (ids[i] != g.t.id[r][i]) throw CaseFail(strf("setup changed the caller's id[%d] on process %d from %lld to %lld", i, r, g.t.id[r][i], ids[i])); }
          if (cm != w) L.sh_comm_free(cm);
        } else if (a.kind == 1) { if (h[a.h].api) L.f<void(*)(const int*)>("fgslib_gs_free_")(&fh[a.h]); else L.sh_gs_free(hc[a.h]); hc[a.h] = nullptr; }
        else if (a.kind == 2 || a.kind == 3) { GOp &o = ops[a.o]; void *b = nullptr; if (o.buf == 1) { if (a.kind == 2) b = shared; else b = priv[a.o] = L.sh_buf_null(); } else if (o.buf == 2 || a.kind == 3) b = priv[a.o] = L.sh_buf_null();
          start(L, r, o, data[a.o], hc[o.h], fh[o.h], b, a.kind == 3 ? &tok[a.o] : nullptr, ptrs[a.o]); if (a.kind == 3) batch.push_back(a.o); }
        else if (a.kind == 6) { for (int o : rw[a.o][r]) { finish(o); batch.erase(std::find(batch.begin(), batch.end(), o)); } }
        else if (a.kind == 4) { if (a.o >= 0) { finish(a.o); batch.erase(std::find(batch.begin(), batch.end(), a.o)); } else { auto &q = waits[r]; std::vector<int> b2 = batch; for (int x : q) if (x < (int)b2.size()) finish(b2[x]); for (size_t x = q.size(); x < b2.size(); ++x) finish(b2[x]); batch.clear(); ++nw; } }
        if (on_act) on_act(r, ai, 1);
      }
      if (extra) extra(L, r, w);
      for (void *b : priv) if (b) L.sh_buf_free(b);
      L.sh_buf_free(shared); L.sh_comm_free(w);
    });
  }
  void check_ops(const char *what) { for (size_t i = 0; i < ops.size(); ++i) verify(c, h[ops[i].h], ops[i], data[i], what); }
};
