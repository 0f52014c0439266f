// props: S01 S02 M01
// variants: asan-def fast-def
#include "common.hpp"

static const char *const TN[] = {"uint", "ulong", "float", "double"};
template <class F> static void with_t(int t, F f) { switch (t) { case 0: f(Tag<uint>()); break; case 1: f(Tag<ull>()); break; case 2: f(Tag<float>()); break; default: f(Tag<double>()); } }
// the i-th of n values: few distinct, one byte, full range, high bits only, presorted, reversed, sawtooth
template <class T> static T value(int span, uint64_t vs, long i, long n) {
  uint64_t h = hash64(vs, i); const bool fp = !std::is_integral<T>::value;
  if (fp) switch (span) { case 0: return (T)((int)(h % 3) - 1); case 1: return (T)(((double)(h % 2000) - 1000) * 0.25); case 2: { if (!(h & 15)) return (T)((h & 16) ? -INFINITY : INFINITY); if (!(h & 48)) return (T)0.0 * ((h & 64) ? -1 : 1); double m = (double)(h >> 12) / (1ull << 51) - 1; return (T)std::ldexp(m, (int)(h % 140) - 70 - ((h >> 8) % 16 ? 0 : 1000)); }
    case 3: return (T)std::ldexp(1.0, (int)(h % 60) - 30); case 4: return (T)i; case 5: return (T)(n - i); case 7: return (T)(vs & 4 ? 0 : vs & 8 ? -0.0 : -1.5); case 8: return (T)(i % 7) * (i % 2 ? -1 : 1); case 9: return (T)std::ldexp(h & 1 ? 1.0 : h & 2 ? 1.25 : -1.0, (int)(vs % 60) - 30); default: return (T)(i % 7); }
  switch (span) { case 0: return (T)(h % 3); case 1: return (T)(h % 256); case 2: return (T)h; case 3: return (T)((h % 5) << (sizeof(T) * 8 - 8)); case 4: return (T)i; case 5: return (T)(n - i); case 6: return (T)((i % 7) << 9); case 7: return (T)(vs & 4 ? 0 : vs & 8 ? vs : (uint64_t)~0ull);
    case 8: { uint64_t m = 0; for (int b = 0; b < 8; ++b) if (vs >> b & 1) m |= 255ull << 8 * b; return (T)(h & m); }
    default: { uint64_t m = 0; for (int b = 0; b <= (int)(vs % 4); ++b) m |= 1ull << hash64(vs, b, 77) % (sizeof(T) * 8); return (T)(h & m); } } }
static const char *const SP[] = {"few", "byte", "full", "high-bits", "ascending", "descending", "sawtooth", "constant", "some-digits", "few-bits"};
static const int SPN = 10;
static int big_n(Case &c) { c.label("n:tens-of-thousands"); return c.coin() ? 65530 + (int)c.draw(12) : 6000 + (int)c.draw(140000); }   // across 2^15, 2^16, 2^17

static void S01(Case &c) {
  int t = (int)c.draw(4), calls = 1 + (int)c.draw(3); bool pb = c.coin(); uint b0 = c.size(5000); c.desc("%s buffer0=%u ", TN[t], b0); c.label(std::string("type:") + TN[t]);
  struct K { int n, span, extra, how; uint64_t vs; }; std::vector<K> ks; for (int i = 0; i < calls; ++i) { K k; k.n = c.draw(1000) == 999 ? big_n(c) : c.chance(30) ? 250 + (int)c.draw(15) : c.size(c.chance(10) ? 6000 : 400); k.span = (int)c.draw(SPN); k.extra = (int)c.draw(5); k.how = (int)c.draw(4); k.vs = c.draw(1u << 20); ks.push_back(k);
    static const char *const H[] = {"values", "values-in-place", "permutation", "permutation-continued"}; c.label(std::string("sort:") + H[k.how]); c.label(std::string("values:") + SP[k.span]); c.label(k.n < 2 ? "n:0-1" : k.n < 256 ? "n:2-255" : "n:256+"); c.desc("{%s n=%d %s stride+%d} ", H[k.how], k.n, SP[k.span], k.how == 1 ? 0 : k.extra); if (k.n > 1) c.nontrivial(); }
  c.run(1, mpi::Sched(), [&](int r) { Lib &L = lib(c.variant, r); void *buf = pb ? L.sh_buf_null() : L.sh_buf_new(b0);
    for (auto &k : ks) with_t(t, [&](auto tag) { typedef typename decltype(tag)::type T; int n = k.n; size_t el = 1 + (k.how == 1 ? 0 : k.extra), st = el * sizeof(T); Blk<T> A(n ? (n - 1) * el + 1 : 0); std::vector<T> v(n); memset((void*)A.p, 0x77, A.n * sizeof(T)); for (int i = 0; i < n; ++i) A[i * el] = v[i] = value<T>(k.span, k.vs, i, n);
      if (k.how < 2) { Blk<T> out(k.how == 0 ? n : 0); T *o = k.how == 0 ? out.p : A.p; std::vector<T> w(v); std::sort(w.begin(), w.end()); L.sh_sortv(t, o, A.p, n, st, buf);
        for (int i = 0; i < n; ++i) if (!(o[i] == w[i])) throw CaseFail(strf("sorting %d %s values (stride %zu%s): position %d holds %.17g, want %.17g", n, TN[t], st, k.how ? ", in place" : "", i, (double)o[i], (double)w[i]));
        if (k.how == 0) for (int i = 0; i < n; ++i) if (!(A[i * el] == v[i])) throw CaseFail("sorting changed its input"); return; }
      std::vector<uint> p(n); for (int i = 0; i < n; ++i) p[i] = i;
      if (k.how == 3) { for (int i = n - 1; i > 0; --i) std::swap(p[i], p[hash64(k.vs, i, 5) % (i + 1)]); L.sh_buf_reserve(buf, n * sizeof(uint)); if (n) memcpy(L.sh_buf_ptr(buf), p.data(), n * sizeof(uint)); }
      std::stable_sort(p.begin(), p.end(), [&](uint a, uint b) { return v[a] < v[b]; });
      uint *q = L.sh_sortp(t, buf, k.how == 3, A.p, n, st); if (n && q != (uint*)L.sh_buf_ptr(buf)) throw CaseFail("the permutation is not at the start of the buffer");
      for (int i = 0; i < n; ++i) if (q[i] != p[i]) throw CaseFail(strf("permutation sort of %d %s (stride %zu, %s): position %d holds index %u, want %u%s", n, TN[t], st, k.how == 3 ? "continuing a permutation" : "from the start", i, q[i], p[i], q[i] < (uint)n && v[q[i]] == v[p[i]] ? " (equal keys out of order)" : ""));
      for (int i = 0; i < n; ++i) if (!(A[i * el] == v[i])) throw CaseFail("permutation sort changed its input");
    });
    L.sh_buf_free(buf); });
}

struct SR { uint a; ull b; float f; double d; uint tag; };
static void S02(Case &c) {
  int calls = 1 + (int)c.draw(3); struct K { int what, n, how, span[4], size, align; uint64_t vs; }; std::vector<K> ks;
  for (int i = 0; i < calls; ++i) { K k; k.what = (int)c.draw(4); k.n = c.draw(1000) == 999 ? big_n(c) : c.chance(30) ? 250 + (int)c.draw(15) : c.size(c.chance(10) ? 4000 : 120); k.how = (int)c.draw(26); for (int &s : k.span) s = (int)c.draw(SPN); static const int AL[] = {1, 4, 8, 2}; k.align = AL[c.draw(4)]; k.size = k.align * (1 + (int)c.draw(9)); k.vs = c.draw(1u << 20); ks.push_back(k);
    static const char *const W[] = {"sort-structs", "permute", "permute-by-buffer", "invert"}; c.label(std::string("structs:") + W[k.what]); if (!k.what) c.label(strf("fields:%d", k.how < 4 ? 1 : k.how < 20 ? 2 : k.how < 23 ? 3 : 4)); c.desc("{%s n=%d how=%d size=%d} ", W[k.what], k.n, k.how, k.size); if (k.n > 1) c.nontrivial(); }
  static const std::vector<std::string> F = [] { std::vector<std::string> v{"a", "b", "f", "d"}; for (char x : std::string("abfd")) for (char y : std::string("abfd")) v.push_back(std::string() + x + y); for (auto s : {"abd", "dfa", "baf", "abfd", "dfba", "bdaf"}) v.push_back(s); return v; }();
  bool nb = c.coin(); uint b0 = c.size(3000);
  c.run(1, mpi::Sched(), [&](int r) { Lib &L = lib(c.variant, r); void *buf = nb ? L.sh_buf_null() : L.sh_buf_new(b0);
    for (auto &k : ks) { int n = k.n; std::vector<uint> p(n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 0; --i) std::swap(p[i], p[hash64(k.vs, i, 5) % (i + 1)]);
      if (k.what == 0) { size_t sz = L.sh_srow(5); Blk<char> A(n * sz); std::vector<SR> v(n); if (n) memset(A.p, 0x33, A.n); const std::string &f = F[k.how];
        for (int i = 0; i < n; ++i) { SR &s = v[i]; s.a = value<uint>(k.span[0], hash64(k.vs, 1), i, n); s.b = value<ull>(k.span[1], hash64(k.vs, 2), i, n); s.f = value<float>(k.span[2], hash64(k.vs, 3), i, n); s.d = value<double>(k.span[3], hash64(k.vs, 4), i, n); s.tag = i; char *q = A.p + i * sz; memcpy(q + L.sh_srow(0), &s.a, 4); memcpy(q + L.sh_srow(1), &s.b, 8); memcpy(q + L.sh_srow(2), &s.f, 4); memcpy(q + L.sh_srow(3), &s.d, 8); memcpy(q + L.sh_srow(4), &s.tag, 4); }
        auto cmp = [&](const SR &x, const SR &y) { for (char ch : f) switch (ch) { case 'a': if (x.a != y.a) return x.a < y.a; break; case 'b': if (x.b != y.b) return x.b < y.b; break; case 'f': if (x.f != y.f) return x.f < y.f; break; default: if (x.d != y.d) return x.d < y.d; } return false; };
        std::stable_sort(v.begin(), v.end(), cmp); if (!L.sh_sarray_sort(k.how, A.p, n, buf)) throw CaseFail("unknown sort");
        for (int i = 0; i < n; ++i) { SR s; char *q = A.p + i * sz; memcpy(&s.a, q + L.sh_srow(0), 4); memcpy(&s.b, q + L.sh_srow(1), 8); memcpy(&s.f, q + L.sh_srow(2), 4); memcpy(&s.d, q + L.sh_srow(3), 8); memcpy(&s.tag, q + L.sh_srow(4), 4);
          if (s.tag != v[i].tag) throw CaseFail(strf("sorting %d structs by %s: position %d holds element %u, want %u", n, f.c_str(), i, s.tag, v[i].tag)); if (s.a != v[i].a || s.b != v[i].b || memcmp(&s.f, &v[i].f, 4) || memcmp(&s.d, &v[i].d, 8)) throw CaseFail(strf("sorting %d structs by %s: element at %d was torn apart", n, f.c_str(), i)); } }
      else if (k.what == 3) { Blk<uint> in = blk(p), out(n); L.sh_perm_invert(out.p, in.p, n); for (int i = 0; i < n; ++i) if (out[p[i]] != (uint)i) throw CaseFail(strf("inverse of a permutation of %d: entry %u is %u, want %d", n, p[i], out[p[i]], i)); }
      else { Blk<char> A((size_t)n * k.size); std::string o(A.n, 0); for (size_t i = 0; i < A.n; ++i) A[i] = o[i] = (char)hash64(k.vs, i, 9);
        if (k.what == 1) { Blk<uint> in = blk(p); Blk<char> w(k.size); L.sh_permute(k.size, A.p, n, in.p, w.p); } else { L.sh_buf_reserve(buf, n * 4); if (n) memcpy(L.sh_buf_ptr(buf), p.data(), n * 4); L.sh_permute_buf(k.align, k.size, A.p, n, buf); }
        for (int i = 0; i < n; ++i) if (memcmp(A.p + (size_t)i * k.size, o.data() + (size_t)p[i] * k.size, k.size)) throw CaseFail(strf("permuting %d items of %d bytes: position %d is not the old item %u", n, k.size, i, p[i])); } }
    L.sh_buf_free(buf); });
}

// dynamic arrays against a plain vector
static void M01(Case &c) {
  int size = 1 + (int)c.draw(24), ops = 1 + c.size(40); struct O { int k; int n; uint64_t s; }; std::vector<O> o; for (int i = 0; i < ops; ++i) { O x; x.k = (int)c.draw(5); x.n = c.draw(4000) == 3999 ? big_n(c) : c.size(c.chance(5) ? 3000 : 40); x.s = c.draw(1u << 20); o.push_back(x); static const char *const K[] = {"append", "reserve", "resize", "truncate", "replace"}; c.label(std::string("array:") + K[x.k]); if (i < 12) c.desc("%s(%d) ", K[x.k], x.n); }
  int init = (int)c.draw(3), m0 = c.size(20); c.desc("item=%d bytes, start=%d/%d", size, init, m0); bool grew = false;
  c.run(1, mpi::Sched(), [&](int r) { Lib &L = lib(c.variant, r); std::string m; void *a = L.sh_arr_null(); if (init == 1) L.sh_arr_init(a, m0, size); else if (init == 2) L.sh_arr_reserve(a, m0, size);
    if (init && (int)L.sh_arr_max(a) < m0) throw CaseFail(strf("asked for %d items, got room for %zu", m0, L.sh_arr_max(a))); if (L.sh_arr_n(a)) throw CaseFail("a new array is not empty");
    for (auto &x : o) { size_t n = m.size() / size, max0 = L.sh_arr_max(a);
      if (x.k == 0) { Blk<char> s((size_t)x.n * size); for (size_t i = 0; i < s.n; ++i) s[i] = (char)hash64(x.s, i); m.append(s.p, s.n); L.sh_arr_cat(a, s.p, x.n, size); }
      else if (x.k == 1) { void *p = L.sh_arr_reserve(a, x.n, size); if (p != L.sh_arr_ptr(a)) throw CaseFail("reserve did not return the array's storage"); if ((int)L.sh_arr_max(a) < x.n) throw CaseFail(strf("reserved %d items, got room for %zu", x.n, L.sh_arr_max(a))); if (L.sh_arr_max(a) < max0) throw CaseFail("reserve shrank the array"); }
      else if (x.k == 2) { size_t k = n + x.n; L.sh_arr_resize(a, k, size); if (L.sh_arr_max(a) != k) throw CaseFail(strf("resized to %zu items, room is %zu", k, L.sh_arr_max(a))); }
      else if (x.k == 3) { size_t k = std::min<size_t>(n, x.n); L.sh_arr_setn(a, k); m.resize(k * size); }
      else if (n) { char *p = (char*)L.sh_arr_ptr(a); size_t i = x.s % n; for (int j = 0; j < size; ++j) p[i * size + j] = m[i * size + j] = (char)hash64(x.s, j, 3); }
      grew |= L.sh_arr_max(a) > max0; if (x.k < 2 && max0 >= 16 && L.sh_arr_max(a) > max0 && L.sh_arr_max(a) < max0 + max0 / 4) throw CaseFail(strf("growing by need took the room from %zu to %zu items: not geometric", max0, L.sh_arr_max(a))); n = m.size() / size; if (L.sh_arr_n(a) != n) throw CaseFail(strf("array holds %zu items, want %zu", L.sh_arr_n(a), n)); if (L.sh_arr_max(a) < n) throw CaseFail(strf("array holds %zu items in room for %zu", n, L.sh_arr_max(a)));
      if (m.size() && memcmp(L.sh_arr_ptr(a), m.data(), m.size())) { size_t i = 0; while (((char*)L.sh_arr_ptr(a))[i] == m[i]) ++i; throw CaseFail(strf("byte %zu of the array changed", i)); }
      if (L.sh_arr_max(a)) { char *p = (char*)L.sh_arr_ptr(a); p[L.sh_arr_max(a) * size - 1] = 1; if (m.size() == L.sh_arr_max(a) * size) p[m.size() - 1] = m[m.size() - 1]; } }
    L.sh_arr_free(a);
    static const size_t AS[] = {1, 4, 8, 8}; for (int w = 0; w < 4; ++w) { size_t v = hash64(o[0].s, w) % 100000, g = L.sh_align(w, v); if (g % AS[w] || g < v || g >= v + AS[w]) throw CaseFail(strf("aligning %zu to %zu gave %zu", v, AS[w], g)); }
  });
  c.nontrivial(grew && ops > 1);
}
static RegProp r1({"S01", "1-3 sorts over one scratch buffer: type, n up to 6000 (concentrated around 256), value pattern, stride, by value (in place or not) or by permutation (fresh or continued); non-trivial: two items or more", S01, 400000, 2500000, 1, {"asan-def", "fast-def"}});
static RegProp r2({"S02", "1-3 of: struct sort by 1-4 fields (26 field lists), in-place permutation of items of any size, through the buffer, inversion; n up to 4000 (concentrated around 256); non-trivial: two items or more", S02, 400000, 2500000, 1, {"asan-def", "fast-def"}});
static RegProp r3({"M01", "item size, starting state and 1-40 operations on a dynamic array; non-trivial: it grew", M01, 450000, 4000000, 1, {"asan-def", "fast-def"}});
