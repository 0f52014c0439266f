#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <exception>
#include "mockmpi.hpp"

struct CaseFail : std::exception {
  std::string m; explicit CaseFail(std::string s) : m(std::move(s)) {}
  const char *what() const noexcept override { return m.c_str(); }
};

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// One generated case.  Every random choice is a recorded draw, so that a case
// is its list of draws: replayable, and shrinkable by editing the list.
// Convention: draw 0 is the simplest choice.
class Case {
public:
  // ---- choices
  uint64_t draw(uint64_t n);                 // 0..n-1
  int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo) + 1); }
  bool chance(int pct) { return (int)draw(100) >= 100 - pct; }   // shrinks to false
  bool coin() { return draw(2) == 1; }
  uint64_t bits() { return draw(0); }        // full 64-bit value
  double unit() { return (double)(draw(1ull << 53)) / (double)(1ull << 53); }   // [0,1)
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  int size(int max);                         // small-biased 0..max
  std::vector<int> perm(int n);
  // ---- verdicts
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  void label(const std::string &s) { labels.insert(s); }
  void known(const std::string &s) { knowns.insert(s); }   // a listed finding showed up
  void desc(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  bool thorough = false;
  // ---- running ranks
  mpi::Sched sched(int np);                  // draw a schedule
  mpi::Result run(int np, const mpi::Sched &s, const std::function<void(int)> &fn);   // fails the case on protocol errors
  // ---- internals
  std::vector<uint64_t> *rec = nullptr; const std::vector<uint64_t> *rep = nullptr; size_t pos = 0;
  uint64_t s[2]; bool nontriv = false; std::set<std::string> labels, knowns; std::string text;
  const char *prop = "";
  int variant = 0; bool raw = false;   // raw: run() only returns what happened
};
// property-writing helpers
#define CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)

struct Variant { std::string name; std::vector<std::string> libs; };

// The library under test: one private copy of its globals per rank.
void *lib_sym(int variant, int rank, const char *name);
int n_variants();
const char *variant_name(int v);
int find_variant(const char *name);   // -1: absent
bool variant_has(int v, const char *word);

struct PropDef {
  const char *id; const char *rule; void (*fn)(Case &);
  long quick_cases, thorough_cases; int max_ranks;
  std::vector<std::string> variants;   // the builds this check draws from
  const char *level = "exploration";
};
extern std::vector<PropDef> &props();
struct RegProp { RegProp(PropDef d) { props().push_back(std::move(d)); } };

// heap accounting of the code under test
struct HeapStat { long blocks, bytes; };
HeapStat heap_live();       // live blocks/bytes allocated since heap_track(true)
void heap_track(bool on);
int heap_fill(int v = -1);   // what fresh memory holds: set (v >= 0), and the byte before
