// What every check shares: the function table of the library under test.
#pragma once
#include "engine.hpp"
#include <cfloat>
#include <climits>
#include <cstdlib>
#include <memory>

typedef unsigned uint; typedef long long ll; typedef unsigned long long ull;

#define LIB_FUNCS(F) \
 F(int,sh_nbc,(void)) F(int,sh_typesize,(int)) F(void*,sh_comm_world,(void)) F(int,sh_comm_fint,(void*)) F(int,sh_world_fint,(void)) \
 F(void*,sh_comm_init_check,(int,uint)) F(void*,sh_comm_dup,(void*)) F(void*,sh_comm_split,(void*,int,int)) F(void,sh_comm_free,(void*)) \
 F(uint,sh_comm_id,(void*)) F(uint,sh_comm_np,(void*)) F(uint,sh_gbl,(int)) F(void,sh_barrier,(void*)) \
 F(void,sh_allreduce,(void*,int,int,void*,uint,void*)) F(void,sh_iallreduce,(void*,int,int,void*,uint,void*)) F(void,sh_scan,(void*,void*,int,int,const void*,uint,void*)) \
 F(void,sh_reduce,(void*,int,int,const void*,uint,void*)) F(double,sh_dot,(void*,double*,double*,uint)) F(void,sh_bcast,(void*,void*,size_t,uint)) \
 F(void,sh_gather,(void*,void*,size_t,void*,size_t,uint)) F(void,sh_shift,(void*,const char*,char*,size_t,uint,uint,int,int)) \
 F(void*,sh_buf_new,(size_t)) F(void*,sh_buf_null,(void)) F(void,sh_buf_free,(void*)) F(void*,sh_buf_ptr,(void*)) F(void,sh_buf_reserve,(void*,size_t)) \
 F(void*,sh_gs_setup,(const ll*,uint,void*,int,int,int)) F(void,sh_gs_free,(void*)) F(void,sh_gs_unique,(ll*,uint,void*)) \
 F(void,sh_gs,(void*,int,int,uint,void*,void*)) F(void,sh_gs_vec,(void*,uint,int,int,uint,void*,void*)) F(void,sh_gs_many,(void*const*,uint,int,int,uint,void*,void*)) \
 F(void,sh_igs,(void*,int,int,uint,void*,void*,int*)) F(void,sh_igs_vec,(void*,uint,int,int,uint,void*,void*,int*)) F(void,sh_igs_many,(void*const*,uint,int,int,uint,void*,void*,int*)) \
 F(void,sh_gs_wait,(int)) F(void*,sh_gs_hf2c,(int)) F(void,sh_pw_nmsg,(void*,int*)) F(void,sh_pw_size,(void*,int*)) F(int,sh_method_code,(int)) \
 F(void*,sh_cr_new,(void*)) F(void,sh_cr_free,(void*)) F(void,sh_cr_route,(void*,const uint*,uint)) F(uint,sh_cr_n,(void*)) F(const uint*,sh_cr_data,(void*)) \
 F(void*,sh_arr_new,(const void*,size_t,size_t,size_t)) F(void*,sh_arr_view,(void*,size_t,size_t)) F(void,sh_arr_free,(void*)) F(void,sh_arr_drop,(void*)) \
 F(size_t,sh_arr_n,(void*)) F(size_t,sh_arr_max,(void*)) F(void*,sh_arr_ptr,(void*)) F(void,sh_arr_setn,(void*,size_t)) F(void*,sh_arr_null,(void)) \
 F(void,sh_arr_init,(void*,size_t,size_t)) F(void,sh_arr_resize,(void*,size_t,size_t)) F(void*,sh_arr_reserve,(void*,size_t,size_t)) F(void,sh_arr_cat,(void*,const void*,size_t,size_t)) F(size_t,sh_align,(int,size_t)) \
 F(void,sh_transfer,(void*,uint,uint,int,void*)) F(void,sh_transfer_ext,(void*,uint,const uint*,uint,void*)) \
 F(uint,sh_transfer_many,(void**,const uint*,uint,int,int,int,uint,const uint*,uint,void*)) F(size_t,sh_tr_size,(int)) F(void,sh_tr_macro,(void*,int,void*)) F(void,sh_tr_ext_macro,(void*,const uint*,void*)) \
 F(void,sh_sortv,(int,void*,const void*,uint,uint,void*)) F(uint*,sh_sortp,(int,void*,int,const void*,uint,uint)) \
 F(void,sh_permute,(size_t,void*,size_t,uint*,void*)) F(void,sh_permute_buf,(size_t,size_t,void*,size_t,void*)) F(void,sh_perm_invert,(uint*,const uint*,uint)) \
 F(size_t,sh_srow,(int)) F(int,sh_sarray_sort,(int,void*,uint,void*)) \
 F(double,sh_dot_local,(const double*,const double*,uint)) F(void,sh_mxv,(double*,uint,const double*,const double*,uint)) F(void,sh_mtxv,(double*,uint,const double*,const double*,uint)) \
 F(void,sh_mxm,(double*,uint,const double*,uint,const double*,uint)) F(void,sh_mtxm,(double*,uint,const double*,uint,const double*,uint)) \
 F(double,sh_i1,(const double*,uint,const double*)) F(double,sh_i2,(const double*,uint,const double*,uint,const double*,double*)) F(double,sh_i3,(const double*,uint,const double*,uint,const double*,uint,const double*,double*)) \
 F(double,sh_ig1,(double*,const double*,uint,const double*)) F(double,sh_ig2,(double*,const double*,uint,const double*,uint,const double*,double*)) F(double,sh_ig3,(double*,const double*,uint,const double*,uint,const double*,uint,const double*,double*)) \
 F(void,sh_2t,(double*,const double*,uint,uint,const double*,uint,uint,const double*,double*)) F(void,sh_3t,(double*,const double*,uint,uint,const double*,uint,uint,const double*,uint,uint,const double*,double*)) \
 F(void,sh_quad,(int,double*,double*,int)) F(void*,sh_lag_new,(const double*,uint)) F(void*,sh_gll_new,(uint)) F(void,sh_lag_eval,(void*,double*,int,double)) F(void,sh_lag_free,(void*)) \
 F(void*,sh_lob_new,(uint,uint)) F(void,sh_free,(void*)) F(void*,sh_malloc,(size_t)) \
 F(void,sh_lob_1,(double*,void*,uint,uint,const double*)) F(void,sh_lob_2,(double*,void*,uint,uint,void*,uint,uint,const double*)) F(void,sh_lob_3,(double*,void*,uint,uint,void*,uint,uint,void*,uint,uint,const double*)) \
 F(void,sh_lin_1,(double*,void*,uint,uint,const double*,uint)) F(void,sh_lin_2,(double*,void*,uint,uint,void*,uint,uint,const double*,uint)) F(void,sh_lin_3,(double*,void*,uint,uint,void*,uint,uint,void*,uint,uint,const double*,uint)) \
 F(void,sh_obbox,(int,double*,const double*const*,const uint*,uint,const uint*,double)) F(int,sh_obbox_in,(int,const double*,const double*)) \
 F(void*,sh_el_new,(int,const uint*,uint)) F(void,sh_el_free,(void*)) F(void,sh_el_start,(void*,const double*const*)) F(void,sh_el_find,(void*,uint,double,const double*,double*,double*,int*,uint*)) F(void,sh_el_eval,(void*,double*,uint,const double*,uint,uint,const double*)) \
 F(void*,sh_loc_new,(int,const double*const*,const uint*,uint,const uint*,double,uint,uint,double,const uint*,const double*)) F(void,sh_loc_free,(void*)) \
 F(void,sh_loc_find,(void*,uint*,uint,uint*,uint,double*,uint,double*,uint,const double*const*,const uint*,uint)) F(void,sh_loc_eval,(void*,double*,uint,const uint*,uint,const double*,uint,uint,const double*)) \
 F(void*,sh_fp_new,(int,void*,const double*const*,const uint*,uint,const uint*,double,uint,uint,uint,double)) F(void,sh_fp_free,(int,void*)) \
 F(void,sh_fp_find,(int,void*,uint*,uint,uint*,uint,uint*,uint,double*,uint,double*,uint,const double*const*,const uint*,uint)) \
 F(void,sh_fp_eval,(int,void*,double*,uint,const uint*,uint,const uint*,uint,const uint*,uint,const double*,uint,uint,const double*)) \
 F(void*,sh_ms_new,(int,void*,const double*const*,const uint*,uint,const uint*,double,uint,uint,uint,double,const uint*,const double*)) F(void,sh_ms_free,(int,void*)) \
 F(void,sh_ms_find,(int,void*,uint*,uint,uint*,uint,uint*,uint,double*,uint,double*,uint,const double*const*,const uint*,const uint*,uint,const uint*,uint)) \
 F(void,sh_diagnostic,(int,const char*,const char*,unsigned,int,int,const char*)) F(void,sh_fail,(int,int,const char*,unsigned,int,int,const char*)) F(void,sh_die,(int)) \
 F(int,sh_fgs_setup,(const ll*,uint,void*,int)) F(void,sh_fgs_op,(int,void*,int,int,int,int)) F(void,sh_fgs_free,(int)) \
 F(void,sh_ms_eval,(int,void*,double*,uint,const uint*,uint,const uint*,uint,const uint*,uint,const double*,uint,uint,const double*))

struct Lib {
#define F(R, N, A) R (*N) A;
  LIB_FUNCS(F)
#undef F
  int v, r;
  Lib(int v_, int r_) : v(v_), r(r_) {
#define F(R, N, A) N = (R (*) A) lib_sym(v, r, #N);
    LIB_FUNCS(F)
#undef F
  }
  template <class T> T f(const char *n) { return (T)lib_sym(v, r, n); }
};
inline Lib &lib(int v, int r) { static std::map<std::pair<int, int>, Lib*> m; Lib *&p = m[{v, r}]; if (!p) p = new Lib(v, r); return *p; }
// the calling rank's library
inline Lib &lib(Case &c) { int r = mpi::cur_rank(); return lib(c.variant, r < 0 ? 0 : r); }

inline uint64_t hash64(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0) {
  uint64_t z = a + 0x9e3779b97f4a7c15ull * (b + 1); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z += 0x9e3779b97f4a7c15ull * (c + 1);
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z += 0xd1342543de82ef95ull * (d + 1); z = (z ^ (z >> 31)) * 0xbf58476d1ce4e5b9ull; return z ^ (z >> 29); }

// a heap block of exactly n objects, so that the sanitizer sees the smallest overrun; never null
template <class T> struct Blk {
  T *p = nullptr; size_t n = 0;
  Blk() {} explicit Blk(size_t k) : p((T*)malloc(k ? k * sizeof(T) : 1)), n(k) {}
  Blk(const Blk &o) : Blk(o.n) { if (n) memcpy(p, o.p, n * sizeof(T)); }
  Blk &operator=(Blk o) { std::swap(p, o.p); std::swap(n, o.n); return *this; }
  ~Blk() { free(p); }
  T &operator[](size_t i) { return p[i]; } const T &operator[](size_t i) const { return p[i]; }
};
template <class T> Blk<T> blk(const std::vector<T> &v) { Blk<T> b(v.size()); if (b.n) memcpy(b.p, v.data(), b.n * sizeof(T)); return b; }

static const char *const DOMN[] = {"double", "float", "int", "long", "longlong"};
static const char *const OPN[] = {"add", "mul", "min", "max", "bpr"};
static const size_t DOMSZ[] = {8, 4, 4, 8, 8};
template <class T> struct Tag { typedef T type; };
template <class F> void with_dom(int dom, F f) { switch (dom) { case 0: f(Tag<double>()); break; case 1: f(Tag<float>()); break; case 2: f(Tag<int>()); break; case 3: f(Tag<long>()); break; default: f(Tag<ll>()); } }

// the reduction operators, written from their descriptions
inline uint64_t ancestor(uint64_t a, uint64_t b) { if (!a) return b; if (!b) return a; while (a != b) { if (a > b) a >>= 1; else b >>= 1; } return a; }
template <class T> T op_id(int op) { switch (op) { case 0: return T(0); case 1: return T(1); case 2: return std::numeric_limits<T>::max(); case 3: return std::numeric_limits<T>::lowest(); default: return T(0); } }
template <class T> T op_do(int op, T a, T b) { switch (op) { case 0: return a + b; case 1: return a * b; case 2: return b < a ? b : a; case 3: return a < b ? b : a; default: return (T)ancestor((uint64_t)a, (uint64_t)b); } }
// j-th value of a group: sums and products of up to 'many' of them are exact in T
template <class T> T op_val(int op, uint64_t h, long j) {
  uint64_t r = hash64(h, 77);
  switch (op) {
    case 0: {   // small values, or values that need most of the type's digits; sums of thousands stay exact
      if ((r >> 40) & 1 || (sizeof(T) == 4 && !std::is_integral<T>::value)) return (T)((long)(r % 2001) - 1000);
      const int bits = sizeof(T) == 4 ? 17 : std::is_integral<T>::value ? 48 : 38; long v = (long)(r & ((1l << (bits + 1)) - 1)) - (1l << bits);
      return std::is_integral<T>::value ? (T)v : (T)(v * 0.25); }
    case 1: { static const double f[] = {1, -1, 2, -2, 3, 0.5, -0.5, 0}; int k = (int)(r % 8);
      if (j >= 12) return (T)((r & 8) ? 1 : -1);
      if (k == 7 && (r >> 8) % 16) k = 2;
      if (std::is_integral<T>::value && (k == 5 || k == 6)) k = 1;
      return (T)f[k]; }
    case 4: return (T)((r & 1) ? (r >> 8) % 64 : (r >> 8) % (sizeof(T) == 4 && !std::is_integral<T>::value ? 1u << 23 : 1u << 30));
    default: if (std::is_integral<T>::value) return (r & 3) ? (T)((long)(r % 201) - 100) : (T)r;
      return (r & 3) ? (T)((long)(r % 201) - 100) : (T)(((double)(r >> 12) - (double)(1ull << 51)) * ((r & 4) ? 1e-9 : 1e20));
  }
}

// a process count; now and then more than are usual
inline int pick_np(Case &c, int max) { int np = 1 + (int)c.draw(max); if (max >= 10 && c.draw(25) == 24) np = 13 + (int)c.draw(8), c.label("processes:13-20"); return np; }
