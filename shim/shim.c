/* Plain-type entry points to the public interface of the library under test.
   Compiled together with the library (same flags), so that the checks do not
   depend on the layout of its structs or on its static inline functions. */
#include <stdio.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <float.h>
#include <math.h>
#include "c99.h"
#include "name.h"
#include "fail.h"
#include "types.h"
#include "mem.h"
#include "gs_defs.h"
#include "comm.h"
#include "gs.h"
#include "crystal.h"
#include "sort.h"
#include "sarray_sort.h"
#include "sarray_transfer.h"
#include "tensor.h"
#include "poly.h"
#include "lob_bnd.h"
#include "obbox.h"
#include "findpts.h"
#include "findpts_el.h"
#include "findpts_local.h"

#define X __attribute__((visibility("default")))

static gs_dom DOM(int d) { switch(d) { case 0: return gs_double; case 1: return gs_float; case 2: return gs_int; case 3: return gs_long; default: return GS_WHEN_LONG_LONG(gs_long_long) +0; } }
static gs_op OP(int o) { switch(o) { case 0: return gs_add; case 1: return gs_mul; case 2: return gs_min; case 3: return gs_max; default: return gs_bpr; } }
static gs_method METHOD(int m) { switch(m) { case 0: return gs_pairwise; case 1: return gs_crystal_router; case 2: return gs_all_reduce; default: return gs_auto; } }

/* Builds with other integer widths: the checks always pass 4-byte uints and
   8-byte global ids; here they are copied to and from the library's types. */
#define WIDE (sizeof(uint)!=sizeof(unsigned))
static uint *widen(const unsigned *p, unsigned stride, size_t n) {
  uint *q = tmalloc(uint,n+1); size_t i; for(i=0;i<n;++i) q[i] = *(const unsigned*)((const char*)p+i*stride); return q; }
static void narrow(unsigned *p, unsigned stride, size_t n, uint *q) {
  size_t i; for(i=0;i<n;++i) *(unsigned*)((char*)p+i*stride) = (unsigned)q[i]; free(q); }
static slong *ids_in(const long long *id, size_t n) { slong *q = tmalloc(slong,n+1); size_t i; for(i=0;i<n;++i) q[i]=(slong)id[i]; return q; }
static void ids_out(long long *id, size_t n, slong *q) { size_t i; for(i=0;i<n;++i) id[i]=q[i]; free(q); }

#ifdef VERIF_COV
void __gcov_dump(void);
X void sh_cov_dump(void) { __gcov_dump(); }
#endif
X int sh_nbc(void) {
#ifdef GSLIB_USE_NBC
  return 1;
#else
  return 0;
#endif
}
X int sh_typesize(int w) { return w==0?(int)sizeof(sint):w==1?(int)sizeof(slong):w==2?(int)sizeof(comm_req):(int)sizeof(struct comm); }

/* ------------------------------------------------------------ fail */
static void say_v(const char *prefix, const char *file, unsigned line, const char *fmt, ...) { va_list ap; va_start(ap,fmt); vdiagnostic(prefix,file,line,fmt,ap); va_end(ap); }
static void fail_v(int status, const char *file, unsigned line, const char *fmt, ...) { va_list ap; va_start(ap,fmt); vfail(status,file,line,fmt,ap); }
X void sh_diagnostic(int v, const char *prefix, const char *file, unsigned line, int form, int num, const char *text) {
  void (*f)(const char *, const char *, unsigned, const char *, ...) = v ? say_v : diagnostic;
  switch(form) { case 0: f(prefix,file,line,"%s",text); break; case 1: f(prefix,file,line,"n=%d %s",num,text); break; case 2: f(prefix,file,line,text); break; default: f(prefix,file,line,"%s (%05d)",text,num); } }
X void sh_fail(int v, int status, const char *file, unsigned line, int form, int num, const char *text) {
  void (*f)(int, const char *, unsigned, const char *, ...) = v ? fail_v : fail;
  switch(form) { case 0: f(status,file,line,"%s",text); break; case 1: f(status,file,line,"n=%d %s",num,text); break; case 2: f(status,file,line,text); break; default: f(status,file,line,"%s (%05d)",text,num); } }
X void sh_die(int status) { die(status); }
#ifdef GSLIB_USE_USR_EXIT
X void GS_FORTRAN_NAME(userexithandler,USEREXITHANDLER)(int status) { exit(status); }   /* the application's own */
#endif
/* ------------------------------------------------------------ comm */
X void *sh_comm_world(void) {
  struct comm *c = tmalloc(struct comm,1);
#ifdef GSLIB_USE_MPI
  comm_init(c,MPI_COMM_WORLD);
#else
  comm_init(c,0);
#endif
  return c;
}
X int sh_comm_fint(void *c) {
#ifdef GSLIB_USE_MPI
  return MPI_Comm_c2f(((struct comm*)c)->c);
#else
  return 0;
#endif
}
X int sh_world_fint(void) {
#ifdef GSLIB_USE_MPI
  return MPI_Comm_c2f(MPI_COMM_WORLD);
#else
  return 0;
#endif
}
X void *sh_comm_init_check(int f, unsigned np) { struct comm *c = tmalloc(struct comm,1); comm_init_check(c,f,np); return c; }
X void *sh_comm_dup(void *s) { struct comm *c = tmalloc(struct comm,1); comm_dup(c,(const struct comm*)s); return c; }
X void *sh_comm_split(void *s, int bin, int key) { struct comm *c = tmalloc(struct comm,1); comm_split((const struct comm*)s,bin,key,c); return c; }
X void sh_comm_free(void *c) { comm_free(c); free(c); }
X unsigned sh_comm_id(void *c) { return ((struct comm*)c)->id; }
X unsigned sh_comm_np(void *c) { return ((struct comm*)c)->np; }
X unsigned sh_gbl(int w) { return w ? comm_gbl_np : comm_gbl_id; }
X void sh_barrier(void *c) { comm_barrier(c); }
X void sh_allreduce(void *c, int dom, int op, void *v, unsigned vn, void *buf) { comm_allreduce(c,DOM(dom),OP(op),v,vn,buf); }
X void sh_iallreduce(void *c, int dom, int op, void *v, unsigned vn, void *buf) { comm_req r; comm_iallreduce(&r,c,DOM(dom),OP(op),v,vn,buf); comm_wait(&r,1); }
X void sh_scan(void *out, void *c, int dom, int op, const void *v, unsigned vn, void *buf) { comm_scan(out,c,DOM(dom),OP(op),v,vn,buf); }
X void sh_reduce(void *c, int dom, int op, const void *v, unsigned vn, void *out) {
  switch(dom) {
    case 0: *(double*)out = comm_reduce_double(c,OP(op),v,vn); break;
    case 1: *(float*)out = comm_reduce_float(c,OP(op),v,vn); break;
    case 2: *(int*)out = comm_reduce_int(c,OP(op),v,vn); break;
    case 3: *(long*)out = comm_reduce_long(c,OP(op),v,vn); break;
    default: GS_WHEN_LONG_LONG(*(long long*)out = comm_reduce_long_long(c,OP(op),v,vn)); break;
  }
}
X double sh_dot(void *c, double *v, double *w, unsigned n) { return comm_dot(c,v,w,n); }
X void sh_bcast(void *c, void *p, size_t n, unsigned root) { comm_bcast(c,p,n,root); }
X void sh_gather(void *c, void *out, size_t on, void *in, size_t in_n, unsigned root) { comm_gather(c,out,on,in,in_n,root); }
/* ring of point-to-point messages through the wrappers */
X void sh_shift(void *cv, const char *out, char *in, size_t n, unsigned dst, unsigned src, int tag, int how) {
  struct comm *c = cv; comm_req r[2];
  if(how==0) { comm_irecv(&r[0],c,in,n,src,tag); comm_isend(&r[1],c,(void*)out,n,dst,tag); comm_wait(r,2); }
  else if(how==1) { comm_irecv(&r[0],c,in,n,src,tag); comm_send(c,(void*)out,n,dst,tag); comm_wait(r,1); }
  else { comm_isend(&r[0],c,(void*)out,n,dst,tag); comm_recv(c,in,n,src,tag); comm_wait(r,1); }
}

/* ------------------------------------------------------------ gather-scatter */
X void *sh_buf_new(size_t n) { buffer *b = tmalloc(buffer,1); buffer_init(b,n); return b; }
X void *sh_buf_null(void) { buffer *b = tcalloc(buffer,1); return b; }
X void sh_buf_free(void *b) { buffer_free((buffer*)b); free(b); }
X void *sh_buf_ptr(void *b) { return ((buffer*)b)->ptr; }
X void *sh_gs_setup(const long long *id, unsigned n, void *c, int unique, int method, int verbose) {
  if(sizeof(slong)!=8) { slong *q = ids_in(id,n); void *h = gs_setup(q,n,c,unique,METHOD(method),verbose); ids_out((long long*)id,n,q); return h; }
  return gs_setup((const slong*)id,n,c,unique,METHOD(method),verbose); }
X void sh_gs_free(void *g) { gs_free(g); }
X void sh_gs_unique(long long *id, unsigned n, void *c) {
  if(sizeof(slong)!=8) { slong *q = ids_in(id,n); gs_unique(q,n,c); ids_out(id,n,q); return; }
  gs_unique((slong*)id,n,c); }
X void sh_gs(void *u, int dom, int op, unsigned t, void *g, void *buf) { gs(u,DOM(dom),OP(op),t,g,buf); }
X void sh_gs_vec(void *u, unsigned vn, int dom, int op, unsigned t, void *g, void *buf) { gs_vec(u,vn,DOM(dom),OP(op),t,g,buf); }
X void sh_gs_many(void *const *u, unsigned vn, int dom, int op, unsigned t, void *g, void *buf) { gs_many(u,vn,DOM(dom),OP(op),t,g,buf); }
X void sh_igs(void *u, int dom, int op, unsigned t, void *g, void *buf, int *h) { igs(u,DOM(dom),OP(op),t,g,buf,h); }
X void sh_igs_vec(void *u, unsigned vn, int dom, int op, unsigned t, void *g, void *buf, int *h) { igs_vec(u,vn,DOM(dom),OP(op),t,g,buf,h); }
X void sh_igs_many(void *const *u, unsigned vn, int dom, int op, unsigned t, void *g, void *buf, int *h) { igs_many(u,vn,DOM(dom),OP(op),t,g,buf,h); }
X void sh_gs_wait(int h) { gs_wait(h); }
X void *sh_gs_hf2c(int h) { return gs_hf2c(h); }
X void sh_pw_nmsg(void *g, int *n) { pw_data_nmsg(g,n); }
X void sh_pw_size(void *g, int *n) { pw_data_size(g,n); }
X int sh_method_code(int m) { return (int)METHOD(m); }

/* ------------------------------------------------------------ crystal router */
X void *sh_cr_new(void *c) { struct crystal *p = tmalloc(struct crystal,1); crystal_init(p,c); return p; }
X void sh_cr_free(void *p) { crystal_free(p); free(p); }
X void sh_cr_route(void *pv, const unsigned *in, unsigned n) {
  struct crystal *p = pv; buffer_reserve(&p->data,n*sizeof(uint)); if(n) memcpy(p->data.ptr,in,n*sizeof(uint)); p->data.n=n; crystal_router(p); }
X unsigned sh_cr_n(void *p) { return ((struct crystal*)p)->data.n; }
X const unsigned *sh_cr_data(void *p) { return ((struct crystal*)p)->data.ptr; }

X void *sh_arr_new(const void *src, size_t n, size_t max, size_t size) { struct array *a = tmalloc(struct array,1); if(max<n) max=n; array_init_(a,max,size,__FILE__,__LINE__); if(n) memcpy(a->ptr,src,n*size); a->n=n; return a; }
X void *sh_arr_view(void *ptr, size_t n, size_t max) { struct array *a = tmalloc(struct array,1); a->ptr=ptr; a->n=n; a->max=max; return a; }
X void sh_arr_free(void *a) { array_free((struct array*)a); free(a); }
X void sh_arr_drop(void *a) { free(a); }
X size_t sh_arr_n(void *a) { return ((struct array*)a)->n; }
X size_t sh_arr_max(void *a) { return ((struct array*)a)->max; }
X void *sh_arr_ptr(void *a) { return ((struct array*)a)->ptr; }
X void sh_arr_setn(void *a, size_t n) { ((struct array*)a)->n=n; }
X void *sh_arr_null(void) { struct array *a = tmalloc(struct array,1), z = null_array; *a=z; return a; }
X void sh_arr_init(void *a, size_t max, size_t size) { array_init_(a,max,size,__FILE__,__LINE__); }
X void sh_arr_resize(void *a, size_t max, size_t size) { array_resize_(a,max,size,__FILE__,__LINE__); }
X void *sh_arr_reserve(void *a, size_t min, size_t size) { return array_reserve_(a,min,size,__FILE__,__LINE__); }
X void sh_arr_cat(void *a, const void *s, size_t n, size_t size) { array_cat_(size,a,s,n,__FILE__,__LINE__); }
X size_t sh_align(int w, size_t n) { return w==0?align_as(char,n):w==1?align_as(uint,n):w==2?align_as(ulong,n):align_as(double,n); }
X void sh_transfer(void *a, unsigned size, unsigned p_off, int set_src, void *cr) { sarray_transfer_(a,size,p_off,set_src,cr); }
X void sh_transfer_ext(void *a, unsigned size, const unsigned *proc, unsigned stride, void *cr) { sarray_transfer_ext_(a,size,proc,stride,cr); }
X unsigned sh_transfer_many(void **A, const unsigned *size, unsigned An, int fixed, int ext, int set_src, unsigned p_off, const unsigned *proc, unsigned stride, void *cr)
{ return sarray_transfer_many((struct array *const*)A,size,An,fixed,ext,set_src,p_off,proc,stride,cr); }
struct tr_row { double a; uint proc; ulong b; uint c; char d[3]; };
X size_t sh_tr_size(int w) { return w==0?sizeof(struct tr_row):w==1?offsetof(struct tr_row,proc):w==2?offsetof(struct tr_row,a):w==3?offsetof(struct tr_row,b):w==4?offsetof(struct tr_row,c):offsetof(struct tr_row,d); }
X void sh_tr_macro(void *a, int set_src, void *cr) { sarray_transfer(struct tr_row,(struct array*)a,proc,set_src,(struct crystal*)cr); }
X void sh_tr_ext_macro(void *a, const unsigned *proc, void *cr) { sarray_transfer_ext(struct tr_row,(struct array*)a,proc,sizeof(uint),(struct crystal*)cr); }

/* ------------------------------------------------------------ sort */
X void sh_sortv(int t, void *out, const void *A, unsigned n, unsigned stride, void *buf) {
  switch(t) {
    case 0: sortv(out,A,n,stride,buf); break;
    case 1: sortv_long(out,A,n,stride,buf); break;
    case 2: sortv_float(out,A,n,stride,buf); break;
    case 3: sortv_double(out,A,n,stride,buf); break;
    default: break;
  }
}
X unsigned *sh_sortp(int t, void *buf, int start, const void *A, unsigned n, unsigned stride) {
  switch(t) {
    case 0: return sortp(buf,start,A,n,stride);
    case 1: return sortp_long(buf,start,A,n,stride);
    case 2: return sortp_float(buf,start,A,n,stride);
    case 3: return sortp_double(buf,start,A,n,stride);
    default: return 0;
  }
}
X void sh_buf_reserve(void *b, size_t n) { buffer_reserve((buffer*)b,n); }
X void sh_permute(size_t size, void *A, size_t n, unsigned *perm, void *work) { sarray_permute_(size,A,n,perm,work); }
X void sh_permute_buf(size_t align, size_t size, void *A, size_t n, void *buf) { sarray_permute_buf_(align,size,A,n,buf); }
X void sh_perm_invert(unsigned *pinv, const unsigned *perm, unsigned n) { sarray_perm_invert(pinv,perm,n); }
struct srow { uint a; ulong b; float f; double d; uint tag; };
X size_t sh_srow(int w) { switch(w) { case 0: return offsetof(struct srow,a); case 1: return offsetof(struct srow,b); case 2: return offsetof(struct srow,f); case 3: return offsetof(struct srow,d); case 4: return offsetof(struct srow,tag); default: return sizeof(struct srow); } }
#define S1(f,k) sarray_sort(struct srow,A,n,f,k,(buffer*)buf)
#define S2(f,k,g,l) sarray_sort_2(struct srow,A,n,f,k,g,l,(buffer*)buf)
/* how: 0..3 one field; 4 + 4*i + j two fields; 20.. three fields; 26.. four fields */
X int sh_sarray_sort(int how, void *Av, unsigned n, void *buf) {
  struct srow *A = Av;
  switch(how) {
    case 0: S1(a,0); break; case 1: S1(b,1); break; case 2: S1(f,2); break; case 3: S1(d,3); break;
    case 4: S2(a,0,a,0); break; case 5: S2(a,0,b,1); break; case 6: S2(a,0,f,2); break; case 7: S2(a,0,d,3); break;
    case 8: S2(b,1,a,0); break; case 9: S2(b,1,b,1); break; case 10: S2(b,1,f,2); break; case 11: S2(b,1,d,3); break;
    case 12: S2(f,2,a,0); break; case 13: S2(f,2,b,1); break; case 14: S2(f,2,f,2); break; case 15: S2(f,2,d,3); break;
    case 16: S2(d,3,a,0); break; case 17: S2(d,3,b,1); break; case 18: S2(d,3,f,2); break; case 19: S2(d,3,d,3); break;
    case 20: sarray_sort_3(struct srow,A,n,a,0,b,1,d,3,(buffer*)buf); break;
    case 21: sarray_sort_3(struct srow,A,n,d,3,f,2,a,0,(buffer*)buf); break;
    case 22: sarray_sort_3(struct srow,A,n,b,1,a,0,f,2,(buffer*)buf); break;
    case 23: sarray_sort_4(struct srow,A,n,a,0,b,1,f,2,d,3,(buffer*)buf); break;
    case 24: sarray_sort_4(struct srow,A,n,d,3,f,2,b,1,a,0,(buffer*)buf); break;
    case 25: sarray_sort_4(struct srow,A,n,b,1,d,3,a,0,f,2,(buffer*)buf); break;
    default: return 0;
  }
  return 1;
}

/* ------------------------------------------------------------ tensors and polynomials */
X double sh_dot_local(const double *a, const double *b, unsigned n) { return tensor_dot(a,b,n); }
X void sh_mxv(double *y, unsigned ny, const double *A, const double *x, unsigned nx) { tensor_mxv(y,ny,A,x,nx); }
X void sh_mtxv(double *y, unsigned ny, const double *A, const double *x, unsigned nx) { tensor_mtxv(y,ny,A,x,nx); }
X void sh_mxm(double *C, unsigned nc, const double *A, unsigned na, const double *B, unsigned nb) { tensor_mxm(C,nc,A,na,B,nb); }
X void sh_mtxm(double *C, unsigned nc, const double *A, unsigned na, const double *B, unsigned nb) { tensor_mtxm(C,nc,A,na,B,nb); }
X double sh_i1(const double *Jr, unsigned nr, const double *u) { return tensor_i1(Jr,nr,u); }
X double sh_i2(const double *Jr, unsigned nr, const double *Js, unsigned ns, const double *u, double *w) { return tensor_i2(Jr,nr,Js,ns,u,w); }
X double sh_i3(const double *Jr, unsigned nr, const double *Js, unsigned ns, const double *Jt, unsigned nt, const double *u, double *w) { return tensor_i3(Jr,nr,Js,ns,Jt,nt,u,w); }
X double sh_ig1(double *g, const double *r, unsigned nr, const double *u) { return tensor_ig1(g,r,nr,u); }
X double sh_ig2(double *g, const double *r, unsigned nr, const double *s, unsigned ns, const double *u, double *w) { return tensor_ig2(g,r,nr,s,ns,u,w); }
X double sh_ig3(double *g, const double *r, unsigned nr, const double *s, unsigned ns, const double *t, unsigned nt, const double *u, double *w) { return tensor_ig3(g,r,nr,s,ns,t,nt,u,w); }
X void sh_2t(double *out, const double *Jr, unsigned nr, unsigned mr, const double *Js, unsigned ns, unsigned ms, const double *u, double *w) { tensor_2t(out,Jr,nr,mr,Js,ns,ms,u,w); }
X void sh_3t(double *out, const double *Jr, unsigned nr, unsigned mr, const double *Js, unsigned ns, unsigned ms, const double *Jt, unsigned nt, unsigned mt, const double *u, double *w) { tensor_3t(out,Jr,nr,mr,Js,ns,ms,Jt,nt,mt,u,w); }

#if !defined(GSLIB_USE_CBLAS) && !defined(GSLIB_USE_NAIVE_BLAS)
/* in this configuration the application provides the matrix product */
void mxm(const double *A, const uint *na, const double *B, const uint *nb, double *C, const uint *nc) {
  uint i,j,k; for(j=0;j<*nc;++j) for(i=0;i<*na;++i) { double s=0; for(k=0;k<*nb;++k) s+=A[i+k**na]*B[k+j**nb]; C[i+j**na]=s; } }
#endif
X void sh_quad(int which, double *z, double *w, int n) { if(which==0) gauss_nodes(z,n); else if(which==1) lobatto_nodes(z,n); else if(which==2) gauss_quad(z,w,n); else lobatto_quad(z,w,n); }
struct lag { lagrange_fun *f; double *data; unsigned n; };
X void *sh_lag_new(const double *z, unsigned n) { struct lag *l = tmalloc(struct lag,1); l->n=n; l->data = tmalloc(double,lagrange_size(n)); l->f = lagrange_setup(l->data,z,n); return l; }
X void *sh_gll_new(unsigned n) { struct lag *l = tmalloc(struct lag,1); l->n=n; l->data = tmalloc(double,gll_lag_size(n)); l->f = gll_lag_setup(l->data,n); return l; }
X void sh_lag_eval(void *l, double *p, int d, double x) { struct lag *g = l; g->f(p,g->data,g->n,d,x); }
X void sh_lag_free(void *l) { struct lag *g = l; free(g->data); free(g); }

/* ------------------------------------------------------------ bounds */
X void *sh_lob_new(unsigned n, unsigned m) { double *d = tmalloc(double,lob_bnd_size(n,m)); lob_bnd_setup(d,n,m); return d; }
X void sh_free(void *p) { free(p); }
X void *sh_malloc(size_t n) { return malloc(n); }
X void sh_lob_1(double *b, void *r, unsigned n, unsigned m, const double *u) { double *w = tmalloc(double,2*m); struct dbl_range x = lob_bnd_1(r,n,m,u,w); b[0]=x.min, b[1]=x.max; free(w); }
X void sh_lob_2(double *b, void *r, unsigned nr, unsigned mr, void *s, unsigned ns, unsigned ms, const double *u) { double *w = tmalloc(double,2*mr*(ns+ms+1)); struct dbl_range x = lob_bnd_2(r,nr,mr,s,ns,ms,u,w); b[0]=x.min, b[1]=x.max; free(w); }
X void sh_lob_3(double *b, void *r, unsigned nr, unsigned mr, void *s, unsigned ns, unsigned ms, void *t, unsigned nt, unsigned mt, const double *u) { double *w = tmalloc(double,2*mr*ms*(nt+mt+1)); struct dbl_range x = lob_bnd_3(r,nr,mr,s,ns,ms,t,nt,mt,u,w); b[0]=x.min, b[1]=x.max; free(w); }
X void sh_lin_1(double *b, void *r, unsigned n, unsigned m, const double *u, unsigned un) { lob_bnd_lin_1(b,r,n,m,u,un); }
X void sh_lin_2(double *b, void *r, unsigned nr, unsigned mr, void *s, unsigned ns, unsigned ms, const double *u, unsigned un) { double *w = tmalloc(double,un*(2*mr+2*ns*mr)+1); lob_bnd_lin_2(b,r,nr,mr,s,ns,ms,u,un,w); free(w); }
X void sh_lin_3(double *b, void *r, unsigned nr, unsigned mr, void *s, unsigned ns, unsigned ms, void *t, unsigned nt, unsigned mt, const double *u, unsigned un) { double *w = tmalloc(double,un*(2*mr*ms+2*nt*ms*mr)+1); lob_bnd_lin_3(b,r,nr,mr,s,ns,ms,t,nt,mt,u,un,w); free(w); }
/* per element: c0[d], A[d*d], min/max per axis  (d=2: 10 doubles, d=3: 18) */
X void sh_obbox(int d, double *out, const double *const *elx, const unsigned *n, unsigned nel, const unsigned *m, double tol) {
  unsigned e; int i;
  if(d==2) { struct obbox_2 *b = tmalloc(struct obbox_2,nel); obbox_calc_2(b,elx,n,nel,m,tol);
    for(e=0;e<nel;++e) { for(i=0;i<2;++i) *out++=b[e].c0[i]; for(i=0;i<4;++i) *out++=b[e].A[i]; for(i=0;i<2;++i) *out++=b[e].x[i].min,*out++=b[e].x[i].max; } free(b); }
  else { struct obbox_3 *b = tmalloc(struct obbox_3,nel); obbox_calc_3(b,elx,n,nel,m,tol);
    for(e=0;e<nel;++e) { for(i=0;i<3;++i) *out++=b[e].c0[i]; for(i=0;i<9;++i) *out++=b[e].A[i]; for(i=0;i<3;++i) *out++=b[e].x[i].min,*out++=b[e].x[i].max; } free(b); }
}
/* the library's own point-in-box test on element e */
X int sh_obbox_in(int d, const double *bx, const double *x) {
  int i;
  if(d==2) { struct obbox_2 b; for(i=0;i<2;++i) b.c0[i]=*bx++; for(i=0;i<4;++i) b.A[i]=*bx++; for(i=0;i<2;++i) b.x[i].min=*bx++,b.x[i].max=*bx++; return obbox_test_2(&b,x)>=0; }
  else { struct obbox_3 b; for(i=0;i<3;++i) b.c0[i]=*bx++; for(i=0;i<9;++i) b.A[i]=*bx++; for(i=0;i<3;++i) b.x[i].min=*bx++,b.x[i].max=*bx++; return obbox_test_3(&b,x)>=0; }
}

/* ------------------------------------------------------------ single-element point search */
struct el { int d; struct findpts_el_data_2 e2; struct findpts_el_data_3 e3; };
X void *sh_el_new(int d, const unsigned *n, unsigned npt_max) { struct el *e = tmalloc(struct el,1); e->d=d; if(d==2) findpts_el_setup_2(&e->e2,n,npt_max); else findpts_el_setup_3(&e->e3,n,npt_max); return e; }
X void sh_el_free(void *ev) { struct el *e = ev; if(e->d==2) findpts_el_free_2(&e->e2); else findpts_el_free_3(&e->e3); free(e); }
X void sh_el_start(void *ev, const double *const *x) { struct el *e = ev; if(e->d==2) findpts_el_start_2(&e->e2,x); else findpts_el_start_3(&e->e3,x); }
X void sh_el_find(void *ev, unsigned npt, double tol, const double *x, double *r, double *dist2, int *inside, unsigned *flags) {
  struct el *e = ev; unsigned i; int k;
  if(e->d==2) { struct findpts_el_pt_2 *p = findpts_el_points_2(&e->e2); for(i=0;i<npt;++i) for(k=0;k<2;++k) p[i].x[k]=x[2*i+k]; findpts_el_2(&e->e2,npt,tol); for(i=0;i<npt;++i) { for(k=0;k<2;++k) r[2*i+k]=p[i].r[k]; dist2[i]=p[i].dist2; inside[i]=p[i].flags==(1u<<4); flags[i]=p[i].flags; } }
  else { struct findpts_el_pt_3 *p = findpts_el_points_3(&e->e3); for(i=0;i<npt;++i) for(k=0;k<3;++k) p[i].x[k]=x[3*i+k]; findpts_el_3(&e->e3,npt,tol); for(i=0;i<npt;++i) { for(k=0;k<3;++k) r[3*i+k]=p[i].r[k]; dist2[i]=p[i].dist2; inside[i]=p[i].flags==(1u<<6); flags[i]=p[i].flags; } }
}
X void sh_el_eval(void *ev, double *out, unsigned ostr, const double *r, unsigned rstr, unsigned n, const double *in) { struct el *e = ev; if(e->d==2) findpts_el_eval_2(out,ostr,r,rstr,n,in,&e->e2); else findpts_el_eval_3(out,ostr,r,rstr,n,in,&e->e3); }

/* ------------------------------------------------------------ point search, one process */
struct loc { int d, ms; struct findpts_local_data_2 l2; struct findpts_local_data_3 l3; buffer buf; };
X void *sh_loc_new(int d, const double *const *elx, const unsigned *n, unsigned nel, const unsigned *m, double tol, unsigned hash, unsigned npt_max, double newt, const unsigned *nsid, const double *distf) {
  struct loc *l = tmalloc(struct loc,1); l->d=d; l->ms = nsid!=0; buffer_init(&l->buf,1000);
  if(l->ms) { if(d==2) findptsms_local_setup_2(&l->l2,elx,nsid,distf,n,nel,m,tol,hash,npt_max,newt,1); else findptsms_local_setup_3(&l->l3,elx,nsid,distf,n,nel,m,tol,hash,npt_max,newt,1); }
  else { if(d==2) findpts_local_setup_2(&l->l2,elx,n,nel,m,tol,hash,npt_max,newt); else findpts_local_setup_3(&l->l3,elx,n,nel,m,tol,hash,npt_max,newt); }
  return l; }
X void sh_loc_free(void *v) { struct loc *l = v; buffer_free(&l->buf); if(l->ms) { if(l->d==2) findptsms_local_free_2(&l->l2); else findptsms_local_free_3(&l->l3); } else { if(l->d==2) findpts_local_free_2(&l->l2); else findpts_local_free_3(&l->l3); } free(l); }
#define IN(V,s) uint *V##_ = WIDE ? widen(V,s,npt) : (uint*)V; const unsigned V##_s = WIDE ? sizeof(uint) : s
#define OUT(V,s) if(WIDE) narrow(V,s,npt,V##_)
#define DROP(V) if(WIDE) free(V##_)
X void sh_loc_find(void *v, unsigned *code, unsigned cs, unsigned *el, unsigned es, double *r, unsigned rs, double *d2, unsigned ds, const double *const *x, const unsigned *xs, unsigned npt) {
  struct loc *l = v; IN(code,cs); IN(el,es);
  if(l->d==2) findpts_local_2(code_,code_s,el_,el_s,r,rs,d2,ds,x,xs,npt,&l->l2,&l->buf); else findpts_local_3(code_,code_s,el_,el_s,r,rs,d2,ds,x,xs,npt,&l->l3,&l->buf);
  OUT(code,cs); OUT(el,es); }
X void sh_loc_eval(void *v, double *out, unsigned os, const unsigned *el, unsigned es, const double *r, unsigned rs, unsigned npt, const double *in) {
  struct loc *l = v; IN(el,es);
  if(l->ms) { if(l->d==2) findptsms_local_eval_2(out,os,el_,el_s,r,rs,npt,in,&l->l2); else findptsms_local_eval_3(out,os,el_,el_s,r,rs,npt,in,&l->l3); }
  else { if(l->d==2) findpts_local_eval_2(out,os,el_,el_s,r,rs,npt,in,&l->l2); else findpts_local_eval_3(out,os,el_,el_s,r,rs,npt,in,&l->l3); }
  DROP(el); }

/* ------------------------------------------------------------ point search, all processes */
X void *sh_fp_new(int d, void *c, const double *const *elx, const unsigned *n, unsigned nel, const unsigned *m, double tol, unsigned lh, unsigned gh, unsigned npt_max, double newt) {
  return d==2 ? (void*)findpts_setup_2(c,elx,n,nel,m,tol,lh,gh,npt_max,newt) : (void*)findpts_setup_3(c,elx,n,nel,m,tol,lh,gh,npt_max,newt); }
X void sh_fp_free(int d, void *f) { if(d==2) findpts_free_2(f); else findpts_free_3(f); }
X void sh_fp_find(int d, void *f, unsigned *code, unsigned cs, unsigned *proc, unsigned ps, unsigned *el, unsigned es, double *r, unsigned rs, double *d2, unsigned ds, const double *const *x, const unsigned *xs, unsigned npt) {
  IN(code,cs); IN(proc,ps); IN(el,es);
  if(d==2) findpts_2(code_,code_s,proc_,proc_s,el_,el_s,r,rs,d2,ds,x,xs,npt,f); else findpts_3(code_,code_s,proc_,proc_s,el_,el_s,r,rs,d2,ds,x,xs,npt,f);
  OUT(code,cs); OUT(proc,ps); OUT(el,es); }
X void sh_fp_eval(int d, void *f, double *out, unsigned os, const unsigned *code, unsigned cs, const unsigned *proc, unsigned ps, const unsigned *el, unsigned es, const double *r, unsigned rs, unsigned npt, const double *in) {
  IN(code,cs); IN(proc,ps); IN(el,es);
  if(d==2) findpts_eval_2(out,os,code_,code_s,proc_,proc_s,el_,el_s,r,rs,npt,in,f); else findpts_eval_3(out,os,code_,code_s,proc_,proc_s,el_,el_s,r,rs,npt,in,f);
  DROP(code); DROP(proc); DROP(el); }
X void *sh_ms_new(int d, void *c, const double *const *elx, const unsigned *n, unsigned nel, const unsigned *m, double tol, unsigned lh, unsigned gh, unsigned npt_max, double newt, const unsigned *nsid, const double *df) {
  const uint *id = WIDE ? widen(nsid,4,1) : (const uint*)nsid;   /* the library keeps the pointer */
  return d==2 ? (void*)findptsms_setup_2(c,elx,n,nel,m,tol,lh,gh,npt_max,newt,id,df) : (void*)findptsms_setup_3(c,elx,n,nel,m,tol,lh,gh,npt_max,newt,id,df); }
X void sh_ms_free(int d, void *f) { if(d==2) findptsms_free_2(f); else findptsms_free_3(f); }
X void sh_ms_find(int d, void *f, unsigned *code, unsigned cs, unsigned *proc, unsigned ps, unsigned *el, unsigned es, double *r, unsigned rs, double *d2, unsigned ds, const double *const *x, const unsigned *xs, const unsigned *sid, unsigned ss, const unsigned *match, unsigned npt) {
  IN(code,cs); IN(proc,ps); IN(el,es); const uint *sid_ = WIDE ? widen(sid,ss,npt) : (const uint*)sid, *match_ = WIDE ? widen(match,4,1) : (const uint*)match; const unsigned sid_s = WIDE ? sizeof(uint) : ss;
  if(d==2) findptsms_2(code_,code_s,proc_,proc_s,el_,el_s,r,rs,d2,ds,x,xs,sid_,sid_s,match_,npt,f); else findptsms_3(code_,code_s,proc_,proc_s,el_,el_s,r,rs,d2,ds,x,xs,sid_,sid_s,match_,npt,f);
  OUT(code,cs); OUT(proc,ps); OUT(el,es); if(WIDE) { free((void*)sid_); free((void*)match_); } }
X void sh_ms_eval(int d, void *f, double *out, unsigned os, const unsigned *code, unsigned cs, const unsigned *proc, unsigned ps, const unsigned *el, unsigned es, const double *r, unsigned rs, unsigned npt, const double *in) {
  IN(code,cs); IN(proc,ps); IN(el,es);
  if(d==2) findptsms_eval_2(out,os,code_,code_s,proc_,proc_s,el_,el_s,r,rs,npt,in,f); else findptsms_eval_3(out,os,code_,code_s,proc_,proc_s,el_,el_s,r,rs,npt,in,f);
  DROP(code); DROP(proc); DROP(el); }
#undef IN
#undef OUT
#undef DROP

/* ------------------------------------------------------------ the Fortran gather-scatter calls in any integer width */
#define fgs_setup_pick fgslib_gs_setup_pick_
#define fgs_op_vec     fgslib_gs_op_vec_
#define fgs_op         fgslib_gs_op_
#define fgs_free       fgslib_gs_free_
void fgs_setup_pick(sint *handle, const slong id[], const sint *n, const int *comm, const sint *np, const sint *method);
void fgs_op_vec(const sint *handle, void *u, const sint *n, const sint *dom, const sint *op, const sint *transpose);
void fgs_op(const sint *handle, void *u, const sint *dom, const sint *op, const sint *transpose);
void fgs_free(const sint *handle);
X int sh_fgs_setup(const long long *id, unsigned n, void *c, int method) { sint h=-1, N=n, np=((struct comm*)c)->np, m=METHOD(method); int f=sh_comm_fint(c); slong *q=ids_in(id,n); fgs_setup_pick(&h,q,&N,&f,&np,&m); free(q); return (int)h; }
X void sh_fgs_op(int h, void *u, int k, int dom, int op, int tr) { sint H=h, K=k, D=dom, O=op, T=tr; if(k<0) fgs_op(&H,u,&D,&O,&T); else fgs_op_vec(&H,u,&K,&D,&O,&T); }
X void sh_fgs_free(int h) { sint H=h; fgs_free(&H); }
