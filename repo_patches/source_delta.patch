From 1923f779b23832cf60b60c88dd160b03f9eca2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 01/20] fix: gs_setup with unique: keep unflagged entries first
 within each local group

make_topology_unique re-sorted the nonzero ids by primary index only, so an
already flagged entry with a lower index than its group's primary became the
head of the group in the local maps: local contributions were gathered into
the flagged entry, and the unflagged primary was exchanged without them.
---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index e3a7b70..e9df227 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -275,7 +275,7 @@ static void make_topology_unique(struct gs_topology *top, slong *id,
     for(p=nz->ptr,e=p+nz->n;p!=e;++p)
       if(p->i != p->primary) p->flag=1;
   }
-  sarray_sort(struct nonzero_id,nz->ptr,nz->n, primary,0, buf);
+  sarray_sort_2(struct nonzero_id,nz->ptr,nz->n, primary,0, flag,0, buf);
 
   /* assign owner among shared primaries */
 
-- 
2.43.0


From 8281dbfec2c1c76605ddf4fec3c6723c6eb00078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 02/20] fix: igs on a crystal router handle called
 uninitialized function pointers

cr_setup set only the blocking exec function; igs/igs_vec/igs_many on a handle
using the crystal router (chosen explicitly or by gs_auto) jumped to garbage.
---
 src/gs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gs.c b/src/gs.c
index e9df227..16319c6 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -938,6 +938,10 @@ static void cr_setup(struct gs_remote *r, struct gs_topology *top,
   r->buffer_size = crd->buffer_size;
   r->data = crd;
   r->exec = (exec_fun*)&cr_exec;
+  /* no nonblocking version: the exchange is completed when it is started */
+  r->exec_irecv = NULL;
+  r->exec_isend = (exec_fun*)&cr_exec;
+  r->exec_wait = NULL;
   r->fin = (fin_fun*)&cr_free;
 }
 
-- 
2.43.0


From ee9667939ec996f3289fea3f94fd82ec04d2b71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 03/20] fix: comm_iallreduce left the request unset for empty
 and by-hand reductions

With vn==0 (no shared ids) or an op without an MPI counterpart (gs_bpr) no
request was started, but the caller waits on it; and the by-hand result was
only in v, while the nonblocking all-reduce gather-scatter reads it from buf.
---
 src/comm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/comm.c b/src/comm.c
index 19507c0..db5ac39 100644
--- a/src/comm.c
+++ b/src/comm.c
@@ -143,6 +143,9 @@ comm_allreduce_byhand:
 void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op,
                           void *v, uint vn, void *buf)
 {
+#ifdef GSLIB_USE_MPI
+  *req = MPI_REQUEST_NULL;
+#endif
   if(vn==0) return;
 #ifdef GSLIB_USE_MPI
   {
@@ -177,6 +180,7 @@ void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op
 #ifdef GSLIB_USE_MPI
 comm_allreduce_byhand:
   allreduce_imp(com,dom,op, v,vn, buf);
+  memcpy(buf,v,vn*gs_dom_size[dom]);
 #endif
 }
 
-- 
2.43.0


From 33ed323ac2bd1420134ac02d30847ecba471d094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 04/20] fix: igs_op_many waited through a dangling pointer
 array

The Fortran igs_op_many passes a local array of pointers to igs_many, which
kept only its address; gs_wait then read it after the frame was gone.
---
 src/gs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 16319c6..c8ce599 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1303,6 +1303,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->transpose,
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
+    if(nblkng_dict[handle]->mode==mode_many) free(nblkng_dict[handle]->u);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
     nblkng_count--;
@@ -1364,7 +1365,8 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
 
   nblkng_dict[nblkng_n] = tmalloc(struct nonblocking_private, 1);
 
-  nblkng_dict[nblkng_n]->u = (void *)u;
+  /* the caller's array of pointers need not outlive this call */
+  nblkng_dict[nblkng_n]->u = memcpy(tmalloc(void*,vn),u,vn*sizeof(void*));
   nblkng_dict[nblkng_n]->dom = dom;
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
-- 
2.43.0


From 201befded56cbaf1e6f7a2edebe955e91e892a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 05/20] fix: gs_op_fields used the wrong element size for the
 8-byte integer domain

The field offset was computed from gs_dom_size[dom-1], but the Fortran domain
numbers are mapped through fgs_dom; for dom=3 this took 4 bytes, not 8.
---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index c8ce599..ff74ec8 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1646,7 +1646,7 @@ void fgs_fields(const sint *handle,
 
   array_reserve(void*,&fgs_fields_array,*n);
   p = fgs_fields_array.ptr;
-  offset = *stride * gs_dom_size[*dom-1];
+  offset = *stride * gs_dom_size[fgs_dom[*dom]];
   for(i=*n;i;--i) *p++ = u, u = (char*)u + offset;
 
   cgs_many((void *const*)fgs_fields_array.ptr,*n,
-- 
2.43.0


From 3af9a90abe736aa29639020f3057679e7ee9041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 06/20] fix: sarray_transfer divided by zero for rows holding
 only the process field

---
 src/sarray_transfer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 5f94192..18d7c60 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -148,6 +148,8 @@ uint sarray_transfer_many(
   if(!ext) off1 -= sizeof(uint);
   row_size=off1; for(i=1;i<An;++i) row_size += size[i];
   row_size = (row_size+sizeof(uint)-1)/sizeof(uint);
+  /* rows are counted by message length, even if they are only a proc field */
+  if(row_size==0) row_size=1;
   
   perm = sortp(&cr->work,0, proc,A[0]->n,proc_stride);
 
-- 
2.43.0


From 982a11cf06e18a8c9b90c8b51e16a5daa89b836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 07/20] fix: sarray_transfer overran fixed-size tables when
 more rows arrive than fit

---
 src/sarray_transfer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 18d7c60..d632546 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -125,7 +125,7 @@ static uint cap_rows(buffer *const data, const unsigned row_size,const uint max)
     uint len=buf[2]; n+=len;
     if(n<maxn) buf+=len+3;
     else {
-      buf[2]-=(maxn-n); data->n = (buf-(uint*)data->ptr)+3+buf[2];
+      buf[2]-=(n-maxn); data->n = (buf-(uint*)data->ptr)+3+buf[2];
       buf+=len+3;
       while(buf!=buf_end) { uint len=buf[2]; n+=len, buf+=len+3; }
       break;
-- 
2.43.0


From d92f0f93b8b91e70827bb525aa9bd7f352fe82f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 08/20] fix: findpts_el kept a constraint that was active at
 the start of the step

A bound the starting point already sits on has dr[d]==0, so dr[d]*y[d]<0
never released it and the iteration stopped at a corner or edge that is
not the closest point. Decide by the side of the bound instead.
---
 src/findpts_el_2.c | 2 +-
 src/findpts_el_3.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index aad9aad..f5e246d 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -455,7 +455,7 @@ static void newton_area(struct findpts_el_pt_2 *const out,
     for(d=0;d<2;++d) {
       unsigned c = flags>>(2*d) & 3u;
       if(c==0) continue;
-      else if(dr[d]*y[d]<0) flags &= ~(3u<<(2*d));
+      else if(c==1 ? y[d]>0 : y[d]<0) flags &= ~(3u<<(2*d));
 #ifdef DIAGNOSTICS_1
       if( (c==1&&dr[d]>0) || (c==2&&dr[d]<0) )
         printf("FAIL! c=%u, dr[d]=%g\n",c,dr[d]);
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index 62561ff..d48dfc0 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -693,7 +693,7 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
     for(d=0;d<3;++d) {
       unsigned c = flags>>(2*d) & 3u;
       if(c==0) continue;
-      else if(dr[d]*y[d]<0) flags &= ~(3u<<(2*d));
+      else if(c==1 ? y[d]>0 : y[d]<0) flags &= ~(3u<<(2*d));
 #ifdef DIAGNOSTICS_1
       if( (c==1&&dr[d]>0) || (c==2&&dr[d]<0) )
         printf("FAIL! c=%u, dr[d]=%g\n",c,dr[d]);
-- 
2.43.0


From 3da2c71df37facbdbd64e2f9b5ca7b7482287579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 09/20] fix: findpts_el reported a border point as interior
 after a rejected step

When the first step from a mesh node on the boundary is rejected because
its predicted decrease is lost in rounding, the point was flagged as
converged without the constraints that step had found, so findpts took a
point outside the element for one inside.
---
 src/findpts_el_2.c | 11 ++++++++++-
 src/findpts_el_3.c | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index f5e246d..90cd83a 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -334,7 +334,16 @@ static int reject_prior_step_q(struct findpts_el_pt_2 *const out,
     out->r[0]=p->oldr[0],out->r[1]=p->oldr[1];
     out->flags=p->flags>>5;
     out->dist2p=-DBL_MAX;
-    if(pred < dist2*tol) out->flags|=CONVERGED_FLAG;
+    if(pred < dist2*tol) {
+      /* converged; constraints the rejected step found to be active,
+         and that hold at the prior point, are active there, too */
+      unsigned d;
+      for(d=0;d<2;++d) {
+        const unsigned c = p->flags>>(2*d) & 3u;
+        if(c && out->r[d]==(c==1?-1:1)) out->flags|=c<<(2*d);
+      }
+      out->flags|=CONVERGED_FLAG;
+    }
     return 1;
   }
 }
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index d48dfc0..61dfdd3 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -524,7 +524,16 @@ static int reject_prior_step_q(struct findpts_el_pt_3 *const out,
     out->r[0]=p->oldr[0],out->r[1]=p->oldr[1],out->r[2]=p->oldr[2];
     out->flags=p->flags>>7;
     out->dist2p=-DBL_MAX;
-    if(pred < dist2*tol) out->flags|=CONVERGED_FLAG;
+    if(pred < dist2*tol) {
+      /* converged; constraints the rejected step found to be active,
+         and that hold at the prior point, are active there, too */
+      unsigned d;
+      for(d=0;d<3;++d) {
+        const unsigned c = p->flags>>(2*d) & 3u;
+        if(c && out->r[d]==(c==1?-1:1)) out->flags|=c<<(2*d);
+      }
+      out->flags|=CONVERGED_FLAG;
+    }
     return 1;
   }
 }
-- 
2.43.0


From d3f8c26eaa2839e9c1f9df54c5a6997487219825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 10/20] fix: build without MPI could not be linked because of
 MPI_Abort in crystal_router

---
 src/crystal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crystal.c b/src/crystal.c
index d7eab1f..be8b584 100644
--- a/src/crystal.c
+++ b/src/crystal.c
@@ -141,7 +141,11 @@ void crystal_router(struct crystal *p)
       fprintf(stderr, "Error in crystal_router: rank = %d send_n = %lld (> "
         "INT_MAX)\n", p->comm.id, send_n_long);
       fflush(stderr);
+#ifdef GSLIB_USE_MPI
       MPI_Abort(p->comm.c, EXIT_FAILURE);
+#else
+      die(EXIT_FAILURE);
+#endif
     }
 
     recvn = 1, targ = n-1-(id-bl)+bl;
-- 
2.43.0


From 372382183c279116d02f602b63ad0c81f5fa3ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 11/20] fix: comm_split without MPI left the new communicator
 unset

---
 src/comm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/comm.h b/src/comm.h
index 72a54fe..a384a3f 100644
--- a/src/comm.h
+++ b/src/comm.h
@@ -190,6 +190,7 @@ static void comm_split_(const struct comm *s, int bin, int key, struct comm *d,
   comm_init(d, nc);
   MPI_Comm_free(&nc);
 #else
+  d->id = s->id, d->np = s->np;
   if(s->np!=1) fail(1,file,line,"%s not compiled with -DMPI\n",file);
 #endif
 }
-- 
2.43.0


From df0ba6d35ec06bd6b01e76dd428be492713427d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 12/20] fix: gs_free leaked the request of the all-reduce
 method

---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index ff74ec8..b3febe4 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1072,6 +1072,7 @@ static void allreduce_free(struct allreduce_data *ard)
   free((uint*)ard->map_to_buf[1]);
   free((uint*)ard->map_from_buf[0]);
   free((uint*)ard->map_from_buf[1]);
+  free(ard->req);
   free(ard);
 }
 
-- 
2.43.0


From d616375cdda567c149da41f63143e5f21cabbb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 13/20] fix: findpts_local leaked its dummy session arguments
 on every call

---
 src/findpts_local_imp.h | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 25cf8b0..ce220c4 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -433,15 +433,10 @@ void findpts_local(
   const uint npt, struct findpts_local_data *const fd,
   buffer *buf)
 {
-    unsigned int *sess_base = tmalloc(uint,1);
-    double *disti_base = tmalloc(double,1);
-    unsigned int *elsid_base = tmalloc(uint,1);
-    unsigned int *sess_match = tmalloc(uint,1);
-    *sess_base = 0;
-    *sess_match = 0;
-    *disti_base = 0;
-    *elsid_base = 0;
-    
+    uint sess_base = 0;
+    double disti_base = 0;
+    uint elsid_base = 0;
+    uint sess_match = 0;
 
     unsigned sess_stride=0;
     unsigned disti_stride=0;
@@ -452,10 +447,10 @@ void findpts_local(
             r_base,    r_stride,
         dist2_base,dist2_stride,
             x_base,    x_stride,
-         sess_base, sess_stride,
-        disti_base,disti_stride,
-        elsid_base,elsid_stride,
-        sess_match,npt,fd,buf);
+        &sess_base, sess_stride,
+       &disti_base,disti_stride,
+       &elsid_base,elsid_stride,
+       &sess_match,npt,fd,buf);
 }
 
 /* assumes points are already grouped by elements */
-- 
2.43.0


From 69a582c70d8d180c958ecd15fcf6c65fb3fcf113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 14/20] fix: the Fortran gs_unique never freed the communicator
 it duplicates

---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index b3febe4..54fc4dc 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1669,5 +1669,6 @@ void fgs_unique(slong id[], const sint *n, const MPI_Fint *c, const sint *np)
   comm = tmalloc(struct comm, 1);
   comm_init_check(comm, *c, *np);
   cgs_unique(id, un, comm);
+  comm_free(comm);
   free(comm);
 }
-- 
2.43.0


From da59cf87e4250ceb3396ba731f7b08ea3dfa6218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 15/20] fix: the Fortran findpts_setup leaked its dummy session
 arguments

---
 src/findpts.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index c708fda..13f6f68 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -327,10 +327,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    unsigned int *nsid = tmalloc(uint,1);
-    double *distfint = tmalloc(double,1);
-    *nsid = 0;
-    *distfint = 0;
+    const uint *nsid = 0;
+    const double *distfint = 0;
     setupms_aux_2(fd, elx,n,*nel,m,*bbox_tol,
                 *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
   } else if(h->ndim==3) {
@@ -344,8 +342,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    const uint *nsid;
-    const double *distfint;
+    const uint *nsid = 0;
+    const double *distfint = 0;
     setupms_aux_3(fd, elx,n,*nel,m,*bbox_tol,
                 *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
   } else
-- 
2.43.0


From 6bf6fad864a524cb34705e669cdf8b0cad4fb7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:57 +0000
Subject: [PATCH 16/20] fix: newton_vol could repeat the same active sets
 forever

Rounding errors can make the constraints that newton_vol relaxes come back
in the same order, in which case it never returned. Stop after as many
relaxations as there are active sets.
---
 src/findpts_el_3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index 61dfdd3..4ba6a7d 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -548,7 +548,7 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
   double bnd[6] = { -1,1, -1,1, -1,1 };
   double r0[3];
   double dr[3], fac;
-  unsigned d, mask, flags;
+  unsigned d, mask, flags, pass=0;
   r0[0]=p->r[0],r0[1]=p->r[1],r0[2]=p->r[2];
 #ifdef DIAGNOSTICS_1
   printf("newton_vol:\n");
@@ -716,6 +716,8 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
     printf("    relaxed %x -> %x\n",old_flags,flags);
 #endif
     if(flags==old_flags) goto newton_vol_fin;
+    /* rounding errors may make the active sets repeat; there are 27 of them */
+    if(++pass==27) { flags=old_flags; goto newton_vol_fin; }
     switch(num_constrained(flags)) {
       case 1: goto newton_vol_face;
       case 2: goto newton_vol_edge;
-- 
2.43.0


From 0a392bb36281e6b4e6d4540767a81f79c7f94f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:57 +0000
Subject: [PATCH 17/20] fix: findpts passed pointers to unsigned int where uint
 is read

With local integers of 8 bytes (GSLIB_USE_LONG, GSLIB_USE_LONG_LONG) the
session arguments supplied by findpts were read past their end.
---
 src/findpts_imp.h       | 6 +++---
 src/findpts_local_imp.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 8c08479..7281e83 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -209,7 +209,7 @@ static void hash_build(struct hash_data *const p,
 static void hash_free(struct hash_data *p) { free(p->offset); }
 
 struct findpts_dummy_ms_data {
-    unsigned int *nsid;
+    uint         *nsid;
     double       *distfint;
 };
 
@@ -661,8 +661,8 @@ void findpts(      uint   *const  code_base   , const unsigned  code_stride   ,
        printf("Please use findptsms\n");
        die(1);
     }
-    unsigned int sess_base = 0;
-    unsigned int sess_match = 0;
+    uint sess_base = 0;
+    uint sess_match = 0;
     unsigned sess_stride = 0;
 
     findptsms( code_base, code_stride,
diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index ce220c4..fce52da 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -407,7 +407,7 @@ void findpts_local_setup(struct findpts_local_data *const fd,
                          const unsigned npt_max, const double newt_tol)
 {
   uint ims=0;
-  unsigned int nsid = 0;
+  uint nsid = 0;
   double distfint = 0.;
   findptsms_local_setup(fd,
                         elx,
-- 
2.43.0


From 0204e41169eb1e0aa789a45a7bd53f957207b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 18/20] fix: points on the upper side of a bounding box that
 ends on a hash cell boundary were not found

A range of hash cells ended before the cell of its own upper end when that
end fell exactly on a cell boundary, so that an element was missing from the
list of a cell its (closed) bounding box reaches.
---
 src/findpts_imp.h       | 3 ++-
 src/findpts_local.c     | 1 -
 src/findpts_local_imp.h | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 7281e83..16807e7 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -67,7 +67,8 @@ static struct ulong_range hash_range(const struct hash_data *p, unsigned d,
 {
   struct ulong_range ir;
   const slong i0 = lfloor( (r.min - p->bnd[d].min) * p->fac[d] );
-  const ulong i1 = lceil ( (r.max - p->bnd[d].min) * p->fac[d] );
+  /* a point at r.max has index floor(...), so that cell belongs to the range */
+  const ulong i1 = lfloor( (r.max - p->bnd[d].min) * p->fac[d] ) + 1;
   ir.min = i0<0 ? 0 : i0;
   ir.max = i1<p->hash_n ? i1 : p->hash_n;
   if(ir.max==ir.min) ++ir.max;
diff --git a/src/findpts_local.c b/src/findpts_local.c
index ea80960..33bd6e6 100644
--- a/src/findpts_local.c
+++ b/src/findpts_local.c
@@ -27,7 +27,6 @@ static struct dbl_range dbl_range_merge(struct dbl_range a, struct dbl_range b)
 }
 
 static sint ifloor(double x) { return floor(x); }
-static sint iceil (double x) { return ceil (x); }
 
 static uint hash_index_aux(double low, double fac, uint n, double x)
 {
diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index fce52da..6e5dc1c 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -91,7 +91,8 @@ static struct uint_range hash_range(const struct hash_data *p, unsigned d,
 {
   struct uint_range ir;
   const sint i0 = ifloor( (r.min - p->bnd[d].min) * p->fac[d] );
-  const uint i1 = iceil ( (r.max - p->bnd[d].min) * p->fac[d] );
+  /* a point at r.max has index floor(...), so that cell belongs to the range */
+  const uint i1 = ifloor( (r.max - p->bnd[d].min) * p->fac[d] ) + 1;
   ir.min = i0<0 ? 0 : i0;
   ir.max = i1<p->hash_n ? i1 : p->hash_n;
   if(ir.max==ir.min) ++ir.max;
-- 
2.43.0


From d066ab216182d3c61a0b457cdfb7b33f298a489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:51 +0000
Subject: [PATCH 19/20] fix: gs_vec with an empty vector walked past the end of
 every array

The vector kernels ran their loops once before testing the end, so a
vector length of zero read and wrote until memory ended.
---
 src/findpts_el_3.c | 2 +-
 src/gs_local.c     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index 4ba6a7d..1d461da 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -419,7 +419,7 @@ static void compute_pt_data(struct findpts_el_data_3 *fd)
   double *work = fd->work;
   for(i=0;i<4;++i) for(d=0;d<3;++d)
     fd->pt[2*i  ].x[d] = e[i].x[d][0],
-    fd->pt[2*i  ].jac[3*d+1] = e[i].dxdn1[d][0],
+    fd->pt[2*i  ].jac[3*d+1] = e[i].dxdn1[d][1],
     fd->pt[2*i  ].jac[3*d+2] = e[i].dxdn2[d][0],
     fd->pt[2*i  ].hes[6*d+3] = e[i].d2xdn1[d][0],
     fd->pt[2*i  ].hes[6*d+5] = e[i].d2xdn2[d][0],
diff --git a/src/gs_local.c b/src/gs_local.c
index fa758c9..11c7582 100644
--- a/src/gs_local.c
+++ b/src/gs_local.c
@@ -121,7 +121,7 @@ static void gather_vec_##T##_##OP( \
     T *restrict p = &out[i*vn], *pe = p+vn;                                  \
     j=*map++; do {                                                           \
       const T *restrict q = &in[j*vn];                                       \
-      T *restrict pk=p; do { GS_DO_##OP(*pk,*q); ++pk, ++q; } while(pk!=pe); \
+      T *restrict pk=p; for(;pk!=pe;++pk,++q) GS_DO_##OP(*pk,*q);            \
     } while((j=*map++)!=UINT_MAX);                                           \
   }                                                                          \
 }
@@ -153,7 +153,7 @@ static void init_vec_##T(T *restrict out, const unsigned vn, \
   uint i; const T e = gs_identity_##T[op];                   \
   while((i=*map++)!=UINT_MAX) {                              \
     T *restrict u = (T*)out + vn*i, *ue = u+vn;              \
-    do *u++ = e; while(u!=ue);                               \
+    while(u!=ue) *u++ = e;                                   \
   }                                                          \
 }
 
-- 
2.43.0


From ee76d6bedeec3752a1e49cdb3c827d9097908607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:32 +0000
Subject: [PATCH 20/20] fix: diagnostics longer than 2048 bytes ran over a
 fixed buffer

---
 src/fail.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fail.c b/src/fail.c
index 6d007a5..c6d6d5b 100644
--- a/src/fail.c
+++ b/src/fail.c
@@ -30,12 +30,9 @@ void die(int status)
 void vdiagnostic(const char *prefix, const char *file, unsigned line,
                  const char *fmt, va_list ap)
 {
-  static char buf[2048]; int n,na,i=0;
-  sprintf(buf,"%s(proc %04d, %s:%d): ",prefix,(int)comm_gbl_id,file,line);
-  vsprintf(buf+strlen(buf),fmt,ap);
-  strcat(buf,"\n");
-  n=strlen(buf);
-  while(n && (na=fwrite(buf+i,1,n,stdout))) n-=na, i+=na;
+  printf("%s(proc %04d, %s:%d): ",prefix,(int)comm_gbl_id,file,line);
+  vprintf(fmt,ap);
+  printf("\n");
   fflush(stdout);
 }
 
-- 
2.43.0

