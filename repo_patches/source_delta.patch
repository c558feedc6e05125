From 57c98639d00c4818452dc22225e1fdc8532cf68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 01/29] fix: applystencilonpatch2d swapped the loop bounds of
 the two directions

---
 m4/applystencil2d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/applystencil2d.m4 b/m4/applystencil2d.m4
index 747641a..80209d1 100755
--- a/m4/applystencil2d.m4
+++ b/m4/applystencil2d.m4
@@ -91,8 +91,8 @@ c
 c***********************************************************************
 c
       
-      do j=lo0,hi0
-         do i=lo1,hi1
+      do j=lo1,hi1
+         do i=lo0,hi0
             r(i,j)=b*f(i,j)
             do s=1,stencilsize
                io=offsets(1,s)
-- 
2.43.0


From ac746a8036705aa7b6d395390c0fa6b917f748c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 02/29] fix: celladjustsystemrhspatch2d swapped the loop bounds
 of the two directions

---
 m4/celladjustrhs2d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/celladjustrhs2d.m4 b/m4/celladjustrhs2d.m4
index 93b4d4f..0308b94 100755
--- a/m4/celladjustrhs2d.m4
+++ b/m4/celladjustrhs2d.m4
@@ -166,8 +166,8 @@ c offsets are compact, ie at most offset by (+-1,+-1)
 c ul represents the local u values in the direction we are interested
 c in adjusting the stencil
 
-      do j=ifirst0,ilast0
-         do i=ifirst1,ilast1
+      do j=ifirst1,ilast1
+         do i=ifirst0,ilast0
             do s=1,noffsets
                io=offset(1,s)
                jo=offset(2,s)
-- 
2.43.0


From eec9bd6005a86d4b4618b24ecc160fbcdf64c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 03/29] fix: cellgs1d declared f with the bounds of u

---
 m4/cellsmooth1d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellsmooth1d.m4 b/m4/cellsmooth1d.m4
index b7e3057..be304a7 100755
--- a/m4/cellsmooth1d.m4
+++ b/m4/cellsmooth1d.m4
@@ -101,7 +101,7 @@ c
       integer slo0, shi0
       REAL stencil(0:stencilsize-1,CELL1d(slo,shi,0))
       REAL u(CELL1d(ulo,uhi,0))
-      REAL f(CELL1d(ulo,uhi,0))
+      REAL f(CELL1d(flo,fhi,0))
       integer i,s, io
       REAL r
 
-- 
2.43.0


From 8b0f72613d4e608f7251911774a2bc378806a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 04/29] fix: creatematrix read one stencil entry past the end

---
 m4/cellblocksmooth3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellblocksmooth3d.m4 b/m4/cellblocksmooth3d.m4
index 02e2cff..d13db88 100644
--- a/m4/cellblocksmooth3d.m4
+++ b/m4/cellblocksmooth3d.m4
@@ -25,7 +25,7 @@ c Create a dense matrix from stencil.
             do i=0,bSizeX-1
                idx = k*bSizeY*bSizeX+j*bSizeX+i
                A(idx,idx) = stencil(0,i,j,k)
-               do s=1,stencilSize
+               do s=1,stencilSize-1
                   ix = i+offset(0,s)
                   iy = j+offset(1,s)
                   iz = k+offset(2,s)
-- 
2.43.0


From 248c0f5004442e6c9636cca75b9eda7a637fb159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 05/29] fix: 2d Jacobi smoothers rounded their weight to single
 precision

---
 m4/cellblocksmooth2d.m4 | 4 ++--
 m4/cellsmooth2d.m4      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/m4/cellblocksmooth2d.m4 b/m4/cellblocksmooth2d.m4
index 72a896b..8dde148 100755
--- a/m4/cellblocksmooth2d.m4
+++ b/m4/cellblocksmooth2d.m4
@@ -51,7 +51,7 @@ c
       integer i,j
       REAL w
 
-      w=0.8
+      w=0.8d0
 
 c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
@@ -87,7 +87,7 @@ c
       REAL det
       REAL w
 
-      w=0.8
+      w=0.8d0
 
 c we make the assumption that the diagonal entry for the stencil is
 c always stored last in the stencil
diff --git a/m4/cellsmooth2d.m4 b/m4/cellsmooth2d.m4
index e32396d..a2fe89a 100755
--- a/m4/cellsmooth2d.m4
+++ b/m4/cellsmooth2d.m4
@@ -58,7 +58,7 @@ c
       integer i,j,s, io, jo
       REAL w
 
-      w=0.8
+      w=0.8d0
 
 c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
-- 
2.43.0


From fdf07a5cb95bb2dc616e36408d465a5a574a269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 06/29] fix: 2d red-black smoothers left the patch where
 j+color was negative

---
 m4/cellsmooth2d.m4 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m4/cellsmooth2d.m4 b/m4/cellsmooth2d.m4
index a2fe89a..3298e98 100755
--- a/m4/cellsmooth2d.m4
+++ b/m4/cellsmooth2d.m4
@@ -163,7 +163,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+mod(abs(j)+color,2), hi0,2
             r = f(i,j)
             do s=1,stencilsize-1
                io=offset(0,s)
@@ -205,7 +205,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+mod(abs(j)+color,2), hi0,2
             u(i,j) = (f(i,j)-stencil(1,i,j)*u(i-1,j)
      &                -stencil(2,i,j)*u(i+1,j)
      &                -stencil(3,i,j)*u(i,j-1)
@@ -244,7 +244,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+mod(abs(j)+color,2), hi0,2
             u(i,j) = (f(i,j)-stencil(1,i,j)*u(i-1,j+0)
      &                      -stencil(2,i,j)*u(i+1,j+0)
      &                      -stencil(3,i,j)*u(i+0,j-1)
-- 
2.43.0


From 7debb0a54d152830e06ba7aa2cac7558052afa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 07/29] fix: ccellblkjacobi3d left the diagonal out of the
 residual it corrects with

---
 m4/cellsmooth3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellsmooth3d.m4 b/m4/cellsmooth3d.m4
index e7a866b..e96fbb7 100755
--- a/m4/cellsmooth3d.m4
+++ b/m4/cellsmooth3d.m4
@@ -321,7 +321,7 @@ c always stored first in the stencil
          do j = lo1, hi1
             do i = lo0, hi0
 	       r(:,i,j,k)=f(:,i,j,k)
-               do s=2,size
+               do s=1,size
                   io=offset(1,s)
                   jo=offset(2,s)
                   ko=offset(3,s)
-- 
2.43.0


From 38b0a42232f331628baa6afa316f8798759bcae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 08/29] fix: 2d adj_diag put the Dirichlet high-side correction
 in the ghost cell

---
 m4/celldiffusionstencilcoeffs2d.m4 | 10 ++++++----
 src/cuda/cd_stencil_2d_cuda.cpp    |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs2d.m4 b/m4/celldiffusionstencilcoeffs2d.m4
index dc41061..26e1de1 100755
--- a/m4/celldiffusionstencilcoeffs2d.m4
+++ b/m4/celldiffusionstencilcoeffs2d.m4
@@ -291,26 +291,28 @@ c
             endif
          elseif (bdrytype.eq.DIRICHLET) then
             if (direction.eq.0) then
-               ie0 = pfirst0-side+1
+               ie0 = pfirst0-2*side+1
+               edge= pfirst0-side+1
                h=dx(0)
                if(extrapOrder.eq.1) then
                   do ic1 = pfirst1, plast1
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic1 = pfirst1, plast1
-                     factor = beta*b0(ie0,ic1)/(3.0d0*(h**2))
+                     factor = beta*b0(edge,ic1)/(3.0d0*(h**2))
                      stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)+factor
                   enddo
                endif
             elseif (direction.eq.1) then
-               ie1  = pfirst1-side+1
+               ie1  = pfirst1-2*side+1
+               edge= pfirst1-side+1
                h=dx(1)
                if(extrapOrder.eq.1) then
                   do ic0 = pfirst0, plast0
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic0 = pfirst0, plast0
-                     factor = beta*b1(ie1,ic0)/(3.0d0*(h**2))
+                     factor = beta*b1(edge,ic0)/(3.0d0*(h**2))
                      stencil(PP,ic0,ie1)=stencil(PP,ic0,ie1)+factor
                   enddo
                endif
diff --git a/src/cuda/cd_stencil_2d_cuda.cpp b/src/cuda/cd_stencil_2d_cuda.cpp
index 7362735..d353bcb 100644
--- a/src/cuda/cd_stencil_2d_cuda.cpp
+++ b/src/cuda/cd_stencil_2d_cuda.cpp
@@ -191,10 +191,10 @@ void cd_stencil_2d_cuda<T>::adj_diag(const int& i0,
     case 0:
         switch (T f = beta / (3 * h * h); dir) {
         case 0:
-            bt0(f, b0, pj, Ib{pi0 - side + 1, pi0 - side + 1});
+            bt0(f, b0.shift_x(side), pj, Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1});
             return;
         case 1:
-            bt0(f, b1, Jb{pj0 - side + 1, pj0 - side + 1}, pi);
+            bt0(f, b1.shift_y(side), Jb{pj0 - 2 * side + 1, pj0 - 2 * side + 1}, pi);
             return;
         } // switch (dir)
         break;
-- 
2.43.0


From 1561bb4e3965bcb71add9e57141a8a45a2e03aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 09/29] fix: 3d adj_diag took the Dirichlet high-side
 coefficient from the wrong face

---
 m4/celldiffusionstencilcoeffs3d.m4 | 11 +++++++----
 src/cuda/cd_stencil_3d_cuda.cpp    |  6 +++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs3d.m4 b/m4/celldiffusionstencilcoeffs3d.m4
index 288701e..491a0db 100755
--- a/m4/celldiffusionstencilcoeffs3d.m4
+++ b/m4/celldiffusionstencilcoeffs3d.m4
@@ -278,7 +278,7 @@ c
       integer sgcw
       REAL stencil(0:6,CELL3d(ifirst,ilast,sgcw))
       integer i,j,k
-      integer ie0,ie1,ie2
+      integer ie0,ie1,ie2,edge
 
       REAL factor
       REAL b, h
@@ -392,6 +392,7 @@ c
       elseif (bdrytype.eq.DIRICHLET) then
         if (direction.eq.0) then
           ie0 = pfirst0-2*side+1
+          edge= pfirst0-side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
@@ -400,13 +401,14 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
-                factor = beta*b0(ie0,j,k)/(3.0d0*(h**2))
+                factor = beta*b0(edge,j,k)/(3.0d0*(h**2))
                 stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.1) then
           ie1  = pfirst1-2*side+1
+          edge= pfirst1-side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
@@ -415,13 +417,14 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
-                factor = beta*b1(ie1,k,i)/(3.0d0*(h**2))
+                factor = beta*b1(edge,k,i)/(3.0d0*(h**2))
                 stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.2) then
           ie2  = pfirst2-2*side+1
+          edge= pfirst2-side+1
           if(extrapOrder.eq.1) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
@@ -430,7 +433,7 @@ c
           else if (extrapOrder.eq.2) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-                factor = beta*b2(ie2,i,j)/(3.0d0*(h**2))
+                factor = beta*b2(edge,i,j)/(3.0d0*(h**2))
                 stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)+factor
               enddo
             enddo
diff --git a/src/cuda/cd_stencil_3d_cuda.cpp b/src/cuda/cd_stencil_3d_cuda.cpp
index da2e43a..3cf701a 100644
--- a/src/cuda/cd_stencil_3d_cuda.cpp
+++ b/src/cuda/cd_stencil_3d_cuda.cpp
@@ -239,13 +239,13 @@ void cd_stencil_3d_cuda<T>::adj_diag(const int& i0,
     case 0:
         switch (T f = beta / (3 * h * h); dir) {
         case 0:
-            bt0(f, b0, pk, pj, pil);
+            bt0(f, b0.shift_x(side), pk, pj, pil);
             break;
         case 1:
-            bt0(f, b1, pk, pjl, pi);
+            bt0(f, b1.shift_y(side), pk, pjl, pi);
             break;
         case 2:
-            bt0(f, b2, pkl, pj, pi);
+            bt0(f, b2.shift_z(side), pkl, pj, pi);
             break;
         } // switch (dir)
         break;
-- 
2.43.0


From 1f5cf0190fe680ec309721aa9194d235c0269678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 10/29] fix: node-centred adjdiag put the Dirichlet high-side
 correction in the ghost cell

---
 m4/nodediffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/nodediffusionstencilcoeffs3d.m4 | 15 +++++++++------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/m4/nodediffusionstencilcoeffs2d.m4 b/m4/nodediffusionstencilcoeffs2d.m4
index 10eb005..5cf98ab 100755
--- a/m4/nodediffusionstencilcoeffs2d.m4
+++ b/m4/nodediffusionstencilcoeffs2d.m4
@@ -280,26 +280,28 @@ c
             endif
          elseif (bdrytype.eq.DIRICHLET) then
             if (direction.eq.0) then
-               ie0 = pfirst0-side+1
+               ie0 = pfirst0-2*side+1
+               edge= pfirst0-side+1
                h=dx(0)
                if(extrapOrder.eq.1) then
                   do ic1 = pfirst1, plast1
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic1 = pfirst1, plast1
-                     factor = beta*b0(ie0,ic1)/(3.0d0*(h**2))
+                     factor = beta*b0(edge,ic1)/(3.0d0*(h**2))
                      stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)+factor
                   enddo
                endif
             elseif (direction.eq.1) then
-               ie1  = pfirst1-side+1
+               ie1  = pfirst1-2*side+1
+               edge= pfirst1-side+1
                h=dx(1)
                if(extrapOrder.eq.1) then
                   do ic0 = pfirst0, plast0
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic0 = pfirst0, plast0
-                     factor = beta*b1(ie1,ic0)/(3.0d0*(h**2))
+                     factor = beta*b1(edge,ic0)/(3.0d0*(h**2))
                      stencil(PP,ic0,ie1)=stencil(PP,ic0,ie1)+factor
                   enddo
                endif
diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 0be0e62..5687d14 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -393,7 +393,8 @@ c
          endif
       elseif (bdrytype.eq.DIRICHLET) then
         if (direction.eq.0) then
-          ie0 = pfirst0-side+1
+          ie0 = pfirst0-2*side+1
+          edge= pfirst0-side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
@@ -402,13 +403,14 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
-                factor = beta*b0(ie0,j,k)/(3.0d0*(h**2))
+                factor = beta*b0(edge,j,k)/(3.0d0*(h**2))
                 stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.1) then
-          ie1  = pfirst1-side+1
+          ie1  = pfirst1-2*side+1
+          edge= pfirst1-side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
@@ -417,13 +419,14 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
-                factor = beta*b1(ie1,k,i)/(3.0d0*(h**2))
+                factor = beta*b1(edge,k,i)/(3.0d0*(h**2))
                 stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.2) then
-          ie2  = pfirst2-side+1
+          ie2  = pfirst2-2*side+1
+          edge= pfirst2-side+1
           if(extrapOrder.eq.1) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
@@ -432,7 +435,7 @@ c
           else if (extrapOrder.eq.2) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-                factor = beta*b2(ie2,i,j)/(3.0d0*(h**2))
+                factor = beta*b2(edge,i,j)/(3.0d0*(h**2))
                 stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)+factor
               enddo
             enddo
-- 
2.43.0


From d818fbe9d3b5bb81ece83c191b90430b3fb0ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 11/29] fix: adjnodepoissondiag3d put the Dirichlet high-side
 correction in the ghost cell

---
 m4/nodediffusionstencilcoeffs3d.m4 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 5687d14..a6d91d8 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -592,7 +592,7 @@ c
             endif
       elseif (bdrytype.eq.DIRICHLET) then
         if (direction.eq.0) then
-          ie0 = pfirst0-side+1
+          ie0 = pfirst0-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
@@ -607,7 +607,7 @@ c
             enddo
           endif
         elseif (direction.eq.1) then
-          ie1  = pfirst1-side+1
+          ie1  = pfirst1-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
@@ -622,7 +622,7 @@ c
             enddo
           endif
         elseif (direction.eq.2) then
-          ie2  = pfirst2-side+1
+          ie2  = pfirst2-2*side+1
           if(extrapOrder.eq.1) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-- 
2.43.0


From 9d3015166ba1fc5ae9e627fc3fe8000d19668df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 12/29] fix: nodediffusionflux3d used the y coefficient for the
 z flux

---
 m4/nodediffusionflux3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/nodediffusionflux3d.m4 b/m4/nodediffusionflux3d.m4
index a5380af..62f027c 100755
--- a/m4/nodediffusionflux3d.m4
+++ b/m4/nodediffusionflux3d.m4
@@ -79,7 +79,7 @@ c
       do j = ifirst1, ilast1
          do i = ifirst0, ilast0
             do k = ifirst2, ilast2+1
-               flux2(k,i,j) = b1(k,i,j)*(u(i,j,k)-u(i,j,k-1))/dx(2)
+               flux2(k,i,j) = b2(k,i,j)*(u(i,j,k)-u(i,j,k-1))/dx(2)
             enddo
          enddo
       enddo
-- 
2.43.0


From 157fe4043027eec56e1ebee6f16644dd78ccab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 13/29] fix: 3d node apply kernels used the y flux in the z
 divergence

---
 m4/nodediffusionapply3d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/nodediffusionapply3d.m4 b/m4/nodediffusionapply3d.m4
index d0fa5c3..4058039 100755
--- a/m4/nodediffusionapply3d.m4
+++ b/m4/nodediffusionapply3d.m4
@@ -128,7 +128,7 @@ c
             do i = ifirst0, ilast0
                diver = beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
      &                       (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
-     &                       (flux1(k+1,i,j) - flux1(k,i,j))/dx(2))
+     &                       (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
                lu = - diver +alpha*u(i,j,k)
                res(i,j,k) = b*f(i,j,k) +a*lu 
             enddo
@@ -178,7 +178,7 @@ c
             do i = ifirst0, ilast0
                lu = -beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
      &                     (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
-     &                     (flux1(k+1,i,j) - flux1(k,i,j))/dx(2))
+     &                     (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
                res(i,j,k) = b*f(i,j,k) + a*lu 
             enddo
          enddo
-- 
2.43.0


From 61e15dbd4940ce845ffd26ef1954ee5e15ea958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 14/29] fix: readjnodediffusionoffdiag3d took the z boundary
 plane from the y box

---
 m4/nodediffusionstencilcoeffs3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index a6d91d8..38abc0f 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -1660,7 +1660,7 @@ c
             enddo
          endif
       elseif (direction.eq.2) then
-         ie2 = pfirst1-side+1
+         ie2 = pfirst2-side+1
          if(side .eq. 0) then
             do j = pfirst1, plast1
                do i = pfirst0, plast0
-- 
2.43.0


From 07f6d72e442f92cf0376bb1b182b85696a75e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 15/29] fix: adjnodediffusioncfdiag3d used the y coefficient
 for the z direction

---
 m4/nodediffusionstencilcoeffs3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 38abc0f..6d04b04 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -732,7 +732,7 @@ c
          else if (interporder .eq. 2) then
             do j = pfirst1, plast1
                do i = pfirst0, plast0
-                  factor=dr1*beta*b1(edge,i,j)/(h**2)
+                  factor=dr1*beta*b2(edge,i,j)/(h**2)
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                enddo
             enddo
-- 
2.43.0


From 79c885667fd234effc2191cb5ea628ecab42f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 16/29] fix: 3d node offdiag adjustment wrote the Robin high
 side to column 1

---
 m4/nodediffusionstencilcoeffs3d.m4 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 6d04b04..18d69a8 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -948,7 +948,7 @@ c
                   factor=beta*b1(ie1,k,i)
                   factor=factor/(h*(3.0*h+16.0*b1(ie1,k,i)))
                   stencil(NN,i,ie1-1,k)=-9.0*factor
-                  stencil(SS,1,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
+                  stencil(SS,i,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
                 enddo
               enddo
             endif
@@ -987,7 +987,7 @@ c
                   factor=beta*b2(ie2,i,j)
                   factor=factor/(h*(3.0*h+16.0*b2(ie2,i,j)))
                   stencil(TT,i,j,ie2-1)=-9.0*factor
-                  stencil(BB,1,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
+                  stencil(BB,i,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
                 enddo
               enddo
             endif
@@ -1259,7 +1259,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(NN,i,ie1-1,k)=-9.0*factor
-                  stencil(SS,1,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
+                  stencil(SS,i,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
                 enddo
               enddo
             endif
@@ -1296,7 +1296,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(TT,i,j,ie2-1)=-9.0*factor
-                  stencil(BB,1,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
+                  stencil(BB,i,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
                 enddo
               enddo
             endif
-- 
2.43.0


From 46938f83a4480e65f36ae660a2cf230eb4bada8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 17/29] fix: Robin adj_diag multiplied where it has to divide

---
 m4/celldiffusionstencilcoeffs1d.m4 |  8 ++++----
 m4/celldiffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/celldiffusionstencilcoeffs3d.m4 | 24 ++++++++++++------------
 m4/nodediffusionstencilcoeffs1d.m4 |  8 ++++----
 m4/nodediffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/nodediffusionstencilcoeffs3d.m4 | 24 ++++++++++++------------
 src/cuda/cd_stencil_1d_cuda.cpp    |  4 ++--
 src/cuda/cd_stencil_2d_cuda.cpp    |  4 ++--
 src/cuda/cd_stencil_3d_cuda.cpp    |  4 ++--
 9 files changed, 50 insertions(+), 46 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs1d.m4 b/m4/celldiffusionstencilcoeffs1d.m4
index 7e23f78..3974336 100755
--- a/m4/celldiffusionstencilcoeffs1d.m4
+++ b/m4/celldiffusionstencilcoeffs1d.m4
@@ -249,13 +249,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
@@ -309,13 +309,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
diff --git a/m4/celldiffusionstencilcoeffs2d.m4 b/m4/celldiffusionstencilcoeffs2d.m4
index 26e1de1..9dc2376 100755
--- a/m4/celldiffusionstencilcoeffs2d.m4
+++ b/m4/celldiffusionstencilcoeffs2d.m4
@@ -259,7 +259,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+     &                     /(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -267,7 +268,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+     &                     /(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
@@ -362,7 +364,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -370,7 +372,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
diff --git a/m4/celldiffusionstencilcoeffs3d.m4 b/m4/celldiffusionstencilcoeffs3d.m4
index 491a0db..d4a09fb 100755
--- a/m4/celldiffusionstencilcoeffs3d.m4
+++ b/m4/celldiffusionstencilcoeffs3d.m4
@@ -300,7 +300,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(ie0,j, k)
-                  factor=factor/h*(3.0*h+16.0*b0(ie0,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(ie0,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -315,7 +315,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(ie0+1,j,k)
-                  factor=factor/h*(3.0*h+16.0*b0(ie0+1,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(ie0+1,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -333,7 +333,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(ie1,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(ie1,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(ie1,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -348,7 +348,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(ie1+1,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(ie1+1,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(ie1+1,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -366,7 +366,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(ie2,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(ie2,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(ie2,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -381,7 +381,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(ie2+1,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(ie2+1,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(ie2+1,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -487,7 +487,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -502,7 +502,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -520,7 +520,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -535,7 +535,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -553,7 +553,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
@@ -568,7 +568,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
diff --git a/m4/nodediffusionstencilcoeffs1d.m4 b/m4/nodediffusionstencilcoeffs1d.m4
index e51aee0..552e552 100755
--- a/m4/nodediffusionstencilcoeffs1d.m4
+++ b/m4/nodediffusionstencilcoeffs1d.m4
@@ -237,13 +237,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
@@ -295,13 +295,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
diff --git a/m4/nodediffusionstencilcoeffs2d.m4 b/m4/nodediffusionstencilcoeffs2d.m4
index 5cf98ab..2609196 100755
--- a/m4/nodediffusionstencilcoeffs2d.m4
+++ b/m4/nodediffusionstencilcoeffs2d.m4
@@ -248,7 +248,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+     &                     /(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -256,7 +257,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+     &                     /(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
@@ -349,7 +351,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -357,7 +359,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 18d69a8..bde412f 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -291,7 +291,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(edge,j, k)
-                  factor=factor/h*(3.0*h+16.0*b0(edge,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(edge,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -306,7 +306,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(edge,j,k)
-                  factor=factor/h*(3.0*h+16.0*b0(edge,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(edge,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -325,7 +325,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(edge,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(edge,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(edge,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -340,7 +340,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(edge,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(edge,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(edge,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -359,7 +359,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(edge,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(edge,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(edge,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -374,7 +374,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(edge,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(edge,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(edge,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -488,7 +488,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -503,7 +503,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -522,7 +522,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -537,7 +537,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -556,7 +556,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
@@ -571,7 +571,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
diff --git a/src/cuda/cd_stencil_1d_cuda.cpp b/src/cuda/cd_stencil_1d_cuda.cpp
index 3a3f66a..0ddca44 100644
--- a/src/cuda/cd_stencil_1d_cuda.cpp
+++ b/src/cuda/cd_stencil_1d_cuda.cpp
@@ -149,7 +149,7 @@ void cd_stencil_1d_cuda<T>::adj_diag(const int& i0,
         const auto pi = Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1};
         if (exOrder == 2) {
             auto b = b0.shift_x(side);
-            with_domain(st.window(), pi)(st(0) = st(0) - (f * b) * (3 * h + 16 * b));
+            with_domain(st.window(), pi)(st(0) = st(0) - (f * b) / (3 * h + 16 * b));
             st.copy_to(st_);
         }
     }
@@ -179,7 +179,7 @@ void cd_stencil_1d_cuda<T>::adj_poisson_diag(const int& i0,
         const auto pi = Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1};
 
         T f = beta / h;
-        with_domain(st.window(), pi)(st(0) = st(0) - (f * (3 * h + 16)));
+        with_domain(st.window(), pi)(st(0) = st(0) - (f / (3 * h + 16)));
         st.copy_to(st_);
     }
 }
diff --git a/src/cuda/cd_stencil_2d_cuda.cpp b/src/cuda/cd_stencil_2d_cuda.cpp
index d353bcb..996442d 100644
--- a/src/cuda/cd_stencil_2d_cuda.cpp
+++ b/src/cuda/cd_stencil_2d_cuda.cpp
@@ -168,7 +168,7 @@ void cd_stencil_2d_cuda<T>::adj_diag(const int& i0,
     auto bt4 = [&](T f, auto&& b, auto&&... p) mutable {
         if (exOrder == 2) {
             with_domain(st.window(),
-                        FWD(p)...)(st(0) = st(0) - (f * b) * (3 * h + 16 * b));
+                        FWD(p)...)(st(0) = st(0) - (f * b) / (3 * h + 16 * b));
             st.copy_to(st_);
         }
     };
@@ -230,7 +230,7 @@ void cd_stencil_2d_cuda<T>::adj_poisson_diag(const int& i0,
     if (btype == 4 && exOrder == 2 && dir == 0) {
         T f = beta / h;
         const auto pi = Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1};
-        with_domain(st.window(), pj, pi)(st(0) = st(0) - (f * (3 * h + 16)));
+        with_domain(st.window(), pj, pi)(st(0) = st(0) - (f / (3 * h + 16)));
         st.copy_to(st_);
     }
 }
diff --git a/src/cuda/cd_stencil_3d_cuda.cpp b/src/cuda/cd_stencil_3d_cuda.cpp
index 3cf701a..7a1e2bf 100644
--- a/src/cuda/cd_stencil_3d_cuda.cpp
+++ b/src/cuda/cd_stencil_3d_cuda.cpp
@@ -210,7 +210,7 @@ void cd_stencil_3d_cuda<T>::adj_diag(const int& i0,
     auto bt4 = [&](T f, auto&& b, auto&&... p) mutable {
         if (exOrder == 2) {
             with_domain(st.window(),
-                        FWD(p)...)(st(0) = st(0) - (f * b) * (3 * h + 16 * b));
+                        FWD(p)...)(st(0) = st(0) - (f * b) / (3 * h + 16 * b));
             st.copy_to(st_);
         }
     };
@@ -291,7 +291,7 @@ void cd_stencil_3d_cuda<T>::adj_poisson_diag(const int& i0,
     const auto pkl = Kb{pk0 - 2 * side + 1, pk0 - 2 * side + 1};
 
     auto bt4 = [&](T f, auto&&... p) mutable {
-        with_domain(st.window(), FWD(p)...)(st(0) = st(0) - (f * (3 * h + 16)));
+        with_domain(st.window(), FWD(p)...)(st(0) = st(0) - (f / (3 * h + 16)));
         st.copy_to(st_);
     };
     auto bt0 = [&](T f, auto&&... p) mutable {
-- 
2.43.0


From 53c5aab5ed3de135c2c1e603586acba4f8c4feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 18/29] fix: forward_stencil_iterator::advance disagreed with
 increment/decrement

Advancing to the end stopped one element behind the position reached by
incrementing, so end - 1 dereferenced the wrong pair, and moving backwards by
exact multiples of max_stride_distance skipped one plane too many.
---
 src/cuda/forward_stencil_iterator.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/cuda/forward_stencil_iterator.hpp b/src/cuda/forward_stencil_iterator.hpp
index a388ef9..16e1ef4 100644
--- a/src/cuda/forward_stencil_iterator.hpp
+++ b/src/cuda/forward_stencil_iterator.hpp
@@ -122,23 +122,21 @@ private:
     {
         //  need to add correct multiples of the stencil_stride to compensate for dist
         //  causing our stencil to "rollover".
+        if (dist == 0) return;
+
         distance_to_last -= dist;
 
         auto base_dist = dist + current_distance;
-        int backwards = base_dist < 0;
+        // number of "rollovers", rounded towards minus infinity when going backwards
+        diff_t rollovers = base_dist / max_stride_distance;
+        rollovers -= base_dist % max_stride_distance < 0;
+        // the "last" position is right after the final element, see increment()
         int at_last = !(distance_to_last);
+        rollovers -= at_last * !(base_dist % max_stride_distance);
+
+        current_distance = base_dist - rollovers * max_stride_distance;
 
-        auto iter_dist = dist + (base_dist / max_stride_distance) * stencil_stride -
-                         backwards * stencil_stride - at_last * (stencil_stride - 1);
-        current_distance = backwards * max_stride_distance +
-                           base_dist % max_stride_distance +
-                           at_last * max_stride_distance;
-        // if (distance_to_last == 0) {
-        //     iter_dist -= (stencil_stride-1);
-        //     current_distance = max_stride_distance;
-        // }
-
-        thrust::advance(first, iter_dist);
+        thrust::advance(first, dist + rollovers * stencil_stride);
     }
 
     template <typename Other>
-- 
2.43.0


From e1e79379dbd24280840f9505bb7379e609fb5b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 19/29] fix: number of points of strided and of empty bounds

bounds::size() rounded down while the submatrix iterator rounds up, so a window
statement over e.g. Ib{0, 4, 2} left out the last row.  Bounds with ub < lb in
two directions gave a positive product and wrote elements of an empty domain.
---
 src/cuda/md_bounds.hpp          | 6 +++++-
 src/cuda/submatrix_iterator.hpp | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cuda/md_bounds.hpp b/src/cuda/md_bounds.hpp
index ff5c22f..da8126a 100644
--- a/src/cuda/md_bounds.hpp
+++ b/src/cuda/md_bounds.hpp
@@ -58,7 +58,11 @@ struct bounds {
     int lb() const { return first; }
     int ub() const { return last - 1; }
 
-    int size() const { return (last - first) / stride; }
+    // number of points first, first + stride, ... below last
+    int size() const
+    {
+        return last > first ? (last - first + stride - 1) / stride : 0;
+    }
 };
 
 // Generally, the user will not be required to use anything in the `lazy` namespace
diff --git a/src/cuda/submatrix_iterator.hpp b/src/cuda/submatrix_iterator.hpp
index a06ac8c..cc565e7 100644
--- a/src/cuda/submatrix_iterator.hpp
+++ b/src/cuda/submatrix_iterator.hpp
@@ -32,7 +32,8 @@ auto make_submatrix_helper(std::index_sequence<I...>,
 
 
     int current[] = {(0 * I)...};
-    int n[] = {((ub[I] - lb[I] + stm[I]) / stm[I])...};
+    // nothing to visit in a dimension with ub < lb
+    int n[] = {(ub[I] < lb[I] ? 0 : (ub[I] - lb[I] + stm[I]) / stm[I])...};
     int stride[] = {stride_dim<I, N>(sz, stm)...};
 
     if constexpr (N > sizeof...(I) || std::is_same_v<T, std::true_type>) {
-- 
2.43.0


From 00846f161f8035cc9bead404743deb0ed1006894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 20/29] fix: operands of <view> op <proxy using a view> were
 swapped

maybe_invoke_with<N> takes the iterator of the outer view from position N - 1
but get_iterators() put it first, so u - w * st(1) evaluated w - u * st(1).
---
 src/cuda/stencil_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/stencil_proxy.hpp b/src/cuda/stencil_proxy.hpp
index 2ffed40..de9578c 100644
--- a/src/cuda/stencil_proxy.hpp
+++ b/src/cuda/stencil_proxy.hpp
@@ -136,7 +136,7 @@ struct stencil_proxy : proxy_math<stencil_proxy<N, U, V, Op>> {
                 static_assert(true, "we should never get here");
         } else if constexpr (is_iter_math_v<U>) {
             if constexpr (is_stencil_proxy_v<V>)
-                return prepend_to_tuple(u(bnds...), v.get_iterators(bnds...));
+                return append_to_tuple(v.get_iterators(bnds...), u(bnds...));
             else if constexpr (is_number_v<V>)
                 return thrust::make_tuple(u(bnds...));
             else if constexpr (is_iter_math_v<V>) // I don't think this can happen
-- 
2.43.0


From fba0b0fc3d39e69c8677979c90e1b1a08a60ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 21/29] fix: window iterators could not be compared or
 subtracted

equal() and distance_to() only accepted traversals with the default value and
reference types.
---
 src/cuda/matrix_traversal_iterator.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cuda/matrix_traversal_iterator.hpp b/src/cuda/matrix_traversal_iterator.hpp
index f6250de..6139065 100644
--- a/src/cuda/matrix_traversal_iterator.hpp
+++ b/src/cuda/matrix_traversal_iterator.hpp
@@ -117,8 +117,9 @@ private:
             return first + o;
     }
 
-    template <typename Other>
-    __host__ __device__ bool equal(const matrix_traversal_iterator<Other, N>& other) const
+    template <typename Other, typename V, typename R>
+    __host__ __device__ bool
+    equal(const matrix_traversal_iterator<Other, N, V, R>& other) const
     {
         return detail::equal(current, other.current);
     }
@@ -170,9 +171,9 @@ private:
         unravel<N>(n, dist, current);
     }
 
-    template <typename Other>
+    template <typename Other, typename V, typename R>
     __host__ __device__ diff_t
-    distance_to(const matrix_traversal_iterator<Other, N>& other) const
+    distance_to(const matrix_traversal_iterator<Other, N, V, R>& other) const
     {
         // assumes that first, n, and stride are identical between the two.
         return ravel<N>(n, other.current) - ravel<N>(n, current);
-- 
2.43.0


From 84a7c370d1a64412dd63a262ab8a15e268db1d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 22/29] fix: md_device_span::size() and end()

size() did not compile (device_ptr has none) and end() returned begin().
---
 src/cuda/md_device_span.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cuda/md_device_span.hpp b/src/cuda/md_device_span.hpp
index 06937d0..74df373 100644
--- a/src/cuda/md_device_span.hpp
+++ b/src/cuda/md_device_span.hpp
@@ -486,7 +486,12 @@ public:
         return lazy::make_dot_transform(*this, FWD(u));
     }
 
-    __host__ __device__ auto size() const { return v.size(); }
+    auto size() const
+    {
+        int n{1};
+        for (int i = 0; i < N; i++) n *= b[i].size();
+        return n;
+    }
 
     //
     // Window iterator infrastructure
@@ -544,8 +549,8 @@ public:
 
     auto begin() { return v; }
     auto begin() const { return v; }
-    auto end() { return v; }
-    auto end() const { return v; }
+    auto end() { return v + size(); }
+    auto end() const { return v + size(); }
 
     auto copy_to(T*) const
     { /* return thrust::copy(begin(), end(), t); */
-- 
2.43.0


From dccaae32c91f4d74f2bd4aedf7a397934b84b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 23/29] fix: md_device_vector::set_offset wrote back a stale
 host copy

---
 src/md_device_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/md_device_vector.hpp b/src/md_device_vector.hpp
index c5ba9d6..6363bf3 100644
--- a/src/md_device_vector.hpp
+++ b/src/md_device_vector.hpp
@@ -123,6 +123,9 @@ public:
         static constexpr int sz = sizeof...(Args);
         assert(sz == b[N-1].size());
 
+        // the device may have newer values of the other offsets
+        host();
+
         int idx[] = {args...};
         for (int i = 0; i < sz; i++) h[n * sz + i] = idx[i];
 
-- 
2.43.0


From 874c12a2e75e0821191bdd085d7e08300dec7577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 24/29] fix: advancing an empty matrix_traversal_iterator by 0
 divided by 0

---
 src/cuda/matrix_traversal_iterator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cuda/matrix_traversal_iterator.hpp b/src/cuda/matrix_traversal_iterator.hpp
index 6139065..099eda6 100644
--- a/src/cuda/matrix_traversal_iterator.hpp
+++ b/src/cuda/matrix_traversal_iterator.hpp
@@ -166,6 +166,9 @@ private:
 
     __host__ __device__ void advance(diff_t dist)
     {
+        // also the only legal distance when some dimension is empty
+        if (dist == 0) return;
+
         dist += ravel<N>(n, current);
         // printf("distance %ld//n", dist);
         unravel<N>(n, dist, current);
-- 
2.43.0


From e3357d472a027577da833f28565793180b4e7d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 25/29] fix: md_bounds.hpp had no include guard

md_device_span.hpp and md_device_vector.hpp could not be included together.
---
 src/cuda/md_bounds.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cuda/md_bounds.hpp b/src/cuda/md_bounds.hpp
index da8126a..0d52cb9 100644
--- a/src/cuda/md_bounds.hpp
+++ b/src/cuda/md_bounds.hpp
@@ -12,6 +12,8 @@
 // permit others to do so.
 
 
+#pragma once
+
 struct bounds {
     int first;
     int last;
-- 
2.43.0


From e940b56c69690fdb700d229485a742bc3c7278d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 26/29] fix: dot products over a strided domain step by points,
 not by strides

---
 src/cuda/md_device_span.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cuda/md_device_span.hpp b/src/cuda/md_device_span.hpp
index 74df373..2144f79 100644
--- a/src/cuda/md_device_span.hpp
+++ b/src/cuda/md_device_span.hpp
@@ -167,8 +167,10 @@ struct dot_helper : iter_math<dot_helper<U, V>> {
         thrust::device_ptr<int> o = v.o;
         int n = std::get<N>(u.dir_bounds()).size();
 
-        return thrust::make_transform_iterator(thrust::make_zip_iterator(u_it, v_it),
-                                               dot_impl<N>{v_it, o, n});
+        // the offsets count points of v, independent of the stride of the domain
+        return thrust::make_transform_iterator(
+            thrust::make_zip_iterator(u_it, v_it),
+            dot_impl<N>{v(bnds.unit_stride()...), o, n});
     }
 };
 
-- 
2.43.0


From a8204eac788e6d5314b1371e5f3c602a8345e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 27/29] fix: second order Robin ghost values lacked the factor
 beta on the second cell

The quadratic through ghost, first and second cell that satisfies
alpha d u' + beta u = 0 at the wall weighs the second cell by
beta h / (8 alpha d + 3 beta h); with h / (...) the ghost was right for
beta = 1 only and changed when alpha and beta were scaled together.
---
 m4/cellsetcorrectionbc1d.m4        |  4 ++--
 m4/cellsetcorrectionbc2d.m4        | 12 ++++++------
 m4/cellsetcorrectionbc3d.m4        | 24 ++++++++++++------------
 src/cuda/cd_correct_bc_1d_cuda.cpp |  2 +-
 src/cuda/cd_correct_bc_2d_cuda.cpp |  4 ++--
 src/cuda/cd_correct_bc_3d_cuda.cpp |  4 ++--
 6 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/m4/cellsetcorrectionbc1d.m4 b/m4/cellsetcorrectionbc1d.m4
index a8274f4..40663d5 100755
--- a/m4/cellsetcorrectionbc1d.m4
+++ b/m4/cellsetcorrectionbc1d.m4
@@ -95,7 +95,7 @@ c  Will do linear extrapolation
               b=d0(ilo)
               coeff(1)=8.0*alpha*b-6.0*beta*h
 	      coeff(1)=coeff(1)/(8.0*alpha*b+3.0*beta*h)
-              coeff(2)=h/(8.0*alpha*b+3.0*beta*h)
+              coeff(2)=beta*h/(8.0*alpha*b+3.0*beta*h)
               u(ilo-1)=coeff(1)*u(ilo)+coeff(2)*u(ilo+1)
             endif
          end if
@@ -120,7 +120,7 @@ c  Will do linear extrapolation
             else if ( extrapOrder .eq. 2) then
               b=d0(ihi+1)
               coeff(1)=(8.0*alpha*b-6.0*beta*h)/(8.0*alpha*b+3.0*beta*h)
-              coeff(2)=h/(8.0*alpha*b+3.0*beta*h)
+              coeff(2)=beta*h/(8.0*alpha*b+3.0*beta*h)
               u(ihi+1)=coeff(1)*u(ihi)+coeff(2)*u(ihi-1)
             endif
          end if
diff --git a/m4/cellsetcorrectionbc2d.m4 b/m4/cellsetcorrectionbc2d.m4
index 69dad4f..370ea62 100755
--- a/m4/cellsetcorrectionbc2d.m4
+++ b/m4/cellsetcorrectionbc2d.m4
@@ -124,7 +124,7 @@ c  Will do linear extrapolation
                      b=d0(ilo,j)
                      coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ilo-1,j)=coeff(1)*u(ilo,j)+coeff(2)*u(ilo+1,j)
                   endif
                end do
@@ -160,7 +160,7 @@ c  Will do linear extrapolation
                      b=d0(ihi+1,j)
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ihi+1,j)=coeff(1)*u(ihi,j)+coeff(2)*u(ihi-1,j)
                   endif
                end do
@@ -196,7 +196,7 @@ c  Will do linear extrapolation
                      b=d1(jlo, i)
                      coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(i, jlo-1)=coeff(1)*u(i, jlo)+coeff(2)*u(i, jlo+1)
                   endif
                end do
@@ -232,7 +232,7 @@ c  Will do linear extrapolation
                      b=d1(jhi+1,i)
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(i, jhi+1)=coeff(1)*u(i, jhi)+coeff(2)*u(i, jhi-1)
                   endif
                end do
@@ -363,7 +363,7 @@ c  Will do linear extrapolation
                      b=1.0
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ilo-1,j)=coeff(1)*u(ilo,j)+coeff(2)*u(ilo+1,j)
                   endif
                end do
@@ -396,7 +396,7 @@ c  Will do linear extrapolation
                      b=1.0
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ihi+1,j)=coeff(1)*u(ihi,j)+coeff(2)*u(ihi-1,j)
                   endif
                end do
diff --git a/m4/cellsetcorrectionbc3d.m4 b/m4/cellsetcorrectionbc3d.m4
index 4d17887..0cc5a7a 100755
--- a/m4/cellsetcorrectionbc3d.m4
+++ b/m4/cellsetcorrectionbc3d.m4
@@ -153,7 +153,7 @@ c  Will do linear extrapolation
                  b=d0(ilo,j,k)
                  coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                  coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                 coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                 coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                  u(ilo-1,j,k)=coeff(1)*u(ilo,j,k)+coeff(2)*u(ilo+1,j,k)
                 end do
                end do
@@ -203,7 +203,7 @@ c  Will do linear extrapolation
                   b=d0(ihi+1,j,k)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(ihi+1,j,k)=coeff(1)*u(ihi,j,k)+coeff(2)*u(ihi-1,j,k)
                  end do
                enddo
@@ -252,7 +252,7 @@ c  Will do linear extrapolation
                   b=d1(jlo,k,i)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,jlo-1,k)=coeff(1)*u(i,jlo,k)+coeff(2)*u(i,jlo+1,k)
                  end do
                enddo
@@ -301,7 +301,7 @@ c  Will do linear extrapolation
                   b=d1(jhi+1,k,i)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,jhi+1,k)=coeff(1)*u(i,jhi,k)+coeff(2)*u(i,jhi-1,k)
                  end do
                enddo
@@ -350,7 +350,7 @@ c  Will do linear extrapolation
                   b=d2(klo,i,j)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,j,klo-1)=coeff(1)*u(i,j,klo)+coeff(2)*u(i,j,klo+1)
                  end do
                enddo
@@ -399,7 +399,7 @@ c  Will do linear extrapolation
                   b=d2(khi+1,i,j)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,j,khi+1)=coeff(1)*u(i,j,khi)+coeff(2)*u(i,j,khi-1)
                  end do
                enddo
@@ -621,7 +621,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do j = jlo, jhi
                   u(ilo-1,j,k)=coeff(1)*u(ilo,j,k)+coeff(2)*u(ilo+1,j,k)
@@ -671,7 +671,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do j = jlo, jhi
                   u(ihi+1,j,k)=coeff(1)*u(ihi,j,k)+coeff(2)*u(ihi-1,j,k)
@@ -720,7 +720,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do i = ilo, ihi
                   u(i,jlo-1,k)=coeff(1)*u(i,jlo,k)+coeff(2)*u(i,jlo+1,k)
@@ -769,7 +769,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do i = ilo, ihi
                   u(i,jhi+1,k)=coeff(1)*u(i,jhi,k)+coeff(2)*u(i,jhi-1,k)
@@ -818,7 +818,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do j = jlo, jhi
                  do i = ilo, ihi
                   u(i,j,klo-1)=coeff(1)*u(i,j,klo)+coeff(2)*u(i,j,klo+1)
@@ -867,7 +867,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do j = jlo, jhi
                  do i = ilo, ihi
                   u(i,j,khi+1)=coeff(1)*u(i,j,khi)+coeff(2)*u(i,j,khi-1)
diff --git a/src/cuda/cd_correct_bc_1d_cuda.cpp b/src/cuda/cd_correct_bc_1d_cuda.cpp
index c7f1616..8397c2c 100644
--- a/src/cuda/cd_correct_bc_1d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_1d_cuda.cpp
@@ -67,7 +67,7 @@ void cd_correct_bc_1d_cuda<T>::set_bc(const int& i0,
                 with_domain(FWD(p)...)(u = ((8 * alpha * d - 6 * beta * h) /
                                             ((8 * alpha * d + 3 * beta * h))) *
                                                u1 +
-                                           h / ((8 * alpha * d + 3 * beta * h)) * u2);
+                                           beta * h / ((8 * alpha * d + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
diff --git a/src/cuda/cd_correct_bc_2d_cuda.cpp b/src/cuda/cd_correct_bc_2d_cuda.cpp
index 3f0df2c..495f98d 100644
--- a/src/cuda/cd_correct_bc_2d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_2d_cuda.cpp
@@ -78,7 +78,7 @@ void cd_correct_bc_2d_cuda<T>::set_bc(const int& i0,
                 with_domain(FWD(p)...)(u = ((8 * alpha * d - 6 * beta * h) /
                                             ((8 * alpha * d + 3 * beta * h))) *
                                                u1 +
-                                           h / ((8 * alpha * d + 3 * beta * h)) * u2);
+                                           beta * h / ((8 * alpha * d + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
@@ -179,7 +179,7 @@ void cd_correct_bc_2d_cuda<T>::set_poisson_bc(const int& i0,
             } else if (exOrder == 2) {
                 with_domain(FWD(p)...)(
                     u = ((8 * alpha - 6 * beta * h) / ((8 * alpha + 3 * beta * h))) * u1 +
-                        h / ((8 * alpha + 3 * beta * h)) * u2);
+                        beta * h / ((8 * alpha + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
diff --git a/src/cuda/cd_correct_bc_3d_cuda.cpp b/src/cuda/cd_correct_bc_3d_cuda.cpp
index 2a29b53..e724fff 100644
--- a/src/cuda/cd_correct_bc_3d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_3d_cuda.cpp
@@ -82,7 +82,7 @@ void cd_correct_bc_3d_cuda<T>::set_bc(const int& i0,
                 with_domain(FWD(p)...)(u = ((8 * alpha * d - 6 * beta * h) /
                                             ((8 * alpha * d + 3 * beta * h))) *
                                                u1 +
-                                           h / ((8 * alpha * d + 3 * beta * h)) * u2);
+                                           beta * h / ((8 * alpha * d + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
@@ -238,7 +238,7 @@ void cd_correct_bc_3d_cuda<T>::set_poisson_bc(const int& i0,
             } else if (exOrder == 2) {
                 with_domain(FWD(p)...)(
                     u = ((8 * alpha - 6 * beta * h) / ((8 * alpha + 3 * beta * h))) * u1 +
-                        h / ((8 * alpha + 3 * beta * h)) * u2);
+                        beta * h / ((8 * alpha + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
-- 
2.43.0


From cfbf8df26071eb9048ceff7a34dc80c982280e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 28/29] fix: the 1d Poisson Robin boundary ignored alpha and
 beta

It was hard-wired to alpha = 2, beta = 1; the 2d and 3d routines use their
arguments.
---
 m4/cellsetcorrectionbc1d.m4        | 14 ++++++++------
 src/cuda/cd_correct_bc_1d_cuda.cpp |  8 +++++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/m4/cellsetcorrectionbc1d.m4 b/m4/cellsetcorrectionbc1d.m4
index 40663d5..fbd3f48 100755
--- a/m4/cellsetcorrectionbc1d.m4
+++ b/m4/cellsetcorrectionbc1d.m4
@@ -189,12 +189,13 @@ c  Will do linear extrapolation
             u(ilo-1) = u(ilo)
          else if ( bdryType .eq. ROBIN ) then
             if( extrapOrder .eq. 1) then
-               factor=(4.0-h)/(4.0+h)
+               factor=(2.0*alpha-h*beta)/(2.0*alpha+h*beta)
                u(ilo-1)=factor*u(ilo)
             else if ( extrapOrder .eq. 2) then
                b=1.0
-               coeff(1)=(16.0*b-6.0*h)/(16.0*b+3.0*h)
-               coeff(2)=h/(16.0*b+3.0*h)
+               coeff(1)=8.0*alpha*b-6.0*beta*h
+               coeff(1)=coeff(1)/(8.0*alpha*b+3.0*beta*h)
+               coeff(2)=beta*h/(8.0*alpha*b+3.0*beta*h)
                u(ilo-1)=coeff(1)*u(ilo)+coeff(2)*u(ilo+1)
             endif
          end if
@@ -213,12 +214,13 @@ c  Will do linear extrapolation
             u(ihi+1) = u(ihi)
          else if ( bdryType .eq. ROBIN ) then
             if( extrapOrder .eq. 1) then
-               factor=(4.0-h)/(4.0+h)
+               factor=(2.0*alpha-h*beta)/(2.0*alpha+h*beta)
                u(ihi+1)=factor*u(ihi)
             else if ( extrapOrder .eq. 2) then
                b=1.0
-               coeff(1)=(16.0*b-6.0*h)/(3.0*h+16.0*b)
-               coeff(2)=h/(3.0*h+16.0*b)
+               coeff(1)=8.0*alpha*b-6.0*beta*h
+               coeff(1)=coeff(1)/(8.0*alpha*b+3.0*beta*h)
+               coeff(2)=beta*h/(8.0*alpha*b+3.0*beta*h)
                u(ihi+1)=coeff(1)*u(ihi)+coeff(2)*u(ihi-1)
             endif
          end if
diff --git a/src/cuda/cd_correct_bc_1d_cuda.cpp b/src/cuda/cd_correct_bc_1d_cuda.cpp
index 8397c2c..ba76ce8 100644
--- a/src/cuda/cd_correct_bc_1d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_1d_cuda.cpp
@@ -126,11 +126,13 @@ void cd_correct_bc_1d_cuda<T>::set_poisson_bc(const int& i0,
             return;
         case 4:
             if (exOrder == 1) {
-                with_domain(FWD(p)...)(u = ((4 - h) / (4 + h)) * u1);
+                with_domain(FWD(p)...)(u = ((2 * alpha - h * beta) / (2 * alpha + h * beta)) * u1);
                 u.copy_to(u_);
             } else if (exOrder == 2) {
-                with_domain(FWD(p)...)(u = ((16 - 6 * h) / ((16 + 3 * h))) * u1 +
-                                           h / ((16 + 3 * h)) * u2);
+                with_domain(FWD(p)...)(u = ((8 * alpha - 6 * beta * h) /
+                                            ((8 * alpha + 3 * beta * h))) *
+                                               u1 +
+                                           beta * h / ((8 * alpha + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
-- 
2.43.0


From b046638843c5735baf00b7af5ff7fd261f5069a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 29/29] fix: later statements of a window list read views as
 they were before earlier ones

---
 src/cuda/md_device_span.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/cuda/md_device_span.hpp b/src/cuda/md_device_span.hpp
index 2144f79..7119648 100644
--- a/src/cuda/md_device_span.hpp
+++ b/src/cuda/md_device_span.hpp
@@ -298,15 +298,18 @@ constexpr auto with_domain(W&& w, P&&... ps)
         if constexpr ((is_rhs_number_v<decltype(st_assign)> && ...)) {
             thrust::for_each_n(w(ps...), sz, lazy::tp_invoke{FWD(st_assign)...});
         } else if constexpr ((is_self_assign_proxy_v<decltype(st_assign)> && ...)) {
-            thrust::for_each_n(
-                thrust::make_zip_iterator(thrust::make_tuple(
-                    thrust::make_zip_iterator(
-                        thrust::make_tuple(FWD(st_assign).get_lhs_iterator(ps...)...)),
-                    thrust::make_zip_iterator(thrust::make_tuple(
-                        w(ps...), FWD(st_assign).get_iterator(ps...)...)))),
-
-                sz,
-                lazy::tp_layered_invoke{FWD(st_assign)...});
+            // one pass per statement: a statement has to see the views as the ones before
+            // it left them, but its operands are evaluated before any assignment of a pass
+            (thrust::for_each_n(
+                 thrust::make_zip_iterator(thrust::make_tuple(
+                     thrust::make_zip_iterator(
+                         thrust::make_tuple(FWD(st_assign).get_lhs_iterator(ps...))),
+                     thrust::make_zip_iterator(thrust::make_tuple(
+                         w(ps...), FWD(st_assign).get_iterator(ps...))))),
+
+                 sz,
+                 lazy::tp_layered_invoke{FWD(st_assign)}),
+             ...);
         } else {
             thrust::for_each_n(thrust::make_zip_iterator(thrust::make_tuple(
                                    w(ps...), FWD(st_assign).get_iterator(ps...)...)),
-- 
2.43.0

