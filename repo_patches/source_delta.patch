From 695f943ef8b879b2912b6c02678867f1c76affb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:53 +0000
Subject: [PATCH 01/27] fix: concrete law in periodic cells applies torques
 with the arm of the contact point (moment balance)

---
 pkg/dem/ConcretePM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/ConcretePM.cpp b/pkg/dem/ConcretePM.cpp
index be4c791..8432738 100644
--- a/pkg/dem/ConcretePM.cpp
+++ b/pkg/dem/ConcretePM.cpp
@@ -445,8 +445,8 @@ bool Law2_ScGeom_CpmPhys_Cpm::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _p
 	} else {
 		scene->forces.addForce(id1,f);
 		scene->forces.addForce(id2,-f);
-		scene->forces.addTorque(id1,(geom->radius1+.5*(phys->refPD-geom->penetrationDepth))*geom->normal.cross(f));
-		scene->forces.addTorque(id2,(geom->radius2+.5*(phys->refPD-geom->penetrationDepth))*geom->normal.cross(f));
+		scene->forces.addTorque(id1,(geom->radius1-.5*geom->penetrationDepth)*geom->normal.cross(f));
+		scene->forces.addTorque(id2,(geom->radius2-.5*geom->penetrationDepth)*geom->normal.cross(f));
 	}
 	TIMING_DELTAS_CHECKPOINT("rest");
 	return true;
-- 
2.43.0


From d9310672f03d97348507a1fc787cb85477f8b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:24 +0000
Subject: [PATCH 02/27] fix: rotational kinetic energy of aspherical bodies
 uses the inertia rotated to the global frame

---
 pkg/dem/NewtonIntegrator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index ab1aaa2..e6a3aee 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -52,7 +52,7 @@ void NewtonIntegrator::updateEnergy(const shared_ptr<Body>& b, const State* stat
 	if(b->isAspherical()){
 		Matrix3r mI; mI<<state->inertia[0],0,0, 0,state->inertia[1],0, 0,0,state->inertia[2];
 		Matrix3r T(state->ori);
-		Erot=.5*b->state->angVel.transpose().dot((T.transpose()*mI*T)*b->state->angVel);
+		Erot=.5*b->state->angVel.transpose().dot((T*mI*T.transpose())*b->state->angVel);
 	} else { Erot=0.5*state->angVel.dot(state->inertia.cwiseProduct(state->angVel)); }
 	if(!kinSplit) scene->energy->add(Etrans+Erot,"kinetic",kinEnergyIx,/*non-incremental*/true);
 	else{ scene->energy->add(Etrans,"kinTrans",kinEnergyTransIx,true); scene->energy->add(Erot,"kinRot",kinEnergyRotIx,true); }
-- 
2.43.0


From 3032c4923dfec87a7715072dd84c762ba9554d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:32 +0000
Subject: [PATCH 03/27] fix: permanent forces: no out-of-range access for the
 non-per-thread part, and setting one body does not drop those of higher ids

---
 core/ForceContainerParallel.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 8e3c510..c0ee101 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -25,11 +25,13 @@ void ForceContainer::resizePerm(size_t newSize) {
 #include <omp.h>
 void ForceContainer::ensureSize(Body::id_t id, int threadN) {
   assert(nThreads>omp_get_thread_num());
+  if (threadN<0) { // permanent forces: not per-thread, and they must survive setting the one of a lower id
+    if (_permForce.size()<=(size_t)id) resizePerm(min((size_t)1.5*(id+100),(size_t)(id+2000)));
+    return;
+  }
   const Body::id_t idMaxTmp = max(id, _maxId[threadN]);
   _maxId[threadN] = 0;
-  if (threadN<0) {
-    resizePerm(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)));
-  } else if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
+  if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
     resize(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)),threadN);
   }
 }
@@ -135,7 +137,7 @@ const Vector3r ForceContainer::getForceSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_forceData [t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permForce[id];
+  if (permForceUsed && (size_t)id<_permForce.size()) ret+=_permForce[id];
   return ret;
 }
 
@@ -144,7 +146,7 @@ const Vector3r ForceContainer::getTorqueSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_torqueData[t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permTorque[id];
+  if (permForceUsed && (size_t)id<_permTorque.size()) ret+=_permTorque[id];
   return ret;
 }
 
-- 
2.43.0


From 8c15719f43c992c3ac39c42bd4cce4e27e5eccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:00 +0000
Subject: [PATCH 04/27] fix: erasing an interaction with a deleted body removes
 it from the other body as well

---
 core/InteractionContainer.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 97052b5..0258678 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -57,24 +57,18 @@ bool InteractionContainer::erase(Body::id_t id1,Body::id_t id2, int linPos){
 	
 	const shared_ptr<Body>& b1((*bodies)[id1]);
 	const shared_ptr<Body>& b2((*bodies)[id2]);
-	int linIx=-1;
-	if(!b1) linIx=linPos;
-	else {
+	int linIx=linPos;
+	if(b1) {
 		Body::MapId2IntrT::iterator I(b1->intrs.find(id2));
-		if(I==b1->intrs.end()) linIx=linPos;
-		else {
+		if(I!=b1->intrs.end()) {
 			linIx=I->second->linIx;
 			assert(linIx==linPos);
 			//erase from body, we also erase from linIntrs below
 			b1->intrs.erase(I);
-			if (b2) { 
-				Body::MapId2IntrT::iterator I2(b2->intrs.find(id1));
-				if (not(I2==b2->intrs.end())) { 
-					b2->intrs.erase(I2); 
-				}
-			}
 		}
 	}
+	// the entry in the other body must go even if b1 does not exist anymore, it would make insert() fail once id1 is used again
+	if(b2) b2->intrs.erase(id1);
 	if(linIx<0) {
 		LOG_ERROR("InteractionContainer::erase: attempt to delete interaction with a deleted body (the definition of linPos in the call to erase() should fix the problem) for  ##"+boost::lexical_cast<string>(id1)+"+"+boost::lexical_cast<string>(id2));
 		return false;}
-- 
2.43.0


From c5a4f06d5b028d615a5e23f5b4fbbe89d56d8d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:00 +0000
Subject: [PATCH 05/27] fix: eraseNonReal does not iterate over the container
 it is shrinking

---
 core/InteractionContainer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 0258678..93cdb45 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -114,7 +114,11 @@ void InteractionContainer::requestErase(Interaction* I){
 }
 
 void InteractionContainer::eraseNonReal(){
-	FOREACH(const shared_ptr<Interaction>& i, *this) if(!i->isReal()) this->erase(i->getId1(),i->getId2(),i->linIx);
+	// erase() moves the last interaction to the current position and shrinks the container, iterators are not usable here
+	for(size_t linPos=0; linPos<currSize;){
+		const shared_ptr<Interaction>& i=linIntrs[linPos];
+		if(i->isReal() || !this->erase(i->getId1(),i->getId2(),linPos)) linPos++;
+	}
 }
 
 // compare interaction based on their first id
-- 
2.43.0


From f42feb2a71d802756e6d5585c7692de95dbd477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:00 +0000
Subject: [PATCH 06/27] fix: loading a scene keeps the interactions that follow
 one of a missing body

---
 core/InteractionContainer.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 93cdb45..8787169 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -144,11 +144,8 @@ void InteractionContainer::postLoad__calledFromScene(const shared_ptr<BodyContai
 	clear();
 	FOREACH(const shared_ptr<Interaction>& I, interaction){ 
 		Body::id_t id1=I->getId1(), id2=I->getId2();
-		if (!(*bodies)[id1] || !(*bodies)[id2]) {
-			return;
-		} else {
-			insert(I);
-		}
+		if (!(*bodies)[id1] || !(*bodies)[id2]) continue;
+		insert(I);
 	}
 	interaction.clear();
 }
-- 
2.43.0


From f35dafbbb687096813f730f2449972358c55003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:00 +0000
Subject: [PATCH 07/27] fix: body container does not access slots past its end
 (iteration, erase, insertAtId)

---
 core/BodyContainer.cpp | 4 ++--
 core/BodyContainer.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 3de4120..2a72d84 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -28,7 +28,7 @@ Body::id_t BodyContainer::insert(shared_ptr<Body> b){
 }
 
 Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
-	if(body[candidate] or candidate>=size()) {LOG_ERROR("invalid candidate id"); return -1;}
+	if(candidate<0 or (size_t)candidate>=size() or body[candidate]) {LOG_ERROR("invalid candidate id"); return -1;}
 	const shared_ptr<Scene>& scene=Omega::instance().getScene(); 
 	b->iterBorn=scene->iter;
 	b->timeBorn=scene->time;
@@ -39,7 +39,7 @@ Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
 }
 
 bool BodyContainer::erase(Body::id_t id, bool eraseClumpMembers){//default is false (as before)
-	if(!body[id]) return false;
+	if(!exists(id)) return false;
 	const shared_ptr<Body>& b=Body::byId(id);
 	if ((b) and (b->isClumpMember())) {
 		const shared_ptr<Body> clumpBody=Body::byId(b->clumpId);
diff --git a/core/BodyContainer.hpp b/core/BodyContainer.hpp
index 71037b2..196c4a0 100644
--- a/core/BodyContainer.hpp
+++ b/core/BodyContainer.hpp
@@ -39,7 +39,7 @@ class BodyContainer: public Serializable{
 			ContainerT::iterator end;
 			smart_iterator& operator++() {
 				ContainerT::iterator::operator++();
-				while (!(this->operator*()) && end!=(*this)) ContainerT::iterator::operator++();
+				while (end!=(*this) && !(this->operator*())) ContainerT::iterator::operator++();
 				return *this;}
 			smart_iterator operator++(int) {smart_iterator temp(*this); operator++(); return temp;}
 			smart_iterator& operator=(const ContainerT::iterator& rhs) {ContainerT::iterator::operator=(rhs); return *this;}
-- 
2.43.0


From 27467e1b5362077f8259269f4c363206d25babb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:02 +0000
Subject: [PATCH 08/27] fix: refused insertion of an interaction leaves both
 bodies pointing to the existing one

---
 core/InteractionContainer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 8787169..9e2d4a8 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -25,8 +25,12 @@ bool InteractionContainer::insert(const shared_ptr<Interaction>& i){
 	const shared_ptr<Body>& b1=(*bodies)[id1];
 	const shared_ptr<Body>& b2=(*bodies)[id2];
 	
-	if(!b1->intrs.insert(Body::MapId2IntrT::value_type(id2,i)).second) return false; // already exists
-	if(!b2->intrs.insert(Body::MapId2IntrT::value_type(id1,i)).second) return false; 
+	// if the interaction exists already, make sure both bodies know about it: one of them could have been inserted
+	// at the id of an erased body, whose interaction was not removed yet
+	const auto in1=b1->intrs.insert(Body::MapId2IntrT::value_type(id2,i));
+	const auto in2=b2->intrs.insert(Body::MapId2IntrT::value_type(id1,in1.first->second));
+	if(!in1.second) return false; // already exists
+	if(!in2.second) { in1.first->second=in2.first->second; return false; }
 	
 	linIntrs.resize(++currSize); // currSize updated
 	linIntrs[currSize-1]=i; // assign last element
-- 
2.43.0


From dcd30544506aa04c90e8ba019f8d8b5ab8074854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:59 +0000
Subject: [PATCH 09/27] fix: clump orientation is a proper rotation to the
 principal axes of inertia

---
 core/Clump.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 8cb5699..9857bd3 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -216,7 +216,8 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 	LOG_TRACE("Ic_orientG=\n"<<Ic_orientG);
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	Eigen::SelfAdjointEigenSolver<Matrix3r> decomposed(Ic_orientG);
-	const Matrix3r& R_g2c(decomposed.eigenvectors());
+	Matrix3r R_g2c(decomposed.eigenvectors());
+	if(R_g2c.determinant()<0) R_g2c.col(2)*=-1; // eigenvectors can be left-handed, which is not a rotation
 	// has NaNs for identity matrix??
 	LOG_TRACE("R_g2c=\n"<<R_g2c);
 	// set quaternion from rotation matrix
-- 
2.43.0


From 9f9c9807f9ec4eb637c8acc2e4c9732ce5aab6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:59 +0000
Subject: [PATCH 10/27] fix: inertia of rotated non-spherical clump members
 goes to the global frame by their orientation, not by its inverse

---
 core/Clump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 9857bd3..99777df 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -204,7 +204,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 				const Quaternionr& ori = subState->ori;
 				M += m;
 				Sg += m*pos;
-				Ig += inertiaTensorTranslate(inertiaTensorRotate(inertia.asDiagonal(),ori),m,-pos);
+				Ig += inertiaTensorTranslate(inertiaTensorRotate(inertia.asDiagonal(),ori.conjugate()),m,-pos);
 			}
 		}
 	}
-- 
2.43.0


From afd8bf4b2b82bbf59298e3d4efe4bc5658d7d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:59 +0000
Subject: [PATCH 11/27] fix: inertia of integration cells of overlapping clumps
 counts their density

---
 core/Clump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 99777df..471926f 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -175,7 +175,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 								M += m;
 								Sg += m*x;
 								//inertia I = sum_i( mass_i*dist^2 + I_s) )	//steiners theorem
-								Ig += m*( x.dot(x)*Matrix3r::Identity()-x*x.transpose())/*dist^2*/+Matrix3r(Vector3r::Constant(dv*pow(dx,2)/6.).asDiagonal())/*I_s/m = d^2: along princial axes of dv; perhaps negligible?*/;
+								Ig += m*( x.dot(x)*Matrix3r::Identity()-x*x.transpose())/*dist^2*/+Matrix3r(Vector3r::Constant(m*pow(dx,2)/6.).asDiagonal())/*I_s = m*dx^2/6 of a cube; perhaps negligible?*/;
 								break;
 							}
 						}
-- 
2.43.0


From 180f90ed5c4c09b6826510f7f8a654fd8b54e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:59 +0000
Subject: [PATCH 12/27] fix: mayCollide tests for deleted bodies before using
 them

---
 pkg/common/Collider.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/common/Collider.cpp b/pkg/common/Collider.cpp
index 26bfc86..e18c25b 100644
--- a/pkg/common/Collider.cpp
+++ b/pkg/common/Collider.cpp
@@ -19,11 +19,11 @@ bool Collider::mayCollide(const Body* b1, const Body* b2
 		#endif 
 		) {
 	return 
+		// might be called with deleted bodies, i.e. NULL pointers
+		(b1!=NULL && b2!=NULL) &&
 		#ifdef YADE_MPI //skip interactions outside subdomain, and between the subdomain and its own bodies
 		((subdomain==b1->subdomain or subdomain==b2->subdomain) and not (b1->subdomain==b2->subdomain and (b1->getIsSubdomain() or b2->getIsSubdomain()))) &&
 		#endif 
-		// might be called with deleted bodies, i.e. NULL pointers
-		(b1!=NULL && b2!=NULL) &&
 		// only collide if at least one particle is standalone or they belong to different clumps
 		(b1->isStandalone() || b2->isStandalone() || b1->clumpId!=b2->clumpId 
 		#ifdef YADE_SPH
-- 
2.43.0


From 96f9207980219d3e9c78c4a364af14b8952a4112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:42 +0000
Subject: [PATCH 13/27] fix: collider detects overlaps of a body inserted at
 the id of an erased one

---
 pkg/common/InsertionSortCollider.cpp | 7 +++++++
 pkg/common/InsertionSortCollider.hpp | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index 8d98727..16c02ed 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -285,6 +285,13 @@ void InsertionSortCollider::action(){
 
 	ISC_CHECKPOINT("bound");
 
+	// a body which got its bound since the last run (inserted at the id of an erased one, for instance) can overlap with others without any inversion of bounds
+	if(!doInitSort) for(const Bounds& bb : BB[0].vec){
+		if(bb.flags.hasBB) continue;
+		const shared_ptr<Body>& b=Body::byId(bb.id,scene);
+		if(b && b->bound){ doInitSort=true; break; }
+	}
+
 	// copy bounds along given axis into our arrays 
 	#pragma omp parallel for schedule(guided) num_threads(ompThreads>0 ? min(ompThreads,omp_get_max_threads()) : omp_get_max_threads())
 	for(long i=0; i<2*nBodies; i++){
diff --git a/pkg/common/InsertionSortCollider.hpp b/pkg/common/InsertionSortCollider.hpp
index 258a63d..47b189c 100644
--- a/pkg/common/InsertionSortCollider.hpp
+++ b/pkg/common/InsertionSortCollider.hpp
@@ -86,7 +86,7 @@ class InsertionSortCollider: public Collider{
 		int period;
 		//! is it the minimum (true) or maximum (false) bound?
 		struct {bool hasBB:true, isMin:true;} flags;
-		Bounds(Real coord_, Body::id_t id_, bool isMin): coord(coord_), id(id_), period(0){ flags.isMin=isMin; }
+		Bounds(Real coord_, Body::id_t id_, bool isMin): coord(coord_), id(id_), period(0){ flags.isMin=isMin; flags.hasBB=true; }
 		bool operator<(const Bounds& b) const {
 			/* handle special case of zero-width bodies, which could otherwise get min/max swapped in the unstable std::sort */
 			if(id==b.id && coord==b.coord) return flags.isMin;
-- 
2.43.0


From adb32a93dda45d428e397203458c712d8456e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:42 +0000
Subject: [PATCH 14/27] fix: collider keeps the period of bounds when its sort
 is initialized again

---
 pkg/common/InsertionSortCollider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index 16c02ed..c98b52f 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -307,7 +307,7 @@ void InsertionSortCollider::action(){
 					// watch out for the parentheses around ?: within ?: (there was unwanted conversion of the Reals to bools!)
 					BBji.coord=((BBji.flags.hasBB=((bool)bv)) ? (BBji.flags.isMin ? bv->min[j] : bv->max[j]) : (b->state->pos[j])) - (periodic ? BBj.cellDim*BBji.period : 0.);
 					// if initializing periodic, shift coords & record the period into BBj[i].period
-					if(doInitSort && periodic) BBji.coord=cellWrap(BBji.coord,0,BBj.cellDim,BBji.period);
+					if(doInitSort && periodic){ int period; BBji.coord=cellWrap(BBji.coord,0,BBj.cellDim,period); BBji.period+=period; }
 					// for each body, copy its minima and maxima, for quick checks of overlaps later
 					//bounds have been all updated when j==0, we can safely copy them here when j==1
 					if (BBji.flags.isMin && j==1 &&bv) {
-- 
2.43.0


From daf68d99390bfd776744b371f8a8c4b0e521aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:50 +0000
Subject: [PATCH 15/27] fix: collider rebuilds its bound lists when the scene
 has fewer bodies or its periodicity changed

---
 pkg/common/InsertionSortCollider.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index c98b52f..cd57568 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -181,6 +181,7 @@ vector<Body::id_t> InsertionSortCollider::probeBoundingVolume(const Bound& bv){
 		if((size_t)BB[0].size!=2*scene->bodies->size()) {  return true; }
 		if(scene->interactions->dirty) {  return true; }
 		if(scene->doSort) { return true; }
+		if(scene->isPeriodic!=periodic) { return true; }
 		return false;
 	}
 
@@ -198,7 +199,7 @@ void InsertionSortCollider::action(){
 	#endif
 	// periodicity changed, force reinit
 	if(scene->isPeriodic != periodic){
-		for(int i=0; i<3; i++) BB[i].vec.clear();
+		invalidatePersistentData();
 		periodic=scene->isPeriodic;
 	}
 	// pre-conditions
@@ -213,7 +214,7 @@ void InsertionSortCollider::action(){
 			LOG_DEBUG("Resize bounds containers from "<<BBsize<<" to "<<nBodies*2<<", will std::sort.");
 			// bodies deleted; clear the container completely, and do as if all bodies were added (rather slow…)
 			// future possibility: insertion sort with such operator that deleted bodies would all go to the end, then just trim bounds
-			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); }
+			if(2*nBodies<BBsize){ invalidatePersistentData(); BBsize=0; }
 			// more than 100 bodies was added, do initial sort again
 			// maybe: should rather depend on ratio of added bodies to those already present...?
 			if(2*nBodies-BBsize>200 || BBsize==0) doInitSort=true;
-- 
2.43.0


From 84ed3dc9d2b6177cedc7ccb9ae1ab3c28842dec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:54 +0000
Subject: [PATCH 16/27] fix: orientation of non-spherical clumps from
 left-handed principal axes

---
 core/Clump.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 471926f..f14e5d3 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -308,6 +308,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	//TRWM3MAT(Ic_orientG);
 	matrixEigenDecomposition(Ic_orientG,R_g2c,Ic);
+	if(R_g2c.determinant()<0) R_g2c.col(2)*=-1; // eigenvectors can be left-handed, which is not a rotation
 	/*! @bug eigendecomposition might be wrong. see http://article.gmane.org/gmane.science.physics.yade.devel/99 for message. It is worked around below, however.
 	*/
 	// has NaNs for identity matrix!
@@ -412,6 +413,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	//TRWM3MAT(Ic_orientG);
 	matrixEigenDecomposition(Ic_orientG,R_g2c,Ic);
+	if(R_g2c.determinant()<0) R_g2c.col(2)*=-1; // eigenvectors can be left-handed, which is not a rotation
 	/*! @bug eigendecomposition might be wrong. see http://article.gmane.org/gmane.science.physics.yade.devel/99 for message. It is worked around below, however.
 	*/
 	// has NaNs for identity matrix!
-- 
2.43.0


From d708c4282e0a902c8a39e5ff6c62c11e00cb0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:48 +0000
Subject: [PATCH 17/27] fix: bounds of spheres enclose them in cells skewed
 along several axes

---
 pkg/common/Bo1_Aabb.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pkg/common/Bo1_Aabb.cpp b/pkg/common/Bo1_Aabb.cpp
index 4920b04..70a509f 100644
--- a/pkg/common/Bo1_Aabb.cpp
+++ b/pkg/common/Bo1_Aabb.cpp
@@ -21,14 +21,7 @@ void Bo1_Sphere_Aabb::go(const shared_ptr<Shape>& cm, shared_ptr<Bound>& bv, con
 	}
 	// adjust box size along axes so that sphere doesn't stick out of the box even if sheared (i.e. parallelepiped)
 	if(scene->cell->hasShear()) {
-		Vector3r refHalfSize(halfSize);
-		const Vector3r& cos=scene->cell->getCos();
-		for(int i=0; i<3; i++){
-			//cerr<<"cos["<<i<<"]"<<cos[i]<<" ";
-			int i1=(i+1)%3,i2=(i+2)%3;
-			halfSize[i1]+=.5*refHalfSize[i1]*(1/cos[i]-1);
-			halfSize[i2]+=.5*refHalfSize[i2]*(1/cos[i]-1);
-		}
+		for(int i=0; i<3; i++) halfSize[i]*=scene->cell->getUnshearTrsf().row(i).norm();
 	}
 	//cerr<<" || "<<halfSize<<endl;
 	aabb->min = scene->cell->unshearPt(se3.position)-halfSize;
-- 
2.43.0


From 0d4b53c251a7308d523c3b343ecb90c960ccd968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:41 +0000
Subject: [PATCH 18/27] fix: bounds in skewed cells are swept by the full
 displacement tolerance

---
 pkg/common/Dispatching.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/common/Dispatching.cpp b/pkg/common/Dispatching.cpp
index 604c24a..a8e41ea 100644
--- a/pkg/common/Dispatching.cpp
+++ b/pkg/common/Dispatching.cpp
@@ -52,8 +52,11 @@ void BoundDispatcher::processBody(const shared_ptr<Body>& b)
 		b->bound->lastUpdateIter=scene->iter;
 		if(sweepLength>0){			
 			Aabb* aabb=YADE_CAST<Aabb*>(b->bound.get());
-			aabb->min-=Vector3r(sweepLength,sweepLength,sweepLength);
-			aabb->max+=Vector3r(sweepLength,sweepLength,sweepLength);
+			Vector3r sweep(sweepLength,sweepLength,sweepLength);
+			// bounds are in unsheared coordinates, displacements (compared with sweepLength) are not
+			if(scene->isPeriodic && scene->cell->hasShear()) for(int i=0; i<3; i++) sweep[i]*=scene->cell->getUnshearTrsf().row(i).cwiseAbs().sum();
+			aabb->min-=sweep;
+			aabb->max+=sweep;
 		}
 	}
 
-- 
2.43.0


From 03b66cb48a3fc3484f7adb252759051dbe3ccf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:56 +0000
Subject: [PATCH 19/27] fix: contacts created by hand use the nearest periodic
 image and the right order, and unforced ones are dispatched

---
 pkg/common/Dispatching.cpp | 40 ++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/pkg/common/Dispatching.cpp b/pkg/common/Dispatching.cpp
index a8e41ea..5ed30cc 100644
--- a/pkg/common/Dispatching.cpp
+++ b/pkg/common/Dispatching.cpp
@@ -71,30 +71,28 @@ shared_ptr<Interaction> IGeomDispatcher::explicitAction(const shared_ptr<Body>&
 	scene=Omega::instance().getScene().get(); // to make sure if called from outside of the loop
 	Vector3i cellDist=Vector3i::Zero();
 	if(scene->isPeriodic) {
-		for(int i=0; i<3; i++) cellDist[i]=-(int)((b2->state->pos[i]-b1->state->pos[i])/scene->cell->getSize()[i]+.5);
+		const Vector3r dist=scene->cell->unshearPt(b2->state->pos-b1->state->pos);
+		for(int i=0; i<3; i++) cellDist[i]=-(int)floor(dist[i]/scene->cell->getSize()[i]+.5);
 	}
-	Vector3r shift2=scene->cell->hSize*cellDist.cast<Real>();
 	updateScenePtr();
-	if(force){
-		assert(b1->shape && b2->shape);
-		shared_ptr<Interaction> I(new Interaction(b1->getId(),b2->getId()));
-		I->cellDist=cellDist;
-		// FIXME: this code is more or less duplicated from InteractionLoop :-(
-		bool swap=false;
-		I->functorCache.geom=getFunctor2D(b1->shape,b2->shape,swap);
-		if(!I->functorCache.geom) throw invalid_argument("IGeomDispatcher::explicitAction could not dispatch for given types ("+b1->shape->getClassName()+","+b2->shape->getClassName()+").");
-		if(swap){I->swapOrder();}
-		const shared_ptr<Body>& b1=Body::byId(I->getId1(),scene);
-		const shared_ptr<Body>& b2=Body::byId(I->getId2(),scene);
-		bool succ=I->functorCache.geom->go(b1->shape,b2->shape,*b1->state,*b2->state,shift2,/*force*/true,I);
-		if(!succ) throw logic_error("Functor "+I->functorCache.geom->getClassName()+"::go returned false, even if asked to force IGeom creation. Please report bug.");
-		return I;
-	} else {
-		shared_ptr<Interaction> I(new Interaction(b1->getId(),b2->getId()));
-		I->cellDist=cellDist;
-		b1->shape && b2->shape && I->functorCache.geom->go(b1->shape,b2->shape,*b1->state,*b2->state,shift2,/*force*/true,I);
-		return I;
+	shared_ptr<Interaction> I(new Interaction(b1->getId(),b2->getId()));
+	I->cellDist=cellDist;
+	assert(!force || (b1->shape && b2->shape));
+	if(!b1->shape || !b2->shape) return I;
+	// FIXME: this code is more or less duplicated from InteractionLoop :-(
+	bool swap=false;
+	I->functorCache.geom=getFunctor2D(b1->shape,b2->shape,swap);
+	if(!I->functorCache.geom){
+		if(!force) return I;
+		throw invalid_argument("IGeomDispatcher::explicitAction could not dispatch for given types ("+b1->shape->getClassName()+","+b2->shape->getClassName()+").");
 	}
+	if(swap){I->swapOrder();}
+	const shared_ptr<Body>& bb1=swap?b2:b1;
+	const shared_ptr<Body>& bb2=swap?b1:b2;
+	const Vector3r shift2=scene->isPeriodic?scene->cell->intrShiftPos(I->cellDist):Vector3r(Vector3r::Zero());
+	bool succ=I->functorCache.geom->go(bb1->shape,bb2->shape,*bb1->state,*bb2->state,shift2,force,I);
+	if(!succ && force) throw logic_error("Functor "+I->functorCache.geom->getClassName()+"::go returned false, even if asked to force IGeom creation. Please report bug.");
+	return I;
 }
 
 void IGeomDispatcher::action(){
-- 
2.43.0


From a8f4f1bb35f5c806693c5c8c16a06e4958b07006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:40 +0000
Subject: [PATCH 20/27] fix: a running simulation stops once the requested time
 is reached

---
 core/SimulationFlow.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/SimulationFlow.cpp b/core/SimulationFlow.cpp
index c91a742..0d09063 100644
--- a/core/SimulationFlow.cpp
+++ b/core/SimulationFlow.cpp
@@ -21,8 +21,10 @@ void SimulationFlow::singleAction()
 		LOG_INFO("Sub-stepping disabled when running simulation continuously.");
 		scene->subStepping=false;
 	}
+	const Real prevTime=scene->time;
 	scene->moveToNextTimeStep();
 	if(scene->stopAtIter>0 && scene->iter==scene->stopAtIter) setTerminate(true);
-	if(scene->stopAtTime>0 && scene->time==scene->stopAtTime) setTerminate(true);
+	// the requested time is reached when a step ends at it or passes it (it is hardly ever hit exactly)
+	if(scene->stopAtTime>0 && prevTime<scene->stopAtTime && scene->time>=scene->stopAtTime) setTerminate(true);
 };
 
-- 
2.43.0


From 1049e36d7828f6ea85637d67b36fa9585c8cc8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:40 +0000
Subject: [PATCH 21/27] fix: contact point of a sphere inside a box lies at the
 periodic image in contact

---
 pkg/dem/Ig2_Box_Sphere_ScGeom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
index 24a1884..57b5520 100644
--- a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
+++ b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
@@ -81,8 +81,8 @@ bool Ig2_Box_Sphere_ScGeom::go(const shared_ptr<Shape>& cm1, const shared_ptr<Sh
 		 *
 		 *
 		 */
-		pt1 = se32.position+normal*minCBoxDist;
-		pt2 = se32.position-normal*s->radius;
+		pt1 = se32.position+shift2+normal*minCBoxDist;
+		pt2 = se32.position+shift2-normal*s->radius;
 		Vector3r normal = pt1-pt2; normal.normalize();
 		bool isNew=!c->geom;
 		if (isNew) scm = shared_ptr<ScGeom>(new ScGeom());
-- 
2.43.0


From 28aa3ee7b89a93f59adbfe858e7611dd29313927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:40 +0000
Subject: [PATCH 22/27] fix: viscous contact laws use the velocity of the
 periodic image of the second body

---
 pkg/dem/LudingPM.cpp               | 2 +-
 pkg/dem/ViscoelasticCapillarPM.cpp | 2 +-
 pkg/dem/ViscoelasticPM.cpp         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/LudingPM.cpp b/pkg/dem/LudingPM.cpp
index ecf33fa..e97d6f3 100644
--- a/pkg/dem/LudingPM.cpp
+++ b/pkg/dem/LudingPM.cpp
@@ -183,7 +183,7 @@ bool Law2_ScGeom_LudingPhys_Basic::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhys
   const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
   
   
-  const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+  const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) - shiftVel;
   const Real normalVelocity	= geom.normal.dot(relativeVelocity);
   const Vector3r shearVelocity	= relativeVelocity-normalVelocity*geom.normal;
 
diff --git a/pkg/dem/ViscoelasticCapillarPM.cpp b/pkg/dem/ViscoelasticCapillarPM.cpp
index b474198..8c50c26 100644
--- a/pkg/dem/ViscoelasticCapillarPM.cpp
+++ b/pkg/dem/ViscoelasticCapillarPM.cpp
@@ -148,7 +148,7 @@ bool Law2_ScGeom_ViscElCapPhys_Basic::go(shared_ptr<IGeom>& _geom, shared_ptr<IP
         const Vector3r c1x = (geom.contactPoint - de1.pos);
         const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
         
-        const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+        const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) - shiftVel;
         const auto normalVelocity	= geom.normal.dot(relativeVelocity);
         
         dampCapForceScalar = -phys.dcap * normalVelocity;
diff --git a/pkg/dem/ViscoelasticPM.cpp b/pkg/dem/ViscoelasticPM.cpp
index 61c8091..d6880a8 100644
--- a/pkg/dem/ViscoelasticPM.cpp
+++ b/pkg/dem/ViscoelasticPM.cpp
@@ -108,7 +108,7 @@ bool computeForceTorqueViscEl(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _phys
 		const Vector3r c1x = (geom.contactPoint - de1.pos);
 		const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
 		
-		const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+		const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) - shiftVel;
 		const Real normalVelocity	= geom.normal.dot(relativeVelocity);
 		const Vector3r shearVelocity	= relativeVelocity-normalVelocity*geom.normal;
 		
-- 
2.43.0


From 133d5640a9bc3c77bf7fbfc9eec89fee2080ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:40 +0000
Subject: [PATCH 23/27] fix: lever arm of the second sphere is taken from its
 periodic image in local-frame geometry

---
 pkg/dem/L3Geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index 182061d..935690d 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -116,7 +116,7 @@ void Ig2_Sphere_Sphere_L3Geom::handleSpheresLikeContact(const shared_ptr<Interac
 	// compute relative velocity
 	// noRatch: take radius or current distance as the branch vector; see discussion in ScGeom::precompute (avoidGranularRatcheting)
 	Vector3r c1x=((noRatch && !(r1>0)) ? ( r1*normal).eval() : (contPt-state1.pos).eval()); // used only for sphere-sphere
-	Vector3r c2x=(noRatch ? (-r2*normal).eval() : (contPt-state2.pos+shift2).eval());
+	Vector3r c2x=(noRatch ? (-r2*normal).eval() : (contPt-state2.pos-shift2).eval());
 	//Vector3r state2velCorrected=state2.vel+(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero()); // velocity of the second particle, corrected with meanfield velocity if necessary
 	//cerr<<"correction "<<(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero())<<endl;
 	Vector3r relShearVel=(state2.vel+state2.angVel.cross(c2x))-(state1.vel+state1.angVel.cross(c1x));
-- 
2.43.0


From be9881e3bd386b4b2b6f9cbeb770360e1e663b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:00 +0000
Subject: [PATCH 24/27] fix: damping of a contact between plain and viscous
 frictional material does not depend on the order of bodies

---
 pkg/dem/FrictViscoPM.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/FrictViscoPM.cpp b/pkg/dem/FrictViscoPM.cpp
index a0852f7..79fcd27 100644
--- a/pkg/dem/FrictViscoPM.cpp
+++ b/pkg/dem/FrictViscoPM.cpp
@@ -85,8 +85,11 @@ void Ip2_FrictMat_FrictViscoMat_FrictViscoPhys::go(const shared_ptr<Material>& b
 	LOG_TRACE( "Ip2_FrictMat_FrictViscoMat_FrictViscoPhys::go - contact law" );
 
 	if(interaction->phys) return;
+	// materials come in the order of bodies of the interaction: either of them can be the viscous one
 	const shared_ptr<FrictMat>& mat1 = YADE_PTR_CAST<FrictMat>(b1);
-	const shared_ptr<FrictViscoMat>& mat2 = YADE_PTR_CAST<FrictViscoMat>(b2);
+	const shared_ptr<FrictMat>& mat2 = YADE_PTR_CAST<FrictMat>(b2);
+	const FrictViscoMat* viscoMat = dynamic_cast<FrictViscoMat*>(mat2.get());
+	if(!viscoMat) viscoMat = YADE_CAST<FrictViscoMat*>(mat1.get());
 	interaction->phys = shared_ptr<FrictViscoPhys>(new FrictViscoPhys());
 	const shared_ptr<FrictViscoPhys>& contactPhysics = YADE_PTR_CAST<FrictViscoPhys>(interaction->phys);
 	Real Ea 	= mat1->young;
@@ -112,7 +115,7 @@ void Ip2_FrictMat_FrictViscoMat_FrictViscoPhys::go(const shared_ptr<Material>& b
 	/************************/
 	/* DAMPING COEFFICIENTS */
 	/************************/
-	Real betanb = mat2->betan;
+	Real betanb = viscoMat->betan;
 	
 	// inclusion of local viscous damping
 	if (betanb!=0){
-- 
2.43.0


From 1b93adf8c46d3884f62cca0ba2e435a0661b3b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:59 +0000
Subject: [PATCH 25/27] fix: an explicitly created contact of a facet and a
 distant sphere is made as forced

---
 pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp b/pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp
index 3b95fdc..ad29736 100644
--- a/pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp
+++ b/pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp
@@ -100,7 +100,7 @@ bool Ig2_Facet_Sphere_ScGeom::go(const shared_ptr<Shape>& cm1,
 	// END everything in facet-local coordinates
 	//
 
-	if (penetrationDepth>0 || c->isReal())
+	if (penetrationDepth>0 || c->isReal() || force)
 	{
 		shared_ptr<ScGeom> scm;
 		bool isNew = !c->geom;
-- 
2.43.0


From 900b2eea3ce48555ea895f5a3aa214cd5f0cdd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:43 +0000
Subject: [PATCH 26/27] fix: local-frame geometry avoids ratcheting for both
 spheres, and follows the rotation of facets and walls

---
 pkg/dem/L3Geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index 935690d..fe5a576 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -115,7 +115,7 @@ void Ig2_Sphere_Sphere_L3Geom::handleSpheresLikeContact(const shared_ptr<Interac
 	Vector3r normTwistVec=avgNormal*scene->dt*.5*avgNormal.dot(state1.angVel+state2.angVel);
 	// compute relative velocity
 	// noRatch: take radius or current distance as the branch vector; see discussion in ScGeom::precompute (avoidGranularRatcheting)
-	Vector3r c1x=((noRatch && !(r1>0)) ? ( r1*normal).eval() : (contPt-state1.pos).eval()); // used only for sphere-sphere
+	Vector3r c1x=((noRatch && r1>0) ? ( r1*normal).eval() : (contPt-state1.pos).eval()); // used only for sphere-sphere
 	Vector3r c2x=(noRatch ? (-r2*normal).eval() : (contPt-state2.pos-shift2).eval());
 	//Vector3r state2velCorrected=state2.vel+(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero()); // velocity of the second particle, corrected with meanfield velocity if necessary
 	//cerr<<"correction "<<(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero())<<endl;
-- 
2.43.0


From cbf0023625645d088fecff19bcc1b3a54387dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:43 +0000
Subject: [PATCH 27/27] fix: local-frame geometry can be told never to
 renormalize its axes

---
 pkg/dem/L3Geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index fe5a576..870846b 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -141,7 +141,7 @@ void Ig2_Sphere_Sphere_L3Geom::handleSpheresLikeContact(const shared_ptr<Interac
 	for(int i=1; i<3; i++){
 		currTrsf.row(i)=prevTrsf.row(i)-prevTrsf.row(i).cross(normRotVec)-prevTrsf.row(i).cross(normTwistVec);
 	}
-  if((scene->iter % trsfRenorm)==0 && trsfRenorm>0){
+  if(trsfRenorm>0 && (scene->iter % trsfRenorm)==0){
       currTrsf.row(0).normalize();
       currTrsf.row(1)-=currTrsf.row(0)*currTrsf.row(1).dot(currTrsf.row(0)); // take away y projected on x, to stabilize numerically
       currTrsf.row(1).normalize();
-- 
2.43.0

