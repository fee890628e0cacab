From 14d626f919b5c1f6a11c0f2503ffa415e53f882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 01/22] fix: moving a static body that overlaps a sleeping body
 must not look up the disabled pair as an enabled one

---
 include/reactphysics3d/engine/OverlappingPairs.h | 12 ++++--------
 src/engine/OverlappingPairs.cpp                  |  4 ++++
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/reactphysics3d/engine/OverlappingPairs.h b/include/reactphysics3d/engine/OverlappingPairs.h
index b1c0ed3..8ab58b2 100644
--- a/include/reactphysics3d/engine/OverlappingPairs.h
+++ b/include/reactphysics3d/engine/OverlappingPairs.h
@@ -458,15 +458,11 @@ RP3D_FORCE_INLINE bodypair OverlappingPairs::computeBodiesIndexPair(Entity body1
 // Set if we need to test a given pair for overlap
 RP3D_FORCE_INLINE void OverlappingPairs::setNeedToTestOverlap(uint64 pairId, bool needToTestOverlap) {
 
-    assert(mMapConvexPairIdToPairIndex.containsKey(pairId) || mMapConcavePairIdToPairIndex.containsKey(pairId));
+    // Note that the pair might be disabled (when a static body is moved while it is overlapping with a sleeping body for instance)
+    OverlappingPair* pair = getOverlappingPair(pairId);
+    assert(pair != nullptr);
 
-    auto it = mMapConvexPairIdToPairIndex.find(pairId);
-    if (it != mMapConvexPairIdToPairIndex.end()) {
-        mConvexPairs[static_cast<uint32>(it->second)].needToTestOverlap = needToTestOverlap;
-    }
-    else {
-        mConcavePairs[static_cast<uint32>(mMapConcavePairIdToPairIndex[pairId])].needToTestOverlap = needToTestOverlap;
-    }
+    pair->needToTestOverlap = needToTestOverlap;
 }
 
 // Return a reference to an overlapping pair
diff --git a/src/engine/OverlappingPairs.cpp b/src/engine/OverlappingPairs.cpp
index 4f94da2..59026d8 100644
--- a/src/engine/OverlappingPairs.cpp
+++ b/src/engine/OverlappingPairs.cpp
@@ -316,6 +316,7 @@ void OverlappingPairs::enableConvexPairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, true);
     mConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mConvexPairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mConvexPairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the convex array
     removeDisabledConvexPairWithIndex(pairIndex, false);
@@ -340,6 +341,7 @@ void OverlappingPairs::disableConvexPairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, false);
     mDisabledConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mDisabledConvexPairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mDisabledConvexPairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the convex array
     removeConvexPairWithIndex(pairIndex, false);
@@ -364,6 +366,7 @@ void OverlappingPairs::enableConcavePairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, pair->isShape1Convex, mPoolAllocator, mHeapAllocator, true);
     mConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mConcavePairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mConcavePairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the concave array
     removeDisabledConcavePairWithIndex(pairIndex, false);
@@ -388,6 +391,7 @@ void OverlappingPairs::disableConcavePairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, pair->isShape1Convex, mPoolAllocator, mHeapAllocator, false, false);
     mDisabledConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mDisabledConcavePairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mDisabledConcavePairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the concave array
     removeConcavePairWithIndex(pairIndex, false);
-- 
2.43.0


From 572f33f82b74377a0251498b33efdef7c1eb6e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 02/22] fix: a body must be awake after it has been activated
 again

---
 src/body/RigidBody.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 7018701..3b0a1f7 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1187,7 +1187,13 @@ void RigidBody::setIsActive(bool isActive) {
     // If the state does not change
     if (mWorld.mBodyComponents.getIsActive(mEntity) == isActive) return;
 
-    setIsSleeping(!isActive);
-
-    Body::setIsActive(isActive);
+    // The body must be active when we change its sleeping state (the sleeping state of an inactive body cannot change)
+    if (isActive) {
+        Body::setIsActive(true);
+        setIsSleeping(false);
+    }
+    else {
+        setIsSleeping(true);
+        Body::setIsActive(false);
+    }
 }
-- 
2.43.0


From f7d372228de2dbfcdbe27b36cdf5fb8d01b7e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 03/22] fix: changing the type of a sleeping, inactive or
 static body must keep its components and overlapping pairs consistent

---
 src/body/RigidBody.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 3b0a1f7..1b36417 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -67,6 +67,9 @@ void RigidBody::setType(BodyType type) {
 
     if (mWorld.mRigidBodyComponents.getBodyType(mEntity) == type) return;
 
+    // Awake the body (before changing its type because the sleeping state of a static body cannot change)
+    setIsSleeping(false);
+
     mWorld.mRigidBodyComponents.setBodyType(mEntity, type);
 
     // If it is a static body
@@ -108,17 +111,29 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setInverseInertiaTensorLocal(mEntity, inverseInertiaTensorLocal);
     }
 
-    // Disable/Enable the body if necessary (components of static bodies are disabled)
-    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC);
+    const bool isActive = mWorld.mBodyComponents.getIsActive(mEntity);
 
-    // Awake the body
-    setIsSleeping(false);
+    // Disable/Enable the body if necessary (components of static or inactive bodies are disabled)
+    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC || !isActive);
 
-    if (type == BodyType::STATIC) {
+    if (!isActive) {
+
+        // An inactive body is sleeping (except a static body that is always awake)
+        mWorld.mRigidBodyComponents.setIsSleeping(mEntity, type != BodyType::STATIC);
+    }
+    else if (type == BodyType::STATIC) {
 
         // Disable overlapping pairs if both bodies are disabled (sleeping or static)
         checkForDisabledOverlappingPairs();
     }
+    else {
+
+        // Enable the overlapping pairs that were disabled because the body was static
+        enableOverlappingPairs();
+
+        // Make sure the broad-phase will recompute the overlapping pairs with this body
+        askForBroadPhaseCollisionCheck();
+    }
 
     // Reset the force and torque on the body
     mWorld.mRigidBodyComponents.setExternalForce(mEntity, Vector3::zero());
@@ -1139,7 +1154,7 @@ void RigidBody::checkForDisabledOverlappingPairs() {
             const bool isBody2Disabled = mWorld.mRigidBodyComponents.getIsEntityDisabled(body2Entity);
 
             // If both bodies of the pair are disabled, we disable the overlapping pair
-            if (isBody1Disabled && isBody2Disabled) {
+            if (pair->isEnabled && isBody1Disabled && isBody2Disabled) {
 
                 mWorld.mCollisionDetection.disableOverlappingPair(overlappingPairs[j]);
             }
-- 
2.43.0


From df6ab2705a4e9fcf5e447cab06108ba9e77705d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 04/22] fix: a collider that is not hit by a ray must not
 change the raycast info of the colliders hit before

---
 src/collision/Collider.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/collision/Collider.cpp b/src/collision/Collider.cpp
index 53bc137..235d2cc 100644
--- a/src/collision/Collider.cpp
+++ b/src/collision/Collider.cpp
@@ -183,10 +183,12 @@ bool Collider::raycast(const Ray& ray, RaycastInfo& raycastInfo) {
     const CollisionShape* collisionShape = mBody->mWorld.mCollidersComponents.getCollisionShape(mEntity);
     bool isHit = collisionShape->raycast(rayLocal, raycastInfo, this, mMemoryManager.getPoolAllocator());
 
-    // Convert the raycast info into world-space
-    raycastInfo.worldPoint = localToWorldTransform * raycastInfo.worldPoint;
-    raycastInfo.worldNormal = localToWorldTransform.getOrientation() * raycastInfo.worldNormal;
-    raycastInfo.worldNormal.normalize();
+    // Convert the raycast info into world-space (if there is no hit, we must not change the raycast info)
+    if (isHit) {
+        raycastInfo.worldPoint = localToWorldTransform * raycastInfo.worldPoint;
+        raycastInfo.worldNormal = localToWorldTransform.getOrientation() * raycastInfo.worldNormal;
+        raycastInfo.worldNormal.normalize();
+    }
 
     return isHit;
 }
-- 
2.43.0


From 3b0b2790c5987995c3cca4d5645cf73c9a634da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 05/22] fix: lost contacts that have not been reported yet must
 not refer to a destroyed collider

---
 src/systems/CollisionDetectionSystem.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index d2a3b83..806d9c9 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -1176,6 +1176,17 @@ void CollisionDetectionSystem::removeCollider(Collider* collider) {
         removeOverlappingPair(overlappingPairs[0], false);
     }
 
+    // Remove the lost contact pairs that have not been reported yet and that involve this collider
+    // (they must not refer to a collider that does not exist anymore when they are reported)
+    for (uint32 i=0; i < mLostContactPairs.size(); i++) {
+
+        if (mLostContactPairs[i].collider1Entity == collider->getEntity() || mLostContactPairs[i].collider2Entity == collider->getEntity()) {
+
+            mLostContactPairs.removeAtAndReplaceByLast(i);
+            i--;
+        }
+    }
+
     mMapBroadPhaseIdToColliderEntity.remove(colliderBroadPhaseId);
 
     // Remove the body from the broad-phase
-- 
2.43.0


From 48ab53b11b2d04b8c5a80b443599984ef54a762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 06/22] fix: an overlapping pair that is removed and added
 again between two updates must not report a contact start and a contact exit

---
 src/systems/CollisionDetectionSystem.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 806d9c9..46ee3b7 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -327,7 +327,19 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
                             if (isShape1Convex || isShape2Convex) {
 
                                 // Add the new overlapping pair
-                                mOverlappingPairs.addPair(collider1Index, collider2Index, isShape1Convex && isShape2Convex);
+                                const uint64 newPairId = mOverlappingPairs.addPair(collider1Index, collider2Index, isShape1Convex && isShape2Convex);
+
+                                // If the previous overlapping pair of those two colliders has been removed since the last time
+                                // contacts were reported, those colliders were still in contact in the previous frame
+                                for (uint32 l=0; l < mLostContactPairs.size(); l++) {
+
+                                    if (mLostContactPairs[l].pairId == newPairId) {
+
+                                        mOverlappingPairs.getOverlappingPair(newPairId)->collidingInPreviousFrame = true;
+                                        mLostContactPairs.removeAtAndReplaceByLast(l);
+                                        break;
+                                    }
+                                }
                             }
                         }
                     }
-- 
2.43.0


From f805d5ae0551543d7b36f3c2f80237439bf89f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 07/22] fix: two bodies must be able to collide again only when
 the last joint that disables their collision is destroyed

---
 src/engine/PhysicsWorld.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 80a425c..bd8a2d5 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -610,13 +610,6 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     RP3D_LOG(mConfig.worldName, Logger::Level::Information, Logger::Category::Joint,
              "Joint " + std::to_string(joint->getEntity().id) + ": joint destroyed",  __FILE__, __LINE__);
 
-    // If the collision between the two bodies of the constraint was disabled
-    if (!joint->isCollisionEnabled()) {
-
-        // Remove the pair of bodies from the set of body pairs that cannot collide with each other
-        mCollisionDetection.removeNoCollisionPair(joint->getBody1()->getEntity(), joint->getBody2()->getEntity());
-    }
-
     RigidBody* body1 = joint->getBody1();
     RigidBody* body2 = joint->getBody2();
 
@@ -628,6 +621,31 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     mRigidBodyComponents.removeJointFromBody(body1->getEntity(), joint->getEntity());
     mRigidBodyComponents.removeJointFromBody(body2->getEntity(), joint->getEntity());
 
+    // If the collision between the two bodies of the constraint was disabled
+    if (!joint->isCollisionEnabled()) {
+
+        // Check if another joint still disables the collision between the two bodies
+        bool isCollisionStillDisabled = false;
+        const Array<Entity>& joints = mRigidBodyComponents.getJoints(body1->getEntity());
+        for (uint32 i=0; i < joints.size(); i++) {
+
+            const Joint* otherJoint = mJointsComponents.getJoint(joints[i]);
+            if (!otherJoint->isCollisionEnabled() && (otherJoint->getBody1() == body2 || otherJoint->getBody2() == body2)) {
+                isCollisionStillDisabled = true;
+            }
+        }
+
+        if (!isCollisionStillDisabled) {
+
+            // Remove the pair of bodies from the set of body pairs that cannot collide with each other
+            mCollisionDetection.removeNoCollisionPair(body1->getEntity(), body2->getEntity());
+
+            // Make sure the broad-phase will recompute the overlapping pairs of the two bodies
+            body1->askForBroadPhaseCollisionCheck();
+            body2->askForBroadPhaseCollisionCheck();
+        }
+    }
+
     size_t nbBytes = joint->getSizeInBytes();
 
     Entity jointEntity = joint->getEntity();
-- 
2.43.0


From 357978d2f57313b08cfce80a91ddc026ea56b9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 08/22] fix: a change of the collision filtering bits must also
 apply to colliders that are already overlapping

---
 src/systems/CollisionDetectionSystem.cpp | 25 +++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 46ee3b7..f535f82 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -304,19 +304,21 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
                     // Compute the overlapping pair ID
                     const uint64 pairId = pairNumbers(std::max(nodePair.first, nodePair.second), std::min(nodePair.first, nodePair.second));
 
+                    const unsigned short shape1CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider1Index];
+                    const unsigned short shape2CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider2Index];
+
+                    const unsigned short shape1CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider1Index];
+                    const unsigned short shape2CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider2Index];
+
+                    // Check if the collision filtering allows collision between the two shapes
+                    const bool isCollisionAllowed = (shape1CollideWithMaskBits & shape2CollisionCategoryBits) != 0 &&
+                                                    (shape1CollisionCategoryBits & shape2CollideWithMaskBits) != 0;
+
                     // Check if the overlapping pair already exists
                     OverlappingPairs::OverlappingPair* overlappingPair = mOverlappingPairs.getOverlappingPair(pairId);
                     if (overlappingPair == nullptr) {
 
-                        const unsigned short shape1CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider1Index];
-                        const unsigned short shape2CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider2Index];
-
-                        const unsigned short shape1CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider1Index];
-                        const unsigned short shape2CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider2Index];
-
-                        // Check if the collision filtering allows collision between the two shapes
-                        if ((shape1CollideWithMaskBits & shape2CollisionCategoryBits) != 0 &&
-                            (shape1CollisionCategoryBits & shape2CollideWithMaskBits) != 0) {
+                        if (isCollisionAllowed) {
 
                             Collider* shape1 = mCollidersComponents.mColliders[collider1Index];
                             Collider* shape2 = mCollidersComponents.mColliders[collider2Index];
@@ -343,6 +345,11 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
                             }
                         }
                     }
+                    else if (!isCollisionAllowed) {
+
+                        // The collision filtering has changed and does not allow collision between the two shapes anymore
+                        removeOverlappingPair(pairId, true);
+                    }
                     else {
 
                         // We do not need to test the pair for overlap because it has just been reported that they still overlap
-- 
2.43.0


From 3fa2224ad530e0c62e3296e9608747c928b1fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 09/22] fix: world queries must also report sleeping bodies and
 must always ignore colliders that are not world query colliders

---
 .../systems/CollisionDetectionSystem.h        |   3 +
 src/engine/OverlappingPairs.cpp               |   3 +
 src/systems/CollisionDetectionSystem.cpp      | 136 +++++++++++++-----
 3 files changed, 109 insertions(+), 33 deletions(-)

diff --git a/include/reactphysics3d/systems/CollisionDetectionSystem.h b/include/reactphysics3d/systems/CollisionDetectionSystem.h
index ed91dc9..6775f08 100644
--- a/include/reactphysics3d/systems/CollisionDetectionSystem.h
+++ b/include/reactphysics3d/systems/CollisionDetectionSystem.h
@@ -294,6 +294,9 @@ class CollisionDetectionSystem {
         /// Process the potential contacts where one collion is a concave shape
         void processSmoothMeshContacts(OverlappingPair* pair);
 
+        /// Filter the overlapping pairs to keep only the pairs that are part of the world queries
+        void filterOverlappingPairs(Array<uint64>& convexPairs, Array<uint64>& concavePairs) const;
+
         /// Filter the overlapping pairs to keep only the pairs where a given body is involved
         void filterOverlappingPairs(Entity bodyEntity, Array<uint64>& convexPairs, Array<uint64>& concavePairs) const;
 
diff --git a/src/engine/OverlappingPairs.cpp b/src/engine/OverlappingPairs.cpp
index 59026d8..ed0d01e 100644
--- a/src/engine/OverlappingPairs.cpp
+++ b/src/engine/OverlappingPairs.cpp
@@ -153,6 +153,9 @@ void OverlappingPairs::removeDisabledConcavePairWithIndex(uint64 pairIndex, bool
     assert(mMapDisabledConcavePairIdToPairIndex[mDisabledConcavePairs[pairIndex].pairID] == pairIndex);
     mMapDisabledConcavePairIdToPairIndex.remove(mDisabledConcavePairs[pairIndex].pairID);
 
+    // Destroy all the LastFrameCollisionInfo objects
+    mDisabledConcavePairs[pairIndex].destroyLastFrameCollisionInfos();
+
     const uint64 nbDisabledPairs = mDisabledConcavePairs.size();
 
     // Change the mapping between the pairId and the index in the disabled pairs array if we swap the last item with the one to remove
diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index f535f82..4a51733 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -495,11 +495,11 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
 
         const uint64 pairId = convexPairs[p];
 
-        const uint64 pairIndex = mOverlappingPairs.mMapConvexPairIdToPairIndex[pairId];
-        assert(pairIndex < mOverlappingPairs.mConvexPairs.size());
+        // Note that the pair might be disabled if both bodies are sleeping or static
+        OverlappingPairs::ConvexOverlappingPair& overlappingPair = *static_cast<OverlappingPairs::ConvexOverlappingPair*>(mOverlappingPairs.getOverlappingPair(pairId));
 
-        const Entity collider1Entity = mOverlappingPairs.mConvexPairs[pairIndex].collider1;
-        const Entity collider2Entity = mOverlappingPairs.mConvexPairs[pairIndex].collider2;
+        const Entity collider1Entity = overlappingPair.collider1;
+        const Entity collider2Entity = overlappingPair.collider2;
 
         const uint32 collider1Index = mCollidersComponents.getEntityIndex(collider1Entity);
         const uint32 collider2Index = mCollidersComponents.getEntityIndex(collider2Entity);
@@ -511,14 +511,14 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         CollisionShape* collisionShape1 = mCollidersComponents.mCollisionShapes[collider1Index];
         CollisionShape* collisionShape2 = mCollidersComponents.mCollisionShapes[collider2Index];
 
-        NarrowPhaseAlgorithmType algorithmType = mOverlappingPairs.mConvexPairs[pairIndex].narrowPhaseAlgorithmType;
+        NarrowPhaseAlgorithmType algorithmType = overlappingPair.narrowPhaseAlgorithmType;
 
         // No middle-phase is necessary, simply create a narrow phase info
         // for the narrow-phase collision detection
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, reportContacts, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, reportContacts, &overlappingPair.lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -527,13 +527,15 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
     for (uint32 p=0; p < nbConcavePairs; p++) {
 
         const uint64 pairId = concavePairs[p];
-        const uint64 pairIndex = mOverlappingPairs.mMapConcavePairIdToPairIndex[pairId];
 
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != -1);
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2) != -1);
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2));
+        // Note that the pair might be disabled if both bodies are sleeping or static
+        OverlappingPairs::ConcaveOverlappingPair& overlappingPair = *static_cast<OverlappingPairs::ConcaveOverlappingPair*>(mOverlappingPairs.getOverlappingPair(pairId));
 
-        computeConvexVsConcaveMiddlePhase(mOverlappingPairs.mConcavePairs[pairIndex], mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
+        assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider1) != -1);
+        assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider2) != -1);
+        assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider1) != mCollidersComponents.getBroadPhaseId(overlappingPair.collider2));
+
+        computeConvexVsConcaveMiddlePhase(overlappingPair, mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
     }
 }
 
@@ -1834,8 +1836,13 @@ void CollisionDetectionSystem::testOverlap(OverlapCallback& callback) {
     // Compute the broad-phase collision detection
     computeBroadPhase();
 
+    // Get the overlapping pairs that are part of the world queries
+    Array<uint64> convexPairs(mMemoryManager.getPoolAllocator());
+    Array<uint64> concavePairs(mMemoryManager.getPoolAllocator());
+    filterOverlappingPairs(convexPairs, concavePairs);
+
     // Compute the middle-phase collision detection
-    computeMiddlePhase(narrowPhaseInput, false, true);
+    computeMiddlePhaseCollisionSnapshot(convexPairs, concavePairs, narrowPhaseInput, false);
 
     // Compute the narrow-phase collision detection and report overlapping shapes
     computeNarrowPhaseOverlapSnapshot(narrowPhaseInput, &callback);
@@ -1918,35 +1925,84 @@ void CollisionDetectionSystem::testCollision(CollisionCallback& callback) {
     // Compute the broad-phase collision detection
     computeBroadPhase();
 
+    // Get the overlapping pairs that are part of the world queries
+    Array<uint64> convexPairs(mMemoryManager.getPoolAllocator());
+    Array<uint64> concavePairs(mMemoryManager.getPoolAllocator());
+    filterOverlappingPairs(convexPairs, concavePairs);
+
     // Compute the middle-phase collision detection
-    computeMiddlePhase(narrowPhaseInput, true, true);
+    computeMiddlePhaseCollisionSnapshot(convexPairs, concavePairs, narrowPhaseInput, true);
 
     // Compute the narrow-phase collision detection and report contacts
     computeNarrowPhaseCollisionSnapshot(narrowPhaseInput, callback);
 }
 
+// Filter the overlapping pairs to keep only the pairs that are part of the world queries
+void CollisionDetectionSystem::filterOverlappingPairs(Array<uint64>& convexPairs, Array<uint64>& concavePairs) const {
+
+    // For each convex pair (including the disabled ones because we also want the pairs of sleeping bodies)
+    const uint32 nbConvexPairs = static_cast<uint32>(mOverlappingPairs.mConvexPairs.size());
+    const uint32 nbDisabledConvexPairs = static_cast<uint32>(mOverlappingPairs.mDisabledConvexPairs.size());
+    for (uint32 i=0; i < nbConvexPairs + nbDisabledConvexPairs; i++) {
+
+        const OverlappingPairs::ConvexOverlappingPair& pair = i < nbConvexPairs ? mOverlappingPairs.mConvexPairs[i] :
+                                                                            mOverlappingPairs.mDisabledConvexPairs[i - nbConvexPairs];
+
+        // Only keep the pairs between two world query colliders
+        if (!mCollidersComponents.getIsWorldQueryCollider(pair.collider1) || !mCollidersComponents.getIsWorldQueryCollider(pair.collider2)) continue;
+
+        convexPairs.add(pair.pairID);
+    }
+
+    // For each concave pair (including the disabled ones because we also want the pairs of sleeping bodies)
+    const uint32 nbConcavePairs = static_cast<uint32>(mOverlappingPairs.mConcavePairs.size());
+    const uint32 nbDisabledConcavePairs = static_cast<uint32>(mOverlappingPairs.mDisabledConcavePairs.size());
+    for (uint32 i=0; i < nbConcavePairs + nbDisabledConcavePairs; i++) {
+
+        const OverlappingPairs::ConcaveOverlappingPair& pair = i < nbConcavePairs ? mOverlappingPairs.mConcavePairs[i] :
+                                                                            mOverlappingPairs.mDisabledConcavePairs[i - nbConcavePairs];
+
+        // Only keep the pairs between two world query colliders
+        if (!mCollidersComponents.getIsWorldQueryCollider(pair.collider1) || !mCollidersComponents.getIsWorldQueryCollider(pair.collider2)) continue;
+
+        concavePairs.add(pair.pairID);
+    }
+}
+
 // Filter the overlapping pairs to keep only the pairs where a given body is involved
 void CollisionDetectionSystem::filterOverlappingPairs(Entity bodyEntity, Array<uint64>& convexPairs, Array<uint64>& concavePairs) const {
 
-    // For each convex pairs
+    // For each convex pair (including the disabled ones because we also want the pairs of sleeping bodies)
     const uint32 nbConvexPairs = static_cast<uint32>(mOverlappingPairs.mConvexPairs.size());
-    for (uint32 i=0; i < nbConvexPairs; i++) {
+    const uint32 nbDisabledConvexPairs = static_cast<uint32>(mOverlappingPairs.mDisabledConvexPairs.size());
+    for (uint32 i=0; i < nbConvexPairs + nbDisabledConvexPairs; i++) {
+
+        const OverlappingPairs::ConvexOverlappingPair& pair = i < nbConvexPairs ? mOverlappingPairs.mConvexPairs[i] :
+                                                                            mOverlappingPairs.mDisabledConvexPairs[i - nbConvexPairs];
 
-        if (mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider1) == bodyEntity ||
-            mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider2) == bodyEntity) {
+        // Only keep the pairs between two world query colliders
+        if (!mCollidersComponents.getIsWorldQueryCollider(pair.collider1) || !mCollidersComponents.getIsWorldQueryCollider(pair.collider2)) continue;
 
-            convexPairs.add(mOverlappingPairs.mConvexPairs[i].pairID);
+        if (mCollidersComponents.getBody(pair.collider1) == bodyEntity || mCollidersComponents.getBody(pair.collider2) == bodyEntity) {
+
+            convexPairs.add(pair.pairID);
         }
     }
 
-    // For each concave pairs
+    // For each concave pair (including the disabled ones because we also want the pairs of sleeping bodies)
     const uint32 nbConcavePairs = static_cast<uint32>(mOverlappingPairs.mConcavePairs.size());
-    for (uint32 i=0; i < nbConcavePairs; i++) {
+    const uint32 nbDisabledConcavePairs = static_cast<uint32>(mOverlappingPairs.mDisabledConcavePairs.size());
+    for (uint32 i=0; i < nbConcavePairs + nbDisabledConcavePairs; i++) {
+
+        const OverlappingPairs::ConcaveOverlappingPair& pair = i < nbConcavePairs ? mOverlappingPairs.mConcavePairs[i] :
+                                                                            mOverlappingPairs.mDisabledConcavePairs[i - nbConcavePairs];
+
+        // Only keep the pairs between two world query colliders
+        if (!mCollidersComponents.getIsWorldQueryCollider(pair.collider1) || !mCollidersComponents.getIsWorldQueryCollider(pair.collider2)) continue;
 
-        if (mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider1) == bodyEntity ||
-            mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider2) == bodyEntity) {
+        if (mCollidersComponents.getBody(pair.collider1) == bodyEntity || mCollidersComponents.getBody(pair.collider2) == bodyEntity) {
 
-            concavePairs.add(mOverlappingPairs.mConcavePairs[i].pairID);
+            concavePairs.add(pair.pairID);
         }
     }
 }
@@ -1954,31 +2010,45 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity bodyEntity, Array<u
 // Filter the overlapping pairs to keep only the pairs where two given bodies are involved
 void CollisionDetectionSystem::filterOverlappingPairs(Entity body1Entity, Entity body2Entity, Array<uint64>& convexPairs, Array<uint64>& concavePairs) const {
 
-    // For each convex pair
+    // For each convex pair (including the disabled ones because we also want the pairs of sleeping bodies)
     const uint32 nbConvexPairs = static_cast<uint32>(mOverlappingPairs.mConvexPairs.size());
-    for (uint32 i=0; i < nbConvexPairs; i++) {
+    const uint32 nbDisabledConvexPairs = static_cast<uint32>(mOverlappingPairs.mDisabledConvexPairs.size());
+    for (uint32 i=0; i < nbConvexPairs + nbDisabledConvexPairs; i++) {
 
-        const Entity collider1Body = mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider1);
-        const Entity collider2Body = mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider2);
+        const OverlappingPairs::ConvexOverlappingPair& pair = i < nbConvexPairs ? mOverlappingPairs.mConvexPairs[i] :
+                                                                            mOverlappingPairs.mDisabledConvexPairs[i - nbConvexPairs];
+
+        // Only keep the pairs between two world query colliders
+        if (!mCollidersComponents.getIsWorldQueryCollider(pair.collider1) || !mCollidersComponents.getIsWorldQueryCollider(pair.collider2)) continue;
+
+        const Entity collider1Body = mCollidersComponents.getBody(pair.collider1);
+        const Entity collider2Body = mCollidersComponents.getBody(pair.collider2);
 
         if ((collider1Body == body1Entity && collider2Body == body2Entity) ||
             (collider1Body == body2Entity && collider2Body == body1Entity)) {
 
-            convexPairs.add(mOverlappingPairs.mConvexPairs[i].pairID);
+            convexPairs.add(pair.pairID);
         }
     }
 
-    // For each concave pair
+    // For each concave pair (including the disabled ones because we also want the pairs of sleeping bodies)
     const uint32 nbConcavePairs = static_cast<uint32>(mOverlappingPairs.mConcavePairs.size());
-    for (uint32 i=0; i < nbConcavePairs; i++) {
+    const uint32 nbDisabledConcavePairs = static_cast<uint32>(mOverlappingPairs.mDisabledConcavePairs.size());
+    for (uint32 i=0; i < nbConcavePairs + nbDisabledConcavePairs; i++) {
+
+        const OverlappingPairs::ConcaveOverlappingPair& pair = i < nbConcavePairs ? mOverlappingPairs.mConcavePairs[i] :
+                                                                            mOverlappingPairs.mDisabledConcavePairs[i - nbConcavePairs];
+
+        // Only keep the pairs between two world query colliders
+        if (!mCollidersComponents.getIsWorldQueryCollider(pair.collider1) || !mCollidersComponents.getIsWorldQueryCollider(pair.collider2)) continue;
 
-        const Entity collider1Body = mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider1);
-        const Entity collider2Body = mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider2);
+        const Entity collider1Body = mCollidersComponents.getBody(pair.collider1);
+        const Entity collider2Body = mCollidersComponents.getBody(pair.collider2);
 
         if ((collider1Body == body1Entity && collider2Body == body2Entity) ||
             (collider1Body == body2Entity && collider2Body == body1Entity)) {
 
-            concavePairs.add(mOverlappingPairs.mConcavePairs[i].pairID);
+            concavePairs.add(pair.pairID);
         }
     }
 }
-- 
2.43.0


From 55b41adfc6d649bffa862ea40b6411ee072c1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 10/22] fix: a map or set must be usable after it has been
 cleared with release of its memory

---
 include/reactphysics3d/containers/Map.h | 1 +
 include/reactphysics3d/containers/Set.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/reactphysics3d/containers/Map.h b/include/reactphysics3d/containers/Map.h
index 4aaee4b..e21a918 100755
--- a/include/reactphysics3d/containers/Map.h
+++ b/include/reactphysics3d/containers/Map.h
@@ -520,6 +520,7 @@ class Map {
 
                 mNbAllocatedEntries = 0;
                 mHashSize = 0;
+                mFreeIndex = INVALID_INDEX;
             }
 
             mNbEntries = 0;
diff --git a/include/reactphysics3d/containers/Set.h b/include/reactphysics3d/containers/Set.h
index ea894ab..aae3134 100755
--- a/include/reactphysics3d/containers/Set.h
+++ b/include/reactphysics3d/containers/Set.h
@@ -519,6 +519,7 @@ class Set {
 
                 mNbAllocatedEntries = 0;
                 mHashSize = 0;
+                mFreeIndex = INVALID_INDEX;
             }
 
             mNbEntries = 0;
-- 
2.43.0


From 7a92859ccc2ebf3cef4001f3ea805e5be2eaefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 11/22] fix: copying or assigning a deque must keep its items

---
 include/reactphysics3d/containers/Deque.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/reactphysics3d/containers/Deque.h b/include/reactphysics3d/containers/Deque.h
index 2a7977b..f98a4f1 100644
--- a/include/reactphysics3d/containers/Deque.h
+++ b/include/reactphysics3d/containers/Deque.h
@@ -278,6 +278,9 @@ class Deque {
             // Allocate memory
             reserve(deque.mCapacity);
 
+            // The items are at the same location in the buffer (note that reserve() changes the index of the first item)
+            mFirstItemIndex = deque.mFirstItemIndex;
+
             if (deque.mSize > 0) {
 
                 // Add the items into the deque
@@ -465,6 +468,10 @@ class Deque {
 
                 if (deque.mSize > 0) {
 
+                    // The capacity is at least the capacity of the other deque. Therefore, there is enough space to
+                    // put the items at the same location in the buffer
+                    mFirstItemIndex = deque.mFirstItemIndex;
+
                     // Add the items into the deque
                     for(uint64 i=0; i < deque.mSize; i++) {
 
-- 
2.43.0


From 2c78939e4d03152b33591c879feb6412702bec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 12/22] fix: a stack that grows and a linked list that is reset
 must destroy their old items

---
 include/reactphysics3d/containers/LinkedList.h | 4 ++++
 include/reactphysics3d/containers/Stack.h      | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/include/reactphysics3d/containers/LinkedList.h b/include/reactphysics3d/containers/LinkedList.h
index 3910738..8517877 100644
--- a/include/reactphysics3d/containers/LinkedList.h
+++ b/include/reactphysics3d/containers/LinkedList.h
@@ -117,6 +117,10 @@ RP3D_FORCE_INLINE void LinkedList<T>::reset() {
     ListElement* element = mListHead;
     while (element != nullptr) {
         ListElement* nextElement = element->next;
+
+        // Call the destructor of the element
+        element->~ListElement();
+
         mAllocator.release(element, mElementAllocationSize);
         element = nextElement;
     }
diff --git a/include/reactphysics3d/containers/Stack.h b/include/reactphysics3d/containers/Stack.h
index cdbe26f..aeaf967 100644
--- a/include/reactphysics3d/containers/Stack.h
+++ b/include/reactphysics3d/containers/Stack.h
@@ -74,6 +74,11 @@ class Stack {
 
                     // Copy the previous items in the new array
                     std::uninitialized_copy(mArray, mArray + mNbElements, newArray);
+
+                    // Destruct the previous items
+                    for (uint64 i = 0; i < mNbElements; i++) {
+                        mArray[i].~T();
+                    }
                 }
 
                 // Release memory of the previous array
-- 
2.43.0


From 297d38bd85429a0e3ebf695128ceecc896122acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:10 +0000
Subject: [PATCH 13/22] fix: an overlap query on an empty AABB tree must not
 read the null node

---
 src/collision/broadphase/DynamicAABBTree.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision/broadphase/DynamicAABBTree.cpp b/src/collision/broadphase/DynamicAABBTree.cpp
index 5804567..234e08a 100644
--- a/src/collision/broadphase/DynamicAABBTree.cpp
+++ b/src/collision/broadphase/DynamicAABBTree.cpp
@@ -652,12 +652,12 @@ void DynamicAABBTree::reportAllShapesOverlappingWithAABB(const AABB& aabb, Array
         // Get the next node ID to visit
         const int32 nodeIDToVisit = stack.pop();
 
-        assert(nodeIDToVisit >= 0);
-        assert(nodeIDToVisit < mNbAllocatedNodes);
-
         // Skip it if it is a null node
         if (nodeIDToVisit == TreeNode::NULL_TREE_NODE) continue;
 
+        assert(nodeIDToVisit >= 0);
+        assert(nodeIDToVisit < mNbAllocatedNodes);
+
         // Get the corresponding node
         const TreeNode* nodeToVisit = mNodes + nodeIDToVisit;
 
-- 
2.43.0


From 8081c10bdd608a849f57b0eea5fe5376c6996c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:10 +0000
Subject: [PATCH 14/22] fix: bodies that move or may not sleep must stay awake
 when the time before sleep is zero

---
 src/engine/PhysicsWorld.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index bd8a2d5..e6bd52e 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -930,7 +930,7 @@ void PhysicsWorld::updateSleepingBodies(decimal timeStep) {
         // If the velocity of all the bodies of the island is under the
         // sleeping velocity threshold for a period of time larger than
         // the time required to become a sleeping body
-        if (minSleepTime >= mTimeBeforeSleep) {
+        if (minSleepTime > decimal(0.0) && minSleepTime >= mTimeBeforeSleep) {
 
             // Put all the bodies of the island to sleep
             for (uint32 b=0; b < mIslands.nbBodiesInIsland[i]; b++) {
-- 
2.43.0


From a2f3a2acde8fa0553cbc84421428159ad10e7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:41 +0000
Subject: [PATCH 15/22] fix: a collision query must not compute contact points
 for triggers

---
 src/systems/CollisionDetectionSystem.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 4a51733..847fa04 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -513,12 +513,15 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
 
         NarrowPhaseAlgorithmType algorithmType = overlappingPair.narrowPhaseAlgorithmType;
 
+        // Contacts are not reported for triggers
+        const bool isTrigger = mCollidersComponents.mIsTrigger[collider1Index] || mCollidersComponents.mIsTrigger[collider2Index];
+
         // No middle-phase is necessary, simply create a narrow phase info
         // for the narrow-phase collision detection
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, reportContacts, &overlappingPair.lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, reportContacts && !isTrigger, &overlappingPair.lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -1048,7 +1051,7 @@ void CollisionDetectionSystem::createSnapshotContacts(Array<ContactPair>& contac
     for (uint32 p=0; p < nbContactPairs; p++) {
 
         ContactPair& contactPair = contactPairs[p];
-        assert(contactPair.nbPotentialContactManifolds > 0);
+        assert(contactPair.nbPotentialContactManifolds > 0 || contactPair.isTrigger);
 
         contactPair.contactManifoldsIndex = static_cast<uint32>(contactManifolds.size());
         contactPair.nbContactManifolds = contactPair.nbPotentialContactManifolds;
-- 
2.43.0


From eb549e49854caf0b0a0826ea8d40f3398625d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 16/22] fix: destroying a sleeping body must destroy its own
 joints only

---
 src/engine/PhysicsWorld.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index e6bd52e..be2684f 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -454,9 +454,9 @@ void PhysicsWorld::destroyRigidBody(RigidBody* rigidBody) {
     rigidBody->removeAllColliders();
 
     // Destroy all the joints in which the rigid body to be destroyed is involved
-    const Array<Entity>& joints = mRigidBodyComponents.getJoints(rigidBody->getEntity());
-    while (joints.size() > 0) {
-        destroyJoint(mJointsComponents.getJoint(joints[0]));
+    // (note that destroying a joint awakes its bodies and therefore might move the array of joints of the body in memory)
+    while (mRigidBodyComponents.getJoints(rigidBody->getEntity()).size() > 0) {
+        destroyJoint(mJointsComponents.getJoint(mRigidBodyComponents.getJoints(rigidBody->getEntity())[0]));
     }
 
     // Destroy the corresponding entity and its components
-- 
2.43.0


From c510e45d34e75f40ce6ff146413cfe090c4e4c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:41 +0000
Subject: [PATCH 17/22] fix: removing a collider must awake all the sleeping
 bodies in contact with its body

---
 src/body/RigidBody.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 1b36417..df5b8a9 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1098,8 +1098,8 @@ void RigidBody::enableOverlappingPairs() {
 // Awake the disabled neighbor bodies
 void RigidBody::awakeNeighborDisabledBodies() {
 
-    // For each collider of the body
-    const Array<Entity>& colliderEntities = mWorld.mBodyComponents.getColliders(mEntity);
+    // For each collider of the body (this is a copy because awaking a body might move the components of the current body in memory)
+    const Array<Entity> colliderEntities = mWorld.mBodyComponents.getColliders(mEntity);
     for (uint32 i=0; i < colliderEntities.size(); i++) {
 
         // Get the currently overlapping pairs for this collider
-- 
2.43.0


From 9a808aaac72aa8d9d20ca418a3f98d0bc7d1ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 18/22] fix: RigidBody::setTransform must not change the
 velocity of a spinning body

Teleporting a body whose angular velocity is not zero added w x (displacement)
to its linear velocity.
---
 src/body/RigidBody.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index df5b8a9..7dfa79f 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -851,19 +851,10 @@ void RigidBody::setAngularVelocity(const Vector3& angularVelocity) {
  */
 void RigidBody::setTransform(const Transform& transform) {
 
-    const Vector3 oldCenterOfMass = mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity);
-
-    // Compute the new center of mass in world-space coordinates
+    // Compute the new center of mass in world-space coordinates (the velocity of the center of mass does not change)
     const Vector3& centerOfMassLocal = mWorld.mRigidBodyComponents.getCenterOfMassLocal(mEntity);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, transform * centerOfMassLocal);
 
-    // Update the linear velocity of the center of mass
-    Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
-    const Vector3& angularVelocity = mWorld.mRigidBodyComponents.getAngularVelocity(mEntity);
-    const Vector3& centerOfMassWorld = mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity);
-    linearVelocity += angularVelocity.cross(centerOfMassWorld - oldCenterOfMass);
-    mWorld.mRigidBodyComponents.setLinearVelocity(mEntity, linearVelocity);
-
     if (getType() == BodyType::STATIC) {
 
         mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
-- 
2.43.0


From 18d059187f4cb10d2f60505fb36cc68621efd495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 19/22] fix: a ray that lies exactly on a face of an AABB must
 hit the AABB

---
 .../reactphysics3d/collision/shapes/AABB.h    | 34 +++++++++----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/include/reactphysics3d/collision/shapes/AABB.h b/include/reactphysics3d/collision/shapes/AABB.h
index e180706..79a5f91 100644
--- a/include/reactphysics3d/collision/shapes/AABB.h
+++ b/include/reactphysics3d/collision/shapes/AABB.h
@@ -284,34 +284,32 @@ RP3D_FORCE_INLINE AABB AABB::createAABBForTriangle(const Vector3* trianglePoints
 // Return true if the ray intersects the AABB
 RP3D_FORCE_INLINE bool AABB::testRayIntersect(const Vector3& rayOrigin, const Vector3& rayDirectionInverse, decimal rayMaxFraction) const {
 
-    // This algorithm relies on the IEE floating point properties (division by zero). If the rayDirection is zero, rayDirectionInverse and
-    // therfore t1 and t2 will be +-INFINITY. If the i coordinate of the ray's origin is inside the AABB (mMinCoordinates[i] < rayOrigin[i] < mMaxCordinates[i)), we have
-    // t1 = -t2 = +- INFINITY. Since max(n, -INFINITY) = min(n, INFINITY) = n for all n, tMin and tMax will stay unchanged. Secondly, if the i
-    // coordinate of the ray's origin is outside the box (rayOrigin[i] < mMinCoordinates[i] or rayOrigin[i] > mMaxCoordinates[i]) we have
-    // t1 = t2 = +- INFINITY and therefore either tMin = +INFINITY or tMax = -INFINITY. One of those values will stay until the end and make the
-    // method to return false. Unfortunately, if the ray lies exactly on a slab (rayOrigin[i] = mMinCoordinates[i] or rayOrigin[i] = mMaxCoordinates[i]) we
-    // have t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i] = 0 * INFINITY = NaN which is a problem for the remaining of the algorithm.
-    // This will cause the method to return true when the ray is not intersecting the AABB and therefore cause to traverse more nodes than necessary in
-    // the BVH tree. Because this should be rare, it is not really a big issue.
+    // This algorithm relies on the IEE floating point properties (division by zero). If the i component of the ray direction is zero, the
+    // i component of rayDirectionInverse is +-INFINITY. In this case, the ray is parallel to the slab and we only need to test if its origin
+    // is inside the slab (computing t1 and t2 would give 0 * INFINITY = NaN when the ray lies exactly on a face of the AABB).
     // Reference: https://tavianator.com/2011/ray_box.html
 
-    decimal t1 = (mMinCoordinates[0] - rayOrigin[0]) * rayDirectionInverse[0];
-    decimal t2 = (mMaxCoordinates[0] - rayOrigin[0]) * rayDirectionInverse[0];
+    decimal tMin = decimal(0.0);
+    decimal tMax = rayMaxFraction;
+
+    for (int i = 0; i < 3; i++) {
 
-    decimal tMin = std::min(t1, t2);
-    decimal tMax = std::max(t1, t2);
-    tMax = std::min(tMax, rayMaxFraction);
+        // If the ray is parallel to the slab
+        if (std::isinf(rayDirectionInverse[i])) {
 
-    for (int i = 1; i < 3; i++) {
+            if (rayOrigin[i] < mMinCoordinates[i] || rayOrigin[i] > mMaxCoordinates[i]) return false;
+
+            continue;
+        }
 
-        t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
-        t2 = (mMaxCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
+        const decimal t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
+        const decimal t2 = (mMaxCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
 
         tMin = std::max(tMin, std::min(t1, t2));
         tMax = std::min(tMax, std::max(t1, t2));
     }
 
-    return tMax >= std::max(tMin, decimal(0.0));
+    return tMax >= tMin;
 }
 
 // Compute the intersection of a ray and the AABB
-- 
2.43.0


From a4acf7b188d69537eb4848e96ac2264d98ed9e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 20/22] fix: the heap allocator must ask its base allocator for
 aligned sizes

---
 src/memory/HeapAllocator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/memory/HeapAllocator.cpp b/src/memory/HeapAllocator.cpp
index 8f317eb..4772908 100644
--- a/src/memory/HeapAllocator.cpp
+++ b/src/memory/HeapAllocator.cpp
@@ -129,8 +129,10 @@ void* HeapAllocator::allocate(size_t size) {
     // We cannot allocate zero bytes
     if (size == 0) return nullptr;
 
-    // Allocate a little bit more memory to make sure we can return an aligned address
-    const size_t totalSize = size + GLOBAL_ALIGNMENT;
+    // Allocate a little bit more memory to make sure we can return an aligned address. The size is a multiple of
+    // the alignment such that the headers of the memory units and the size of the memory requested from the base
+    // allocator are also aligned
+    const size_t totalSize = ((size + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT + GLOBAL_ALIGNMENT;
 
 #ifndef NDEBUG
         mNbTimesAllocateMethodCalled++;
-- 
2.43.0


From 95f6a68fc6d2ca7a8f4e2906146cc3515316269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 21/22] fix: raycasting against a small capsule must not treat
 every ray as parallel to its axis

---
 src/collision/shapes/CapsuleShape.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/collision/shapes/CapsuleShape.cpp b/src/collision/shapes/CapsuleShape.cpp
index c774ca3..662015b 100644
--- a/src/collision/shapes/CapsuleShape.cpp
+++ b/src/collision/shapes/CapsuleShape.cpp
@@ -98,7 +98,8 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
 
     const Vector3 n = ray.point2 - ray.point1;
 
-    const decimal epsilon = decimal(0.01);
+    // Relative tolerance (a is the square of the sine of the angle between the ray and the axis, times dDotD * nDotN)
+    const decimal epsilon = decimal(0.000001);
     Vector3 p(decimal(0), -mHalfHeight, decimal(0));
     Vector3 q(decimal(0), mHalfHeight, decimal(0));
     Vector3 d = q - p;
@@ -123,7 +124,7 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
     decimal c = dDotD * k - mDotD * mDotD;
 
     // If the ray is parallel to the capsule axis
-    if (std::abs(a) < epsilon) {
+    if (std::abs(a) < epsilon * dDotD * nDotN) {
 
         // If the origin is outside the surface of the capusle's cylinder, we return no hit
         if (c > decimal(0.0)) return false;
-- 
2.43.0


From f80a5ed5e5317e9d0c668b71a098641961ee38fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 22/22] fix: support point, raycast and point test of a convex
 mesh shape must use the scaled vertices

---
 src/collision/shapes/ConvexMeshShape.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index ee6c33e..793652a 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -85,8 +85,8 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
     // For each vertex of the mesh
     for (uint32 i=0; i<mConvexMesh->getNbVertices(); i++) {
 
-        // Compute the dot product of the current vertex
-        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i));
+        // Compute the dot product of the current (scaled) vertex
+        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i) * mScale);
 
         // If the current dot product is larger than the maximum one
         if (dotProduct > maxDotProduct) {
@@ -95,8 +95,6 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
         }
     }
 
-    assert(maxDotProduct >= decimal(0.0));
-
     // Return the vertex with the largest dot product in the support direction
     return mConvexMesh->getVertex(indexMaxDotProduct) * mScale;
 }
@@ -122,7 +120,7 @@ bool ConvexMeshShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
         decimal denom = faceNormal.dot(direction);
         decimal planeD = faceNormal.dot(facePoint);
         decimal dist = planeD -  faceNormal.dot(ray.point1);
@@ -192,7 +190,7 @@ bool ConvexMeshShape::testPointInside(const Vector3& localPoint, Collider* /*col
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
 
         // If the point is out of the face plane, it is outside of the convex mesh
         if (computePointToPlaneDistance(localPoint, faceNormal, facePoint) > decimal(0.0)) return false;
-- 
2.43.0

