#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state], 'observe_at': list(observe), 'hook_needed': hook}})


CD = 'src/systems/CollisionDetectionSystem.cpp'
PW = 'src/engine/PhysicsWorld.cpp'
RB = 'src/body/RigidBody.cpp'

p('P01', 'Contact events follow start, stay, exit for exactly the touching pairs',
  'In every simulation step the listener is told of exactly the pairs of simulation colliders that overlap and may collide: ContactStart in the first such step, ContactStay in every following one, ContactExit in the first step where they no longer overlap. '
  'A pair gets at most one contact event per step, the event names the right colliders and bodies, and carries contact points unless it is an exit. '
  'A pair of which both bodies are at rest (sleeping or static) keeps its status without being reported; a pair whose collider or body is removed or deactivated is forgotten, so its next contact is a ContactStart.',
  ['histories', 'inputs'], 'every sequence of body/collider creation, destruction, motion, activation, type change, sleeping and simulation steps, for every pair of shapes',
  'The tests only exercise single queries of two shapes; no test registers an EventListener over a history of steps, let alone with removals, sleeping and re-entry in between.',
  [CD, 'src/systems/CollisionDetectionSystem.h', 'src/collision/CollisionCallback.cpp', 'src/engine/OverlappingPairs.cpp'],
  [('contact pairs of this and the previous frame, lost contact pairs', CD + ' createContacts, computeLostContactPairs, reportContacts'),
   ('collidingInPreviousFrame / collidingInCurrentFrame flags', 'include/reactphysics3d/engine/OverlappingPairs.h')],
  [('contact pairs', 'pairs in contact now', CD + ' mCurrentContactPairs'), ('lost pairs', 'pairs to report as exits', CD + ' mLostContactPairs')],
  ['EventListener::onContact'])

p('P02', 'Trigger events follow start, stay, exit for exactly the overlapping pairs',
  'A collider marked as trigger never produces contacts or contact events; each step reports exactly the trigger pairs that overlap through onTrigger, OverlapStart on the first step of the overlap, OverlapStay on each later one, OverlapExit on the first step after it. '
  'A collider is never both a trigger and a simulation collider: setting one clears the other, and a collider that is neither takes part in no event.',
  ['histories', 'inputs'], 'every history of trigger/simulation flag changes, motion, sleeping, activation, removal and steps',
  'No test registers an EventListener for triggers; the protocol concerns histories of steps.',
  [CD, 'src/collision/Collider.cpp', 'src/collision/OverlapCallback.cpp'],
  [('trigger pairs are reported separately', CD + ' reportTriggers'), ('setIsTrigger / setIsSimulationCollider', 'src/collision/Collider.cpp')],
  [('isTrigger', 'collider only reports overlaps', 'include/reactphysics3d/components/ColliderComponents.h')], ['EventListener::onTrigger'])

p('P03', 'Only eligible pairs interact: masks, joints, flags, activity',
  'Two overlapping colliders interact if and only if they belong to different active bodies, each collider\'s mask accepts the other\'s category, no joint between their bodies disables collision, and they are not both concave. '
  'Changing a mask, a category, a flag, or creating and destroying joints takes effect from the next step on, also for pairs that already overlap and also while other joints still link the bodies. '
  'The same rules decide events and overlap/collision queries.',
  ['histories', 'configurations'], 'every combination of category/mask bits, joints with and without collision, and flags, changed at any moment of a history',
  'Tests check a few mask combinations on fresh pairs; they do not change filters or joints while pairs overlap.',
  [CD, PW, 'src/collision/Collider.cpp', 'src/engine/OverlappingPairs.cpp'],
  [('no-collision pairs', CD + ' mNoCollisionPairs, addNoCollisionPair'), ('mask test at pair creation and at each broad-phase update', CD + ' updateOverlappingPairs'),
   ('joint list per body', 'src/components/RigidBodyComponents.cpp')],
  [('mNoCollisionPairs', 'pairs of bodies that must not collide', CD)], ['EventListener', 'PhysicsWorld::testOverlap', 'PhysicsWorld::testCollision'])

p('P04', 'World overlap and collision queries are exact and history-independent',
  'testOverlap and testCollision, in all their forms (two bodies, one body, whole world), report exactly the pairs of eligible world-query colliders that currently overlap, whatever the history, including static, sleeping and just-moved bodies. '
  'testCollision reports the non-trigger pairs, with at least one contact point each. Queries change nothing that can be observed afterwards.',
  ['histories', 'inputs'], 'every history followed by any query, for all shape pairs and body states',
  'The tests query single fresh pairs; a wrong answer that needs a history (caches, stale pairs, sleeping bodies) is not visible to them.',
  [CD, PW], [('pair selection for queries', CD + ' testOverlap/testCollision, filterOverlappingPairs'), ('query snapshots run the same middle and narrow phase', CD + ' computeMiddlePhaseCollisionSnapshot, computeNarrowPhaseCollisionSnapshot')],
  [], ['OverlapCallback::onOverlap', 'CollisionCallback::onContact'])

p('P05', 'Sleeping: only whole resting islands sleep, and the right calls wake them',
  'A body falls asleep only when every body of its island (linked by contacts and joints, static bodies not linking) has been below the sleep velocities for the configured time, sleeping is enabled in the world and every body of the island may sleep; it then has zero velocity and does not move. '
  'A sleeping body wakes when an awake body of its island touches it, when it is given a non-zero velocity, a force, a transform or a new type, when sleeping is disabled or forbidden, when a joint of it is destroyed, and when a body or collider it rested against is destroyed. '
  'Static bodies never sleep nor move by themselves.',
  ['histories', 'configurations'], 'every history of calls and steps over several bodies, contacts and joints, for all sleep settings',
  'No test covers sleeping.',
  ['src/systems/DynamicsSystem.cpp', PW, RB, 'src/components/RigidBodyComponents.cpp'],
  [('islands', PW + ' createIslands'), ('sleep timers per island', PW + ' updateSleepingBodies'), ('setIsSleeping, awakeNeighboringBodies', RB)],
  [('isSleeping, sleepTime', 'sleep state of a body', 'include/reactphysics3d/components/RigidBodyComponents.h')], ['RigidBody::isSleeping', 'positions and velocities'])

p('P08', 'Objects are independent: each call changes only what it names',
  'Whatever sequence of bodies, colliders and joints is created, reconfigured and destroyed, every attribute of every remaining object keeps the value it was last given, and refers to the right owner. '
  'Destroying a body destroys exactly its colliders and joints; counts and lists always match what exists.',
  ['histories'], 'every interleaving of creations, destructions, (de)activations, sleeps and attribute changes over many objects',
  'The components are stored in packed arrays that are swapped on every removal, (de)activation and sleep; tests create a few objects and check them at once.',
  ['src/components/Components.cpp', 'src/components/RigidBodyComponents.cpp', 'src/components/ColliderComponents.cpp', 'src/components/TransformComponents.cpp', 'src/components/BodyComponents.cpp',
   'src/engine/EntityManager.cpp', PW, RB],
  [('swap of packed components', 'src/components/*Components.cpp moveComponentToIndex, swapComponents'), ('entity index recycling', 'src/engine/EntityManager.cpp')],
  [('packed component arrays', 'attributes of all objects', 'include/reactphysics3d/components')], ['getters of RigidBody, Collider, Joint, PhysicsWorld'])

p('P09', 'Raycasts report exactly the hits, honour the callback, and fill the info right',
  'A raycast hits exactly the world-query colliders of active bodies whose category the mask accepts and whose surface the ray enters between its ends; hit point, unit normal, fraction, body and collider are right. '
  'The callback result steers it: 0 stops, a fraction clips the ray, 1 continues, a negative value ignores that collider; with clipping the closest hit is the last one reported. Ray tests on a body or a single collider give the closest hit of it, and leave the info alone when there is none.',
  ['histories', 'inputs'], 'every scene history, ray, mask and callback policy, for every shape',
  'Tests shoot rays at single shapes in fixed poses; they do not vary history, masks and callback policies.',
  ['src/systems/BroadPhaseSystem.cpp', 'src/collision/RaycastInfo.cpp', 'src/collision/Collider.cpp', RB, 'src/collision/shapes'],
  [('tree traversal with ray clipping', 'src/collision/broadphase/DynamicAABBTree.cpp raycast'), ('callback policy', 'src/collision/RaycastInfo.cpp raycastBroadPhaseShape'), ('per shape raycast', 'src/collision/shapes/*Shape.cpp raycast')],
  [], ['RaycastCallback::notifyRaycastHit', 'RaycastInfo'])

p('P18', 'Worlds are isolated from each other',
  'Worlds created by one PhysicsCommon do not influence each other: whatever calls and steps are interleaved over several worlds that share collision shapes, each world behaves as if it were alone.',
  ['schedules', 'histories'], 'every interleaving of the histories of several worlds',
  'Tests use a single world at a time.',
  ['src/engine/PhysicsCommon.cpp', PW, 'src/memory/MemoryManager.cpp'], [('per world component and memory managers', PW)], [], ['everything observable of each world'])

p('P23', 'Point containment, AABB overlap tests and world AABBs are exact',
  'testPointInside of bodies and colliders, testAABBOverlap and the reported AABBs agree with the geometry of the collider at its current pose after any history of moves, type changes and sleep.',
  ['histories', 'inputs'], 'every history, pose and shape',
  'Tests probe fixed points of fixed poses.',
  ['src/collision/Collider.cpp', RB, 'src/collision/shapes'], [('testPointInside', 'src/collision/shapes/*Shape.cpp'), ('computeTransformedAABB', 'src/collision/shapes/*Shape.cpp')], [], ['testPointInside', 'getAABB', 'getWorldAABB', 'testAABBOverlap'])

p('P11', 'Map and Set are exact dictionaries under any sequence of calls',
  'Map and Set behave as a mathematical function and set: after any sequence of add, update, remove (also while iterating), clear, reserve, copy and assignment, lookups, size, iteration and equality agree exactly with what was put in and taken out, for every hash distribution and capacity, copies are independent, and every stored element is constructed and destroyed exactly once.',
  ['histories', 'inputs'], 'every call sequence, every collision pattern of the hash function, every capacity',
  'Unit tests use short sequences with a good hash; chains, rehashing, free lists and reuse after clear depend on the history.',
  ['include/reactphysics3d/containers/Map.h', 'include/reactphysics3d/containers/Set.h'],
  [('bucket chains and free list', 'include/reactphysics3d/containers/Map.h'), ('rehash', 'include/reactphysics3d/containers/Map.h reserve')], [], ['find, containsKey, size, iterators, =='])

p('P12', 'Array, Deque, Stack and LinkedList are exact sequences',
  'Array, Deque, Stack and LinkedList behave as mathematical sequences under any sequence of calls (pushes and pops at both ends, insertion, removal, clear, reserve, copy, assignment, iteration): content, order, size and equality are exact, copies are independent, and every stored element is constructed and destroyed exactly once.',
  ['histories', 'inputs'], 'every call sequence and every capacity and chunk boundary',
  'Unit tests use short sequences; growth, chunk boundaries and reuse depend on the history.',
  ['include/reactphysics3d/containers/Array.h', 'include/reactphysics3d/containers/Deque.h', 'include/reactphysics3d/containers/Stack.h', 'include/reactphysics3d/containers/LinkedList.h'],
  [('chunks and the middle of a deque', 'include/reactphysics3d/containers/Deque.h'), ('growth', 'include/reactphysics3d/containers/Array.h reserve')], [], ['content, size, iterators, =='])

p('P06', 'Free bodies move exactly as forces, gravity, damping and locks dictate',
  'In a step each awake non-static body gets velocity v\' = (v + dt*(F/m + g)) / (1 + dt*damping) and the corresponding angular velocity from its torque and world inertia tensor, along unlocked axes only, and then moves by exactly that velocity, turning about its centre of mass. '
  'Forces and torques given in either frame and at any point add up, act on dynamic bodies only, and last for one step. Static, sleeping and inactive bodies do not move; infinite mass or inertia (zero) means no acceleration; setters (velocity, transform, type, gravity, damping, locks) affect nothing else.',
  ['histories', 'inputs'], 'every sequence of forces, torques, setters, type changes, sleeping, (de)activation and steps, for all masses, inertias, poses, damping and locks',
  'No test steps a world and checks where a body goes.',
  ['src/systems/DynamicsSystem.cpp', RB, PW, 'src/body/Body.cpp'],
  [('velocity and position integration', 'src/systems/DynamicsSystem.cpp integrateRigidBodiesVelocities, integrateRigidBodiesPositions, updateBodiesState'), ('force accumulation', RB + ' apply*'), ('world inertia', PW + ' updateBodiesInverseWorldInertiaTensors')],
  [('force, torque', 'accumulated for the next step', 'include/reactphysics3d/components/RigidBodyComponents.h')], ['RigidBody getters after every call'])

p('P15', 'Mass, centre of mass and inertia follow the colliders and the setters',
  'Mass, centre of mass and inertia tensor computed from colliders are the sums over the colliders (volume times density, weighted position, rotated shape inertia plus parallel axis term) for every shape, scale, local pose and density, and only change by the calls that set or recompute them; setting the centre of mass moves neither the body nor its material points. '
  'The motion that follows uses these values, also after type changes; zero mass or inertia means infinite.',
  ['histories', 'inputs'], 'every collection of colliders and every sequence of add, remove, move, resize, density change, recomputation and type change',
  'Tests cover a few bodies with one or two colliders, computed once.',
  [RB, 'src/collision/shapes', 'include/reactphysics3d/collision/ConvexMesh.h'],
  [('computeCenterOfMass, computeMassAndInertiaTensorLocal', RB), ('getVolume, getLocalInertiaTensor', 'src/collision/shapes')], [], ['getMass, getLocalCenterOfMass, getLocalInertiaTensor, motion'])

p('P22', 'Local and world frames agree for bodies and colliders at any time',
  'Conversions of points and vectors between the local frame of a body and the world, and the world transforms of its colliders, always agree with the current transform of the body and the local transform of the collider, after any history of moves, steps, sleeping, type change and (de)activation.',
  ['histories', 'inputs'], 'every history and every point',
  'Tests use fixed poses without history.',
  ['src/body/Body.cpp', 'src/collision/Collider.cpp', 'src/systems/DynamicsSystem.cpp', 'include/reactphysics3d/mathematics/Transform.h'],
  [('getWorldPoint ... getLocalVector', 'src/body/Body.cpp'), ('local to world transforms of colliders', 'src/systems/DynamicsSystem.cpp updateBodiesState, src/body/Body.cpp updateBroadPhaseState')], [], ['Body and Collider getters'])

p('P10', 'The AABB tree answers every query as a linear scan over its leaves would',
  'Whatever sequence of insertions, removals, updates and resets a dynamic AABB tree has gone through, overlap queries with boxes and with leaves report exactly the leaves whose fat boxes overlap (touching included), each once; '
  'a ray visits exactly the leaves whose boxes its segment meets, within the fraction left by the callback; fat boxes contain the last box given, change only when it leaves them or on request, and data stay with their leaf.',
  ['histories', 'inputs'], 'every history of the tree, every box, query and ray',
  'Unit tests use five fixed boxes; rotations, node reuse and growth depend on the history.',
  ['src/collision/broadphase/DynamicAABBTree.cpp', 'include/reactphysics3d/collision/shapes/AABB.h'],
  [('insertLeafNode, removeLeafNode, balanceSubTreeAtNode', 'src/collision/broadphase/DynamicAABBTree.cpp'), ('testRayIntersect', 'include/reactphysics3d/collision/shapes/AABB.h')],
  [('free list', 'unused nodes are reused', 'src/collision/broadphase/DynamicAABBTree.cpp allocateNode')], ['overlap queries, raycast, updateObject, getFatAABB'])

p('P13', 'Memory allocators never hand out overlapping, unaligned or foreign memory',
  'The pool, heap and single frame allocators, alone or stacked in the memory manager, answer every request with a block aligned on 16 bytes, inside memory of the base allocator, disjoint from every block in use, whose content nobody else changes until it is released; '
  'released memory is used again (pool units of the same class, coalesced heap units, the frame buffer after a reset) and everything is given back to the base allocator with its right size in the end. This holds for several threads at once.',
  ['histories', 'schedules', 'inputs'], 'every sequence of requests and releases of every size, and every interleaving of threads',
  'Unit tests never use the allocators directly; splitting, merging and reuse depend on the history, races on the schedule.',
  ['src/memory/HeapAllocator.cpp', 'src/memory/PoolAllocator.cpp', 'src/memory/SingleFrameAllocator.cpp', 'src/memory/MemoryManager.cpp'],
  [('splitMemoryUnit, mergeUnits, release', 'src/memory/HeapAllocator.cpp'), ('free units by class', 'src/memory/PoolAllocator.cpp'), ('overflow and reset', 'src/memory/SingleFrameAllocator.cpp')],
  [('free units', 'released memory that can be used again', 'src/memory/HeapAllocator.cpp mFreeUnits')], ['addresses returned by allocate, calls to the base allocator'])

#MORE

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for x in sorted(P, key=lambda x: x['id']):
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
