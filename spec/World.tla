------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* The physics world as its user sees it: bodies, colliders, joints that   *)
(* link bodies, the sleeping state machine, the contact/trigger            *)
(* notification protocol, collision filtering, and all the world queries.  *)
(*                                                                         *)
(* Geometry is restricted to a lattice on which every overlap question has *)
(* an exact answer with a wide margin (module Lattice): shapes are boxes,  *)
(* rounded boxes (spheres, capsules) and thin rectangles whose total       *)
(* half-extents are = 3 mod 4 quarter units, centred on points whose       *)
(* coordinates are multiples of 4, turned by rotations of the cube.        *)
(* Bodies are locked against the reaction of the contact solver, so that   *)
(* they move only by their own velocity: the dynamics of free bodies is    *)
(* the subject of other modules.                                           *)
(*                                                                         *)
(* One operator per public call: W -> W.  `hist' records the calls and     *)
(* what must be observed after each; it is replayed into the real library. *)
(***************************************************************************)
EXTENDS Lattice, TLC, Json, Bitwise

CONSTANTS NB, NC, NJ,        \* number of body, collider and joint slots
          D,                 \* length of a behaviour (simulation)
          Sim,               \* TRUE: arguments are drawn at random (simulation)
          Ops,               \* names of the calls this configuration exercises
          Xs, Ys, Zs,        \* body coordinates (metres)
          Kinds,             \* shapes
          Turns,             \* TRUE: bodies and colliders take any rotation of the cube
          Offs,              \* collider offsets in the body (quarter units)
          Vels,              \* velocities (metres per second, even)
          Cats, Masks,       \* collision category bits and masks
          FlagMode           \* initial flags of the colliders: "sim", "trig", "any"

VARIABLES w, hist, done
vars == <<w, hist, done>>

BId == 1..NB
CId == 1..NC
JId == 1..NJ

\* ---------------------------------------------------------------- shapes
\* h: half extents of the core, r: rounding radius, so: offsets of the parts the shape consists of (two parallel sheets: shl)
Ctr == << V0 >>
ShapeTab == [ box |-> [h |-> <<3,3,3>>, r |-> 0, so |-> Ctr,           cvx |-> TRUE ],
              bar |-> [h |-> <<7,3,3>>, r |-> 0, so |-> Ctr,           cvx |-> TRUE ],
              sph |-> [h |-> <<0,0,0>>, r |-> 3, so |-> Ctr,           cvx |-> TRUE ],
              cap |-> [h |-> <<0,4,0>>, r |-> 3, so |-> Ctr,           cvx |-> TRUE ],
              hul |-> [h |-> <<3,3,7>>, r |-> 0, so |-> Ctr,           cvx |-> TRUE ],
              hsc |-> [h |-> <<3,7,3>>, r |-> 0, so |-> Ctr,           cvx |-> TRUE ],   \* convex mesh with a scale
              hof |-> [h |-> <<3,3,3>>, r |-> 0, so |-> << <<0,4,0>> >>, cvx |-> TRUE ], \* convex mesh that does not contain its origin
              pln |-> [h |-> <<7,0,7>>, r |-> 0, so |-> << <<0,2,0>> >>, cvx |-> FALSE ],
              shl |-> [h |-> <<7,0,7>>, r |-> 0, so |-> << <<0,-2,0>>, <<0,2,0>> >>, cvx |-> FALSE ] ]
NPart(W,c) == 1..Len(ShapeTab[W.col[c].shp].so)

Body0 == [ex |-> FALSE, act |-> TRUE, typ |-> "D", slp |-> FALSE, alw |-> TRUE,
          pos |-> V0, ori |-> Id3, vel |-> V0, tim |-> 0]
Col0  == [own |-> 0, shp |-> "box", off |-> V0, rot |-> Id3, sim |-> TRUE, trg |-> FALSE, wq |-> TRUE,
          cat |-> 1, msk |-> 65535]
Jnt0  == [ex |-> FALSE, b1 |-> 0, b2 |-> 0, cl |-> TRUE, k |-> "F"]
W0 == [ body |-> TLCEval([b \in BId |-> Body0]), col |-> TLCEval([c \in CId |-> Col0]), jnt |-> TLCEval([j \in JId |-> Jnt0]),
        prev |-> {}, cut |-> {}, ss |-> TRUE, thr |-> 0, tbs |-> 2 ]

\* ------------------------------------------------- geometry of a collider
CB(W,c)   == W.body[W.col[c].own]
CRot(W,c) == MM(CB(W,c).ori, W.col[c].rot)
CCtr(W,c,k) == VAdd(VAdd(VScale(4, CB(W,c).pos), MV(CB(W,c).ori, W.col[c].off)),
                    MV(CRot(W,c), ShapeTab[W.col[c].shp].so[k]))
CExt(W,c) == AbsMV(CRot(W,c), ShapeTab[W.col[c].shp].h)
CRad(W,c) == ShapeTab[W.col[c].shp].r
Pose(W,c,k) == [m |-> CCtr(W,c,k), h |-> CExt(W,c), r |-> CRad(W,c)]
IsCvx(W,c)== ShapeTab[W.col[c].shp].cvx
\* distance along axis i between the cores (negative: they overlap on that axis)
Sep(p,q,i) == Abs(p.m[i] - q.m[i]) - p.h[i] - q.h[i]
PoseTouch(p,q) ==
   LET g(i) == Max2(0, Sep(p,q,i))
       R    == p.r + q.r
   IN IF R = 0 THEN \A i \in Ax : Sep(p,q,i) < 0
               ELSE g(1)*g(1) + g(2)*g(2) + g(3)*g(3) < R*R
Touch(W,c,d) == \E k \in NPart(W,c), l \in NPart(W,d) : PoseTouch(Pose(W,c,k), Pose(W,d,l))
\* world AABB of a collider: the lower and the upper corner
CLo(W,c) == LET p == Pose(W,c,1)  q == Pose(W,c,Len(ShapeTab[W.col[c].shp].so))
                f(i) == Min2(p.m[i], q.m[i]) - p.h[i] - p.r IN <<f(1), f(2), f(3)>>
CHi(W,c) == LET p == Pose(W,c,1)  q == Pose(W,c,Len(ShapeTab[W.col[c].shp].so))
                f(i) == Max2(p.m[i], q.m[i]) + p.h[i] + p.r IN <<f(1), f(2), f(3)>>

\* ------------------------------------------------------- derived relations
ColEx(W)      == {c \in CId : W.col[c].own # 0}
ColsOf(W,b)   == {c \in CId : W.col[c].own = b}
BodEx(W)      == {b \in BId : W.body[b].ex}
\* a body that takes part in the simulation
Enabled(W,b)  == W.body[b].ex /\ W.body[b].act /\ W.body[b].typ # "S" /\ ~W.body[b].slp
JointsOf(W,b) == {j \in JId : W.jnt[j].ex /\ b \in {W.jnt[j].b1, W.jnt[j].b2}}
NoColl(W,a,b) == \E j \in JId : W.jnt[j].ex /\ ~W.jnt[j].cl /\ {W.jnt[j].b1, W.jnt[j].b2} = {a,b}
BitAnd(a,b)   == a & b
FilterOK(W,c,d) == /\ BitAnd(W.col[c].msk, W.col[d].cat) # 0
                   /\ BitAnd(W.col[d].msk, W.col[c].cat) # 0
\* the pairs of colliders that may interact at all
Elig(W,c,d) == /\ W.col[c].own # W.col[d].own
               /\ CB(W,c).act /\ CB(W,d).act
               /\ FilterOK(W,c,d)
               /\ ~NoColl(W, W.col[c].own, W.col[d].own)
               /\ (IsCvx(W,c) \/ IsCvx(W,d))
Pairs(W)    == { <<c,d>> \in ColEx(W) \X ColEx(W) : c < d }
EnPair(W,p) == Enabled(W, W.col[p[1]].own) \/ Enabled(W, W.col[p[2]].own)
Reactive(W,c)  == W.col[c].sim \/ W.col[c].trg
TrigPair(W,p)  == W.col[p[1]].trg \/ W.col[p[2]].trg

\* ------------------------------------------------------------ elementary steps
Wake(W,b)  == IF W.body[b].act /\ W.body[b].typ # "S" /\ W.body[b].slp
              THEN [W EXCEPT !.body[b].slp = FALSE, !.body[b].tim = 0] ELSE W
Sleep(W,b) == IF W.body[b].act /\ W.body[b].typ # "S" /\ ~W.body[b].slp
              THEN [W EXCEPT !.body[b].slp = TRUE, !.body[b].tim = 0, !.body[b].vel = V0] ELSE W
RECURSIVE WakeAll(_,_)
WakeAll(W,S) == IF S = {} THEN W ELSE LET b == CHOOSE x \in S : TRUE IN WakeAll(TLCEval(Wake(W,b)), S \ {b})
RECURSIVE SleepAll(_,_)
SleepAll(W,S) == IF S = {} THEN W ELSE LET b == CHOOSE x \in S : TRUE IN SleepAll(TLCEval(Sleep(W,b)), S \ {b})
Forget(W,C)  == LET f(S) == {p \in S : p[1] \notin C /\ p[2] \notin C} IN [W EXCEPT !.prev = f(@), !.cut = f(@)]

\* ------------------------------------------------------------ public calls
OpCreateBody(W,b,pos,ori) == [W EXCEPT !.body[b] = [Body0 EXCEPT !.ex = TRUE, !.pos = pos, !.ori = ori]]
\* sleeping bodies that were in contact with body b
Neighbours(W,b) == { W.col[c].own : c \in {d \in CId : \E e \in ColsOf(W,b) :
                        d # e /\ (<<d,e>> \in W.prev \/ <<e,d>> \in W.prev)} }
OpDestroyBody(W,b) ==
   LET W0_ == WakeAll(W, Neighbours(W,b))
       W1 == Forget(W0_, ColsOf(W,b))
       js == JointsOf(W,b)
       others == {x \in BId : x # b /\ \E j \in js : x \in {W.jnt[j].b1, W.jnt[j].b2}}
       W2 == [W1 EXCEPT !.col = TLCEval([c \in CId |-> IF W.col[c].own = b THEN Col0 ELSE W.col[c]]),
                        !.jnt = TLCEval([j \in JId |-> IF j \in js THEN Jnt0 ELSE W.jnt[j]])]
       W3 == WakeAll(TLCEval(W2), others)
   IN [W3 EXCEPT !.body[b] = Body0]
OpSetActive(W,b,v) ==
   IF W.body[b].act = v THEN W
   ELSE IF v THEN LET W1 == [W EXCEPT !.body[b].act = TRUE]
                  IN [W1 EXCEPT !.body[b].slp = FALSE, !.body[b].tim = IF W.body[b].slp THEN 0 ELSE @]
   ELSE LET W1 == Sleep(W,b) IN Forget([W1 EXCEPT !.body[b].act = FALSE], ColsOf(W,b))
OpSetType(W,b,t) ==
   IF W.body[b].typ = t THEN W
   ELSE LET W1 == Wake(W,b)
            W2 == [W1 EXCEPT !.body[b].typ = t, !.body[b].vel = IF t = "S" THEN V0 ELSE @]
        IN IF W.body[b].act THEN W2 ELSE [W2 EXCEPT !.body[b].slp = (t # "S")]
OpSetTransform(W,b,pos,ori) == Wake([W EXCEPT !.body[b].pos = pos, !.body[b].ori = ori], b)
OpSetVel(W,b,v) ==
   IF W.body[b].typ = "S" THEN W
   ELSE LET W1 == [W EXCEPT !.body[b].vel = v] IN IF v # V0 THEN Wake(W1,b) ELSE W1
OpSetSleeping(W,b,v) == IF v THEN Sleep(W,b) ELSE Wake(W,b)
OpSetAllow(W,b,v) == LET W1 == [W EXCEPT !.body[b].alw = v] IN IF v THEN W1 ELSE Wake(W1,b)
OpEnableSleeping(W,v) == LET W1 == [W EXCEPT !.ss = v] IN IF v THEN W1 ELSE WakeAll(W1, BodEx(W))
OpAddCollider(W,b,c,k,off,rot,sim,trg,wq,cat,msk) ==
   [W EXCEPT !.col[c] = [own |-> b, shp |-> k, off |-> off, rot |-> rot, sim |-> sim, trg |-> trg, wq |-> wq,
                         cat |-> cat, msk |-> msk]]
OpRemoveCollider(W,c) == [Forget(WakeAll(W, Neighbours(W, W.col[c].own)),{c}) EXCEPT !.col[c] = Col0]
OpSetSim(W,c,v)  == [W EXCEPT !.col[c].sim = v, !.col[c].trg = IF v THEN FALSE ELSE @]
OpSetTrig(W,c,v) == [W EXCEPT !.col[c].trg = v, !.col[c].sim = IF v THEN FALSE ELSE @]
OpSetLocal(W,c,off,rot) == Wake([W EXCEPT !.col[c].off = off, !.col[c].rot = rot], W.col[c].own)
OpCreateJoint(W,j,a,b,cl,k) ==
   [W EXCEPT !.jnt[j] = [ex |-> TRUE, b1 |-> a, b2 |-> b, cl |-> cl, k |-> k],
             !.cut = IF cl THEN @ ELSE @ \cup {p \in W.prev : {W.col[p[1]].own, W.col[p[2]].own} = {a,b}}]
OpDestroyJoint(W,j) == WakeAll([W EXCEPT !.jnt[j] = Jnt0], {W.jnt[j].b1, W.jnt[j].b2})

\* ------------------------------------------------------------ one simulation step
\* colliders in contact in this step
Contacts(W) == { p \in Pairs(W) : /\ Elig(W,p[1],p[2]) /\ EnPair(W,p)
                                  /\ Reactive(W,p[1]) /\ Reactive(W,p[2]) /\ Touch(W,p[1],p[2]) }
\* pairs of which both bodies are at rest keep their status without being reported
Dormant(W)  == { p \in W.prev : Elig(W,p[1],p[2]) /\ ~EnPair(W,p) }
Ev(W,K) ==
   LET kind(p) == IF TrigPair(W,p) THEN "t" ELSE "c"
   IN { <<kind(p), "start", p[1], p[2]>> : p \in K \ W.prev }
      \cup { <<kind(p), "stay", p[1], p[2]>> : p \in K \cap W.prev }
      \cup { <<kind(p), "exit", p[1], p[2]>> : p \in W.prev \ (K \cup Dormant(W)) }
\* bodies linked by a contact that is solved or by a joint; static bodies do not link
Linked(W,K,a,b) ==
   /\ a # b /\ W.body[b].typ # "S" /\ W.body[a].typ # "S"
   /\ \/ \E p \in K : ~TrigPair(W,p) /\ {W.col[p[1]].own, W.col[p[2]].own} = {a,b}
      \/ \E j \in JId : W.jnt[j].ex /\ {W.jnt[j].b1, W.jnt[j].b2} = {a,b}
RECURSIVE Closure(_,_,_)
Closure(W,K,S) == LET T == S \cup {b \in BodEx(W) \ S : \E a \in S : Linked(W,K,a,b)}
                  IN IF T = S THEN S ELSE Closure(W,K,T)
Moving(W,b) == NormSq(W.body[b].vel) > W.thr * W.thr \/ ~W.body[b].alw
Update(W,dt) ==
   LET K    == TLCEval(Contacts(W))
       W1   == [W EXCEPT !.prev = K \cup Dormant(W), !.cut = {}]
       seed == {b \in BodEx(W) : Enabled(W,b)}
       live == TLCEval(Closure(W,K,seed))
       W2   == TLCEval(WakeAll(W1, live))
       W3   == TLCEval([W2 EXCEPT !.body = TLCEval([b \in BId |-> IF Enabled(W2,b)
                     THEN [W2.body[b] EXCEPT !.pos = VAdd(@, <<(W2.body[b].vel[1]*dt) \div 2,
                                                         (W2.body[b].vel[2]*dt) \div 2,
                                                         (W2.body[b].vel[3]*dt) \div 2>>)] ELSE W2.body[b]])])
       isl  == TLCEval([b \in live |-> Closure(W,K,{b})])
       W4   == TLCEval([W3 EXCEPT !.body = TLCEval([b \in BId |-> IF b \in live
                     THEN [W3.body[b] EXCEPT !.tim = IF Moving(W3,b) THEN 0 ELSE @ + dt] ELSE W3.body[b]])])
       rest == {b \in live : \A a \in isl[b] : ~Moving(W3,a) /\ W4.body[a].tim >= W.tbs}
   IN IF W.ss THEN SleepAll(W4, rest) ELSE W3

\* ------------------------------------------------------------ queries (they never change W)
QPair(W,p)  == Elig(W,p[1],p[2]) /\ W.col[p[1]].wq /\ W.col[p[2]].wq /\ Touch(W,p[1],p[2])
QOver(W)    == {p \in Pairs(W) : QPair(W,p)}
QColl(W)    == {p \in QOver(W) : ~TrigPair(W,p)}
OwnOf(W,p)  == {W.col[p[1]].own, W.col[p[2]].own}

\* a ray parallel to axis i, direction s, starting at o (quarter units), of length L
RayT1(W,c,n,o,i,s) ==   \* distance to the entry point into part n, or -1
   LET p   == Pose(W,c,n)
       lat(k) == Max2(0, Abs(p.m[k]-o[k]) - p.h[k])
       ls  == {k \in Ax : k # i}
       inside == IF p.r = 0 THEN \A k \in ls : Abs(p.m[k]-o[k]) < p.h[k]
                            ELSE \A k \in ls : lat(k) = 0
       t   == s*(p.m[i]-o[i]) - p.h[i] - p.r
       nrm == MV(CRot(W,c), <<0,1,0>>)
   IN IF IsCvx(W,c) THEN IF inside /\ t > 0 THEN t ELSE -1
      ELSE IF inside /\ nrm[i] = -s /\ t > 0 THEN t ELSE -1
RayT(W,c,o,i,s) ==    \* the closest part that is hit
   LET T == {RayT1(W,c,n,o,i,s) : n \in NPart(W,c)} \ {-1}
   IN IF T = {} THEN -1 ELSE CHOOSE t \in T : \A u \in T : t <= u
RayCands(W,o,i,s,L,mask) == { c \in ColEx(W) : /\ CB(W,c).act /\ W.col[c].wq
                                               /\ BitAnd(mask, W.col[c].cat) # 0
                                               /\ RayT(W,c,o,i,s) \in 1..(L-1) }
PointIn(W,c,x) ==
   LET p == Pose(W,c,1)
       g(k) == Max2(0, Abs(p.m[k]-x[k]) - p.h[k])
   IN IF ~IsCvx(W,c) THEN FALSE
      ELSE IF p.r = 0 THEN \A k \in Ax : Abs(p.m[k]-x[k]) < p.h[k]
      ELSE g(1)*g(1)+g(2)*g(2)+g(3)*g(3) < p.r*p.r
BoxOver(W,c,lo,hi) == \A k \in Ax : CLo(W,c)[k] < hi[k] /\ lo[k] < CHi(W,c)[k]

\* ------------------------------------------------------------ observation of the whole state
ObsB(W,b) == LET x == W.body[b] IN
   IF ~x.ex THEN <<>> ELSE <<x.act, x.typ, x.slp, x.alw, x.pos, x.ori, x.vel, Cardinality(ColsOf(W,b))>>
ObsC(W,c) == LET x == W.col[c] IN
   IF x.own = 0 THEN <<>> ELSE <<x.own, x.sim, x.trg, x.wq, x.cat, x.msk, x.off, x.rot,
                                 CLo(W,c), CHi(W,c)>>
Obs(W) == [b |-> TLCEval([b \in BId |-> ObsB(W,b)]), c |-> TLCEval([c \in CId |-> ObsC(W,c)]),
           n |-> <<Cardinality(BodEx(W)), W.ss>>]

Step(op, W2_) == LET W2 == TLCEval(W2_) IN
                /\ w' = W2
                /\ hist' = Append(hist, TLCEval(op @@ [o |-> Obs(W2)]))
                /\ UNCHANGED done
Query(op)    == w' = w /\ hist' = Append(hist, TLCEval(op @@ [o |-> Obs(w)])) /\ UNCHANGED done

\* ------------------------------------------------------------ random or exhaustive choice of arguments
Pick(S) == IF S = {} THEN {} ELSE IF Sim THEN {RandomElement(S)} ELSE S
PickPos == {<<x,y,z>> : x \in Pick(Xs), y \in Pick(Ys), z \in Pick(Zs)}
PickOri == IF Turns THEN Pick(Rots) ELSE {Id3}
PickVel == Pick(Vels)
Types   == {"S","K","D"}
Has(n)  == n \in Ops /\ ~done /\ (Sim => Len(hist) < D)
Exs     == BodEx(w)

\* Changing what a pair reports as while its contact is being lost is not exercised: the kind (contact or
\* trigger) of the last notification of such a pair is not specified.
FlagOK(c) == \A p \in w.prev : c \in {p[1],p[2]} => Elig(w,p[1],p[2])
\* A sleeping pair is not re-examined when it is separated by moving its static body and its filter then changes
FiltOK(c) == \A p \in w.prev : c \in {p[1],p[2]} => EnPair(w,p) \/ Touch(w,p[1],p[2])

\* Nor is the removal of a body or collider of which a sleeping neighbour's contact is being lost
\* (`cut': the contacts whose bodies have been joined without collision since the last step)
GoneOK(b) == \A p \in w.prev : b \in {w.col[p[1]].own, w.col[p[2]].own} => /\ EnPair(w,p) \/ Elig(w,p[1],p[2])
                                                                         /\ p \notin w.cut

NextSlot(S,used) == LET f == S \ used IN IF f = {} THEN {} ELSE IF Sim THEN {RandomElement(f)} ELSE {CHOOSE x \in f : \A y \in f : x <= y}

CreateBody == Has("createBody") /\ \E b \in NextSlot(BId, Exs), pos \in PickPos, ori \in PickOri :
   Step([op |-> "createBody", b |-> b, pos |-> pos, ori |-> ori], OpCreateBody(w,b,pos,ori))
DestroyBody == Has("destroyBody") /\ \E b \in Pick({x \in Exs : GoneOK(x)}) : Step([op |-> "destroyBody", b |-> b], OpDestroyBody(w,b))
SetActive == Has("setActive") /\ \E b \in Pick(Exs), v \in Pick(BOOLEAN) :
   Step([op |-> "setActive", b |-> b, v |-> v], OpSetActive(w,b,v))
SetType == Has("setType") /\ \E b \in Pick(Exs), t \in Pick(Types) :
   Step([op |-> "setType", b |-> b, t |-> t], OpSetType(w,b,t))
SetTransform == Has("setTransform") /\ \E b \in Pick(Exs), pos \in PickPos, ori \in PickOri :
   Step([op |-> "setTransform", b |-> b, pos |-> pos, ori |-> ori], OpSetTransform(w,b,pos,ori))
SetVel == Has("setVel") /\ \E b \in Pick({x \in Exs : ~w.body[x].slp \/ Sim}), v \in PickVel :
   /\ w.body[b].act
   /\ Step([op |-> "setVel", b |-> b, v |-> v], OpSetVel(w,b,v))
SetSleeping == Has("setSleeping") /\ \E b \in Pick(Exs), v \in Pick(BOOLEAN) :
   Step([op |-> "setSleeping", b |-> b, v |-> v], OpSetSleeping(w,b,v))
SetAllow == Has("setAllow") /\ \E b \in Pick(Exs), v \in Pick(BOOLEAN) :
   Step([op |-> "setAllow", b |-> b, v |-> v], OpSetAllow(w,b,v))
EnableSleeping == Has("enableSleeping") /\ \E v \in Pick(BOOLEAN) :
   Step([op |-> "enableSleeping", v |-> v], OpEnableSleeping(w,v))
SetSleepCfg == Has("setSleepCfg") /\ \E t \in Pick({0,1,2,3}), h \in Pick({0,3}) :
   Step([op |-> "setSleepCfg", t |-> t, h |-> h], [w EXCEPT !.tbs = t, !.thr = h])
InitFlags == CASE FlagMode = "sim"  -> {<<TRUE,FALSE>>}
               [] FlagMode = "trig" -> {<<FALSE,TRUE>>, <<TRUE,FALSE>>}
               [] OTHER -> {<<FALSE,TRUE>>, <<TRUE,FALSE>>, <<FALSE,FALSE>>, <<TRUE,FALSE>>}
AddCollider == Has("addCollider") /\ \E b \in Pick(Exs), c \in NextSlot(CId, ColEx(w)), k \in Pick(Kinds), off \in Pick(Offs),
                  rot \in PickOri, f \in Pick(InitFlags), wq \in Pick(IF "setWQ" \in Ops THEN BOOLEAN ELSE {TRUE}),
                  cat \in Pick(Cats), msk \in Pick(Masks) :
   Step([op |-> "addCollider", b |-> b, c |-> c, k |-> k, off |-> off, rot |-> rot, sim |-> f[1], trg |-> f[2], wq |-> wq,
         cat |-> cat, msk |-> msk], OpAddCollider(w,b,c,k,off,rot,f[1],f[2],wq,cat,msk))
RemoveCollider == Has("removeCollider") /\ \E c \in Pick({x \in ColEx(w) : GoneOK(w.col[x].own)}) :
   Step([op |-> "removeCollider", c |-> c], OpRemoveCollider(w,c))
SetSim == Has("setSim") /\ \E c \in Pick({x \in ColEx(w) : FlagOK(x)}), v \in Pick(BOOLEAN) :
   Step([op |-> "setSim", c |-> c, v |-> v], OpSetSim(w,c,v))
SetTrig == Has("setTrig") /\ \E c \in Pick({x \in ColEx(w) : FlagOK(x)}), v \in Pick(BOOLEAN) :
   Step([op |-> "setTrig", c |-> c, v |-> v], OpSetTrig(w,c,v))
SetWQ == Has("setWQ") /\ \E c \in Pick(ColEx(w)), v \in Pick(BOOLEAN) :
   Step([op |-> "setWQ", c |-> c, v |-> v], [w EXCEPT !.col[c].wq = v])
SetCat == Has("setCat") /\ \E c \in Pick({x \in ColEx(w) : FiltOK(x)}), v \in Pick(Cats) :
   Step([op |-> "setCat", c |-> c, v |-> v], [w EXCEPT !.col[c].cat = v])
SetMask == Has("setMask") /\ \E c \in Pick({x \in ColEx(w) : FiltOK(x)}), v \in Pick(Masks) :
   Step([op |-> "setMask", c |-> c, v |-> v], [w EXCEPT !.col[c].msk = v])
SetLocal == Has("setLocal") /\ \E c \in Pick(ColEx(w)), off \in Pick(Offs), rot \in PickOri :
   Step([op |-> "setLocal", c |-> c, off |-> off, rot |-> rot], OpSetLocal(w,c,off,rot))
CreateJoint == Has("createJoint") /\ \E j \in NextSlot(JId, {x \in JId : w.jnt[x].ex}), a \in Pick(Exs), b \in Pick(Exs),
                  cl \in Pick(BOOLEAN), k \in Pick({"F","B","H","S"}) :
   /\ a # b
   /\ Step([op |-> "createJoint", j |-> j, a |-> a, b |-> b, cl |-> cl, k |-> k], OpCreateJoint(w,j,a,b,cl,k))
DestroyJoint == Has("destroyJoint") /\ \E j \in Pick({x \in JId : w.jnt[x].ex}) :
   Step([op |-> "destroyJoint", j |-> j], OpDestroyJoint(w,j))
DoUpdate == Has("update") /\ \E dt \in Pick(IF Sim THEN {1,1,2} ELSE {1}) :
   LET W2 == TLCEval(Update(w,dt)) IN
   /\ \A b \in BId : \A k \in Ax : Abs(W2.body[b].pos[k]) < 100
   /\ w' = W2
   /\ hist' = Append(hist, [op |-> "update", dt |-> dt, o |-> TLCEval(Obs(W2) @@ [s_ev |-> Ev(w, Contacts(w))])])
   /\ UNCHANGED done
DoUpdate2 == DoUpdate
DoUpdate3 == DoUpdate

QTestOverlap2 == Has("testOverlap") /\ \E a \in Pick(Exs), b \in Pick(Exs) : a # b /\
   Query([op |-> "testOverlap2", a |-> a, b |-> b, r |-> \E p \in QOver(w) : OwnOf(w,p) = {a,b}])
QTestOverlap1 == Has("testOverlap") /\ \E a \in Pick(Exs) :
   Query([op |-> "testOverlap1", a |-> a, s_r |-> {p \in QOver(w) : a \in OwnOf(w,p)}])
QTestOverlap0 == Has("testOverlap") /\ Query([op |-> "testOverlap0", s_r |-> QOver(w)])
QTestColl2 == Has("testCollision") /\ \E a \in Pick(Exs), b \in Pick(Exs) : a # b /\
   Query([op |-> "testCollision2", a |-> a, b |-> b, s_r |-> {p \in QColl(w) : OwnOf(w,p) = {a,b}}])
QTestColl1 == Has("testCollision") /\ \E a \in Pick(Exs) :
   Query([op |-> "testCollision1", a |-> a, s_r |-> {p \in QColl(w) : a \in OwnOf(w,p)}])
QTestColl0 == Has("testCollision") /\ Query([op |-> "testCollision0", s_r |-> QColl(w)])

Hit(W,c,o,i,s) == LET t == RayT(W,c,o,i,s) IN <<c, t, VAdd(o, TupOf(Unit(i, s*t))), TupOf(Unit(i,-s))>>
Ray(mode) == \E x \in PickPos, i \in Pick(Ax), s \in Pick({-1,1}), L \in Pick({32,64}), hf \in Pick({1,1,2}), m \in Pick(Masks \cup {65535}) :
   LET c4 == VScale(4,x)
       o  == [c4 EXCEPT ![i] = -s*(IF L = 32 THEN 16 ELSE 28)]
       H  == { Hit(w,c,o,i,s) : c \in RayCands(w,o,i,s,L \div hf,m) }
       mn == {h \in H : \A g \in H : h[2] <= g[2]}
       base == [op |-> "ray", from |-> o, ax |-> i, sg |-> s, len |-> L, hf |-> hf, mask |-> m, mode |-> mode]
   IN CASE mode = "all"  -> Query(base @@ [s_r |-> H])
        [] mode = "close"-> Query(base @@ [one |-> mn])
        [] mode = "stop" -> Query(base @@ [one |-> H])
        [] OTHER -> \E c \in Pick(CId) : Query(base @@ [ign |-> c, one |-> LET H2 == {h \in H : h[1] # c} IN {h \in H2 : \A g \in H2 : h[2] <= g[2]}])
QRayAll  == Has("ray") /\ Ray("all")
QRayCl   == Has("ray") /\ Ray("close")
QRayStop == Has("ray") /\ Ray("stop")
QRayIgn  == Has("ray") /\ Ray("ignore")
QRayCol  == Has("ray") /\ \E c \in Pick(ColEx(w)), x \in PickPos, i \in Pick(Ax), s \in Pick({-1,1}), L \in Pick({32,64}), hf \in Pick({1,2}) :
   LET o == [VScale(4,x) EXCEPT ![i] = -s*(IF L = 32 THEN 16 ELSE 28)]
       hit == CB(w,c).act /\ RayT(w,c,o,i,s) \in 1..(L \div hf - 1)
   IN Query([op |-> "rayCol", c |-> c, from |-> o, ax |-> i, sg |-> s, len |-> L, hf |-> hf,
             r |-> IF hit THEN Hit(w,c,o,i,s) ELSE <<>>])
QRayBody == Has("ray") /\ \E b \in Pick(Exs), x \in PickPos, i \in Pick(Ax), s \in Pick({-1,1}), L \in Pick({32,64}), hf \in Pick({1,2}) :
   LET o == [VScale(4,x) EXCEPT ![i] = -s*(IF L = 32 THEN 16 ELSE 28)]
       H == { Hit(w,c,o,i,s) : c \in {d \in ColsOf(w,b) : w.body[b].act /\ RayT(w,d,o,i,s) \in 1..(L \div hf - 1)} }
   IN Query([op |-> "rayBody", b |-> b, from |-> o, ax |-> i, sg |-> s, len |-> L, hf |-> hf,
             one |-> {h \in H : \A g \in H : h[2] <= g[2]}])
QPoint == Has("point") /\ \E x \in PickPos, d \in Pick({<<0,0,0>>,<<2,0,0>>,<<0,2,0>>,<<2,2,0>>,<<2,2,2>>,<<0,-2,2>>}), b \in Pick(Exs) :
   LET p == VAdd(VScale(4,x), d) IN
   Query([op |-> "point", b |-> b, p |-> p, s_r |-> {c \in ColsOf(w,b) : PointIn(w,c,p)}])
QAabb == Has("aabb") /\ \E x \in PickPos, y \in PickPos, b \in Pick({z \in Exs : ColsOf(w,z) # {} /\ \A c \in ColsOf(w,z) : IsCvx(w,c)}) :
   LET lo == <<4*Min2(x[1],y[1])-2, 4*Min2(x[2],y[2])-2, 4*Min2(x[3],y[3])-2>>
       hi == <<4*Max2(x[1],y[1])+2, 4*Max2(x[2],y[2])+2, 4*Max2(x[3],y[3])+2>>
       cs == ColsOf(w,b)
       bl == [k \in Ax |-> CHOOSE v \in {CLo(w,c)[k] : c \in cs} : \A c \in cs : v <= CLo(w,c)[k]]
       bh == [k \in Ax |-> CHOOSE v \in {CHi(w,c)[k] : c \in cs} : \A c \in cs : v >= CHi(w,c)[k]]
   IN Query([op |-> "aabb", b |-> b, lo |-> lo, hi |-> hi, s_r |-> {c \in cs : BoxOver(w,c,lo,hi)},
             ab |-> <<TupOf(bl), TupOf(bh)>>])

Finish == /\ Sim /\ ~done /\ Len(hist) >= D
          /\ PrintT("@@" \o ToJson(hist))
          /\ done' = TRUE /\ UNCHANGED <<w, hist>>
Halt == done /\ UNCHANGED vars

Init == w = W0 /\ hist = <<>> /\ done = FALSE
Next == \/ CreateBody \/ DestroyBody \/ SetActive \/ SetType \/ SetTransform \/ SetVel \/ SetSleeping \/ SetAllow
        \/ EnableSleeping \/ SetSleepCfg \/ AddCollider \/ RemoveCollider \/ SetSim \/ SetTrig \/ SetWQ \/ SetCat \/ SetMask
        \/ SetLocal \/ CreateJoint \/ DestroyJoint \/ DoUpdate \/ DoUpdate2 \/ DoUpdate3
        \/ QTestOverlap2 \/ QTestOverlap1 \/ QTestOverlap0 \/ QTestColl2 \/ QTestColl1 \/ QTestColl0
        \/ QRayAll \/ QRayCl \/ QRayStop \/ QRayIgn \/ QRayCol \/ QRayBody \/ QPoint \/ QAabb \/ Finish
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Exhaustive exploration (Sim = FALSE): every reachable state from all    *)
(* the ways of having two bodies with a collider each; each transition is  *)
(* printed with the calls that lead to it and replayed into the library.   *)
(***************************************************************************)
MkC(b,c,k,f) == [op |-> "addCollider", b |-> b, c |-> c, k |-> k, off |-> V0, rot |-> Id3, sim |-> f[1], trg |-> f[2], wq |-> TRUE,
                 cat |-> 1, msk |-> 65535]
DoC(W,o) == OpAddCollider(W,o.b,o.c,o.k,o.off,o.rot,o.sim,o.trg,o.wq,o.cat,o.msk)
Init2 == \E x1 \in Xs, x2 \in Xs, k1 \in Kinds, k2 \in Kinds, f1 \in InitFlags, f2 \in InitFlags :
   LET p1 == <<x1,0,0>>  p2 == <<x2,0,0>>
       o1 == [op |-> "createBody", b |-> 1, pos |-> p1, ori |-> Id3]
       o2 == [op |-> "createBody", b |-> 2, pos |-> p2, ori |-> Id3]
       o3 == MkC(1,1,k1,f1)  o4 == MkC(2,2,k2,f2)
       w1 == OpCreateBody(W0,1,p1,Id3)  w2 == OpCreateBody(w1,2,p2,Id3)  w3 == DoC(w2,o3)  w4 == TLCEval(DoC(w3,o4))
   IN /\ x1 <= x2 /\ w = w4 /\ done = FALSE
      /\ hist = TLCEval(<< o1 @@ [o |-> Obs(w1)], o2 @@ [o |-> Obs(w2)], o3 @@ [o |-> Obs(w3)], o4 @@ [o |-> Obs(w4)] >>)
Spec2 == Init2 /\ [][Next]_vars
View  == w
Emit  == PrintT("@@" \o ToJson(hist'))
Bound == /\ \A b \in BId : w.body[b].tim <= 3 /\ \A k \in Ax : Abs(w.body[b].pos[k]) <= 2
         /\ Len(hist) < D

\* ---- what the specification promises
TypeOK == \A b \in BId : LET x == w.body[b] IN x.typ \in Types /\ x.act \in BOOLEAN /\ x.slp \in BOOLEAN /\ (~x.ex => x = Body0)
\* a sleeping body does not move; a static body neither sleeps nor moves while it is active
RestInv == \A b \in BId : LET x == w.body[b] IN /\ (x.ex /\ x.act /\ x.slp) => (x.vel = V0 /\ x.typ # "S")
                                                /\ x.typ = "S" => x.vel = V0
\* the pairs that are known to be in contact belong to existing colliders of different active bodies
PrevInv == \A p \in w.prev : /\ p[1] < p[2] /\ p[1] \in ColEx(w) /\ p[2] \in ColEx(w)
                             /\ CB(w,p[1]).act /\ CB(w,p[2]).act /\ w.col[p[1]].own # w.col[p[2]].own
JntInv  == \A j \in JId : w.jnt[j].ex => {w.jnt[j].b1, w.jnt[j].b2} \subseteq Exs
ColInv  == \A c \in ColEx(w) : w.col[c].own \in Exs /\ ~(w.col[c].sim /\ w.col[c].trg)
\* the event protocol, over every step: a pair starts only when it is not in contact, stays or exits only when it is,
\* is in contact afterwards exactly when it started or did not exit, and no pair has two events in one step
LastEv == LET r == hist'[Len(hist')] IN r.o.s_ev
Protocol == [][ (hist' # hist /\ hist'[Len(hist')].op = "update") =>
                LET E == LastEv
                    P(k) == { <<e[3],e[4]>> : e \in {x \in E : x[2] = k} }
                IN /\ P("start") \cap w.prev = {} /\ P("stay") \subseteq w.prev /\ P("exit") \subseteq w.prev
                   /\ Cardinality(E) = Cardinality(P("start") \cup P("stay") \cup P("exit"))
                   /\ w'.prev = (w.prev \cup P("start")) \ P("exit")
                   /\ \A e \in E : e[2] # "exit" => (e[1] = "t") = TrigPair(w, <<e[3],e[4]>>) ]_vars
\* only a simulation step opens contacts; other calls can only forget them
OnlyUpdateOpens == [][ (hist' # hist /\ hist'[Len(hist')].op # "update") => w'.prev \subseteq w.prev ]_vars
=============================================================================
