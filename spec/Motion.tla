------------------------------- MODULE Motion -------------------------------
(***************************************************************************)
(* Bodies that move freely: forces, torques, gravity, damping, locked      *)
(* axes, mass properties and the integrator, in exact rational arithmetic. *)
(*                                                                         *)
(* The bodies are far apart, so nothing touches.  The integrator turns a   *)
(* body by normalising q + dt/2 w q: with |w dt| = 2 along an axis that is *)
(* exactly a quarter turn and with w dt = (2,2,2) a third of a turn, so    *)
(* with those angular velocities (module constant WV, dt = 1/2) all        *)
(* orientations stay rotations of the cube and every quantity is rational. *)
(* Orientations may start at the angle of a 3-4-5 triangle, so they are   *)
(* matrices of fifths.                                                     *)
(* An update is only taken when every body has such an angular velocity    *)
(* after it; Steer finds the torque that makes it so.                      *)
(***************************************************************************)
EXTENDS Rat, TLC, Json
CONSTANTS NB, NC, D, Sim, Ops
VARIABLES w, hist, done
vars == <<w, hist, done>>
BId == 1..NB
CId == 1..NC
Mod(a,b) == a - b*(a \div b)

DT == <<1,2>>
\* angular velocities of which half a second is exactly a rotation of the cube
WV == {V0} \cup {TupOf(Unit(i,s)) : i \in Ax, s \in {-4,4}} \cup {<<a,b,c>> : a \in {-4,4}, b \in {-4,4}, c \in {-4,4}}
\* rotation matrix of the turn made in half a second: the quaternion (1, u), u = w/4, normalised
TurnOf(v) == LET u == <<v[1] \div 4, v[2] \div 4, v[3] \div 4>>  nn == NormSq(u)
                 e(i,j) == LET k == IF i = j THEN 0 ELSE 6-i-j
                               eps == IF i = j THEN 0 ELSE IF <<i,j>> \in {<<1,2>>,<<2,3>>,<<3,1>>} THEN -1 ELSE 1
                               x == (IF i = j THEN 1 - nn ELSE 0) + 2*u[i]*u[j] + (IF k = 0 THEN 0 ELSE 2*eps*u[k])
                           IN (x) \div (1+nn)
             IN << <<e(1,1),e(1,2),e(1,3)>>, <<e(2,1),e(2,2),e(2,3)>>, <<e(3,1),e(3,2),e(3,3)>> >>

\* Orientations are rotation matrices times five: those of the cube, and the ones turned further by the angle of the
\* 3-4-5 triangle (for which the world inertia tensor is not diagonal)
M5(M) == << VScale(5,M[1]), VScale(5,M[2]), VScale(5,M[3]) >>
Id5 == M5(Id3)
Tilts == { << <<3,-4,0>>, <<4,3,0>>, <<0,0,5>> >>, << <<5,0,0>>, <<0,3,-4>>, <<0,4,3>> >> }
ORot(M,v) == QScale(<<1,5>>, QRot(M,v))

\* ---------------------------------------------------------------- shapes
Dims == [ box |-> {<<1,1,1>>, <<1,2,1>>, <<2,1,3>>}, hul |-> {<<1,1,1>>, <<2,1,1>>, <<1,2,2>>}, sph |-> {<<1,0,0>>, <<2,0,0>>},
          cap |-> {<<1,4,0>>, <<2,8,0>>}, msh |-> {<<1,1,1>>, <<2,1,2>>} ]
Kinds == {"box","hul","sph","cap","msh"}
\* volume (of round shapes: divided by pi)
Vol(k,d) == CASE k \in {"box","hul","msh"} -> R(8*d[1]*d[2]*d[3])
              [] k = "sph" -> Rat2(4*d[1]*d[1]*d[1],3)
              [] k = "cap" -> RAdd(Rat2(4*d[1]*d[1]*d[1],3), R(d[1]*d[1]*d[2]))
\* inertia of a solid of mass 1 about its centre
Inr(k,d) == CASE k \in {"box","hul"} -> <<Rat2(d[2]*d[2]+d[3]*d[3],3), Rat2(d[1]*d[1]+d[3]*d[3],3), Rat2(d[1]*d[1]+d[2]*d[2],3)>>
              [] k = "sph" -> LET x == Rat2(2*d[1]*d[1],5) IN <<x,x,x>>
              [] k = "msh" -> <<R(1),R(1),R(1)>>
              [] k = "cap" -> LET r == d[1]  h == d[2]  q == 4*r+3*h
                                  ms == Rat2(4*r,q)  mc == Rat2(3*h,q)      \* the two half balls, the cylinder
                                  sx == RAdd(RAdd(Rat2(2*r*r,5), Rat2(3*h*r,8)), Rat2(h*h,4))
                                  cx == RAdd(Rat2(r*r,4), Rat2(h*h,12))
                                  X == RAdd(RMul(ms,sx), RMul(mc,cx))
                                  Y == RAdd(RMul(ms,Rat2(2*r*r,5)), RMul(mc,Rat2(r*r,2)))
                              IN <<X,Y,X>>

Body0 == [ex |-> FALSE, act |-> TRUE, typ |-> "D", slp |-> FALSE, com |-> RV0, ori |-> Id5, cl |-> RV0, v |-> RV0, w |-> V0, F |-> RV0, T |-> RV0,
          m |-> R(1), I |-> RV(<<1,1,1>>), gr |-> TRUE, ld |-> 0, ad |-> 0, ll |-> <<1,1,1>>, al |-> <<1,1,1>>]
Col0 == [own |-> 0, k |-> "box", d |-> <<1,1,1>>, off |-> V0, rot |-> Id3, rho |-> R(1)]
W0 == [b |-> TLCEval([x \in BId |-> Body0]), c |-> TLCEval([x \in CId |-> Col0]), g |-> <<0,-8,0>>, ge |-> TRUE]

Exs == {x \in BId : w.b[x].ex}
ColEx == {c \in CId : w.c[c].own # 0}
ColsOf(W,x) == {c \in CId : W.c[c].own = x}
Pos(B) == QSub(B.com, ORot(B.ori, B.cl))
Live(B) == B.ex /\ B.act /\ B.typ # "S" /\ ~B.slp
Dyn(B) == B.typ = "D"

\* ---------------------------------------------------------------- mass properties from colliders
CMass(W,c) == RMul(W.c[c].rho, Vol(W.c[c].k, W.c[c].d))
RECURSIVE MassOf(_,_)
MassOf(W,S) == IF S = {} THEN Rz ELSE LET c == CHOOSE x \in S : TRUE IN RAdd(CMass(W,c), MassOf(W, S \ {c}))
RECURSIVE MomOf(_,_)
MomOf(W,S) == IF S = {} THEN RV0 ELSE LET c == CHOOSE x \in S : TRUE IN QAdd(QScale(CMass(W,c), RV(W.c[c].off)), MomOf(W, S \ {c}))
ComOf(W,x) == LET S == ColsOf(W,x)  m == MassOf(W,S) IN IF m[1] = 0 THEN RV0 ELSE QScale(RInv(m), MomOf(W,S))
\* inertia of a collider in the frame of the body: the rotation permutes the axes; then Steiner's theorem
CIn(W,c,cl) == LET C == W.c[c]  m == CMass(W,c)  i0 == Inr(C.k,C.d)
                   sq(M) == << <<M[1][1]*M[1][1],M[1][2]*M[1][2],M[1][3]*M[1][3]>>, <<M[2][1]*M[2][1],M[2][2]*M[2][2],M[2][3]*M[2][3]>>,
                               <<M[3][1]*M[3][1],M[3][2]*M[3][2],M[3][3]*M[3][3]>> >>
                   i1 == QRot(sq(C.rot), i0)
                   o == QSub(RV(C.off), cl)
                   o2 == QHad(o,o)
                   st == <<RAdd(o2[2],o2[3]), RAdd(o2[1],o2[3]), RAdd(o2[1],o2[2])>>
               IN QScale(m, QAdd(i1, st))
RECURSIVE InOf(_,_,_)
InOf(W,S,cl) == IF S = {} THEN RV0 ELSE LET c == CHOOSE x \in S : TRUE IN QAdd(CIn(W,c,cl), InOf(W, S \ {c}, cl))
MassOK(W,x) == /\ \A c \in ColsOf(W,x) : RIn(CMass(W,c),12,8)
               /\ LET m == MassOf(W,ColsOf(W,x)) IN m[2] = 1 /\ m[1] \in {0,1,2,3,4,5,6,8}

\* the velocity at the new centre of mass of the same motion
SetCl(B,cl) == LET nc == QAdd(Pos(B), ORot(B.ori,cl)) IN
               [B EXCEPT !.cl = cl, !.com = nc, !.v = QAdd(B.v, QCross(RV(B.w), QSub(nc, B.com)))]

\* ---------------------------------------------------------------- one step
Grow(B,T) == LET tl == ORot(Tr(B.ori), T)        \* change of the angular velocity caused by torque T during a step
                 dl == [i \in Ax |-> IF ~Dyn(B) \/ B.I[i][1] = 0 THEN Rz ELSE RMul(DT, RDiv(tl[i], B.I[i]))]
             IN QHad(RV(B.al), ORot(B.ori, TupOf(dl)))
NextW(B) == QScale(RInv(RAdd(R(1), RMul(DT,R(B.ad)))), QAdd(RV(B.w), Grow(B,B.T)))
ValidW(q) == \A i \in Ax : q[i][2] = 1
NextWI(B) == LET q == NextW(B) IN IF ValidW(q) THEN <<q[1][1],q[2][1],q[3][1]>> ELSE <<1,1,1>>
NextV(W,B) == LET im == IF Dyn(B) /\ B.m[1] # 0 THEN RInv(B.m) ELSE Rz
                  a1 == QScale(RMul(DT,im), QHad(RV(B.ll), B.F))
                  a2 == IF W.ge /\ B.gr /\ im[1] # 0 THEN QScale(DT, QHad(RV(B.ll), RV(W.g))) ELSE RV0
              IN QScale(RInv(RAdd(R(1), RMul(DT,R(B.ld)))), QAdd(B.v, QAdd(a1,a2)))
StepB(W,B) == LET B1 == [B EXCEPT !.F = RV0, !.T = RV0] IN
   IF ~B.ex THEN B ELSE IF ~Live(B) THEN B1
   ELSE LET nv == NextV(W,B)  nw == NextWI(B)
        IN [B1 EXCEPT !.v = nv, !.w = nw, !.com = QAdd(B.com, QScale(DT,nv)), !.ori = MM(TurnOf(nw), B.ori)]
StepOK(W,B) == LET N == TLCEval(StepB(W,B)) IN /\ N.w \in WV /\ QIn(N.v,60,512) /\ QIn(N.com,40,512)

\* ---------------------------------------------------------------- observation
ObsB(W,x) == LET B == W.b[x] IN IF ~B.ex THEN <<>> ELSE
   [s |-> <<B.act, B.typ, B.slp, B.gr>>, q_p |-> TLCEval(Pos(B)), ori |-> B.ori, q_v |-> B.v, q_w |-> RV(B.w), q_F |-> B.F, q_T |-> B.T, q_m |-> B.m, q_I |-> B.I, q_cl |-> B.cl,
    q_d |-> <<R(B.ld), R(B.ad)>>, ll |-> B.ll, al |-> B.al]
ObsC(W,c) == LET C == W.c[c] IN IF C.own = 0 THEN <<>> ELSE
   [own |-> C.own, q_p |-> TLCEval(QAdd(Pos(W.b[C.own]), ORot(W.b[C.own].ori, RV(C.off)))), ori |-> MM(W.b[C.own].ori, C.rot), off |-> C.off, rot |-> C.rot]
Obs(W) == [b |-> TLCEval([x \in BId |-> ObsB(W,x)]), c |-> TLCEval([x \in CId |-> ObsC(W,x)]), g |-> W.g, ge |-> W.ge]

GoodB(B) == QIn(B.F,200,64) /\ QIn(B.T,300,400) /\ QIn(B.v,60,512) /\ QIn(B.com,40,512) /\ QIn(B.cl,20,16) /\ QIn(B.I,60000,4000)
Do(op, W2_) == LET W2 == TLCEval(W2_) IN
   /\ w' = W2 /\ hist' = Append(hist, TLCEval(op @@ [o |-> Obs(W2)])) /\ UNCHANGED done
Upd(op, x, B2_) == LET B2 == TLCEval(B2_) IN GoodB(B2) /\ Do(op, [w EXCEPT !.b[x] = B2])
Query(op) == w' = w /\ hist' = Append(hist, op) /\ UNCHANGED done

Pick(S) == IF S = {} THEN {} ELSE IF Sim THEN {RandomElement(S)} ELSE S
PickOri == IF "tilt" \in Ops THEN {MM(A,B) : A \in Pick(Rots), B \in Pick(Tilts \cup {Id5})} ELSE {M5(A) : A \in Pick(Rots)}
Has(n) == n \in Ops /\ ~done /\ Len(hist) < D
Box3(n) == {<<x,y,z>> : x \in -n..n, y \in -n..n, z \in -n..n}
SV == IF Sim THEN {<<x,y,z>> : x \in {-2,0,2}, y \in {-4,0,3}, z \in {0,2}} ELSE {V0, <<2,-4,0>>}
WS == IF Sim THEN WV ELSE {V0, <<4,0,0>>, <<0,0,-4>>, <<4,-4,4>>}
Ax01 == {<<x,y,z>> : x \in {0,1}, y \in {0,1}, z \in {0,1}}

Wake(B) == IF B.act /\ B.typ # "S" THEN [B EXCEPT !.slp = FALSE] ELSE B
Rest(B) == [B EXCEPT !.slp = TRUE, !.v = RV0, !.w = V0, !.F = RV0, !.T = RV0]
Ok == {x \in Exs : w.b[x].act}

Create == Has("make") /\ \E x \in Pick(BId \ Exs), p \in Pick(Box3(2)), o \in PickOri :
   Do([op |-> "createBody", b |-> x, p |-> p, ori |-> o], [w EXCEPT !.b[x] = [Body0 EXCEPT !.ex = TRUE, !.com = RV(p), !.ori = o]])
Destroy == Has("destroy") /\ \E x \in Pick(Exs) :
   Do([op |-> "destroyBody", b |-> x], [w EXCEPT !.b[x] = Body0, !.c = TLCEval([c \in CId |-> IF w.c[c].own = x THEN Col0 ELSE w.c[c]])])
AddCol == Has("collider") /\ \E x \in Pick(Exs), c \in Pick(CId \ ColEx), k \in Pick(Kinds) : \E d \in Pick(Dims[k]), off \in Pick(Box3(2)), rot \in Pick(Rots), m \in Pick({0,1,1,2,4}) :
   /\ Cardinality(ColsOf(w,x)) < 3
   /\ LET rho == RDiv(R(m), Vol(k,d)) IN
      Do([op |-> "addCollider", b |-> x, c |-> c, k |-> k, d |-> d, off |-> off, rot |-> rot, rho |-> rho],
         [w EXCEPT !.c[c] = [own |-> x, k |-> k, d |-> d, off |-> off, rot |-> rot, rho |-> rho]])
RemCol == Has("collider") /\ \E c \in Pick(ColEx) : Do([op |-> "removeCollider", c |-> c], [w EXCEPT !.c[c] = Col0])
SetLocal == Has("collider") /\ \E c \in Pick(ColEx), off \in Pick(Box3(2)), rot \in Pick(Rots) :
   Do([op |-> "setLocal", c |-> c, off |-> off, rot |-> rot], [w EXCEPT !.c[c].off = off, !.c[c].rot = rot, !.b[w.c[c].own] = Wake(@)])
SetDens == Has("collider") /\ \E c \in Pick(ColEx), m \in Pick({0,1,2,4}) : LET rho == RDiv(R(m), Vol(w.c[c].k, w.c[c].d)) IN
   Do([op |-> "setDensity", c |-> c, k |-> w.c[c].k, rho |-> rho], [w EXCEPT !.c[c].rho = rho])
Resize == Has("resize") /\ \E c \in Pick(ColEx) : \E d \in Pick(Dims[w.c[c].k]) :
   Do([op |-> "resize", c |-> c, k |-> w.c[c].k, d |-> d], [w EXCEPT !.c[c].d = d])
\* mass properties
UpCom == Has("mass") /\ \E x \in Pick(Exs) : MassOK(w,x) /\ Upd([op |-> "upCom", b |-> x], x, SetCl(w.b[x], ComOf(w,x)))
UpIn  == Has("mass") /\ \E x \in Pick(Exs) : MassOK(w,x) /\ Upd([op |-> "upInertia", b |-> x], x, [w.b[x] EXCEPT !.I = InOf(w, ColsOf(w,x), w.b[x].cl)])
UpMass == Has("mass") /\ \E x \in Pick(Exs) : MassOK(w,x) /\ Upd([op |-> "upMass", b |-> x], x, [w.b[x] EXCEPT !.m = MassOf(w, ColsOf(w,x))])
UpAll == Has("mass") /\ \E x \in Pick(Exs) : MassOK(w,x) /\ (w.b[x].typ = "K" => w.b[x].w = V0) /\
   LET cl == TLCEval(ComOf(w,x)) IN
   Upd([op |-> "upAll", b |-> x], x, [SetCl(w.b[x], cl) EXCEPT !.I = InOf(w, ColsOf(w,x), cl), !.m = MassOf(w, ColsOf(w,x))])
UpAll2 == UpAll
SetMass == Has("mass") /\ \E x \in Pick(Exs), m \in Pick({-1,0,1,2,4}) : Upd([op |-> "setMass", b |-> x, m |-> m], x, IF m < 0 THEN w.b[x] ELSE [w.b[x] EXCEPT !.m = R(m)])
SetIn == Has("mass") /\ \E x \in Pick(Exs), i \in Pick({<<1,2,4>>,<<2,2,1>>,<<0,1,2>>,<<3,0,1>>,<<0,0,0>>,<<1,1,1>>,<<3,1,2>>}) :
   Upd([op |-> "setInertia", b |-> x, v |-> i], x, [w.b[x] EXCEPT !.I = RV(i)])
SetCom == Has("mass") /\ \E x \in Pick(Exs), p \in Pick(Box3(2)) : Upd([op |-> "setCom", b |-> x, v |-> p], x, SetCl(w.b[x], RV(p)))
\* settings
SetLL == Has("lock") /\ \E x \in Pick(Exs), l \in Pick(Ax01) : Upd([op |-> "setLL", b |-> x, v |-> l], x, [w.b[x] EXCEPT !.ll = l])
SetAL == Has("lock") /\ \E x \in Pick(Exs), l \in Pick(Ax01) : Upd([op |-> "setAL", b |-> x, v |-> l], x, [w.b[x] EXCEPT !.al = l])
SetLD == Has("damp") /\ \E x \in Pick(Exs), n \in Pick({0,2,6}) : Upd([op |-> "setLD", b |-> x, n |-> n], x, [w.b[x] EXCEPT !.ld = n])
SetAD == Has("damp") /\ \E x \in Pick(Exs), n \in Pick({0,0,2}) : Upd([op |-> "setAD", b |-> x, n |-> n], x, [w.b[x] EXCEPT !.ad = n])
BGrav == Has("grav") /\ \E x \in Pick(Exs), v \in Pick(BOOLEAN) : Upd([op |-> "bodyGravity", b |-> x, v |-> v], x, [w.b[x] EXCEPT !.gr = v])
WGrav == Has("grav") /\ \E v \in Pick(BOOLEAN) : Do([op |-> "worldGravity", v |-> v], [w EXCEPT !.ge = v])
SetG == Has("grav") /\ \E g \in Pick(IF Sim THEN Box3(1) ELSE {<<0,-1,0>>, <<1,0,-1>>}) : LET v == VScale(8,g) IN Do([op |-> "setGravity", v |-> v], [w EXCEPT !.g = v])
\* motion
SetV == Has("vel") /\ \E x \in Pick(Ok), v \in Pick(SV) : Upd([op |-> "setVel", b |-> x, v |-> v], x,
   IF w.b[x].typ = "S" THEN w.b[x] ELSE LET B == [w.b[x] EXCEPT !.v = RV(v)] IN IF v = V0 THEN B ELSE Wake(B))
SetW == Has("vel") /\ \E x \in Pick(Ok), v \in Pick(WS) : Upd([op |-> "setAngVel", b |-> x, v |-> v], x,
   IF w.b[x].typ = "S" THEN w.b[x] ELSE LET B == [w.b[x] EXCEPT !.w = v] IN IF v = V0 THEN B ELSE Wake(B))
SetT == Has("transform") /\ \E x \in Pick(Exs), p \in Pick(Box3(3)), o \in PickOri : Upd([op |-> "setTransform", b |-> x, p |-> p, ori |-> o], x,
   Wake([w.b[x] EXCEPT !.ori = o, !.com = QAdd(RV(p), ORot(o, w.b[x].cl))]))
SetType == Has("type") /\ \E x \in Pick(Ok), t \in Pick({"S","K","D"}) : Upd([op |-> "setType", b |-> x, t |-> t], x,
   IF w.b[x].typ = t THEN w.b[x]
   ELSE LET B == [Wake(w.b[x]) EXCEPT !.typ = t, !.F = RV0, !.T = RV0] IN IF t = "S" THEN [B EXCEPT !.v = RV0, !.w = V0] ELSE B)
SetSlp == Has("sleep") /\ \E x \in Pick(Ok), v \in Pick(BOOLEAN) : Upd([op |-> "setSleeping", b |-> x, v |-> v], x,
   IF w.b[x].typ = "S" THEN w.b[x] ELSE IF v THEN (IF w.b[x].slp THEN w.b[x] ELSE Rest(w.b[x])) ELSE Wake(w.b[x]))
SetAct == Has("active") /\ \E x \in Pick(Exs), v \in Pick(BOOLEAN) : Upd([op |-> "setActive", b |-> x, v |-> v], x,
   LET B == w.b[x] IN IF B.act = v THEN B
   ELSE IF v THEN [B EXCEPT !.act = TRUE, !.slp = FALSE]
   ELSE [(IF B.typ = "S" \/ B.slp THEN B ELSE Rest(B)) EXCEPT !.act = FALSE])
\* forces: md says in which frame force and point are given
Push(x, F, arm) == LET B == w.b[x] IN IF ~Dyn(B) THEN B ELSE [Wake(B) EXCEPT !.F = QAdd(B.F,F), !.T = QAdd(B.T, QCross(arm,F))]
Force == Has("force") /\ \E x \in Pick(Ok), f \in Pick(SV), p \in Pick(Box3(2)), wf \in Pick(BOOLEAN), md \in Pick({"c","w","l"}) :
   LET B == w.b[x]
       F == IF wf THEN RV(f) ELSE ORot(B.ori, RV(f))
       arm == CASE md = "c" -> RV0 [] md = "w" -> QSub(RV(p), B.com) [] md = "l" -> ORot(B.ori, QSub(RV(p), B.cl))
   IN Upd([op |-> "force", b |-> x, f |-> f, p |-> p, wf |-> wf, md |-> md], x, TLCEval(Push(x,F,arm)))
Force2 == Force
Torque == Has("force") /\ \E x \in Pick(Ok), t \in Pick(SV), wf \in Pick(BOOLEAN) :
   LET B == w.b[x]  T == IF wf THEN RV(t) ELSE ORot(B.ori, RV(t)) IN
   Upd([op |-> "torque", b |-> x, q |-> RV(t), wf |-> wf], x, IF ~Dyn(B) THEN B ELSE [Wake(B) EXCEPT !.T = QAdd(@,T)])
ResetF == Has("force") /\ \E x \in Pick(Ok) : Upd([op |-> "resetForce", b |-> x], x, IF Dyn(w.b[x]) THEN [w.b[x] EXCEPT !.F = RV0] ELSE w.b[x])
ResetT == Has("force") /\ \E x \in Pick(Ok) : Upd([op |-> "resetTorque", b |-> x], x, IF Dyn(w.b[x]) THEN [w.b[x] EXCEPT !.T = RV0] ELSE w.b[x])
\* the torque that gives body x angular velocity n after the next step
Steer == Has("force") /\ \E x \in Pick({y \in Exs : Live(w.b[y]) /\ Dyn(w.b[y])}) : \E n \in Pick(WS), wf \in Pick(BOOLEAN) :
   LET B == w.b[x]
       dw == QSub(QScale(RAdd(R(1), RMul(DT,R(B.ad))), RV(n)), RV(B.w))
       dl == ORot(Tr(B.ori), dw)
       tl == <<RMul(R(2), RMul(B.I[1], dl[1])), RMul(R(2), RMul(B.I[2], dl[2])), RMul(R(2), RMul(B.I[3], dl[3]))>>
       need == TLCEval(QSub(ORot(B.ori, tl), B.T))
       arg == TLCEval(IF wf THEN need ELSE ORot(Tr(B.ori), need))
   IN /\ QIn(need,300,400)
      /\ NextWI([B EXCEPT !.T = QAdd(@,need)]) = n
      /\ Upd([op |-> "torque", b |-> x, q |-> arg, wf |-> wf], x, [B EXCEPT !.T = QAdd(@,need)])
Steer2 == Steer
\* a body that cannot be steered is stopped
Fix == Has("force") /\ \E x \in {y \in Exs : Live(w.b[y]) /\ NextWI(w.b[y]) \notin WV} : Sim /\
   \/ w.b[x].T # RV0 /\ Dyn(w.b[x]) /\ Upd([op |-> "resetTorque", b |-> x], x, [w.b[x] EXCEPT !.T = RV0])
   \/ ~(w.b[x].T # RV0 /\ Dyn(w.b[x])) /\ w.b[x].w # V0 /\ Upd([op |-> "setAngVel", b |-> x, v |-> V0], x, [w.b[x] EXCEPT !.w = V0])
Fix2 == Fix
Home == Has("transform") /\ Sim /\ \E x \in {y \in Exs : Live(w.b[y]) /\ ~StepOK(w,w.b[y]) /\ NextWI(w.b[y]) \in WV} :
   IF ~QIn(w.b[x].v,20,64) THEN Upd([op |-> "setVel", b |-> x, v |-> V0], x, [w.b[x] EXCEPT !.v = RV0])
   ELSE Upd([op |-> "setTransform", b |-> x, p |-> V0, ori |-> Id5], x, [w.b[x] EXCEPT !.ori = Id5, !.com = w.b[x].cl])
Update == Has("update") /\ (\A x \in Exs : StepOK(w, w.b[x])) /\ Do([op |-> "update"], [w EXCEPT !.b = TLCEval([x \in BId |-> StepB(w, w.b[x])])])
Update2 == Update
Update3 == Update
Update4 == Update
\* conversions between the local and the world frame
Conv == Has("conv") /\ \E x \in Pick(Exs), p \in Pick(Box3(3)) :
   LET B == w.b[x]  P == Pos(B) IN
   Query([op |-> "conv", b |-> x, p |-> p, r |-> TLCEval([q_wp |-> QAdd(P, ORot(B.ori, RV(p))), q_lp |-> ORot(Tr(B.ori), QSub(RV(p), P)),
                                                  q_wv |-> ORot(B.ori, RV(p)), q_lv |-> ORot(Tr(B.ori), RV(p))])])
ShapeInfo == Has("conv") /\ \E c \in Pick(ColEx), m \in Pick({1,2,3}) : LET C == w.c[c] IN
   Query([op |-> "shape", c |-> c, k |-> C.k, m |-> m, r |-> TLCEval([q_v |-> Vol(C.k,C.d), q_i |-> QScale(R(m), Inr(C.k,C.d))])])

Finish == /\ Sim /\ ~done /\ Len(hist) >= D /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<w, hist>>
Init == w = W0 /\ hist = <<>> /\ done = FALSE
Next == Create \/ Destroy \/ AddCol \/ RemCol \/ SetLocal \/ SetDens \/ Resize \/ UpCom \/ UpIn \/ UpMass \/ UpAll \/ UpAll2 \/ SetMass \/ SetIn \/ SetCom
        \/ SetLL \/ SetAL \/ SetLD \/ SetAD \/ BGrav \/ WGrav \/ SetG \/ SetV \/ SetW \/ SetT \/ SetType \/ SetSlp \/ SetAct \/ Force \/ Force2 \/ Torque
        \/ ResetF \/ ResetT \/ Steer \/ Steer2 \/ Fix \/ Fix2 \/ Home \/ Update \/ Update2 \/ Update3 \/ Update4 \/ Conv \/ ShapeInfo \/ Finish
Spec == Init /\ [][Next]_vars

\* exhaustive exploration from one body in a given state
Init1 == \E o \in {Id5, << <<0,-5,0>>, <<5,0,0>>, <<0,0,5>> >>} \cup (IF "tilt" \in Ops THEN {<< <<3,-4,0>>, <<4,3,0>>, <<0,0,5>> >>} ELSE {}), cl \in {V0, <<1,0,0>>} :
   LET B1 == [Body0 EXCEPT !.ex = TRUE, !.ori = o]
       B2 == SetCl(B1, RV(cl))
       w1 == [W0 EXCEPT !.b[1] = B1]  w2 == TLCEval([W0 EXCEPT !.b[1] = B2])
   IN /\ w = w2 /\ done = FALSE
      /\ hist = TLCEval(<< [op |-> "createBody", b |-> 1, p |-> V0, ori |-> o, o |-> Obs(w1)], [op |-> "setCom", b |-> 1, v |-> cl, o |-> Obs(w2)] >>)
Spec1 == Init1 /\ [][Next]_vars
View == w
Emit == PrintT("@@" \o ToJson(hist'))
\* ---- what the specification promises
\* inactive, sleeping and static bodies do not move; forces never act on bodies that are not dynamic
TypeOK == \A x \in BId : LET B == w.b[x] IN /\ MM(B.ori, Tr(B.ori)) = M5(M5(Id3)) /\ B.w \in WV
                                            /\ B.ex /\ B.slp => B.v = RV0 /\ B.w = V0
                                            /\ B.typ = "S" => B.v = RV0 /\ B.w = V0
                                            /\ ~Dyn(B) => B.F = RV0 /\ B.T = RV0
IsUpd == hist' # hist /\ hist'[Len(hist')].op = "update"
\* locked axes: a velocity component of a locked axis never grows through forces or gravity
Locked == [][ IsUpd => \A x \in BId : \A i \in Ax : w.b[x].ex /\ w.b[x].ll[i] = 0 /\ w.b[x].v[i] = Rz => w'.b[x].v[i] = Rz ]_vars
\* forces last for one step only
ForcesReset == [][ IsUpd => \A x \in BId : w'.b[x].F = RV0 /\ w'.b[x].T = RV0 ]_vars
=============================================================================
