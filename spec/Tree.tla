------------------------------- MODULE Tree -------------------------------
(***************************************************************************)
(* The dynamic AABB tree as its users see it: a collection of leaves, each *)
(* with a fat box and a datum.  Nothing of the tree structure is visible:  *)
(* every query answers as a linear scan over the leaves would.             *)
(* Boxes are in quarter units (dyadic, so all sizes are exact); Pct is the *)
(* inflation percentage in quarters; rays have direction components that   *)
(* are powers of two, so that entry and exit fractions are exact           *)
(* multiples of 1/32.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, D, Sim, Ops, Pct, R
VARIABLES w, hist, done
vars == <<w, hist, done>>
Mod(a,b) == a - b * (a \div b)
Pick(S) == IF S = {} THEN {} ELSE IF Sim THEN {RandomElement(S)} ELSE S
Has(n) == n \in Ops /\ ~done /\ (Sim => Len(hist) < D)
Slot == 1..N
Max(a,b) == IF a > b THEN a ELSE b
Min(a,b) == IF a < b THEN a ELSE b
A3 == 1..3
\* a box is <<min, max>>
Fat(b) == LET g(i) == ((b[2][i] - b[1][i]) * Pct) \div 8 IN
          <<<<b[1][1]-g(1), b[1][2]-g(2), b[1][3]-g(3)>>, <<b[2][1]+g(1), b[2][2]+g(2), b[2][3]+g(3)>>>>
Over(a,b) == \A i \in A3 : a[1][i] <= b[2][i] /\ b[1][i] <= a[2][i]
In(a,b) == \A i \in A3 : a[1][i] <= b[1][i] /\ b[2][i] <= a[2][i]            \* b inside a
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
UnionAll(W, S) == <<[i \in A3 |-> MinOf({W[s].b[1][i] : s \in S})], [i \in A3 |-> MaxOf({W[s].b[2][i] : s \in S})]>>
Live(W) == {s \in Slot : W[s].on}
Off == [on |-> FALSE, b |-> <<<<0,0,0>>,<<0,0,0>>>>, d |-> 0]

\* the height of a binary tree with n leaves is at least log2 n and at most n - 1
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n+1) \div 2)
Heights(n) == Log2(n)..Max(n-1, 0)

Obs(W) == LET L == Live(W) IN
          [s_l |-> {<<s, W[s].b, W[s].d>> : s \in L}, root |-> IF L = {} THEN <<>> ELSE UnionAll(W, L),
           h |-> IF L = {} THEN [one |-> {}] ELSE [one |-> Heights(Cardinality(L))]]
Step(op, W2_) == LET W2 == TLCEval(W2_) IN
   w' = W2 /\ hist' = Append(hist, TLCEval(op @@ [o |-> Obs(W2)])) /\ UNCHANGED done

\* ---------------------------------------------------------------- boxes
C == 4*(0-R)..4*R
E == {0, 4, 8, 16}
RBox == LET l == TLCEval(<<RandomElement(C), RandomElement(C), RandomElement(C)>>) e == TLCEval(<<RandomElement(E), RandomElement(E), RandomElement(E)>>) IN
        <<l, <<l[1]+e[1], l[2]+e[2], l[3]+e[3]>>>>
\* one dimension suffices for the exhaustive configuration
Boxes(s) == IF Sim THEN {RBox} ELSE {<<<<x, 0, 0>>, <<x+e, 4, 4>>>> : x \in {4*k : k \in 0..R}, e \in {4, 8}}
\* a box near an old one: inside, touching, slightly outside of its fat box
Near(b) == IF ~Sim THEN Boxes(0) ELSE LET q == TLCEval(<<RandomElement({-4,0,0,1,2,4,8}), RandomElement({-4,0,0,0,1,4}), RandomElement({-4,0,0,0,2,4})>>)
               m == TLCEval(<<b[1][1]+q[1], b[1][2]+q[2], b[1][3]+q[3]>>)
               e == TLCEval(<<RandomElement({0,4,4,8,16}), RandomElement({0,4,8}), RandomElement({0,4,8})>>) IN
           {<<m, <<m[1]+e[1], m[2]+e[2], m[3]+e[3]>>>>, RBox}

Add == Has("add") /\ \E s \in Pick(Slot \ Live(w)) : \E b \in Boxes(s), d \in Pick(IF Sim THEN 1..1000000 ELSE {s}) :
   Step([op |-> "add", s |-> s, b |-> b, d |-> d], [w EXCEPT ![s] = [on |-> TRUE, b |-> Fat(b), d |-> d]])
Add2 == Sim /\ Add
\* a row, a stack or a cluster of boxes, added in one go
Fill == Has("fill") /\ Sim /\ \E n \in Pick({6, 12, 30}), k \in Pick({"row", "diag", "same"}), x \in Pick(C), g \in Pick({4, 8, -8}) :
   \E z \in Pick({y \in 0..N-n : \A s \in y+1..y+n : ~w[s].on}) :
   LET b(i) == CASE k = "row" -> <<<<x+g*i, 0, 0>>, <<x+g*i+4, 4, 4>>>>
                 [] k = "diag" -> <<<<x+g*i, g*i, 0>>, <<x+g*i+8, g*i+8, 4>>>>
                 [] OTHER -> <<<<x, 0, 0>>, <<x+4, 4, 4>>>> IN
   Step([op |-> "fill", s |-> [i \in 1..n |-> z+i], b |-> [i \in 1..n |-> b(i)], d |-> 5],
        [s \in Slot |-> IF s > z /\ s <= z+n THEN [on |-> TRUE, b |-> Fat(b(s-z)), d |-> 5] ELSE w[s]])
Remove == Has("remove") /\ \E s \in Pick(Live(w)) : Step([op |-> "remove", s |-> s], [w EXCEPT ![s] = Off])
RemoveMany == Has("remove") /\ Sim /\ \E q \in Pick({2,3}), r \in Pick({0,1}), up \in Pick(BOOLEAN) :
   LET S == {s \in Live(w) : Mod(s,q) = r} IN
   Step([op |-> "removeMany", S |-> S, up |-> up], [s \in Slot |-> IF s \in S THEN Off ELSE w[s]])
Update == Has("update") /\ \E s \in Pick(Live(w)) : \E b \in Near(w[s].b), f \in Pick(BOOLEAN) :
   LET go == f \/ ~In(w[s].b, b) IN
   Step([op |-> "update", s |-> s, b |-> b, f |-> f, r |-> go], IF go THEN [w EXCEPT ![s].b = Fat(b)] ELSE w)
Update2 == Sim /\ Update
Reset == Has("reset") /\ (Sim => Mod(Len(hist), 37) = 36) /\ Step([op |-> "reset"], [s \in Slot |-> Off])
QBox == Has("query") /\ \E b \in Boxes(0) \cup (IF Sim THEN {} ELSE {}) :
   Step([op |-> "qBox", b |-> b, s_r |-> {s \in Live(w) : Over(b, w[s].b)}], w)
RECURSIVE Pairs(_,_)
Pairs(x, S) == IF S = {} THEN <<>> ELSE LET y == CHOOSE y \in S : TRUE IN <<<<x, y>>>> \o Pairs(x, TLCEval(S \ {y}))
QNodes == Has("query") /\ Live(w) # {} /\ \E n \in Pick(IF Sim THEN 1..8 ELSE {2}) :
   \E l \in IF Sim THEN {[i \in 1..n |-> RandomElement(Live(w))]} ELSE [1..n -> Live(w)] :
   \E a \in Pick(0..n) : \E z \in Pick(a..n) :
   LET L == TLCEval(l) IN
   Step([op |-> "qNodes", l |-> L, a |-> a, z |-> z,
         s_r |-> LET RECURSIVE Cat(_)
                     Cat(i) == IF i > z THEN <<>> ELSE Pairs(L[i], TLCEval({s \in Live(w) : Over(w[L[i]].b, w[s].b)})) \o Cat(i+1)
                 IN Cat(a+1)], w)
\* ---------------------------------------------------------------- rays
Dir == {-16, -8, 0, 8, 16}
\* entry and exit of the line p + t d (t in 1/32) in a box; empty when lo > hi
Lo(b,p,d,i) == IF d[i] = 0 THEN IF b[1][i] <= p[i] /\ p[i] <= b[2][i] THEN -1000000 ELSE 1000000
               ELSE LET m == 32 \div (IF d[i] > 0 THEN d[i] ELSE 0-d[i]) IN IF d[i] > 0 THEN (b[1][i]-p[i])*m ELSE (p[i]-b[2][i])*m
Hi(b,p,d,i) == IF d[i] = 0 THEN 1000000
               ELSE LET m == 32 \div (IF d[i] > 0 THEN d[i] ELSE 0-d[i]) IN IF d[i] > 0 THEN (b[2][i]-p[i])*m ELSE (p[i]-b[1][i])*m
Entry(b,p,d) == Max(0, Max(Lo(b,p,d,1), Max(Lo(b,p,d,2), Lo(b,p,d,3))))
Exit(b,p,d) == Min(Hi(b,p,d,1), Min(Hi(b,p,d,2), Hi(b,p,d,3)))
Hit(b,p,d,mf) == Entry(b,p,d) <= Min(Exit(b,p,d), mf)
\* what the callback returns for a leaf: the entry, or the exit when the origin is inside (at least 1/32)
Val(b,p,d) == IF Entry(b,p,d) > 0 THEN Entry(b,p,d) ELSE Max(1, Exit(b,p,d))
Ray == Has("ray") /\ \E p \in IF Sim THEN {<<RandomElement(C), RandomElement(C), RandomElement(C)>>, <<RandomElement({4*k : k \in 0-R..R}), RandomElement({-8,0,4}), RandomElement({-4,0,2,4})>>} ELSE {<<-8,0,0>>, <<8,2,2>>, <<4,-8,4>>},
        d \in IF Sim THEN {<<RandomElement(Dir), RandomElement(Dir), RandomElement(Dir)>>, <<RandomElement({-16,16,0}), RandomElement({-16,16}), 0>>} ELSE {<<16,0,0>>, <<-8,0,0>>, <<0,16,0>>},
        mf \in Pick({32, 16, 8}), mode \in Pick({"all", "all0", "closest", "stop"}) :
   LET P == TLCEval(p) DD == TLCEval(d) IN DD # <<0,0,0>> /\
   LET H == TLCEval({s \in Live(w) : Hit(w[s].b, P, DD, mf)}) IN
   CASE mode \in {"all", "all0"} -> Step([op |-> "ray", p |-> P, d |-> DD, mf |-> mf, mode |-> mode, s_r |-> H], w)   \* ignore, or continue unclipped
     [] mode = "closest" -> Step([op |-> "ray", p |-> P, d |-> DD, mf |-> mf, mode |-> mode,
                                  val |-> {<<s, Val(w[s].b, P, DD)>> : s \in H},
                                  r |-> IF H = {} THEN -1 ELSE MinOf({Val(w[s].b, P, DD) : s \in H})], w)
     [] OTHER -> \E n \in Pick(1..3) : Step([op |-> "ray", p |-> P, d |-> DD, mf |-> mf, mode |-> mode, n |-> n, r |-> Min(n, Cardinality(H))], w)
Ray2 == Sim /\ Ray

Finish == /\ Sim /\ ~done /\ Len(hist) >= D
          /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<w, hist>>
Init == w = [s \in Slot |-> Off] /\ hist = <<>> /\ done = FALSE
Next == Add \/ Add2 \/ Fill \/ Remove \/ RemoveMany \/ Update \/ Update2 \/ Reset \/ QBox \/ QNodes \/ Ray \/ Ray2 \/ Finish
Spec == Init /\ [][Next]_vars

View == w
Emit == PrintT("@@" \o ToJson(hist'))
Bound == Len(hist) < D
TypeOK == \A s \in Slot : w[s].on => \A i \in A3 : w[s].b[1][i] <= w[s].b[2][i]
\* queries change nothing; a call concerns one leaf only
Local == [][ hist' # hist => LET r == hist'[Len(hist')] IN
               /\ (r.op \in {"qBox","qNodes","ray"} => w' = w)
               /\ (r.op \in {"add","remove","update"} => \A s \in Slot : s # r.s => w'[s] = w[s])
               /\ (r.op = "update" => (w' = w) \/ r.r) ]_vars
\* a leaf always contains the last box it was given
Covered == [][ hist' # hist => LET r == hist'[Len(hist')] IN r.op \in {"add","update"} => In(w'[r.s].b, r.b) ]_vars
=============================================================================
