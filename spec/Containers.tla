---------------------------- MODULE Containers ----------------------------
(***************************************************************************)
(* The containers of the library as their users see them: two instances of *)
(* each kind, so that copies and assignments alias whatever can be aliased.*)
(* Map = finite function, Set = finite set, Array/Deque/Stack/LinkedList = *)
(* sequences.  After every call the whole content of the containers that   *)
(* could have changed, their sizes, their mutual equality and the number   *)
(* of live elements are observed.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS K, D, Sim, Ops, MaxLen
VARIABLES w, hist, done
vars == <<w, hist, done>>
Mod(a,b) == a - b * (a \div b)
I == 1..2
Key == 1..K
Pick(S) == IF S = {} THEN {} ELSE IF Sim THEN {RandomElement(S)} ELSE S
Has(n) == n \in Ops /\ ~done /\ (Sim => Len(hist) < D)

EmptyF == [x \in {} |-> 0]
W0 == [m |-> <<EmptyF, EmptyF>>, s |-> <<{}, {}>>, a |-> <<<<>>, <<>>>>, d |-> <<<<>>, <<>>>>, t |-> <<<<>>, <<>>>>, l |-> <<<<>>, <<>>>>]

Rev(q) == [i \in 1..Len(q) |-> q[Len(q)+1-i]]
PairsOf(f) == { <<k, f[k]>> : k \in DOMAIN f }
RECURSIVE SumF(_,_)
\* live elements: keys and values are counted separately
Live(W) == 2*(Cardinality(DOMAIN W.m[1]) + Cardinality(DOMAIN W.m[2])) + Cardinality(W.s[1]) + Cardinality(W.s[2])
           + Len(W.a[1]) + Len(W.a[2]) + Len(W.d[1]) + Len(W.d[2]) + Len(W.t[1]) + Len(W.t[2]) + Len(W.l[1]) + Len(W.l[2])
SumF(f,S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
Obs(W, c) == CASE c = "m" -> [s_1 |-> PairsOf(W.m[1]), s_2 |-> PairsOf(W.m[2]), n |-> <<Cardinality(DOMAIN W.m[1]), Cardinality(DOMAIN W.m[2])>>, eq |-> W.m[1] = W.m[2], live |-> Live(W)]
               [] c = "s" -> [s_1 |-> W.s[1], s_2 |-> W.s[2], n |-> <<Cardinality(W.s[1]), Cardinality(W.s[2])>>, eq |-> W.s[1] = W.s[2], live |-> Live(W)]
               [] OTHER   -> [q |-> <<W[c][1], W[c][2]>>, n |-> <<Len(W[c][1]), Len(W[c][2])>>, eq |-> W[c][1] = W[c][2], live |-> Live(W)]
Step(c, op, W2_) == LET W2 == TLCEval(W2_) IN
   w' = W2 /\ hist' = Append(hist, TLCEval(op @@ [c |-> c, o |-> Obs(W2,c)])) /\ UNCHANGED done

\* ---------------------------------------------------------------- map
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, k, v) == (k :> v) @@ f
MAdd == Has("map") /\ \E i \in I, k \in Pick(Key), v \in Pick(1..9), b \in Pick(BOOLEAN) :
   /\ b \/ k \notin DOMAIN w.m[i]
   /\ Step("m", [op |-> "mAdd", i |-> i, k |-> k, v |-> v, b |-> b, r |-> TRUE], [w EXCEPT !.m[i] = Put(@, k, v)])
MFill == Has("map") /\ \E i \in Pick(I), k \in Pick(Key), n \in Pick({3, 9, 20}), v \in Pick(1..9) :
   LET S == k..(IF k+n > K THEN K ELSE k+n) IN
   Step("m", [op |-> "mFill", i |-> i, k |-> k, k2 |-> IF k+n > K THEN K ELSE k+n, v |-> v], [w EXCEPT !.m[i] = [x \in S |-> v] @@ @])
MRemove == Has("map") /\ \E i \in Pick(I), k \in Pick(Key) :
   Step("m", [op |-> "mRemove", i |-> i, k |-> k], [w EXCEPT !.m[i] = Without(@, {k})])
MSweep == Has("map") /\ \E i \in Pick(I), q \in Pick({2,3}), r \in Pick({0,1}) :     \* remove while iterating
   LET S == {k \in DOMAIN w.m[i] : Mod(k,q) = r} IN
   Step("m", [op |-> "mSweep", i |-> i, q |-> q, m |-> r, r |-> Cardinality(DOMAIN w.m[i])], [w EXCEPT !.m[i] = Without(@, S)])
MClear == Has("map") /\ \E i \in Pick(I), b \in Pick(BOOLEAN) :
   Step("m", [op |-> "mClear", i |-> i, b |-> b], [w EXCEPT !.m[i] = EmptyF])
MReserve == Has("map") /\ \E i \in Pick(I), n \in Pick({1, 17, 40, 100}) : Step("m", [op |-> "mReserve", i |-> i, n |-> n], w)
MGet == Has("map") /\ \E i \in Pick(I), k \in Pick(Key) :
   Step("m", [op |-> "mGet", i |-> i, k |-> k, r |-> IF k \in DOMAIN w.m[i] THEN <<TRUE, k, w.m[i][k], w.m[i][k]>> ELSE <<FALSE>>], w)
MSet == Has("map") /\ \E i \in Pick(I), k \in Pick(Key), v \in Pick(1..9) : k \in DOMAIN w.m[i] /\
   Step("m", [op |-> "mSet", i |-> i, k |-> k, v |-> v], [w EXCEPT !.m[i] = Put(@, k, v)])
MAssign == Has("map") /\ \E i \in Pick(I), j \in Pick(I) : Step("m", [op |-> "mAssign", i |-> i, j |-> j], [w EXCEPT !.m[i] = w.m[j]])
MCopy == Has("map") /\ \E i \in Pick(I) : Step("m", [op |-> "mCopy", i |-> i], [w EXCEPT !.m[i] = w.m[3-i]])

\* ---------------------------------------------------------------- set
SAdd == Has("set") /\ \E i \in I, k \in Pick(Key) :
   Step("s", [op |-> "sAdd", i |-> i, k |-> k, r |-> k \notin w.s[i]], [w EXCEPT !.s[i] = @ \cup {k}])
SFill == Has("set") /\ \E i \in Pick(I), k \in Pick(Key), n \in Pick({3, 9, 20}) :
   LET k2 == IF k+n > K THEN K ELSE k+n IN Step("s", [op |-> "sFill", i |-> i, k |-> k, k2 |-> k2], [w EXCEPT !.s[i] = @ \cup (k..k2)])
SRemove == Has("set") /\ \E i \in Pick(I), k \in Pick(Key) :
   Step("s", [op |-> "sRemove", i |-> i, k |-> k], [w EXCEPT !.s[i] = @ \ {k}])
SSweep == Has("set") /\ \E i \in Pick(I), q \in Pick({2,3}), r \in Pick({0,1}) :
   Step("s", [op |-> "sSweep", i |-> i, q |-> q, m |-> r, r |-> Cardinality(w.s[i])], [w EXCEPT !.s[i] = {k \in @ : Mod(k,q) # r}])
SClear == Has("set") /\ \E i \in Pick(I), b \in Pick(BOOLEAN) : Step("s", [op |-> "sClear", i |-> i, b |-> b], [w EXCEPT !.s[i] = {}])
SReserve == Has("set") /\ \E i \in Pick(I), n \in Pick({1, 17, 40, 100}) : Step("s", [op |-> "sReserve", i |-> i, n |-> n], w)
SGet == Has("set") /\ \E i \in Pick(I), k \in Pick(Key) :
   Step("s", [op |-> "sGet", i |-> i, k |-> k, r |-> k \in w.s[i]], w)
SToArray == Has("set") /\ \E i \in Pick(I) : Step("s", [op |-> "sToArray", i |-> i, s_r |-> w.s[i]], w)
SAssign == Has("set") /\ \E i \in Pick(I), j \in Pick(I) : Step("s", [op |-> "sAssign", i |-> i, j |-> j], [w EXCEPT !.s[i] = w.s[j]])
SCopy == Has("set") /\ \E i \in Pick(I) : Step("s", [op |-> "sCopy", i |-> i], [w EXCEPT !.s[i] = w.s[3-i]])

\* ---------------------------------------------------------------- array
Room(c,i,n) == Len(w[c][i]) + n <= MaxLen
AAdd == Has("array") /\ \E i \in I, v \in Pick(1..9), b \in Pick(BOOLEAN) : Room("a",i,1) /\
   Step("a", [op |-> "aAdd", i |-> i, v |-> v, b |-> b], [w EXCEPT !.a[i] = Append(@, v)])
AFill == Has("array") /\ \E i \in Pick(I), v \in Pick(1..9), n \in Pick({3,8,17}) : Room("a",i,n) /\
   Step("a", [op |-> "aFill", i |-> i, v |-> v, n |-> n], [w EXCEPT !.a[i] = @ \o [k \in 1..n |-> 1 + Mod(v+k,9)]])
Cut(q,p) == SubSeq(q,1,p-1) \o SubSeq(q,p+1,Len(q))
ARemoveAt == Has("array") /\ \E i \in Pick(I) : \E p \in Pick(1..Len(w.a[i])), mode \in Pick({"index","iter"}) :
   Step("a", [op |-> "aRemoveAt", i |-> i, p |-> p, mode |-> mode, r |-> <<p, p = Len(w.a[i])>>], [w EXCEPT !.a[i] = Cut(@,p)])
FirstOf(q,v) == IF \E p \in 1..Len(q) : q[p] = v THEN CHOOSE p \in 1..Len(q) : q[p] = v /\ \A x \in 1..(p-1) : q[x] # v ELSE 0
ARemove == Has("array") /\ \E i \in Pick(I), v \in Pick(1..9) : FirstOf(w.a[i],v) # 0 /\
   Step("a", [op |-> "aRemove", i |-> i, v |-> v], [w EXCEPT !.a[i] = Cut(@, FirstOf(@,v))])
AFind == Has("array") /\ \E i \in Pick(I), v \in Pick(1..9) :
   Step("a", [op |-> "aFind", i |-> i, v |-> v, r |-> FirstOf(w.a[i],v)], w)
ASwapOut == Has("array") /\ \E i \in Pick(I) : \E p \in Pick(1..Len(w.a[i])) :
   Step("a", [op |-> "aSwapOut", i |-> i, p |-> p], [w EXCEPT !.a[i] = LET q == w.a[i] n == Len(q) IN SubSeq([q EXCEPT ![p] = q[n]], 1, n-1)])
ASet == Has("array") /\ \E i \in Pick(I), v \in Pick(1..9) : \E p \in Pick(1..Len(w.a[i])) :
   Step("a", [op |-> "aSet", i |-> i, p |-> p, v |-> v], [w EXCEPT !.a[i][p] = v])
ARange == Has("array") /\ \E i \in Pick(I) : \E s \in Pick(0..Len(w.a[3-i])) : Room("a",i,Len(w.a[3-i]) - s) /\
   Step("a", [op |-> "aRange", i |-> i, s |-> s], [w EXCEPT !.a[i] = @ \o SubSeq(w.a[3-i], s+1, Len(w.a[3-i]))])
AClear == Has("array") /\ \E i \in Pick(I), b \in Pick(BOOLEAN) : Step("a", [op |-> "aClear", i |-> i, b |-> b], [w EXCEPT !.a[i] = <<>>])
AReserve == Has("array") /\ \E i \in Pick(I), n \in Pick({1, 16, 17, 50}) : Step("a", [op |-> "aReserve", i |-> i, n |-> n], w)
AAssign == Has("array") /\ \E i \in Pick(I), j \in Pick(I) : Step("a", [op |-> "aAssign", i |-> i, j |-> j], [w EXCEPT !.a[i] = w.a[j]])
ACopy == Has("array") /\ \E i \in Pick(I) : Step("a", [op |-> "aCopy", i |-> i], [w EXCEPT !.a[i] = w.a[3-i]])
\* iterator arithmetic: start at p, advance by n, go back by one
AIter == Has("array") /\ \E i \in Pick(I) : \E p \in Pick(1..Len(w.a[i])), q \in Pick(1..Len(w.a[i])) :
   Step("a", [op |-> "aIter", i |-> i, p |-> p, q |-> q, r |-> <<w.a[i][q], q - p, p < q, p <= q, p = q>>, rev |-> 0], w)

\* ---------------------------------------------------------------- deque
DBack == Has("deque") /\ \E i \in I, v \in Pick(1..9) : Room("d",i,1) /\ Step("d", [op |-> "dBack", i |-> i, v |-> v], [w EXCEPT !.d[i] = Append(@, v)])
DFront == Has("deque") /\ \E i \in I, v \in Pick(1..9) : Room("d",i,1) /\ Step("d", [op |-> "dFront", i |-> i, v |-> v], [w EXCEPT !.d[i] = <<v>> \o @])
DFill == Has("deque") /\ \E i \in Pick(I), v \in Pick(1..9), n \in Pick({3,8,17}), b \in Pick(BOOLEAN) : Room("d",i,n) /\
   LET q == [k \in 1..n |-> 1 + Mod(v+k,9)] IN
   Step("d", [op |-> "dFill", i |-> i, v |-> v, n |-> n, b |-> b], [w EXCEPT !.d[i] = IF b THEN @ \o q ELSE Rev(q) \o @])
DPopF == Has("deque") /\ \E i \in Pick(I), n \in Pick({1,1,6}) : Step("d", [op |-> "dPopF", i |-> i, n |-> n], [w EXCEPT !.d[i] = SubSeq(@, n+1, Len(@))])
DPopB == Has("deque") /\ \E i \in Pick(I), n \in Pick({1,1,6}) : Step("d", [op |-> "dPopB", i |-> i, n |-> n], [w EXCEPT !.d[i] = SubSeq(@, 1, IF Len(@) > n THEN Len(@) - n ELSE 0)])
DSet == Has("deque") /\ \E i \in Pick(I), v \in Pick(1..9) : \E p \in Pick(1..Len(w.d[i])) :
   Step("d", [op |-> "dSet", i |-> i, p |-> p, v |-> v], [w EXCEPT !.d[i][p] = v])
DEnds == Has("deque") /\ \E i \in Pick({x \in I : w.d[x] # <<>>}) : Step("d", [op |-> "dEnds", i |-> i, r |-> <<w.d[i][1], w.d[i][Len(w.d[i])]>>], w)
DClear == Has("deque") /\ \E i \in Pick(I) : Step("d", [op |-> "dClear", i |-> i], [w EXCEPT !.d[i] = <<>>])
DAssign == Has("deque") /\ \E i \in Pick(I), j \in Pick(I) : Step("d", [op |-> "dAssign", i |-> i, j |-> j], [w EXCEPT !.d[i] = w.d[j]])
DCopy == Has("deque") /\ \E i \in Pick(I) : Step("d", [op |-> "dCopy", i |-> i], [w EXCEPT !.d[i] = w.d[3-i]])
DIter == Has("deque") /\ \E i \in Pick(I) : \E p \in Pick(1..Len(w.d[i])), q \in Pick(1..Len(w.d[i])) :
   Step("d", [op |-> "dIter", i |-> i, p |-> p, q |-> q, r |-> <<w.d[i][q], q - p, p < q, p <= q, p = q>>], w)

\* ---------------------------------------------------------------- stack and linked list
TPush == Has("stack") /\ \E i \in I, v \in Pick(1..9) : Room("t",i,1) /\ Step("t", [op |-> "tPush", i |-> i, v |-> v], [w EXCEPT !.t[i] = Append(@, v)])
TFill == Has("stack") /\ \E i \in Pick(I), v \in Pick(1..9), n \in Pick({3,8,17}) : Room("t",i,n) /\
   Step("t", [op |-> "tFill", i |-> i, v |-> v, n |-> n], [w EXCEPT !.t[i] = @ \o [k \in 1..n |-> 1 + Mod(v+k,9)]])
TPop == Has("stack") /\ \E i \in Pick({x \in I : w.t[x] # <<>>}) :
   Step("t", [op |-> "tPop", i |-> i, r |-> w.t[i][Len(w.t[i])]], [w EXCEPT !.t[i] = SubSeq(@, 1, Len(@)-1)])
TTop == Has("stack") /\ \E i \in Pick({x \in I : w.t[x] # <<>>}) : Step("t", [op |-> "tTop", i |-> i, r |-> w.t[i][Len(w.t[i])]], w)
TClear == Has("stack") /\ \E i \in Pick(I) : Step("t", [op |-> "tClear", i |-> i], [w EXCEPT !.t[i] = <<>>])
TCopy == Has("stack") /\ \E i \in Pick(I) : Step("t", [op |-> "tCopy", i |-> i], [w EXCEPT !.t[i] = w.t[3-i]])
LInsert == Has("list") /\ \E i \in I, v \in Pick(1..9) : Room("l",i,1) /\ Step("l", [op |-> "lInsert", i |-> i, v |-> v], [w EXCEPT !.l[i] = <<v>> \o @])
LReset == Has("list") /\ \E i \in Pick(I) : Step("l", [op |-> "lReset", i |-> i], [w EXCEPT !.l[i] = <<>>])

Finish == /\ Sim /\ ~done /\ Len(hist) >= D
          /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<w, hist>>
Init == w = W0 /\ hist = <<>> /\ done = FALSE
Next == \/ MAdd \/ MFill \/ MRemove \/ MSweep \/ MClear \/ MReserve \/ MGet \/ MSet \/ MAssign \/ MCopy
        \/ SAdd \/ SFill \/ SRemove \/ SSweep \/ SClear \/ SReserve \/ SGet \/ SToArray \/ SAssign \/ SCopy
        \/ AAdd \/ AFill \/ ARemoveAt \/ ARemove \/ AFind \/ ASwapOut \/ ASet \/ ARange \/ AClear \/ AReserve \/ AAssign \/ ACopy \/ AIter
        \/ DBack \/ DFront \/ DFill \/ DPopF \/ DPopB \/ DSet \/ DEnds \/ DClear \/ DAssign \/ DCopy \/ DIter
        \/ TPush \/ TFill \/ TPop \/ TTop \/ TClear \/ TCopy \/ LInsert \/ LReset \/ Finish
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------ exhaustive configuration
View == w
Emit == PrintT("@@" \o ToJson(hist'))
Bound == \A i \in I : Len(hist) < D /\ Len(w.a[i]) <= MaxLen
TypeOK == /\ \A i \in I : DOMAIN w.m[i] \subseteq Key /\ w.s[i] \subseteq Key
          /\ \A c \in {"a","d","t","l"}, i \in I : Len(w[c][i]) <= MaxLen
\* a call on one container leaves every other one alone
Isolated == [][ hist' # hist => LET r == hist'[Len(hist')] IN
                  \A c \in {"m","s","a","d","t","l"}, i \in I : (c # r.c \/ i # r.i) => w'[c][i] = w[c][i] ]_vars
=============================================================================
