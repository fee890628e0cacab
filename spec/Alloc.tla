------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* The memory allocators.  An allocator may answer a request with any      *)
(* block that satisfies its contract, so the specification is              *)
(* nondeterministic and the code is bound to it in two stages:             *)
(*  Spec   generates call sequences (TLC -simulate);                       *)
(*  TSpec  accepts or rejects the calls with the addresses that the real   *)
(*         allocators answered (trace validation), including the calls of  *)
(*         several threads.                                                *)
(* An address is a chunk of the base allocator (its number and size) and   *)
(* an offset in it.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, D, Kinds, File, Jobs
VARIABLES w, hist, done
vars == <<w, hist, done>>
Mod(a,b) == a - b * (a \div b)
Id == 1..N
Class(n) == (n + 15) \div 16
MaxUnit == 2048
FrameInit == 1048576

\* ================================================================= the contract
\* live: blocks [id, k(ind), n, c(hunk), a(ddress)]; free: units of the pool that have been released, by class
\* fs, fu: size of the frame buffer and how much of it has been used; fo: a request did not fit since the last reset
S0 == [live |-> {}, free |-> [x \in {} |-> 0], fs |-> FrameInit, fu |-> 0, fo |-> FALSE, cap |-> 0, peak |-> 0]
FreeOf(s, c) == IF c \in DOMAIN s.free THEN s.free[c] ELSE 0
Disjoint(b, x) == b.c # x.c \/ b.a + b.n <= x.a \/ x.a + x.n <= b.a
\* May the block b be the answer, when the base allocator was called g times (g < 0: not observed)?
GrowOK(s, b, g) ==
   \/ g < 0
   \/ CASE b.k = "pool" -> (b.n <= MaxUnit /\ FreeOf(s, Class(b.n)) > 0) => g = 0           \* released units are used again
        [] b.k = "frame" -> (s.fu + b.n + 16 <= s.fs) => g = 0                             \* what fits in the frame is taken from it
        [] b.k = "heap" -> ({x \in s.live : x.k = "heap"} = {} /\ b.n + 32 <= s.cap) => g = 0      \* free memory is coalesced
        [] OTHER -> TRUE
AllocOK(s, b, z, g) == /\ b.n > 0 => (Mod(b.a, 16) = 0 /\ b.a >= 0 /\ b.a + b.n <= z)       \* aligned, inside of a chunk of size z
                       /\ \A x \in s.live : Disjoint(b, x)
                       /\ \A x \in s.live : x.id # b.id
                       /\ GrowOK(s, b, g)
AfterAlloc(s, b, cap) == [s EXCEPT !.live = s.live \cup {b},
                      !.free = IF b.k = "pool" /\ FreeOf(s, Class(b.n)) > 0 THEN [s.free EXCEPT ![Class(b.n)] = s.free[Class(b.n)] - 1] ELSE s.free,
                      !.fu = IF b.k = "frame" /\ s.fu + b.n + 16 <= s.fs THEN s.fu + b.n + 16 ELSE s.fu,
                      !.fo = s.fo \/ (b.k = "frame" /\ s.fu + b.n + 16 > s.fs),
                      !.cap = cap]
AfterRelease(s, b) == [s EXCEPT !.live = s.live \ {b},
                      !.free = IF b.k = "pool" /\ b.n <= MaxUnit THEN (Class(b.n) :> (FreeOf(s, Class(b.n)) + 1)) @@ s.free ELSE s.free]
AfterReset(s) == [s EXCEPT !.live = {x \in s.live : x.k # "frame"}, !.fs = IF s.fo THEN 2 * s.fs ELSE s.fs, !.fu = 0, !.fo = FALSE]

\* ================================================================= generation of calls
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Go == ~done /\ Len(hist) < D
Step(op, W) == w' = TLCEval(W) /\ hist' = Append(hist, TLCEval(op)) /\ UNCHANGED done
Used == {b.id : b \in w.live}
Sizes(k) == CASE k = "frame" -> {1, 15, 16, 17, 100, 4096, 70000, 262144, 300000, 600000}
              [] k = "heap" -> {1, 4, 15, 16, 17, 20, 31, 32, 33, 100, 129, 1000, 2049, 4001, 5000, 9004, 30000}
              [] OTHER -> {1, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1039, 1040, 2031, 2032, 2033, 2047, 2048, 2049, 3000}
Alloc == Go /\ \E id \in Pick(Id \ Used), k \in Pick(Kinds) : \E n \in Pick(Sizes(k)) :
   Step([op |-> "alloc", id |-> id, k |-> k, n |-> n], [w EXCEPT !.live = w.live \cup {[id |-> id, k |-> k, n |-> n]}])
Alloc2 == Alloc
AllocMany == Go /\ \E k \in Pick(Kinds \ {"frame"}), m \in Pick({5, 20}) : \E n \in Pick(Sizes(k)) : \E z \in Pick({y \in 0..N-m : \A i \in 1..m : y+i \notin Used}) :
   Step([op |-> "many", id |-> z, m |-> m, k |-> k, n |-> n], [w EXCEPT !.live = w.live \cup {[id |-> z+i, k |-> k, n |-> n] : i \in 1..m}])
Release == Go /\ \E b \in Pick(w.live) : Step([op |-> "release", id |-> b.id], [w EXCEPT !.live = w.live \ {b}])
Release2 == Release
Drain == Go /\ Mod(Len(hist), 11) = 10 /\ w.live # {} /\ \E q \in Pick({1, 1, 2, 3}), up \in Pick(BOOLEAN) :
   LET S == {b \in w.live : Mod(b.id, q) = 0} IN Step([op |-> "drain", q |-> q, up |-> up], [w EXCEPT !.live = w.live \ S])
ResetFrame == Go /\ "frame" \in Kinds /\ Step([op |-> "reset"], [w EXCEPT !.live = {b \in w.live : b.k # "frame"}])
\* after everything has been released the largest chunk is available in one piece
Whole == Go /\ w.live = {} /\ "heap" \in Kinds /\ \E id \in Pick(Id) :
   Step([op |-> "whole", id |-> id, k |-> "heap"], [w EXCEPT !.live = {[id |-> id, k |-> "heap", n |-> 0]}])
Finish == ~done /\ Len(hist) >= D /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<w, hist>>
Init == w = [live |-> {}] /\ hist = <<>> /\ done = FALSE
Next == Alloc \/ Alloc2 \/ AllocMany \/ Release \/ Release2 \/ Drain \/ ResetFrame \/ Whole \/ Finish
Spec == Init /\ [][Next]_vars
GenOK == \A x, y \in w.live : x.id = y.id => x = y

\* ================================================================= validation of recorded calls
Traces == [j \in 1..Jobs |-> ndJsonDeserialize(File \o ToString(j))]
\* w = [t, s(tate of the contract), bad]; hist is the position in the trace
TInit == \E j \in 1..Jobs : \E t \in 1..Len(Traces[j]) : w = [j |-> j, t |-> t, s |-> S0, bad |-> ""] /\ hist = 0 /\ done = FALSE
Ev == Traces[w.j][w.t].ev
TNext == /\ w.bad = "" /\ hist < Len(Ev)
         /\ hist' = hist + 1 /\ UNCHANGED done
         /\ LET e == Ev[hist+1] s == w.s IN
            CASE e.op = "alloc" -> LET b == [id |-> e.id, k |-> e.k, n |-> e.n, c |-> e.c, a |-> e.a] IN
                   w' = [w EXCEPT !.bad = IF AllocOK(s, b, e.z, e.g) THEN "" ELSE "alloc", !.s = AfterAlloc(s, b, e.cap)]
              [] e.op = "release" -> LET B == {x \in s.live : x.id = e.id} IN
                   w' = IF Cardinality(B) # 1 THEN [w EXCEPT !.bad = "release"] ELSE [w EXCEPT !.s = AfterRelease(s, CHOOSE x \in B : TRUE)]
              [] e.op = "reset" -> w' = [w EXCEPT !.s = AfterReset(s)]
              [] e.op = "end" -> w' = [w EXCEPT !.bad = IF e.left = 0 THEN "" ELSE "end"]       \* everything is given back to the base allocator
              [] e.op = "error" -> w' = [w EXCEPT !.bad = "error"]
TSpec == TInit /\ [][TNext]_vars
Accepted == w.bad = "" \/ (PrintT("@@" \o ToJson([j |-> w.j, t |-> w.t, k |-> hist])) /\ FALSE)
=============================================================================
