----------------------------- MODULE Resources -----------------------------
(* What a chain of certificates may hold: a trust anchor, two CAs below it   *)
(* and the end-entity certificate of a ROA, over a line of N points (address *)
(* blocks or AS numbers, adjacent ones merge into one range). Every level    *)
(* lists points, inherits, or lists nothing. TLC enumerates every chain and  *)
(* emits which levels are accepted and which ROA prefixes are covered.       *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANT N           \* points

Points == 0..(N - 1)
Inherit == {-1}                      \* marker, no point
Claims == {Inherit} \cup SUBSET Points

VARIABLES ta, c1, c2, ee
vars == <<ta, c1, c2, ee>>
Init == /\ ta \in Claims /\ c1 \in Claims /\ c2 \in Claims /\ ee \in Claims
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Chain == <<ta, c1, c2, ee>>
RECURSIVE Eff(_)                     \* effective holdings of level i
Eff(i) == IF Chain[i] # Inherit THEN Chain[i] ELSE IF i = 1 THEN {} ELSE Eff(i - 1)
RECURSIVE Acc(_)                     \* level i is accepted
Acc(i) == i = 1 \/ (Acc(i - 1) /\ (Chain[i] = Inherit \/ Chain[i] \subseteq Eff(i - 1)))

(* ROA prefixes: aligned blocks of 1, 2, 4 points *)
Ints == {<<i, i + w - 1>> : <<i, w>> \in {y \in Points \X {1, 2, 4} : y[1] + y[2] <= N /\ y[1] % y[2] = 0}}
Block(x) == x[1]..x[2]
Entry(x) == Acc(4) /\ ee # Inherit /\ Block(x) \subseteq ee

(* the broad guarantees *)
NeverExceeds == \A i \in 1..4 : Acc(i) => Eff(i) \subseteq Eff(1)
Monotone == \A i \in 2..4 : Acc(i) => Eff(i) \subseteq Eff(i - 1)
VrpHeldByAll == \A x \in Ints : Entry(x) => \A i \in 1..4 : Block(x) \subseteq Eff(i)
(* inheriting everywhere below passes the holdings down unchanged *)
InheritAll == (\A i \in 2..3 : Chain[i] = Inherit) => (Acc(3) /\ Eff(3) = Eff(1))

RECURSIVE Code(_, _)
Code(s, p) == IF p = N THEN "" ELSE (IF p \in s THEN "1" ELSE "0") \o Code(s, p + 1)
Show(s) == IF s = Inherit THEN "i" ELSE Code(s, 0)
RECURSIVE Entries(_)
Entries(S) == IF S = {} THEN "" ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] * 100 + y[2] <= z[1] * 100 + z[2] IN
   (IF Entry(x) THEN "1" ELSE "0") \o Entries(S \ {x})
Emit == PrintT("@R@" \o Show(ta) \o " " \o Show(c1) \o " " \o Show(c2) \o " " \o Show(ee) \o " " \o
   (IF Acc(2) THEN "1" ELSE "0") \o (IF Acc(3) THEN "1" ELSE "0") \o (IF Acc(4) THEN "1" ELSE "0") \o " " \o Entries(Ints))
=============================================================================
