--------------------------------- MODULE Ov ---------------------------------
(* Route origin validation (ov/ov.go, RFC 6811).                             *)
(* A validator is loaded with a sequence of VRPs, then asked about routes.   *)
(* The implementation walks a tree and folds the covering VRPs one at a time *)
(* into a state (Step); the property is the declarative table (Verdict).     *)
(* Prefixes are bit strings of at most W bits; the harness embeds them at    *)
(* many positions of the IPv4 and IPv6 address spaces.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Randomization

CONSTANTS W,        \* width in bits
          ASNs,     \* AS numbers, with 0
          N,        \* VRPs per validator
          Sample    \* 0: every set; k: k random sets of the largest size

Bits == UNION {[1..l -> {0, 1}] : l \in 0..W}
Vrps == {[p |-> p, m |-> m, a |-> a, f |-> f] :
           p \in Bits, m \in 0..(W + 1), a \in ASNs, f \in {4}}
WellFormed(v) == v.m >= Len(v.p)
VRP == {v \in Vrps : WellFormed(v) /\ v.m <= W}
VRP6 == {[v EXCEPT !.f = 6] : v \in {x \in VRP : Len(x.p) <= 1}}   \* of the other family
Routes == {[p |-> p, a |-> a] : p \in Bits, a \in ASNs}

Covers(v, r) == v.f = 4 /\ IsPrefix(v.p, r.p)
Matches(v, r) == Covers(v, r) /\ v.a # 0 /\ v.a = r.a /\ Len(r.p) <= v.m

(* ---- RFC 6811 ---- *)
Verdict(vs, r) ==
  IF \E i \in DOMAIN vs : Matches(vs[i], r) THEN "Valid"
  ELSE IF \E i \in DOMAIN vs : Covers(vs[i], r) THEN "Invalid" ELSE "NotFound"
Covering(vs, r) == {i \in DOMAIN vs : Covers(vs[i], r)}

(* ---- the fold over the covering VRPs, in any order ---- *)
Step(st, v, r) == IF st = "Valid" THEN st ELSE IF Matches(v, r) THEN "Valid" ELSE "Invalid"
RECURSIVE Fold(_, _, _, _)
Fold(vs, order, st, r) ==
  IF order = <<>> THEN st ELSE Fold(vs, Tail(order), Step(st, vs[Head(order)], r), r)
Orders(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}

VARIABLES vrps

Zero == {[p |-> <<>>, m |-> W, a |-> 0, f |-> 4]}
Pool == VRP \cup VRP6
Multi(n) == LET Q == SetToSeq(Pool) IN          \* multisets of n VRPs
   {[i \in 1..n |-> Q[s[i]]] : s \in {t \in [1..n -> 1..Len(Q)] : \A i \in 1..(n - 1) : t[i] <= t[i + 1]}}
Random3 == LET k == Cardinality(Pool) Q == SetToSeq(Pool) IN
   {[i \in 1..N |-> Q[1 + ((x[i] - 1) % k)]] : x \in RandomSubset(Sample, [1..N -> 1..k])}

Init == vrps \in IF Sample = 0 THEN UNION {Multi(n) : n \in 0..N} ELSE Random3
Next == UNCHANGED vrps
Spec == Init /\ [][Next]_vrps

(* every order of the fold gives the table's verdict *)
OrderFree == \A r \in Routes : \A o \in Orders(Covering(vrps, r)) :
                Fold(vrps, o, "NotFound", r) = Verdict(vrps, r)
(* duplicates and VRPs of the other family change nothing *)
DupFree == \A r \in Routes : Verdict(vrps \o vrps, r) = Verdict(vrps, r)
AsZero == \A r \in Routes : r.a = 0 => Verdict(vrps, r) # "Valid"
Monotone == \A r \in Routes : Verdict(vrps, r) = "Valid" =>
               \A v \in Zero : Verdict(Append(vrps, v), r) = "Valid"

Rec == [v |-> vrps,
        r |-> LET RS == SetToSeq(Routes) IN
              [i \in DOMAIN RS |-> [p |-> RS[i].p, a |-> RS[i].a, s |-> Verdict(vrps, RS[i]),
                                    c |-> SetToSortSeq(Covering(vrps, RS[i]), <)]]]
Emit == PrintT("@V@" \o ToJson(Rec))
=============================================================================
