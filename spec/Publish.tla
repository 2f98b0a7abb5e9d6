------------------------------ MODULE Publish ------------------------------
(* From the accepted ROAs of the configured trust anchors to the published   *)
(* list: every ROA is examined as a whole, its entries are compared with the *)
(* resources of its end-entity certificate one by one, the union over all    *)
(* trust anchors is filtered by prefix length (if asked for) and entries     *)
(* that agree in prefix, maximum length and origin AS are published once.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, SequencesExt

CONSTANTS Mode,      \* "pairs": all pairs of ROAs of one entry; "random"
          MaxRoas, MaxEntries, Emitting

VARIABLES roas, filter, pc, i, list, counts, local
vars == <<roas, filter, pc, i, list, counts, local>>

Tas == {1, 2}
None == -1

\* an entry: family, network (in1, in2: inside the resources of the CA; out: outside; wide: around them), length, maximum length
\* family m: IPv6 addresses of the form ::ffff:a.b.c.d
Lens(f) == CASE f = "4" -> {16, 23, 24, 25, 32} [] f = "6" -> {40, 47, 48, 49, 128} [] f = "m" -> {112, 120, 128}
Bits(f) == IF f = "4" THEN 32 ELSE 128
Mls(f, l) == {None, l, l + 1, Bits(f), l - 1, Bits(f) + 1, 0}
Entries == UNION {UNION {{[f |-> f, n |-> n, l |-> l, m |-> m] : n \in {"in1", "in2"}, m \in Mls(f, l)} : l \in Lens(f)} : f \in {"4", "6", "m"}}
           \cup {[f |-> f, n |-> "out", l |-> IF f = "4" THEN 16 ELSE 40, m |-> None] : f \in {"4", "6"}}
           \cup {[f |-> f, n |-> "wide", l |-> IF f = "4" THEN 7 ELSE 31, m |-> m] : f \in {"4", "6"}, m \in {None, 24}}
Asns == {"zero", "a", "b", "max", "over", "huge", "neg"}

\* the whole ROA is void if one entry is out of bounds, or the origin AS is
Bounded(e) == e.m = None \/ (e.l <= e.m /\ e.m <= Bits(e.f))
Sound(r) == r.asn \notin {"over", "huge", "neg"} /\ \A k \in 1..Len(r.es) : Bounded(r.es[k])
Covered(e) == e.n \in {"in1", "in2"}
Kept(e, flt) == ~flt \/ e.l <= (IF e.f = "4" THEN 24 ELSE 48)
Vrp(r, e) == [f |-> e.f, n |-> e.n, l |-> e.l, m |-> IF e.m = None THEN e.l ELSE e.m, asn |-> r.asn]

Small == {e \in Entries : e.n = "in1" /\ e.l \in {24, 25, 48, 49, 120} /\ e.m \in {None, e.l, e.l + 1}}
RoaSet == IF Mode = "pairs"
          THEN [ta : Tas, asn : {"a", "b"}, es : {<<e>> : e \in Small}]
          ELSE {}
Pick(S) == RandomElement(S)
\* mostly few values, so that ROAs meet
\* (with parameters: TLC evaluates a constant definition without any only once)
BoundedEntries == {e \in Entries : Bounded(e)}
CoveredEntries == {e \in BoundedEntries : Covered(e)}
Beyond == {e \in Entries : Bounded(e) /\ ~Covered(e)}
RandomEntry(k) == IF k <= 10 THEN RandomElement(Small) ELSE IF k <= 16 THEN RandomElement(CoveredEntries)
                  ELSE IF k <= 19 THEN RandomElement(Beyond) ELSE RandomElement(Entries)
RandomAsn(k) == IF k = 1 THEN RandomElement(Asns) ELSE RandomElement({"a", "b", "zero", "max"})

Init == /\ roas = <<>> /\ filter = FALSE /\ pc = "build" /\ i = 1 /\ list = <<>> /\ local = <<>>
        /\ counts = [t \in Tas |-> 0]

Add == /\ pc = "build" /\ Len(roas) < MaxRoas
       /\ \/ /\ Mode = "pairs"
             /\ \E r \in RoaSet : roas' = Append(roas, r)
          \/ /\ Mode # "pairs"
             /\ \E n \in {RandomElement(1..MaxEntries)} : \E t \in {RandomElement(Tas)} : \E a \in {RandomAsn(RandomElement(1..12))} :
               \E es \in {TLCEval([k \in 1..n |-> RandomEntry(RandomElement(1..20))])} :
                  roas' = Append(roas, [ta |-> t, asn |-> a, es |-> es])
          \/ \* the same ROA under the other trust anchor, or under the same
             /\ Mode # "pairs" /\ roas # <<>>
             /\ \E k \in {RandomElement(1..Len(roas))}, t \in {RandomElement(Tas)} : roas' = Append(roas, [roas[k] EXCEPT !.ta = t])
       /\ UNCHANGED <<filter, pc, i, list, counts, local>>

Start == /\ pc = "build" /\ Len(roas) = MaxRoas
         /\ pc' = "publish"
         /\ filter' \in (IF Mode = "pairs" THEN BOOLEAN ELSE {RandomElement(BOOLEAN)})
         /\ UNCHANGED <<roas, i, list, counts, local>>

Same(a, b) == a.v = b.v
Has(l, v) == \E k \in 1..Len(l) : l[k].v = v
RECURSIVE Put(_, _, _)
Put(l, r, es) == IF es = <<>> THEN l
                 ELSE LET e == Head(es) v == Vrp(r, e) IN
                      Put(IF Covered(e) /\ Kept(e, filter) /\ ~Has(l, v) THEN Append(l, [v |-> v, ta |-> r.ta]) ELSE l, r, Tail(es))
Valids(r) == IF Sound(r) THEN SelectSeq(r.es, Covered) ELSE <<>>

Process == /\ pc = "publish" /\ i <= Len(roas)
           /\ list' = IF Sound(roas[i]) THEN Put(list, roas[i], roas[i].es) ELSE list
           /\ counts' = [counts EXCEPT ![roas[i].ta] = @ + Len(Valids(roas[i]))]
           /\ local' = local \o [k \in 1..Len(Valids(roas[i])) |-> [v |-> Vrp(roas[i], Valids(roas[i])[k]), roa |-> i]]
           /\ i' = i + 1
           /\ UNCHANGED <<roas, filter, pc>>
Finish == pc = "publish" /\ i > Len(roas) /\ pc' = "done" /\ UNCHANGED <<roas, filter, i, list, counts, local>>
Next == Add \/ Start \/ Process \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Stated == {<<k, j>> \in (1..Len(roas)) \X (1..20) : j <= Len(roas[k].es) /\ Sound(roas[k]) /\ Covered(roas[k].es[j]) /\ Kept(roas[k].es[j], filter)}
VrpOf(p) == Vrp(roas[p[1]], roas[p[1]].es[p[2]])
NoTwice == \A a, b \in 1..Len(list) : a # b => list[a].v # list[b].v
Exact == pc = "done" => {list[k].v : k \in 1..Len(list)} = {VrpOf(p) : p \in Stated}
Labelled == pc = "done" => \A k \in 1..Len(list) : \E p \in Stated : VrpOf(p) = list[k].v /\ roas[p[1]].ta = list[k].ta
WellFormed == \A k \in 1..Len(list) : list[k].v.l <= list[k].v.m /\ list[k].v.m <= Bits(list[k].v.f)
\* with the filter off or no entry beyond its limits nothing is lost between the ROAs and the list
Complete == pc = "done" => \A k \in 1..Len(local) : Kept(local[k].v, filter) => Has(list, local[k].v)

Labels(v) == {roas[p[1]].ta : p \in {q \in Stated : VrpOf(q) = v}}
Emit == pc = "done" /\ Emitting =>
    PrintT("@P@" \o ToJson([roas |-> roas, filter |-> filter, list |-> [k \in 1..Len(list) |-> [v |-> list[k].v, tas |-> SetToSeq(Labels(list[k].v))]],
                             counts |-> counts, local |-> local]))
=============================================================================
