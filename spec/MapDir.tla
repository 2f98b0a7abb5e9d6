------------------------------ MODULE MapDir ------------------------------
(* Where a file of a repository is looked up: the mapping given to localrpki and ctrpki with
   -map.dir, and the one of octorpki, which has the one entry "rsync://" -> cache.

   The operator adds entries one by one, in any order. A URI is a sequence of path elements
   (host, module, directories, file name); an entry maps the URIs below a prefix of elements to a
   directory. The most specific entry decides, wherever it stands in the list; the rest of the URI is
   the name of the file below the directory of the entry. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEntries,  \* entries of a mapping
          MaxPrefix,   \* elements of a prefix
          Emitting

Hosts == {"a", "a.b"}
Dirs  == {"x", "xy", "rsync:"}   \* names that begin with one another; one that looks like a scheme
Files == {"f.roa"}

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
URIs == {<<h>> \o d \o <<f>> : h \in Hosts, d \in Seqs(Dirs, 2) \ {<<>>}, f \in Files}
Prefixes == {<<>>} \cup {<<h>> \o d : h \in Hosts, d \in Seqs(Dirs, MaxPrefix - 1)}

Below(u, p) == Len(p) < Len(u) /\ SubSeq(u, 1, Len(p)) = p

VARIABLES list    \* the entries: the k-th maps list[k] to directory k
vars == <<list>>

Nowhere == <<0, <<>>>>
\* the rule, stated
Place(u, l) ==
  LET m == {k \in 1..Len(l) : Below(u, l[k])}
  IN IF m = {} THEN Nowhere
     ELSE LET k == CHOOSE k \in m : \A j \in m : Len(l[j]) <= Len(l[k])
          IN <<k, SubSeq(u, Len(l[k]) + 1, Len(u))>>

\* the rule, as it is computed: one pass over the entries, in any order
RECURSIVE Scan(_, _, _, _)
Scan(u, l, order, best) ==
  IF order = <<>> THEN IF best = 0 THEN Nowhere ELSE <<best, SubSeq(u, Len(l[best]) + 1, Len(u))>>
  ELSE LET k == Head(order)
       IN Scan(u, l, Tail(order), IF Below(u, l[k]) /\ (best = 0 \/ Len(l[k]) > Len(l[best])) THEN k ELSE best)
Orders(n) == {o \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => o[i] # o[j]}

Init == list = <<>>
Add(p) == /\ Len(list) < MaxEntries
          /\ \A k \in 1..Len(list) : list[k] # p
          /\ list' = Append(list, p)
Next == \E p \in Prefixes : Add(p)
Spec == Init /\ [][Next]_vars

TypeOK == list \in Seq(Prefixes)
\* neither the order of the entries nor that of the pass matters
OrderFree == \A u \in URIs : \A o \in Orders(Len(list)) : Scan(u, list, o, 0) = Place(u, list)
\* files of one entry are kept apart, and the whole of the name counts
Apart == \A u, v \in URIs : u # v /\ Place(u, list) = Place(v, list) => Place(u, list) = Nowhere
\* nothing is looked up outside of what was mapped
Mapped == \A u \in URIs : (\E k \in 1..Len(list) : Below(u, list[k])) <=> Place(u, list) # Nowhere
\* an entry changes what is below it and nothing else
Local == [][\A u \in URIs : ~Below(u, list'[Len(list')]) => Place(u, list') = Place(u, list)]_vars

Emit == ~Emitting \/ list = <<>> \/
  PrintT("@V@" \o ToJson([list |-> list, uris |-> {[u |-> u, k |-> Place(u, list)[1], r |-> Place(u, list)[2]] : u \in URIs}]))
=============================================================================
