------------------------------ MODULE Confine ------------------------------
(* Where what a publisher names may end up (S03). Locations are sequences of *)
(* names from the file system root down; the cache lies below Root. A        *)
(* publisher controls the URIs of an RRDP snapshot and delta, the location   *)
(* of a CA's publication point, and the tree (with symbolic links) rsync     *)
(* finds there. Every behaviour is emitted and replayed on octorpki.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,     \* directories in a URI
          Prefix,     \* hosts are compared up to the next "/" (TRUE), or as strings
          Climb,      \* "reject": URIs that climb are not stored; "join": the path is used as it is
          Links,      \* "safe": rsync drops links that lead out of what it copies; "any": it does not
          Emitting

Hosts == {"own", "ownx", "own:80", "OWN", "victim", "..", ".", ""}
Elems == {"a", "..a", "..", ".", "", "..\\", "%2e%2e", "..."}
Lasts == {"f", "a", "..", ".", ""}
Paths(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}

Root == <<"r1", "r2", "r3", "r4", "r5", "r6", "cache">>
Names(u) == <<u.host>> \o u.path \o <<u.last>>

RECURSIVE Norm(_, _)
Norm(at, s) == IF s = <<>> THEN at
               ELSE Norm(CASE Head(s) \in {"", "."} -> at
                           [] Head(s) = ".." -> IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1)
                           [] OTHER -> Append(at, Head(s)), Tail(s))
Within(dir, loc) == Len(loc) >= Len(dir) /\ SubSeq(loc, 1, Len(dir)) = dir

(* symbolic links: location -> location *)
RECURSIVE Real(_, _, _)
Real(loc, ln, n) ==
  LET hit == {i \in 1..Len(loc) : SubSeq(loc, 1, i) \in DOMAIN ln}
  IN IF hit = {} \/ n = 0 THEN loc
     ELSE LET i == CHOOSE i \in hit : \A j \in hit : i <= j
          IN Real(ln[SubSeq(loc, 1, i)] \o SubSeq(loc, i + 1, Len(loc)), ln, n - 1)

(* ---- the trees a publisher may offer to rsync, in module l; targets relative to the link, or absolute *)
Module == Root \o <<"own", "l">>
Out == <<"r1", "r2", "out">>
Offer == [none |-> {}, in |-> {[at |-> <<"ln">>, abs |-> FALSE, to |-> <<"a">>]},
          abs |-> {[at |-> <<"ln">>, abs |-> TRUE, to |-> Out]},
          up2 |-> {[at |-> <<"ln">>, abs |-> FALSE, to |-> <<"..", "..">>]},
          up3 |-> {[at |-> <<"ln">>, abs |-> FALSE, to |-> <<"..", "..", "..">>]},
          deep |-> {[at |-> <<"a", "ln">>, abs |-> FALSE, to |-> <<"..", "..", "..", "..">>]},
          hop |-> {[at |-> <<"a", "a", "d">>, abs |-> FALSE, to |-> <<"..", "..">>], [at |-> <<"ln">>, abs |-> FALSE, to |-> <<"a", "a", "d", "..", "..", "..">>]}]
Through == [none |-> <<"l", "a">>, in |-> <<"l", "ln">>, abs |-> <<"l", "ln">>, up2 |-> <<"l", "ln">>, up3 |-> <<"l", "ln">>, deep |-> <<"l", "a", "ln">>, hop |-> <<"l", "ln">>]
Target(l) == IF l.abs THEN l.to ELSE Norm(Module \o SubSeq(l.at, 1, Len(l.at) - 1), l.to)
(* ".." may only lead, and not out of the module *)
SafeLink(l) == /\ ~l.abs
               /\ \A i \in 2..Len(l.to) : l.to[i] = ".." => l.to[i - 1] = ".."
               /\ Cardinality({i \in 1..Len(l.to) : l.to[i] = ".."}) <= Len(l.at) - 1
Delivered(s) == {l \in Offer[s] : Links = "any" \/ SafeLink(l)}
AsMap(S) == [p \in {Module \o l.at : l \in S} |-> Target(CHOOSE l \in S : Module \o l.at = p)]

(* ---- behaviours *)
Uri(h, p, l) == [host |-> h, path |-> p, last |-> l]
Ops == {<<"snapshot", "publish">>, <<"delta", "publish">>, <<"delta", "withdraw">>}
Rrdp == [kind : {"rrdp"}, uri : {Uri(h, p, l) : h \in Hosts, p \in Paths(Elems, 0, MaxLen), l \in Lasts}, op : Ops, offer : {"none"}]
Sia == [kind : {"sia"}, uri : {Uri(h, p, "") : h \in {"own", "own:80", "..", ".", ""}, p \in Paths(Elems, 1, MaxLen)}, op : {<<"rsync", "">>}, offer : {"none"}]
Lnk == {[kind |-> "links", uri |-> Uri("own", Through[o], "f"), op |-> op, offer |-> o] : o \in DOMAIN Offer, op \in Ops \ {<<"snapshot", "publish">>}}

VARIABLES b, pc, links, made    \* made: what was created, changed or truncated, each with the host it belongs to
vars == <<b, pc, links, made>>
Init == b \in Rrdp \cup Sia \cup Lnk /\ pc = "rsync" /\ links = <<>> /\ made = {}

Foreign(u) == IF Prefix THEN u.host # "own" ELSE u.host \notin {"own", "ownx", "own:80"}
Climbs(u) == \E i \in 1..Len(Names(u)) : i > 1 /\ Names(u)[i] \in {"..", "..\\"}
Dot(s) == s \in {"", ".", ".."}
(* plain URIs have to be stored; what else is on the own host may be stored or refused *)
Plain(u) == u.host = "own" /\ ~Dot(u.last) /\ \A i \in 1..Len(u.path) : u.path[i] \in {"a", "..a", "l", "ln"}
Class == CASE b.kind = "sia" -> IF Dot(b.uri.host) \/ Dot(b.uri.path[1]) THEN "none" ELSE "dir"
           [] Foreign(b.uri) -> "ignored"
           [] Plain(b.uri) -> "stored"
           [] OTHER -> "either"
Loc == IF b.kind = "sia" THEN Norm(Root, <<b.uri.host, b.uri.path[1]>>) ELSE Norm(Root, Names(b.uri))

Rsync == /\ pc = "rsync" /\ pc' = "rrdp"
         /\ links' = IF b.kind = "links" THEN AsMap(Delivered(b.offer)) ELSE <<>>
         /\ made' = CASE b.kind = "links" -> {<<"own", Module>>}
                      [] b.kind = "sia" /\ (Class = "dir" \/ Climb = "join") -> {<<b.uri.host, Loc>>}
                      [] OTHER -> {}
         /\ UNCHANGED b
Store == /\ pc = "rrdp" /\ pc' = "done" /\ b.kind # "sia"
         /\ made' = IF Foreign(b.uri) \/ (Climbs(b.uri) /\ Climb = "reject") THEN made
                    ELSE made \cup {<<"own", Real(Loc, links, 6)>>}
         /\ UNCHANGED <<b, links>>
Refuse == /\ pc = "rrdp" /\ pc' = "done" /\ (b.kind = "sia" \/ Class = "either") /\ UNCHANGED <<b, links, made>>
Say == /\ pc = "done" /\ pc' = "said" /\ UNCHANGED <<b, links, made>>
       /\ IF Emitting THEN PrintT("@V@" \o ToJson([kind |-> b.kind, uri |-> b.uri, where |-> b.op[1], op |-> b.op[2], class |-> Class, loc |-> Loc,
                                                   links |-> {[at |-> l.at, abs |-> l.abs, to |-> l.to] : l \in Offer[b.offer]}, offer |-> b.offer])) ELSE TRUE
Next == Rsync \/ Store \/ Refuse \/ Say
Spec == Init /\ [][Next]_vars

Confined == \A m \in made : ~Dot(m[1]) /\ Within(Append(Root, m[1]), m[2])
=============================================================================
