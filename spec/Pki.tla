-------------------------------- MODULE Pki --------------------------------
(***************************************************************************)
(* RPKI validation as cfrpki performs it: a breadth-first exploration that *)
(* starts at a trust anchor, follows manifests, and keeps a table of valid *)
(* objects from which CRLs and strict manifests take objects away again.   *)
(*                                                                         *)
(* A world = hierarchy x order of manifest entries x strictness options x  *)
(* a set of faults <<object, kind>>.  The OPERATIONAL part below mirrors   *)
(* the exploration (one action per explored file).  The DECLARATIVE part   *)
(* says, independently of any order, which ROAs/CAs must be accepted and,  *)
(* for the others, which property forbids it.  TLC checks that the         *)
(* operational outcome equals the declarative one in every world, and      *)
(* emits each world with its verdicts for replay on the real code.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Mode,      \* "single", "pair", "triple" : which fault sets to take
          Focus,     \* property whose faults must occur in pairs / triples ("" = any)
          Count      \* how many random worlds in the modes "pair"/"triple"; 0 = all pairs

(*------------------------------ hierarchies -----------------------------*)
Par == [ A |-> [c0 |-> "", c1 |-> "c0", c2 |-> "c0", c3 |-> "c1", c4 |-> "c3"],
         B |-> [c0 |-> "", c1 |-> "c0", c2 |-> "c1"] ]
Roas == [ A |-> [c0 |-> <<>>, c1 |-> <<"r1a", "r1b">>, c2 |-> <<"r2a">>, c3 |-> <<"r3a">>, c4 |-> <<"r4a">>],
          B |-> [c0 |-> <<"r0a">>, c1 |-> <<"r1a">>, c2 |-> <<"r2a", "r2b">>] ]
CaSeq == [ A |-> <<"c0", "c1", "c2", "c3", "c4">>, B |-> <<"c0", "c1", "c2">> ]
Range(s) == {s[i] : i \in 1..Len(s)}
CAs(t) == Range(CaSeq[t])
Mft(c) == "m" \o c
Crl(c) == "l" \o c
Cdp(l) == "x" \o l   \* a CRL reached through a distribution point, not a manifest
RoaSet(t) == UNION {Range(Roas[t][c]) : c \in CAs(t)}
CaOfRoa(t, r) == CHOOSE c \in CAs(t) : r \in Range(Roas[t][c])
KidSeq(t, c) == SelectSeq(CaSeq[t], LAMBDA k : Par[t][k] = c)
MftSet(t) == {Mft(c) : c \in CAs(t)}
CrlSet(t) == {Crl(c) : c \in CAs(t)}
CaOfMft(t, m) == CHOOSE c \in CAs(t) : Mft(c) = m
CaOfCrl(t, l) == CHOOSE c \in CAs(t) : Crl(c) = l

\* constant tables (TLC evaluates them once)
TT == {"A", "B"}
\* CRLs of c0 and c1 that are found late, on the manifest of CA o
LateY(o) == "y" \o o
\* a file of a type that validation makes no use of, on the manifest of c
Gbr(c) == "g" \o c
LateZ(o) == "z" \o o
LateOwners == [ A |-> [lc0 |-> {"c2", "c3", "c4"}, lc1 |-> {"c3", "c4"}], B |-> [lc0 |-> {"c2"}, lc1 |-> {"c2"}] ]
LateKind(o) == "late" \o o
GbrTab == [t \in TT |-> {Gbr(c) : c \in CAs(t)}]
LateTab == [t \in TT |-> {LateY(o) : o \in CAs(t)} \cup {LateZ(o) : o \in CAs(t)}]
CertNamesOf(t) == CAs(t) \cup MftSet(t) \cup RoaSet(t)
KindTab == [t \in TT |-> [o \in CertNamesOf(t) \cup CrlSet(t) \cup LateTab[t] \cup GbrTab[t] |->
    IF o \in GbrTab[t] THEN "gbr" ELSE IF o \in LateTab[t] THEN "crl" ELSE IF o \in CAs(t) THEN "ca" ELSE IF o \in MftSet(t) THEN "mft" ELSE IF o \in CrlSet(t) THEN "crl" ELSE "roa"]]
IssuerTab == [t \in TT |-> [o \in CertNamesOf(t) \cup CrlSet(t) \cup LateTab[t] |->
    IF o \in LateTab[t] THEN IF \E c \in CAs(t) : o = LateY(c) THEN "c0" ELSE "c1" ELSE IF o \in CAs(t) THEN Par[t][o] ELSE IF o \in MftSet(t) THEN CaOfMft(t, o)
    ELSE IF o \in CrlSet(t) THEN CaOfCrl(t, o) ELSE CaOfRoa(t, o)]]
\* the CA on whose manifest a file is
OwnerTab == [t \in TT |-> [o \in CertNamesOf(t) \cup CrlSet(t) \cup LateTab[t] \cup GbrTab[t] |->
    IF o \in GbrTab[t] THEN CHOOSE c \in CAs(t) : o = Gbr(c) ELSE IF o \in LateTab[t] THEN CHOOSE c \in CAs(t) : o = LateY(c) \/ o = LateZ(c) ELSE IssuerTab[t][o]]]
IssuedTab == [t \in TT |-> [c \in CAs(t) |-> {x \in CertNamesOf(t) : x # "c0" /\ IssuerTab[t][x] = c}]]
CdpTab == [t \in TT |-> {Cdp(l) : l \in CrlSet(t)}]
CertTab == [t \in TT |-> CertNamesOf(t)]
EntriesTab == [t \in TT |-> [c \in CAs(t) |-> LET r == Roas[t][c]  k == KidSeq(t, c) IN
   [ crlfirst |-> <<Crl(c)>> \o r \o k, crllast |-> k \o r \o <<Crl(c)>>, mixed |-> r \o <<Crl(c)>> \o k ]]]

(*-------------------------------- faults --------------------------------*)
TaKinds   == {"talkey", "selfsig", "exp", "notyet", "missing", "garbage"}
FileKinds == {"missing", "unreadable", "hash", "hashempty", "garbage", "unlisted"}
CertKinds == FileKinds \cup {"crossmft", "squat", "sig", "wrongkey", "exp", "notyet", "rev", "over4", "over6", "overas", "noca", "akiwrong"}
EeKinds   == {"eesig", "eewrongkey", "eeexp", "eenotyet", "eerev", "eeover4", "eeover6", "cmssig", "cmsforge", "digest", "nosigner"}
MftKinds  == EeKinds \cup {"missing", "unreadable", "garbage", "stale", "future", "dotdot", "gbrmissing", "gbrhash"}
CrlKinds  == FileKinds \cup {"badsig", "wrongkey", "crossaki", "noaki"}
RoaKinds  == EeKinds \cup FileKinds \cup {"entryout", "badmaxlen", "shortmaxlen", "badplen", "badasn", "negasn", "cmsold", "duprev"}
\* benign variations: nothing may change
Benign    == {"edgenb", "edgena", "inherit", "range", "republish", "shared"}

Faults(t) ==
     {<<"c0", k>> : k \in TaKinds \cup {"edgenb", "edgena"}}
  \cup {<<c, k>> : c \in CAs(t) \ {"c0"}, k \in CertKinds \cup {"edgenb", "edgena", "inherit", "range", "shared"}}
  \cup {<<m, k>> : m \in MftSet(t), k \in MftKinds \cup {"edgenb", "edgena", "inherit"}}
  \cup {<<l, k>> : l \in CrlSet(t), k \in CrlKinds}
  \cup UNION {{<<l, LateKind(c)>> : c \in LateOwners[t][l]} : l \in {"lc0", "lc1"}}
  \cup {<<r, k>> : r \in RoaSet(t), k \in RoaKinds \cup {"edgenb", "edgena", "republish"}}

\* behaviours on which the code is known to fail (see known_findings.json)
KnownBad(t) == IF t = "A" THEN {<<"r2a", "skidup">>} ELSE {}

PropOf(k) ==
  CASE k \in {"talkey", "selfsig", "sig", "wrongkey", "noca", "akiwrong", "eesig", "eewrongkey", "cmssig", "cmsforge", "digest", "nosigner", "cmsold"} -> "V01"
    [] k \in {"exp", "notyet", "eeexp", "eenotyet", "edgenb", "edgena"} -> "V02"
    [] k \in {"rev", "eerev", "duprev", "badsig", "crossaki", "noaki", "latec2", "latec3", "latec4"} -> "V03"
    [] k \in {"over4", "over6", "overas", "eeover4", "eeover6", "entryout", "inherit", "range"} -> "V04"
    [] k \in {"missing", "unreadable", "hash", "hashempty", "garbage", "unlisted", "stale", "future", "dotdot", "gbrmissing", "gbrhash", "republish"} -> "V05"
    [] k \in {"badmaxlen", "shortmaxlen", "badplen", "badasn", "negasn"} -> "V07"
    [] OTHER -> "V06"

Orders == {"crlfirst", "crllast", "mixed"}
\* entries of the manifest of c, in the order of the world, before dropping unlisted ones
Entries(w, c) == EntriesTab[w.topo][c][w.order]
F(w, o, k) == <<o, k>> \in w.faults
FAny(w, o, ks) == \E k \in ks : F(w, o, k)
Listed(w, o) == ~F(w, o, "unlisted")
LateFiles(w, c) == (IF F(w, "lc0", LateKind(c)) THEN <<LateY(c)>> ELSE <<>>) \o (IF F(w, "lc1", LateKind(c)) THEN <<LateZ(c)>> ELSE <<>>)
FileList(w, c) == SelectSeq(Entries(w, c), LAMBDA o : Listed(w, o)) \o LateFiles(w, c)
                  \o (IF FAny(w, Mft(c), {"gbrmissing", "gbrhash"}) THEN <<Gbr(c)>> ELSE <<>>)
GbrOf(w, o, k) == KindTab[w.topo][o] = "gbr" /\ F(w, Mft(OwnerTab[w.topo][o]), k)

(*-------------------------------- worlds --------------------------------*)
Opts == {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<FALSE, FALSE>>}
World(t, o, sm, fs) == [topo |-> t, order |-> o, sM |-> sm[1], sH |-> sm[2], faults |-> fs]
Base(t) == {World(t, o, s, {}) : o \in Orders, s \in Opts}
Single(t) == {World(t, o, s, {f}) : o \in Orders, s \in Opts, f \in Faults(t) \cup KnownBad(t)}
FocusFaults(t) == IF Focus = "" THEN Faults(t) ELSE {f \in Faults(t) : PropOf(f[2]) = Focus}
RndWorld(t, n) == \* one random world with n faults, the first from the focus
  World(t, RandomElement(Orders),
        IF RandomElement(1..2) = 1 THEN <<TRUE, TRUE>> ELSE RandomElement(Opts),
        {RandomElement(FocusFaults(t))} \cup {RandomElement(Faults(t)) : i \in 1..(n-1)})
AllPairs(t) == {World(t, o, <<TRUE, TRUE>>, {f, g}) : o \in {"crllast"}, f \in FocusFaults(t), g \in Faults(t)}
             
(*------------------------------ operational -----------------------------*)
VARIABLES w,        \* the world (constant after Init)
          queue,    \* files to explore
          uniq,     \* files ever queued
          valid,    \* accepted certificates: CA certs by name, EE certs by the name of their object
          seen,     \* certificates ever examined
          childs,   \* [cert -> certificates accepted below it]
          revoked,  \* set of <<issuer, certificate>> pairs listed by accepted CRLs
          vroa, vmft
vars == <<w, queue, uniq, valid, seen, childs, revoked, vroa, vmft>>

T == w.topo
CertNames(t) == CertTab[t]

InitWith(ww) ==
  /\ w = ww
  /\ queue = <<"c0">> /\ uniq = {"c0"} /\ valid = {} /\ seen = {}
  /\ childs = [c \in CertNames(ww.topo) |-> {}]
  /\ revoked = {} /\ vroa = {} /\ vmft = {}

Init ==
  \/ Mode = "single" /\ \E t \in {"A", "B"} : \E ww \in Single(t) \cup Base(t) : InitWith(ww)
  \/ Mode = "pair" /\ Count = 0 /\ \E t \in {"A"} : \E ww \in AllPairs(t) : InitWith(ww)
  \/ Mode = "pair" /\ Count > 0 /\ \E i \in 1..Count : \E t \in {"A", "B"} : InitWith(RndWorld(t, 2))
  \/ Mode = "triple" /\ \E i \in 1..Count : \E t \in {"A", "B"} : InitWith(RndWorld(t, 3))

\* everything below the certificates S, S included, along accepted children
RECURSIVE Down(_, _)
Down(S, ch) == LET n == S \cup UNION {ch[c] : c \in S} IN IF n = S THEN S ELSE Down(n, ch)

IsCA(o) == KindTab[T][o] = "ca"
IsMft(o) == KindTab[T][o] = "mft"
IsCrl(o) == KindTab[T][o] = "crl"
IsGbr(o) == KindTab[T][o] = "gbr"
IsRoa(o) == KindTab[T][o] = "roa"
Issuer(o) == IssuerTab[T][o]
Owner(o) == OwnerTab[T][o]
OnManifest(o) == (IsGbr(o) \/ IsRoa(o) \/ IsCrl(o) \/ (IsCA(o) /\ o # "c0")) /\ Listed(w, o)

MftStale(c) == FAny(w, Mft(c), {"stale", "future"})
NoData(o) == F(w, o, "missing") \/ GbrOf(w, o, "gbrmissing")
BadHash(o) == FAny(w, o, {"hash", "hashempty"}) \/ GbrOf(w, o, "gbrhash")

\* is certificate x (CA or EE), issued by i, acceptable given the valid set v and revocations rv
CertOk(x, i, v, rv) ==
  /\ i \in v
  /\ ~FAny(w, x, {"sig", "wrongkey", "akiwrong", "eesig", "eewrongkey"})
  /\ ~F(w, i, "noca")
  /\ ~FAny(w, x, {"exp", "notyet", "eeexp", "eenotyet"})
  /\ ~FAny(w, x, {"over4", "over6", "overas", "eeover4", "eeover6"})
  /\ <<i, x>> \notin rv

RevokedBy(c) == {<<c, x>> : x \in {x \in IssuedTab[T][c] : FAny(w, x, {"rev", "eerev", "duprev"})}}

Enq(S) == LET new == SelectSeq(S, LAMBDA o : o \notin uniq) IN
          /\ queue' = Tail(queue) \o new
          /\ uniq' = uniq \cup Range(new)

Step ==
  /\ queue # <<>>
  /\ UNCHANGED w
  /\ LET cdp == Head(queue) \in CdpTab[T]
         f == IF cdp THEN CHOOSE l \in CrlSet(T) : Cdp(l) = Head(queue) ELSE Head(queue)
         listed == ~cdp /\ OnManifest(f)
         readable == ~NoData(f) /\ ~F(w, f, "unreadable") /\ ~(listed /\ w.sH /\ BadHash(f))
         \* stale manifest: noticed when one of its files is processed
         inv1 == IF listed /\ w.sH /\ MftStale(Owner(f)) /\ ~NoData(f) /\ ~F(w, f, "unreadable")
                 THEN Down({Owner(f)}, childs) ELSE {}
         inv2 == IF ~readable /\ w.sM /\ listed THEN Down({Owner(f)}, childs) ELSE {}
         v0 == valid \ (inv1 \cup inv2)
         r0 == vroa \ (inv1 \cup inv2)
         m0 == vmft \ (inv1 \cup inv2)
     IN
     IF ~readable \/ F(w, f, "garbage") \/ IsGbr(f)
     THEN /\ valid' = v0 /\ vroa' = r0 /\ vmft' = m0
          /\ Enq(<<>>) /\ UNCHANGED <<seen, childs, revoked>>
     ELSE IF f = "c0" THEN
          LET ok == ~FAny(w, "c0", TaKinds) IN
          /\ valid' = IF ok THEN v0 \cup {f} ELSE v0
          /\ vroa' = r0 /\ vmft' = m0
          /\ seen' = seen \cup {f}
          /\ Enq(IF ok THEN <<Mft("c0")>> ELSE <<>>)
          /\ UNCHANGED <<childs, revoked>>
     ELSE IF IsCA(f) THEN
          LET ok == CertOk(f, Issuer(f), v0, revoked) IN
          /\ valid' = IF ok THEN v0 \cup {f} ELSE v0
          /\ vroa' = r0 /\ vmft' = m0
          /\ seen' = seen \cup {f}
          /\ childs' = IF ok THEN [childs EXCEPT ![Issuer(f)] = @ \cup {f}] ELSE childs
          \* the CRL distribution point of an accepted certificate is its issuer's CRL
          /\ Enq(IF ok THEN IF F(w, f, "crossmft") THEN <<Cdp(Crl(Issuer(f)))>> ELSE <<Cdp(Crl(Issuer(f))), Mft(f)>> ELSE <<>>)
          /\ UNCHANGED revoked
     ELSE IF IsMft(f) THEN
          LET c == Issuer(f)
              eeok == CertOk(f, c, v0, revoked)
              ok == eeok /\ ~FAny(w, f, {"cmssig", "cmsforge", "digest", "nosigner"})
              \* a parent-directory entry makes the whole manifest unreadable
          IN IF F(w, f, "dotdot")
             THEN /\ valid' = v0 /\ vroa' = r0 /\ vmft' = m0 /\ Enq(<<>>) /\ UNCHANGED <<seen, childs, revoked>>
             ELSE /\ valid' = IF eeok THEN v0 \cup {f} ELSE v0
                  /\ vroa' = r0 /\ vmft' = IF ok THEN m0 \cup {f} ELSE m0
                  /\ seen' = seen \cup {f}
                  /\ childs' = IF eeok THEN [childs EXCEPT ![c] = @ \cup {f}] ELSE childs
                  /\ Enq(IF ok /\ ~F(w, c, "squat") THEN FileList(w, c) ELSE <<>>)
                  /\ UNCHANGED revoked
     ELSE IF IsCrl(f) THEN
          LET c == Issuer(f)
              ok == c \in v0 /\ ~FAny(w, f, {"badsig", "wrongkey", "crossaki", "noaki"})
              rv == IF ~ok THEN {} ELSE IF f \in LateTab[T] THEN {<<c, IF c = "c0" THEN "c1" ELSE "mc1">>} ELSE RevokedBy(c)
              hit == {x \in childs[c] : <<c, x>> \in rv}
              \* a manifest whose own certificate is revoked takes its CA with it
              hit2 == IF Mft(c) \in hit THEN hit \cup {c} ELSE hit
              dead == Down(hit2, childs)
          IN /\ revoked' = revoked \cup rv
             /\ valid' = v0 \ dead /\ vroa' = r0 \ dead /\ vmft' = m0 \ dead
             /\ Enq(<<>>) /\ UNCHANGED <<seen, childs>>
     ELSE LET c == Issuer(f)
              eeok == CertOk(f, c, v0, revoked)
              ok == eeok /\ ~FAny(w, f, {"cmssig", "cmsforge", "digest", "nosigner", "cmsold", "badmaxlen", "shortmaxlen", "badplen", "badasn", "negasn"})
          IN /\ valid' = IF eeok THEN v0 \cup {f} ELSE v0
             /\ vroa' = IF ok THEN r0 \cup {f} ELSE r0
             /\ vmft' = m0
             /\ seen' = seen \cup {f}
             /\ childs' = IF eeok THEN [childs EXCEPT ![c] = @ \cup {f}] ELSE childs
             /\ Enq(<<>>) /\ UNCHANGED revoked

Next == Step
Spec == Init /\ [][Next]_vars
Done == queue = <<>>

(*------------------------------ declarative -----------------------------*)
(* Reasons are property ids; "W" marks a reason why something may be       *)
(* dropped without any property demanding it.                              *)
CrlListed(c) == Listed(w, Crl(c))
CrlGood(c) == ~FAny(w, Crl(c), {"missing", "unreadable", "garbage", "badsig", "wrongkey", "crossaki", "noaki"})
CrlHashOk(c) == ~(w.sH /\ FAny(w, Crl(c), {"hash", "hashempty"}))
\* a usable CRL on the manifest
CrlApplies(c) == CrlGood(c) /\ CrlListed(c) /\ CrlHashOk(c) /\ ~F(w, c, "squat")
\* ... or one that is only reachable through distribution points of child certificates
CrlMayApply(c) == CrlGood(c) /\ ~CrlApplies(c)

\* CAs on whose manifests there is a CRL of i that revokes x
LateRev(x, i) == {o \in CAs(T) : (x = "c1" /\ i = "c0" /\ F(w, "lc0", LateKind(o))) \/ (x = "mc1" /\ i = "c1" /\ F(w, "lc1", LateKind(o)))}
RevReasonsHere(x, i) == IF FAny(w, x, {"rev", "eerev", "duprev"})
                    THEN IF CrlApplies(i) THEN {"V03"} ELSE IF CrlMayApply(i) THEN {"W"} ELSE {}
                    ELSE {}
FileReasons(o) ==
     (IF FAny(w, o, {"missing", "unreadable", "garbage", "unlisted"}) THEN {"V05"} ELSE {})
  \cup (IF FAny(w, o, {"hash", "hashempty"}) /\ w.sH THEN {"V05"} ELSE {})
SimpleReasons(o) == {PropOf(k) : k \in {k \in {"talkey", "selfsig", "sig", "wrongkey", "akiwrong", "exp", "notyet",
      "over4", "over6", "overas", "eesig", "eewrongkey", "eeexp", "eenotyet", "eeover4", "eeover6", "cmssig", "cmsforge", "digest",
      "nosigner", "cmsold", "badmaxlen", "shortmaxlen", "badplen", "badasn", "negasn"} : F(w, o, k)}}

RECURSIVE PubL(_, _)
RevReasons(x, i, late) == RevReasonsHere(x, i) \cup
  (IF late THEN UNION {IF PubL(o, FALSE) = {} THEN {"V03"} ELSE {"W"} : o \in LateRev(x, i)} ELSE {})
OwnCert(c, late) == IF c = "c0" THEN SimpleReasons(c) \cup FileReasons(c)
              ELSE SimpleReasons(c) \cup FileReasons(c) \cup RevReasons(c, Par[T][c], late)
\* what the manifest of c does to everything issued by c
MftReasonsL(c, late) ==
  LET m == Mft(c) IN
     SimpleReasons(m)
  \cup (IF FAny(w, m, {"missing", "unreadable", "garbage"}) THEN {"V05"} ELSE {})
  \cup (IF F(w, m, "dotdot") THEN {"W"} ELSE {})
  \* the certificate does not lead to the manifest / to the files
  \cup (IF F(w, c, "crossmft") THEN {"V05"} ELSE {})
  \cup (IF F(w, c, "squat") THEN {"W"} ELSE {})
  \cup (IF MftStale(c) /\ w.sH THEN IF w.sM /\ ~F(w, c, "squat") THEN {"V05"} ELSE {"W"} ELSE {})
  \cup RevReasons(m, c, late)
  \cup (IF F(w, c, "noca") THEN {"V01"} ELSE {})
StrictReasons(c) ==
  IF w.sM /\ \E o \in Range(FileList(w, c)) :
       NoData(o) \/ F(w, o, "unreadable") \/ (w.sH /\ BadHash(o))
  \* files that are looked for in the wrong directory are never read
  THEN IF F(w, c, "squat") THEN {"W"} ELSE {"V05"} ELSE {}
\* Pub(c): reasons why nothing published under c may be used
PubL(c, late) == OwnCert(c, late) \cup MftReasonsL(c, late) \cup StrictReasons(c) \cup (IF c = "c0" THEN {} ELSE PubL(Par[T][c], late))
Pub(c) == PubL(c, TRUE)
MftReasons(c) == MftReasonsL(c, TRUE)
OwnRoa(r) == SimpleReasons(r) \cup FileReasons(r) \cup RevReasons(r, CaOfRoa(T, r), FALSE)
          \cup (IF F(w, r, "entryout") THEN {"W"} ELSE {})
RoaReasons(r) == OwnRoa(r) \cup Pub(CaOfRoa(T, r))
\* reasons why certificate c itself may not be accepted
CertReasons(c) == OwnCert(c, TRUE) \cup (IF c = "c0" THEN {} ELSE Pub(Par[T][c]))
\* the code withdraws a CA certificate together with its broken strict manifest
CertWeak(c) == CertReasons(c) # {} \/ StrictReasons(c) # {} \/ MftReasons(c) # {}
MftAccReasons(m) == LET c == CaOfMft(T, m) IN
     (IF F(w, m, "dotdot") THEN {"W"} ELSE {}) \cup Pub(c)

(*------------------------------ properties ------------------------------*)
TypeOK == /\ valid \subseteq CertNames(T) /\ vroa \subseteq RoaSet(T) /\ vmft \subseteq MftSet(T)
          /\ Range(queue) \subseteq uniq
\* design: the exploration computes exactly the declarative result
Sound    == Done => \A r \in vroa : RoaReasons(r) \subseteq {"W"}
Complete == Done => \A r \in RoaSet(T) : RoaReasons(r) = {} => r \in vroa
SoundC   == Done => \A c \in valid \cap CAs(T) : CertReasons(c) \subseteq {"W"}
CompleteC== Done => \A c \in CAs(T) : ~CertWeak(c) => c \in valid
SoundM   == Done => \A m \in vmft : MftAccReasons(m) \subseteq {"W"}
CompleteM== Done => \A m \in MftSet(T) : MftAccReasons(m) = {} => m \in vmft
\* an accepted object always hangs on an accepted chain
Chained  == /\ \A r \in vroa : r \in valid
            /\ Done => \A x \in valid : x = "c0" \/ Issuer(x) \in valid

SetToSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Range(s) = S
Emitted ==
  [topo |-> T, order |-> w.order, sM |-> w.sM, sH |-> w.sH, faults |-> w.faults,
   fp |-> {PropOf(f[2]) : f \in w.faults},
   cas |-> [c \in CAs(T) |-> [parent |-> Par[T][c], files |-> FileList(w, c), roas |-> Roas[T][c],
                              why |-> CertReasons(c), weak |-> CertWeak(c)]],
   roas |-> [r \in RoaSet(T) |-> RoaReasons(r)],
   mfts |-> [m \in MftSet(T) |-> MftAccReasons(m)],
   vroa |-> vroa]
Emit == Done => PrintT("@W@" \o ToJson(Emitted))
=============================================================================
