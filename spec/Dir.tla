-------------------------------- MODULE Dir --------------------------------
(***************************************************************************)
(* Validation without manifests (-manifest.use=false): the directory of    *)
(* each accepted CA is read instead of its manifest, and every file in it  *)
(* is examined at once, in the order of the names.  Manifests are files    *)
(* like the others: they neither add files nor take any away.              *)
(* Hierarchies, objects and faults are those of Pki.tla; what differs is   *)
(* the exploration, and what each fault forbids.                           *)
(***************************************************************************)
EXTENDS Pki

VARIABLE dir        \* files left of the directory that is being read
dvars == <<vars, dir>>

DirOf(c) == "d" \o c
DirTab == [t \in TT |-> {DirOf(c) : c \in CAs(t)}]
CaOfDir(t, d) == CHOOSE c \in CAs(t) : DirOf(c) = d

\* what c publishes, in the order of the names
DSeqTab == [t \in TT |-> [c \in CAs(t) |-> LET r == Roas[t][c]  k == KidSeq(t, c) IN
   [ crlfirst |-> <<Crl(c), Mft(c)>> \o r \o k, crllast |-> k \o r \o <<Mft(c), Crl(c)>>, mixed |-> <<Mft(c)>> \o r \o <<Crl(c)>> \o k ]]]
DSeq(c) == DSeqTab[T][c][w.order] \o LateFiles(w, c)
\* CAs may publish in the directory of their parent
IsShared(c) == F(w, c, "shared") /\ ~\E f \in w.faults : f[2] = "squat"
RECURSIVE Place(_)
Place(c) == IF IsShared(c) THEN Place(Par[T][c]) ELSE c
RECURSIVE Concat(_)
Concat(cs) == IF cs = <<>> THEN <<>> ELSE DSeq(Head(cs)) \o Concat(Tail(cs))
\* everything there
DirSeq(c) == Concat(SelectSeq(CaSeq[T], LAMBDA o : Place(o) = Place(c)))

RECURSIVE Above(_)
Above(c) == IF c = "c0" THEN {"c0"} ELSE {c} \cup Above(Par[T][c])
\* the directory that the certificate of c leads to
Points(c) == IF F(w, c, "squat") THEN IF CAs(T) \ Above(c) = {} THEN {Par[T][c]} ELSE CAs(T) \ Above(c) ELSE {c}

DInit == Init /\ dir = <<>>

\* one file is examined; q is what is queued beside it
Examine(f, q) ==
  LET push(S) == LET new == SelectSeq(S, LAMBDA o : o \notin uniq) IN queue' = q \o new /\ uniq' = uniq \cup Range(new) IN
  IF FAny(w, f, {"missing", "unreadable", "garbage"})
  THEN push(<<>>) /\ UNCHANGED <<seen, childs, revoked, valid, vroa, vmft>>
  ELSE IF f = "c0" THEN
    LET ok == ~FAny(w, "c0", TaKinds) IN
    /\ valid' = IF ok THEN valid \cup {f} ELSE valid
    /\ seen' = seen \cup {f}
    /\ push(IF ok THEN <<DirOf("c0")>> ELSE <<>>)
    /\ UNCHANGED <<childs, revoked, vroa, vmft>>
  ELSE IF IsCA(f) THEN
    LET ok == CertOk(f, Issuer(f), valid, revoked) IN
    /\ valid' = IF ok THEN valid \cup {f} ELSE valid
    /\ seen' = seen \cup {f}
    /\ childs' = IF ok THEN [childs EXCEPT ![Issuer(f)] = @ \cup {f}] ELSE childs
    /\ push(IF ok THEN <<DirOf(f)>> ELSE <<>>)
    /\ UNCHANGED <<revoked, vroa, vmft>>
  ELSE IF IsMft(f) THEN
    LET eeok == CertOk(f, Issuer(f), valid, revoked)
        ok == eeok /\ ~FAny(w, f, {"cmssig", "cmsforge", "digest", "nosigner"}) IN
    IF F(w, f, "dotdot") THEN push(<<>>) /\ UNCHANGED <<seen, childs, revoked, valid, vroa, vmft>>
    ELSE /\ valid' = IF eeok THEN valid \cup {f} ELSE valid
         /\ vmft' = IF ok THEN vmft \cup {f} ELSE vmft
         /\ seen' = seen \cup {f}
         /\ childs' = IF eeok THEN [childs EXCEPT ![Issuer(f)] = @ \cup {f}] ELSE childs
         /\ push(<<>>) /\ UNCHANGED <<revoked, vroa>>
  ELSE IF IsCrl(f) THEN
    LET c == Issuer(f)
        ok == c \in valid /\ ~FAny(w, f, {"badsig", "wrongkey", "crossaki", "noaki"})
        rv == IF ~ok THEN {} ELSE IF f \in LateTab[T] THEN {<<c, IF c = "c0" THEN "c1" ELSE "mc1">>} ELSE RevokedBy(c)
        hit == {x \in childs[c] : <<c, x>> \in rv}
        hit2 == IF Mft(c) \in hit THEN hit \cup {c} ELSE hit
        dead == Down(hit2, childs)
    IN /\ revoked' = revoked \cup rv
       /\ valid' = valid \ dead /\ vroa' = vroa \ dead /\ vmft' = vmft \ dead
       /\ push(<<>>) /\ UNCHANGED <<seen, childs>>
  ELSE
    LET c == Issuer(f)
        eeok == CertOk(f, c, valid, revoked)
        ok == eeok /\ ~FAny(w, f, {"cmssig", "cmsforge", "digest", "nosigner", "cmsold", "badmaxlen", "shortmaxlen", "badplen", "badasn", "negasn"})
    IN /\ valid' = IF eeok THEN valid \cup {f} ELSE valid
       /\ vroa' = IF ok THEN vroa \cup {f} ELSE vroa
       /\ seen' = seen \cup {f}
       /\ childs' = IF eeok THEN [childs EXCEPT ![c] = @ \cup {f}] ELSE childs
       /\ push(<<>>) /\ UNCHANGED <<revoked, vmft>>

ReadDir ==
  /\ dir = <<>> /\ queue # <<>> /\ Head(queue) \in DirTab[T]
  /\ LET c == CaOfDir(T, Head(queue)) IN
     \* what another CA issued is ignored, but for CRLs
     \E p \in Points(c) : dir' = SelectSeq(DirSeq(p), LAMBDA o : IsCrl(o) \/ Issuer(o) = c)
  /\ queue' = Tail(queue)
  /\ UNCHANGED <<w, uniq, valid, seen, childs, revoked, vroa, vmft>>
ExamineOne ==
  /\ UNCHANGED w
  /\ \/ dir = <<>> /\ queue # <<>> /\ Head(queue) \notin DirTab[T] /\ Examine(Head(queue), Tail(queue)) /\ UNCHANGED dir
     \/ dir # <<>> /\ Examine(Head(dir), queue) /\ dir' = Tail(dir)

DNext == ReadDir \/ ExamineOne
DSpec == DInit /\ [][DNext]_dvars
DDone == queue = <<>> /\ dir = <<>>

(*------------------------------ declarative -----------------------------*)
DFile(o) == IF FAny(w, o, {"missing", "unreadable", "garbage"})
            THEN {"V09"} ELSE {}
DRevHere(x, i) == IF FAny(w, x, {"rev", "eerev", "duprev"}) /\ CrlGood(i) THEN IF F(w, i, "squat") THEN {"W"} ELSE {"V03"} ELSE {}
RECURSIVE DPubL(_, _)
DRev(x, i, late) == DRevHere(x, i) \cup
  (IF late THEN UNION {IF DPubL(o, FALSE) = {} THEN {"V03"} ELSE {"W"} : o \in LateRev(x, i)} ELSE {})
DOwnCert(c, late) == SimpleReasons(c) \cup DFile(c) \cup (IF c = "c0" THEN {} ELSE DRev(c, Par[T][c], late))
\* the code withdraws a CA whose (unused) manifest is revoked, if it saw the manifest before
DTaken(c, late) == IF DRev(Mft(c), c, late) # {} THEN {"W"} ELSE {}
DPubL(c, late) ==
  DOwnCert(c, late) \cup DTaken(c, late)
  \cup (IF F(w, c, "noca") THEN {"V01"} ELSE {})
  \* what it issued is not where its certificate leads to
  \cup (IF F(w, c, "squat") THEN {"V09"} ELSE {})
  \cup (IF c = "c0" THEN {} ELSE DPubL(Par[T][c], late))
DPub(c) == DPubL(c, TRUE)
DRoaReasons(r) == LET c == CaOfRoa(T, r) IN
  SimpleReasons(r) \cup DFile(r) \cup DRevHere(r, c) \cup (IF F(w, r, "entryout") THEN {"W"} ELSE {}) \cup DPub(c)
DCertReasons(c) == DOwnCert(c, TRUE) \cup (IF c = "c0" THEN {} ELSE DPub(Par[T][c]))
DCertWeak(c) == DCertReasons(c) # {} \/ DTaken(c, TRUE) # {}

(*------------------------------ properties ------------------------------*)
DSound    == DDone => \A r \in vroa : DRoaReasons(r) \subseteq {"W"}
DComplete == DDone => \A r \in RoaSet(T) : DRoaReasons(r) = {} => r \in vroa
DSoundC   == DDone => \A c \in valid \cap CAs(T) : DCertReasons(c) \subseteq {"W"}
DCompleteC== DDone => \A c \in CAs(T) : ~DCertWeak(c) => c \in valid
\* what manifests say has no influence
DMftNeutral == DDone /\ (\A f \in w.faults : (f[1] \in MftSet(T) /\ f[2] # "eerev") \/ f[2] \in {"unlisted", "hash", "hashempty"})
               => vroa = RoaSet(T)

DEmitted ==
  [topo |-> T, order |-> w.order, sM |-> w.sM, sH |-> w.sH, faults |-> w.faults, dir |-> TRUE,
   fp |-> {PropOf(f[2]) : f \in w.faults},
   cas |-> [c \in CAs(T) |-> [parent |-> Par[T][c], files |-> DSeq(c), roas |-> Roas[T][c],
                              why |-> DCertReasons(c), weak |-> DCertWeak(c)]],
   roas |-> [r \in RoaSet(T) |-> DRoaReasons(r)]]
DEmit == DDone => PrintT("@W@" \o ToJson(DEmitted))
=============================================================================
