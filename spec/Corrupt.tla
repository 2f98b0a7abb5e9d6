------------------------------ MODULE Corrupt ------------------------------
(***************************************************************************)
(* Damage to published objects.                                            *)
(*                                                                         *)
(* Part 1 is the grammar of the objects of the RPKI, as trees of           *)
(* tag-length-value nodes (RFC 5280, 5652, 6482, 6486, 6487, 3779), down   *)
(* to the leaves, through the octet and bit strings that wrap DER.         *)
(* Part 2 is what damage to one object may do to the outcome.              *)
(*                                                                         *)
(* A behaviour: choose a published object and a part of it that is damaged *)
(* before it is signed (or the finished object), damage one or more nodes, *)
(* publish, and let the validator finish: it uses or does not use the      *)
(* damaged object.  TLC enumerates the behaviours and emits, for each, the *)
(* ROAs that have to be used whatever it does (Must).                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Mode,    \* "one": every single damage; "two": Count random pairs
          Count

(* ---- Part 1: grammar ---- *)
N(kids) == [t |-> "node", k |-> kids]
Leaf(t) == [t |-> t, k |-> <<>>]
Oid  == Leaf("oid")
Int  == Leaf("int")
Str  == Leaf("str")       \* names
Uri  == Leaf("uri")
File == Leaf("file")      \* file names on manifests
Time == Leaf("time")
Bits == Leaf("bits")
Oct  == Leaf("octets")
Bool == Leaf("bool")
Nul  == Leaf("null")

Alg    == N(<<Oid, Nul>>)
Name   == N(<<N(<<N(<<Oid, Str>>)>>)>>)
SPKI   == N(<<Alg, N(<<N(<<Int, Int>>)>>)>>)
Ext(v)  == N(<<Oid, N(<<v>>)>>)
CExt(v) == N(<<Oid, Bool, N(<<v>>)>>)
SKI  == Ext(Oct)
AKI  == Ext(N(<<Oct>>))
BC   == CExt(N(<<Bool>>))
KU   == CExt(Bits)
CDP  == Ext(N(<<N(<<N(<<N(<<Uri>>)>>)>>)>>))
Acc  == N(<<Oid, Uri>>)
AIA  == Ext(N(<<Acc>>))
SIAC == Ext(N(<<Acc, Acc>>))            \* repository, manifest
SIAE == Ext(N(<<Acc>>))                 \* signed object
CP   == CExt(N(<<N(<<Oid>>)>>))
Range == N(<<Bits, Bits>>)
IPC  == CExt(N(<<N(<<Oct, N(<<Bits, Range>>)>>), N(<<Oct, N(<<Bits>>)>>)>>))   \* a prefix and a range, IPv4; a prefix, IPv6
IPInh == CExt(N(<<N(<<Oct, Nul>>), N(<<Oct, Nul>>)>>))
ASC  == CExt(N(<<N(<<N(<<Int, N(<<Int, Int>>)>>)>>)>>))
ASInh == CExt(N(<<N(<<Nul>>)>>))
Tbs(exts) == N(<<N(<<Int>>), Int, Alg, Name, N(<<Time, Time>>), Name, SPKI, N(<<N(exts)>>)>>)
Signed(tbs) == N(<<tbs, Alg, Bits>>)
TAC  == Signed(Tbs(<<SKI, AKI, BC, KU, SIAC, CP, IPC, ASC>>))
CAC  == Signed(Tbs(<<SKI, AKI, BC, KU, CDP, AIA, SIAC, CP, IPC, ASC>>))
EEM  == Signed(Tbs(<<SKI, AKI, KU, CDP, AIA, SIAE, CP, IPInh, ASInh>>))
EER  == Signed(Tbs(<<SKI, AKI, KU, CDP, AIA, SIAE, CP, IPC>>))
CRL  == Signed(N(<<Int, Alg, Name, Time, Time, N(<<N(<<Int, Time>>), N(<<Int, Time>>)>>), N(<<N(<<AKI, Ext(Int)>>)>>)>>))
Cms(content, ee) ==
    N(<<Oid, N(<<N(<<Int, N(<<Alg>>), N(<<Oid, N(<<N(<<content>>)>>)>>), N(<<ee>>),
        N(<<N(<<Int, Oct, Alg, N(<<N(<<Oid, N(<<Oid>>)>>), N(<<Oid, N(<<Time>>)>>), N(<<Oid, N(<<Oct>>)>>)>>), Alg, Oct>>)>>)>>)>>)>>)
Item(f) == N(<<f, Bits>>)
MftC == N(<<Int, Time, Time, Oid, N(<<Item(File), Item(File), Item(File), Item(File)>>)>>)
RoaC == N(<<Int, N(<<N(<<Oct, N(<<N(<<Bits, Int>>), N(<<Bits>>)>>)>>), N(<<Oct, N(<<N(<<Bits, Int>>)>>)>>)>>)>>)

RECURSIVE Paths(_)
Paths(g) == {[p |-> <<>>, t |-> g.t]} \cup
            UNION {{[p |-> <<i>> \o x.p, t |-> x.t] : x \in Paths(g.k[i])} : i \in 1..Len(g.k)}

\* objects (where they are published) and their parts: "whole" is damaged
\* after it is made; the others before the signatures over them
Kinds == [ta |-> "tac", tm |-> "mft", tl |-> "crl", a |-> "cac", am |-> "mft", al |-> "crl", r |-> "roa"]
Parts(kind) == CASE kind = "tac" -> [whole |-> TAC, tbs |-> TAC.k[1]]
                 [] kind = "cac" -> [whole |-> CAC, tbs |-> CAC.k[1]]
                 [] kind = "crl" -> [whole |-> CRL, tbs |-> CRL.k[1]]
                 [] kind = "mft" -> [whole |-> Cms(MftC, EEM), content |-> MftC, eetbs |-> EEM.k[1]]
                 [] kind = "roa" -> [whole |-> Cms(RoaC, EER), content |-> RoaC, eetbs |-> EER.k[1]]

\* what can be done to a node
AnyOps == {"delete", "empty", "twice", "swap", "astag02", "astag30", "astag80", "astag04", "high", "construct",
           "longer", "shorter", "huge", "open", "nonminimal", "cuttail", "cuthalf", "append", "ones", "zeros", "one",
           "big", "wrap", "deep", "cutafter", "cutinside", "cutlength", "eoc"}
Variants == [node |-> 0, oid |-> 5, int |-> 8, str |-> 4, uri |-> 16, file |-> 16, time |-> 10, bits |-> 10, octets |-> 6, bool |-> 2, null |-> 1]
OpsOf(t) == AnyOps \cup {"value" \o ToString(i) : i \in 1..Variants[t]}

(* ---- Part 2: outcome ---- *)
\* t: trust anchor with CAs a and b, a with CA c; u: another trust anchor
Parent == [t |-> "", a |-> "t", b |-> "t", c |-> "a", u |-> ""]
CAs == DOMAIN Parent
CertOf == [t |-> "ta", a |-> "a", b |-> "", c |-> "", u |-> ""]
MftOf  == [t |-> "tm", a |-> "am", b |-> "", c |-> "", u |-> ""]
CrlOf  == [t |-> "tl", a |-> "al", b |-> "", c |-> "", u |-> ""]
Roas == [rt |-> "t", r |-> "a", ra |-> "a", rb |-> "b", rc |-> "c", ru |-> "u"]

RECURSIVE Chain(_)
Chain(c) == {c} \cup IF Parent[c] = "" THEN {} ELSE Chain(Parent[c])
Needs(roa) == {roa} \cup UNION {{CertOf[c], MftOf[c], CrlOf[c]} : c \in Chain(Roas[roa])}
Out(unused) == {x \in DOMAIN Roas : Needs(x) \cap unused = {}}

VARIABLES obj, part, todo, damage, used, pc
vars == <<obj, part, todo, damage, used, pc>>

Typed(o, pt) == UNION {{[path |-> x.p, op |-> op, t |-> x.t] : op \in OpsOf(x.t)} : x \in Paths(Parts(Kinds[o])[pt])}

Init == /\ obj \in DOMAIN Kinds /\ part \in DOMAIN Parts(Kinds[obj])
        /\ todo \in (IF Mode = "one" THEN {<<x>> : x \in Typed(obj, part)}
                     ELSE RandomSubset(Count, {<<x, y>> : x \in RandomSubset(60, Typed(obj, part)), y \in RandomSubset(60, Typed(obj, part))}))
        /\ damage = <<>> /\ used = {} /\ pc = "damage"

Damage == /\ pc = "damage" /\ todo # <<>>
          /\ damage' = Append(damage, Head(todo)) /\ todo' = Tail(todo)
          /\ UNCHANGED <<obj, part, used, pc>>
\* the validator either makes use of the damaged object or does not
Validate == /\ pc = "damage" /\ todo = <<>>
            /\ \E unused \in {{}, {obj}} : used' = Out(unused)
            /\ pc' = "done" /\ UNCHANGED <<obj, part, todo, damage>>
Next == Damage \/ Validate
Spec == Init /\ [][Next]_vars

Must == Out({obj})
\* what does not hang on the damaged object is used
Isolated == pc = "done" => /\ Must \subseteq used
                           /\ {x \in DOMAIN Roas : obj \notin Needs(x)} \subseteq used
                           /\ "ru" \in used
                           /\ obj \in {"a", "am", "al", "r"} => {"rt", "rb"} \subseteq used
                           /\ obj = "r" => (DOMAIN Roas \ {"r"}) \subseteq used
ASSUME \A o \in DOMAIN Kinds : \A pt \in DOMAIN Parts(Kinds[o]) : \A x \in Paths(Parts(Kinds[o])[pt]) : Len(x.p) <= 20

Emit == (pc = "done" /\ used = Must) =>
        PrintT("@X@" \o ToJson([obj |-> obj, part |-> part, damage |-> damage, must |-> Must]))
=============================================================================
