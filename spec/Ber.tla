-------------------------------- MODULE Ber ---------------------------------
(* BER to DER transcoding (validator/lib/ber.go).                            *)
(* Two ways in: "bytes" enumerates byte strings over an alphabet of the      *)
(* structurally interesting octets; "trees" enumerates trees with every      *)
(* length form. A parse is a tree; DER is its unique definite, minimal       *)
(* encoding. Content is a sequence of runs [b, n] (n times byte b) so that   *)
(* long contents stay small here.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Randomization

CONSTANTS Mode, Alphabet, MaxLen, Sample, MaxDepth

None == [ok |-> FALSE]

(* ------------------------------------------------ encoding of lengths *)
RECURSIVE Base256(_)
Base256(n) == IF n < 256 THEN <<n>> ELSE Append(Base256(n \div 256), n % 256)
LenEnc(n) == IF n < 128 THEN <<n>> ELSE LET b == Base256(n) IN <<128 + Len(b)>> \o b

(* ---------------------------------------------------- parsing of bytes *)
(* Tag: first octet, then if its low five bits are set octets up to one    *)
(* below 128.                                                              *)
RECURSIVE TagEnd(_, _, _)
TagEnd(s, i, lim) == \* i: first octet after the leading one; result: index of the last octet, 0 if truncated
  IF i > lim THEN 0 ELSE IF s[i] >= 128 THEN TagEnd(s, i + 1, lim) ELSE i
RECURSIVE Num(_, _, _)
Num(s, i, j) == IF i > j THEN 0 ELSE Num(s, i, j - 1) * 256 + s[j]

(* Parse(s, i, lim, d): the object starting at i that ends by lim.          *)
(* Result: tree t, index e of its last octet, lax: leading zeros in a length *)
RECURSIVE Parse(_, _, _, _), ParseList(_, _, _, _, _)
Parse(s, i, lim, d) ==
  IF i > lim \/ d > MaxDepth THEN None ELSE
  LET te == IF s[i] % 32 = 31 THEN TagEnd(s, i + 1, lim) ELSE i IN
  IF te = 0 \/ te + 1 > lim THEN None ELSE
  LET tag == SubSeq(s, i, te)
      cons == (s[i] \div 32) % 2 = 1
      l == s[te + 1] IN
  IF l = 128 THEN
     IF ~cons THEN None
     ELSE LET ch == ParseList(s, te + 2, lim, TRUE, d + 1) IN
          IF ~ch.ok THEN None
          ELSE [ok |-> TRUE, t |-> [tag |-> tag, cons |-> TRUE, ch |-> ch.l], e |-> ch.e, lax |-> ch.lax, der |-> FALSE]
  ELSE
    LET nb == IF l < 128 THEN 0 ELSE l - 128 IN
    IF nb > 3 \/ te + 1 + nb > lim THEN None ELSE
    LET len == IF nb = 0 THEN l ELSE Num(s, te + 2, te + 1 + nb)
        c == te + 2 + nb
        lax0 == nb > 0 /\ s[te + 2] = 0
        min == LenEnc(len) = SubSeq(s, te + 1, te + 1 + nb) IN
    IF c + len - 1 > lim THEN None ELSE
    IF ~cons THEN [ok |-> TRUE, t |-> [tag |-> tag, cons |-> FALSE, c |-> SubSeq(s, c, c + len - 1)],
                   e |-> c + len - 1, lax |-> lax0, der |-> min]
    ELSE LET ch == ParseList(s, c, c + len - 1, FALSE, d + 1) IN
         IF ~ch.ok THEN None
         ELSE [ok |-> TRUE, t |-> [tag |-> tag, cons |-> TRUE, ch |-> ch.l], e |-> c + len - 1,
               lax |-> lax0 \/ ch.lax, der |-> min /\ ch.der]
ParseList(s, i, lim, indef, d) ==
  IF indef /\ i + 1 <= lim /\ s[i] = 0 /\ s[i + 1] = 0
  THEN [ok |-> TRUE, l |-> <<>>, e |-> i + 1, lax |-> FALSE, der |-> FALSE]
  ELSE IF ~indef /\ i > lim THEN [ok |-> TRUE, l |-> <<>>, e |-> lim, lax |-> FALSE, der |-> TRUE]
  ELSE LET o == Parse(s, i, lim, d) IN
       IF ~o.ok THEN None
       ELSE LET r == ParseList(s, o.e + 1, lim, indef, d) IN
            IF ~r.ok THEN None
            ELSE [ok |-> TRUE, l |-> <<o.t>> \o r.l, e |-> r.e, lax |-> o.lax \/ r.lax, der |-> o.der /\ r.der]

RECURSIVE Der(_), DerList(_)
Der(t) == LET c == IF t.cons THEN DerList(t.ch) ELSE t.c IN t.tag \o LenEnc(Len(c)) \o c
DerList(l) == IF l = <<>> THEN <<>> ELSE Der(Head(l)) \o DerList(Tail(l))

(* ------------------------------------------------------- trees, with forms *)
(* A tree node: tag, form of its length, content runs or children.          *)
Forms == {"min", "long1", "long2", "long3", "indef"}   \* longN: N more octets than needed are not used: N octets long form
FormFits(f, n) == CASE f = "long1" -> n >= 1 /\ n < 256      \* no leading zeros
                    [] f = "long2" -> n >= 256 /\ n < 65536
                    [] f = "long3" -> n >= 65536
                    [] OTHER -> TRUE
Tags(cons) == IF cons THEN {<<48>>, <<36>>, <<160>>, <<191, 129, 2>>} ELSE {<<2>>, <<4>>, <<128>>, <<31, 100>>, <<159, 255, 127>>}
Sizes == {0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 65535, 65536}
RunLen(rs) == FoldLeft(LAMBDA a, r : a + r.n, 0, rs)
Run(b, n) == IF n = 0 THEN <<>> ELSE <<[b |-> b, n |-> n]>>
Lit(bs) == [i \in DOMAIN bs |-> [b |-> bs[i], n |-> 1]]
FormLen(f, n) == CASE f = "indef" -> <<128>>
                   [] f = "long1" -> <<129, n>>
                   [] f = "long2" -> <<130, n \div 256, n % 256>>
                   [] f = "long3" -> <<131, n \div 65536, (n \div 256) % 256, n % 256>>
                   [] OTHER -> LenEnc(n)
RECURSIVE Ber(_), BerList(_), DerR(_), DerRL(_)
Ber(t) == LET c == IF t.cons THEN BerList(t.ch) ELSE Run(t.b, t.n) IN
          LET f == IF FormFits(t.f, RunLen(c)) THEN t.f ELSE "min" IN
          Lit(t.tag) \o Lit(FormLen(f, RunLen(c))) \o c \o (IF f = "indef" THEN Lit(<<0, 0>>) ELSE <<>>)
BerList(l) == IF l = <<>> THEN <<>> ELSE Ber(Head(l)) \o BerList(Tail(l))
DerR(t) == LET c == IF t.cons THEN DerRL(t.ch) ELSE Run(t.b, t.n) IN Lit(t.tag) \o Lit(LenEnc(RunLen(c))) \o c
DerRL(l) == IF l = <<>> THEN <<>> ELSE DerR(Head(l)) \o DerRL(Tail(l))

Prims == {[tag |-> tg, cons |-> FALSE, f |-> f, b |-> b, n |-> n] :
            tg \in Tags(FALSE), f \in Forms \ {"indef"}, b \in {0, 48, 128}, n \in Sizes}
Conses(kids) == {[tag |-> tg, cons |-> TRUE, f |-> f, ch |-> k] : tg \in Tags(TRUE), f \in Forms, k \in kids}
Some(k, S) == RandomSubset(IF k < Cardinality(S) THEN k ELSE Cardinality(S), S)
L0 == Some(Sample, Prims)
L1 == Some(Sample, Conses({<<>>} \cup {<<p>> : p \in L0}))
L2 == Some(Sample, Conses({<<p, q>> : p \in Some(30, L0), q \in Some(30, L1)} \cup {<<q, p, q>> : p \in Some(20, L0), q \in Some(20, L1)}))
L3 == Some(Sample, Conses({<<q, p>> : p \in Some(30, L1), q \in Some(30, L2)} \cup {<<q>> : q \in L2}))
Trees == L0 \cup L1 \cup L2 \cup L3

VARIABLES in
Strings == UNION {[1..n -> Alphabet] : n \in 1..MaxLen}
Init == in \in IF Mode = "bytes" THEN Strings ELSE Trees
Next == UNCHANGED in
Spec == Init /\ [][Next]_in

P == Parse(in, 1, Len(in), 0)
(* the transcoded tree parses back to the same tree, is DER and is a fixed point *)
Faithful == Mode = "bytes" /\ P.ok =>
   LET d == Der(P.t) q == Parse(d, 1, Len(d), 0) IN q.ok /\ q.t = P.t /\ q.der /\ Der(q.t) = d /\ q.e = Len(d)
DerFixed == Mode = "bytes" /\ P.ok /\ P.der => Der(P.t) = SubSeq(in, 1, P.e)
NeverLonger == Mode = "bytes" /\ P.ok /\ ~P.lax => Len(Der(P.t)) <= P.e + 4   \* tags and contents only shrink, a definite length replaces end-of-contents

Rec == IF Mode = "bytes"
       THEN [i |-> in, o |-> IF P.ok THEN Der(P.t) ELSE <<>>, ok |-> P.ok, lax |-> IF P.ok THEN P.lax ELSE FALSE]
       ELSE [i |-> Ber(in), o |-> DerR(in), ok |-> TRUE, lax |-> FALSE]
Emit == PrintT("@B@" \o ToJson(Rec))
=============================================================================
