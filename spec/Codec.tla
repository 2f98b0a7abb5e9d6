------------------------------- MODULE Codec --------------------------------
(* Meaning and wire form of the content of RPKI objects (validator/lib).     *)
(* Values: IP blocks (RFC 3779: prefixes, ranges, inherit), AS blocks, ROA   *)
(* entries, manifest files, subject information access entries. Addresses    *)
(* are bit strings of their real width; Enc is the canonical wire form, Dec  *)
(* reads any wire form. The harness runs the same values through the code's  *)
(* encoders and decoders, and the wire forms through its decoders.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Randomization

CONSTANTS Kind,       \* which values
          Count       \* random lists of each shape

Width(f) == IF f = 4 THEN 32 ELSE 128
OctBits(o) == [i \in 1..8 |-> (o \div (2 ^ (8 - i))) % 2]
Cat(s) == FoldLeft(LAMBDA a, b : a \o b, <<>>, s)
Addr(f, octs, fill) ==                       \* leading octets, then zeros or ones
  LET h == Cat([i \in DOMAIN octs |-> OctBits(octs[i])]) IN
  [i \in 1..Width(f) |-> IF i <= Len(h) THEN h[i] ELSE fill]
V4 == {Addr(4, o, 0) : o \in {<<>>, <<10>>, <<128>>, <<192, 0, 2, 1>>, <<192, 0, 2, 128>>, <<1, 2, 3, 4>>}} \cup
      {Addr(4, o, 1) : o \in {<<>>, <<127>>, <<192, 0, 2>>, <<10, 77, 254>>, <<223>>}}
V6 == {Addr(6, o, 0) : o \in {<<>>, <<32, 1, 13, 184>>, <<128>>, <<32, 1, 13, 184, 0, 0, 0, 1, 128>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>}} \cup
      {Addr(6, o, 1) : o \in {<<>>, <<127>>, <<32, 1, 13, 184, 0, 5>>, <<32, 1, 13, 184, 0, 0, 0, 0, 0>>}}
Addrs(f) == IF f = 4 THEN V4 ELSE V6
Lens(f) == IF f = 4 THEN {0, 1, 7, 8, 9, 15, 16, 23, 24, 25, 30, 31, 32} ELSE {0, 1, 8, 32, 47, 48, 63, 64, 65, 127, 128}

RECURSIVE LexLe(_, _, _)
LexLe(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLe(a, b, i + 1)

(* -------------------------------------------------------------- IP blocks *)
Prefix(f) == {[t |-> "p", f |-> f, b |-> SubSeq(a, 1, l)] : a \in Addrs(f), l \in Lens(f)}
IpRange(f) == {[t |-> "r", f |-> f, lo |-> a, hi |-> b] : <<a, b>> \in {x \in Addrs(f) \X Addrs(f) : LexLe(x[1], x[2], 1)}}
Inherit(f) == {[t |-> "n", f |-> f]}

RECURSIVE TrimEnd(_, _)
TrimEnd(s, bit) == IF s = <<>> THEN s ELSE IF s[Len(s)] = bit THEN TrimEnd(SubSeq(s, 1, Len(s) - 1), bit) ELSE s
Enc(v) == CASE v.t = "p" -> <<v.b>> [] v.t = "r" -> <<TrimEnd(v.lo, 0), TrimEnd(v.hi, 1)>> [] OTHER -> <<>>
Full(v) == CASE v.t = "r" -> <<v.lo, v.hi>> [] OTHER -> Enc(v)
Fill(f, s, bit) == [i \in 1..Width(f) |-> IF i <= Len(s) THEN s[i] ELSE bit]
Dec(t, f, w) == CASE t = "p" -> [t |-> t, f |-> f, b |-> w[1]]
                  [] t = "r" -> [t |-> t, f |-> f, lo |-> Fill(f, w[1], 0), hi |-> Fill(f, w[2], 1)]
                  [] OTHER -> [t |-> t, f |-> f]
(* the addresses a block stands for *)
Span(v) == IF v.t = "p" THEN <<Fill(v.f, v.b, 0), Fill(v.f, v.b, 1)>> ELSE <<v.lo, v.hi>>

(* -------------------------------------------------------- AS blocks: indices into a table of AS numbers *)
NAs == 12
AsBlocks == {[t |-> "a", lo |-> i, hi |-> i] : i \in 1..NAs} \cup
            {[t |-> "ar", lo |-> x[1], hi |-> x[2]] : x \in {y \in (1..NAs) \X (1..NAs) : y[1] <= y[2]}}

(* ------------------------------------------------------------- ROA entries *)
Entries(f) == UNION {{[t |-> "e", f |-> f, b |-> p.b, m |-> m] :
                         m \in {-1, Len(p.b), Len(p.b) + 1, 24, Width(f) - 1, Width(f)} \cap ({-1} \cup Len(p.b)..Width(f))} : p \in Prefix(f)}

Pick(k, S) == RandomSubset(IF k < Cardinality(S) THEN k ELSE Cardinality(S), S)
Seqs(S, n) == LET Q == SetToSeq(S) k == Len(Q) IN
   {[i \in 1..n |-> Q[x[i]]] : x \in {[i \in 1..n |-> 1 + (((y[1] + (i - 1) * y[2]) * (y[2] + i)) % k)] : y \in RandomSubset(Count, (1..k) \X (1..997))}}
IpLists == {<<v>> : v \in Prefix(4) \cup Prefix(6) \cup IpRange(4) \cup IpRange(6) \cup Inherit(4) \cup Inherit(6)}
           \cup {Inh : Inh \in {<<[t |-> "n", f |-> 4], [t |-> "n", f |-> 6]>>}}
           \cup {<<[t |-> "n", f |-> 4]>> \o s : s \in Seqs(Prefix(6) \cup IpRange(6), 2)}
           \cup {Append(s, [t |-> "n", f |-> 6]) : s \in Seqs(Prefix(4) \cup IpRange(4), 2)}
           \cup UNION {Seqs(Prefix(4) \cup IpRange(4) \cup Prefix(6) \cup IpRange(6), n) : n \in {2, 3, 5, 40}}
AsLists == {<<v>> : v \in AsBlocks} \cup {<<>>, <<[t |-> "an", lo |-> 0, hi |-> 0]>>} \cup UNION {Seqs(AsBlocks, n) : n \in {2, 3, 8, 60}}
RoaLists == {<<v>> : v \in Entries(4) \cup Entries(6)} \cup UNION {Seqs(Entries(4) \cup Entries(6), n) : n \in {2, 3, 7, 50}}
Files == {[t |-> "f", lo |-> n, hi |-> h] : n \in 1..9, h \in 1..4}
MftLists == {<<>>} \cup {<<v>> : v \in Files} \cup UNION {Seqs(Files, n) : n \in {2, 3, 30}}
Sias == {[t |-> "s", lo |-> o, hi |-> u] : o \in 1..4, u \in 1..6}
SiaLists == {<<>>} \cup {<<v>> : v \in Sias} \cup UNION {Seqs(Sias, n) : n \in {2, 3, 9}}

VARIABLES list
Init == list \in CASE Kind = "ip" -> IpLists [] Kind = "as" -> AsLists [] Kind = "roa" -> RoaLists
                   [] Kind = "mft" -> MftLists [] OTHER -> SiaLists
Next == UNCHANGED list
Spec == Init /\ [][Next]_list

IsIp(v) == v.t \in {"p", "r", "n"}
RoundTrip == \A i \in DOMAIN list : IsIp(list[i]) =>
                /\ Dec(list[i].t, list[i].f, Enc(list[i])) = list[i]
                /\ Dec(list[i].t, list[i].f, Full(list[i])) = list[i]
(* two wire forms never stand for the same range unless equal after trimming *)
Canonical == \A i, j \in DOMAIN list : list[i].t = "r" /\ list[j].t = "r" /\ list[i].f = list[j].f =>
                (Enc(list[i]) = Enc(list[j]) <=> Span(list[i]) = Span(list[j]))

Out(v) == IF IsIp(v) THEN [t |-> v.t, f |-> v.f, w |-> Enc(v), span |-> IF v.t = "n" THEN <<>> ELSE Span(v)] ELSE v
Emit == PrintT("@C@" \o ToJson([k |-> Kind, l |-> [i \in DOMAIN list |-> Out(list[i])]]))
=============================================================================
