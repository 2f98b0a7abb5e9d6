-------------------------------- MODULE Tal ---------------------------------
(* Trust anchor locators (validator/lib/tal.go, RFC 8630).                   *)
(* A document is a sequence of lines; Parse is the reader as a machine over  *)
(* lines; Intended is what the document was built to say.                    *)
(* Lines: "c" comment, "u" URI, "b" blank, "d" part x of the key's base64    *)
(* (x = 0: text that is not base64).                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxUris, Deep

UriKinds == {"r", "h", "s"}                      \* rsync, http, https
Many == {[i \in 1..n |-> CASE i % 3 = k -> "r" [] i % 3 = (k + 1) % 3 -> "h" [] OTHER -> "s"] : n \in {5, 9, 40}, k \in {1}}
Uris == UNION {[1..n -> UriKinds] : n \in 0..MaxUris} \cup Many
Bodies == {"one", "split", "uneven", "chars"}    \* how the base64 is cut into lines
Parts(b) == CASE b = "one" -> 1 [] b = "split" -> 3 [] b = "uneven" -> 4 [] OTHER -> 6
Damages == {"none", "lost", "junk", "twice", "data", "empty", "short", "nospki"}
(* lost: a part is missing; junk: a line that is not base64; twice: the key   *)
(* again; data: bytes after the key inside the base64; short: the structure  *)
(* is truncated; nospki: base64 of something else                            *)
Eols == {"lf", "crlf", "mixed"}

Line(k, x) == [k |-> k, x |-> x]
Rep(k, n) == [i \in 1..n |-> Line(k, 0)]
Key(b, d) == LET n == Parts(b) all == [i \in 1..n |-> Line("d", i)] IN
  CASE d = "lost" -> IF n = 1 THEN <<>> ELSE SubSeq(all, 1, n - 1)
    [] d = "junk" -> SubSeq(all, 1, n \div 2) \o <<Line("d", 0)>> \o SubSeq(all, n \div 2 + 1, n)
    [] d = "twice" -> all \o all
    [] d = "empty" -> <<>>
    [] OTHER -> all

VARIABLES doc
Docs == {[com |-> c, uri |-> u, mid |-> m, sep |-> s, body |-> b, tail |-> t, dmg |-> d, eol |-> e, nl |-> n] :
           c \in {0, 1, 2, 30}, u \in Uris, m \in BOOLEAN, s \in 0..2, b \in Bodies, t \in 0..1, d \in Damages, e \in Eols, n \in BOOLEAN}
(* one deviation at a time unless Deep *)
Plain(d) == (IF Len(d.uri) > MaxUris THEN 2 ELSE 0) + (IF d.com > 0 THEN 1 ELSE 0) + (IF d.mid THEN 1 ELSE 0) + (IF d.sep # 1 THEN 1 ELSE 0) + (IF d.body # "split" THEN 1 ELSE 0)
            + d.tail + (IF d.eol # "lf" THEN 1 ELSE 0) + (IF d.nl THEN 0 ELSE 1)
Init == doc \in {d \in Docs : (d.tail = 1 => d.nl) /\ Plain(d) <= Deep}
Next == UNCHANGED doc
Spec == Init /\ [][Next]_doc

UriLine(d, i) == Line("u", i)
Lines(d) ==
  LET us == [i \in DOMAIN d.uri |-> UriLine(d, i)]
      head == IF d.mid /\ Len(us) > 1 THEN <<us[1], Line("c", 0)>> \o Tail(us) ELSE us IN
  Rep("c", d.com) \o head \o Rep("b", d.sep) \o Key(d.body, d.dmg) \o Rep("b", d.tail)

(* ------------------------------------------------------------- the reader *)
RECURSIVE Read(_, _, _, _)
Read(ls, st, us, ks) ==
  IF ls = <<>> THEN [st |-> st, us |-> us, ks |-> ks]
  ELSE LET l == Head(ls) IN
    IF st = "head" THEN
      CASE l.k = "c" -> Read(Tail(ls), st, us, ks)
        [] l.k = "b" -> Read(Tail(ls), "body", us, ks)
        [] l.k = "u" -> Read(Tail(ls), st, Append(us, l.x), ks)
        [] OTHER -> Read(Tail(ls), "bad", us, ks)   \* taken for one more URI: there is no key then
    ELSE IF st = "body" THEN
      IF l.k = "b" THEN Read(Tail(ls), st, us, ks) ELSE Read(Tail(ls), st, us, Append(ks, l.x))
    ELSE Read(Tail(ls), st, us, ks)
Parse(d) == LET r == Read(Lines(d), "head", <<>>, <<>>) IN
  IF r.st = "body" /\ r.us # <<>> /\ r.ks = [i \in 1..Parts(d.body) |-> i] /\ d.dmg \notin {"data", "short", "nospki"}
  THEN [ok |-> TRUE, us |-> r.us] ELSE [ok |-> FALSE, us |-> <<>>]

(* ------------------------------------------------------------ what it says *)
Sound(d) == d.uri # <<>> /\ d.sep >= 1 /\ (d.dmg = "none")
Lax(d) == (d.mid /\ Len(d.uri) > 1) \/ d.sep > 1 \/ d.tail > 0   \* outside RFC 8630: may be rejected, but not misread
Exact == /\ Parse(doc).ok = Sound(doc)
         /\ Sound(doc) => Parse(doc).us = [i \in DOMAIN doc.uri |-> i]

Emit == PrintT("@T@" \o ToJson([lines |-> Lines(doc), uri |-> doc.uri, body |-> doc.body, dmg |-> doc.dmg, eol |-> doc.eol,
                                nl |-> doc.nl, ok |-> Parse(doc).ok, lax |-> Lax(doc)]))
=============================================================================
