-------------------------------- MODULE Sign --------------------------------
(***************************************************************************)
(* The life of signed objects (RFC 5652, 6488) made with validator/lib:    *)
(* content, signed attributes (digest of the content, signing time),       *)
(* signature over the attributes, certificate.  Two objects of a kind are  *)
(* made and signed; then an object is put together from their parts.       *)
(* It is valid iff the parts belong together, however it came about.       *)
(* TLC emits every object with its verdict; the replay makes it with the   *)
(* library, and asks the library and OpenSSL.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind, Contents, Times,    \* "roa", "mft", "xml"; how many
          Single                    \* one object, with every form of attributes; or two, recombined

Parts == {"content", "attrs", "sig", "cert"}
\* forms of the signed attributes: as the library makes them; with another attribute; without the time;
\* without the digest, with a part of it, with none in it, with two, under another name
Good == {"good", "more", "notime"}
Forms == IF Single THEN Good \cup {"nodigest", "short", "nothing", "two", "renamed"} ELSE {"good"}
VARIABLES m, pick, crl, pc
vars == <<m, pick, crl, pc>>

Init == m = <<>> /\ pick = [p \in Parts |-> 1] /\ crl = FALSE /\ pc = "make"

\* key: who signs, cert: whose certificate is attached
Max == IF Single THEN 1 ELSE 2
Make == /\ pc = "make" /\ Len(m) < Max
        /\ \E c \in 1..Contents, t \in 1..Times, k \in 1..2, ct \in 1..2, f \in Forms :
             m' = Append(m, [content |-> c, time |-> t, key |-> k, cert |-> ct, form |-> f])
        /\ crl' \in {crl} \cup (IF Len(m) = 1 THEN {} ELSE {TRUE})
        /\ UNCHANGED <<pick, pc>>
Recombine == /\ pc = "make" /\ Len(m) = Max
             /\ pick' \in {f \in [Parts -> 1..Max] : f["content"] = 1}
             /\ pc' = "done" /\ UNCHANGED <<m, crl>>
Next == Make \/ Recombine
Spec == Init /\ [][Next]_vars

Attrs(i) == [digest |-> m[i].content, time |-> m[i].time, form |-> m[i].form]
Of(p) == m[pick[p]]
Valid == /\ Attrs(pick["attrs"]).form \in Good
         /\ Attrs(pick["attrs"]).digest = Of("content").content
         /\ Attrs(pick["attrs"]) = Attrs(pick["sig"])            \* the signature is over the same attributes
         /\ Of("sig").key = Of("cert").cert                       \* and is made by the holder of the certificate

\* nothing of an object whose signature is not by the certificate's key is ever valid with that signature
Forged == (pc = "done" /\ pick["sig"] = pick["cert"] /\ Of("sig").key # Of("sig").cert) => ~Valid
\* an object put together without changes is valid iff it was signed properly
Whole == (pc = "done" /\ \A p \in Parts : pick[p] = 1) => (Valid <=> (m[1].key = m[1].cert /\ m[1].form \in Good))
Emit == pc = "done" =>
          PrintT("@G@" \o ToJson([kind |-> Kind, m |-> m, pick |-> pick, crl |-> crl, valid |-> Valid, content |-> Of("content").content,
                                   time |-> IF Of("attrs").form = "notime" THEN 0 ELSE Of("attrs").time]))
=============================================================================
