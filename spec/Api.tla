-------------------------------- MODULE Api --------------------------------
(* The source of files over the API (sync/api): a client asks for one file,  *)
(* or for the files of a repository, which come as a stream that may break   *)
(* off. What is handed to the validator is what was sent, in order, once,    *)
(* with the digest of the bytes as they were sent, and a listing counts as   *)
(* complete only if the server said so.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Emitting

VARIABLES mode,   \* "list" or "get"
          sent,   \* what the server has sent
          end,    \* how it ended ("open": not yet)
          got,    \* what the validator was given
          result  \* "none", "ok", "error"
vars == <<mode, sent, end, got, result>>

Names == {"a.cer", "b.roa", "c.mft", "d.crl", "e.gbr", "f", "g.cer.roa", "i.roa.", "j k.cer", "-.mft"}
KindOf(n) == CASE n \in {"a.cer", "j k.cer"} -> "cer" [] n \in {"b.roa", "g.cer.roa"} -> "roa" [] n \in {"c.mft", "-.mft"} -> "mft"
               [] n = "d.crl" -> "crl" [] OTHER -> "unknown"
Datas == {"der", "ber", "junk", "empty", "big"}
\* the server ends, fails or does not go on until the client gives up
Ends == {"eof", "unavailable", "internal", "hang"}
\* a single file: below a manifest (whose repository is written with or without the final slash) or on its own
Parents == {"none", "slash", "noslash"}
Item(i) == [n |-> i.n, k |-> KindOf(i.n), d |-> i.d]

Init == mode \in {"list", "get"} /\ sent = <<>> /\ end = "open" /\ got = <<>> /\ result = "none"
Send == /\ mode = "list" /\ end = "open" /\ Len(sent) < MaxLen
        /\ \E n \in Names, d \in Datas : sent' = Append(sent, [n |-> n, d |-> d])
        /\ UNCHANGED <<mode, end, got, result>>
Answer == /\ mode = "get" /\ end = "open"
          /\ \E n \in {"a.cer", "b.roa", "c.mft", "d.crl"}, d \in Datas, p \in Parents, e \in Ends \cup {"notfound"} :
               sent' = <<[n |-> n, d |-> d, p |-> p]>> /\ end' = e
          /\ UNCHANGED <<mode, got, result>>
End == /\ mode = "list" /\ end = "open"
       /\ end' \in Ends
       /\ UNCHANGED <<mode, sent, got, result>>
Receive == /\ result = "none" /\ Len(got) < Len(sent) /\ (mode = "get" => end = "eof")
           /\ got' = Append(got, Item(sent[Len(got) + 1]))
           /\ UNCHANGED <<mode, sent, end, result>>
Finish == /\ result = "none" /\ end # "open" /\ (Len(got) = Len(sent) \/ (mode = "get" /\ end # "eof"))
          /\ result' = IF end = "eof" THEN "ok" ELSE "error"
          /\ UNCHANGED <<mode, sent, end, got>>
Next == Send \/ Answer \/ End \/ Receive \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Receive \/ Finish)

-----------------------------------------------------------------------------
TypeOK == mode \in {"list", "get"} /\ result \in {"none", "ok", "error"} /\ Len(got) <= Len(sent)
InOrder == \A k \in 1..Len(got) : got[k] = Item(sent[k])
Honest == result = "ok" => end = "eof" /\ Len(got) = Len(sent)
NothingMadeUp == mode = "get" /\ result = "error" => got = <<>>
Ended == [](end # "open" => <>(result # "none"))

Emit == Emitting /\ result # "none" =>
    PrintT("@A@" \o ToJson([mode |-> mode, sent |-> sent, end |-> end, got |-> got, result |-> result]))
=============================================================================
