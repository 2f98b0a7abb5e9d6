-------------------------------- MODULE Msg ---------------------------------
(***************************************************************************)
(* Messages of the publication protocol (RFC 8181) and of the setup of     *)
(* CAs (RFC 8183) as ca/xml.go reads them, carried as signed objects       *)
(* (XML content of validator/lib).  A behaviour builds a message element   *)
(* by element, spells it in one of the equivalent ways or damages it, and  *)
(* sends it; Meaning is what the reader has to get, Fatal what it has to   *)
(* refuse.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Max, Sizes

Types == {"query", "reply", "child_request", "parent_response"}
Pdus(t) == CASE t = "query" -> {"publish", "republish", "withdraw", "list"}
             [] t = "reply" -> {"list_item", "success", "report_error"}
             [] t = "child_request" -> {"child_bpki_ta"}
             [] t = "parent_response" -> {"parent_bpki_ta", "offer", "referral"}
Spellings == {"plain", "prolog", "space", "quote", "reverse", "comment", "selfclose", "prefix", "charref", "crlf", "cdatafree", "indent"}
Damage == {"cut", "unclosed", "otherroot", "othernamespace", "badversion", "bareattr", "control", "empty", "cutinner", "badclose"}

VARIABLES type, pdus, spelling, damage, pc
vars == <<type, pdus, spelling, damage, pc>>

Init == type \in Types /\ pdus = <<>> /\ spelling = "plain" /\ damage = "" /\ pc = "build"
Add == /\ pc = "build" /\ Len(pdus) < Max
       /\ \E p \in Pdus(type), n \in 1..Sizes : pdus' = Append(pdus, [p |-> p, n |-> n])
       /\ UNCHANGED <<type, spelling, damage, pc>>
Spell == pc = "build" /\ spelling' \in Spellings /\ pc' = "spelt" /\ UNCHANGED <<type, pdus, damage>>
Break == pc = "spelt" /\ damage' \in Damage /\ pc' = "sent" /\ UNCHANGED <<type, pdus, spelling>>
Send  == pc = "spelt" /\ pc' = "sent" /\ UNCHANGED <<type, pdus, spelling, damage>>
Next == Add \/ Spell \/ Break \/ Send
Spec == Init /\ [][Next]_vars

Refused == damage # ""
\* a message says what was put into it, in order, and nothing of a damaged one is taken
Meaning == IF Refused THEN <<>> ELSE pdus
InOrder == pc = "sent" /\ ~Refused => Meaning = pdus
Emit == pc = "sent" => PrintT("@J@" \o ToJson([type |-> type, pdus |-> pdus, spelling |-> spelling, damage |-> damage, meaning |-> Meaning]))
=============================================================================
