-------------------------------- MODULE Xml --------------------------------
(***************************************************************************)
(* Unusual and damaged RRDP documents (RFC 8182).                          *)
(*                                                                         *)
(* Part 1 is the grammar of the notification, snapshot and delta documents *)
(* (elements, attributes, text).  Part 2 is what can be done to a document *)
(* and what the change means:                                              *)
(*   same   another spelling of the same document                          *)
(*   free   not a document of RFC 8182: it may be refused, or else it says *)
(*          the same as the unchanged one                                  *)
(*   fatal  not well-formed, or not a document of its kind                 *)
(*   lost   as free, except that the object of the element may be anything *)
(*   more specific changes of the notification: sess, num (an odd number), *)
(*   gone (the document it refers to is elsewhere) and unlisted (a delta   *)
(*   is not listed).                                                       *)
(* Part 3 is the synchronisation attempt of a client that finds one or two *)
(* changed documents.  TLC emits every terminal state of every case; the   *)
(* replay accepts exactly those.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Mode,    \* "one": every single change; "two": Count random pairs, in different documents
          Count

(* ---- Part 1 ---- *)
A(n, t) == [n |-> n, t |-> t]
E(tag, at, obj, text, kids) == [tag |-> tag, at |-> at, obj |-> obj, text |-> text, kids |-> kids]
Root(tag, n, kids) == E(tag, <<A("xmlns", "ns"), A("version", "ver"), A("session_id", IF n THEN "nsess" ELSE "any"),
                               A("serial", IF n THEN "nserial" ELSE "number")>>, "", FALSE, kids)
NDelta(d) == E("delta", <<A("serial", "dserial"), A("uri", "nuri"), A("hash", "any")>>, d, FALSE, <<>>)
Pub(o)  == E("publish", <<A("uri", "ouri")>>, o, TRUE, <<>>)
Rep(o)  == E("publish", <<A("uri", "ouri"), A("hash", "any")>>, o, TRUE, <<>>)
Del(o)  == E("withdraw", <<A("uri", "ouri"), A("hash", "any")>>, o, FALSE, <<>>)

\* the publisher's history in its session: serial 2, then d3 and d4
State2 == [x |-> 1, y |-> 1, z |-> 1, w |-> 0]
State3 == [x |-> 2, y |-> 0, z |-> 1, w |-> 1]
State4 == [x |-> 2, y |-> 2, z |-> 2, w |-> 0]
Nothing == [x |-> 0, y |-> 0, z |-> 0, w |-> 0]
Docs == [n |-> Root("notification", TRUE, <<E("snapshot", <<A("uri", "nuri"), A("hash", "any")>>, "s", FALSE, <<>>),
                                            NDelta("d2"), NDelta("d3"), NDelta("d4")>>),
         s |-> Root("snapshot", FALSE, <<Pub("x"), Pub("y"), Pub("z")>>),
         d3 |-> Root("delta", FALSE, <<Rep("x"), Pub("w"), Del("y")>>),
         d4 |-> Root("delta", FALSE, <<Rep("z"), Pub("y"), Del("w")>>)]
New == [s |-> State4, d3 |-> State3, d4 |-> State4]
Objs(d) == {Docs[d].kids[i].obj : i \in DOMAIN Docs[d].kids}
ASSUME \A o \in Objs("d3") : State3[o] # State2[o]
ASSUME \A o \in Objs("d4") : State4[o] # State3[o]

(* ---- Part 2 ---- *)
Spelling == {"quote", "space", "charref", "newline"}     \* of any attribute
NotXml   == {"bare", "novalue", "less", "unknownentity", "control", "badutf8"}
Odd      == {"delete", "empty", "twice", "rename", "junk", "long", "nonascii"}

\* attribute changes: op -> what it means
AttrOps(t) ==
  LET same == {[op |-> o, m |-> "same"] : o \in Spelling}
      xml  == {[op |-> o, m |-> "fatal"] : o \in NotXml}
      ops(S, m) == {[op |-> o, m |-> m] : o \in S}
  IN same \cup xml \cup
     CASE t \in {"ns", "any"} -> ops(Odd, "free")
       [] t = "ver"     -> ops((Odd \ {"junk", "long", "nonascii"}) \cup {"num0", "num2"}, "free") \cup ops({"junk", "long", "nonascii"}, "free")
       [] t = "number"  -> ops({"delete", "empty", "twice", "rename", "num-1", "num0", "num9", "max"}, "free") \cup ops({"junk", "long", "nonascii", "over"}, "free")
                           \cup ops({"plus", "lead0", "blank"}, "same")
       [] t = "nsess"   -> ops({"delete", "empty", "rename", "junk", "long", "nonascii"}, "sess") \cup ops({"twice"}, "free")
       [] t = "nserial" -> ops({"delete", "empty", "rename", "num0"}, "num 0") \cup ops({"num-1"}, "num -1") \cup ops({"num3"}, "num 3") \cup ops({"num9"}, "num 9")
                           \cup ops({"max"}, "num max") \cup ops({"twice"}, "free") \cup ops({"junk", "long", "nonascii", "over", "fraction", "under_"}, "fatal")
                           \cup ops({"plus", "lead0", "blank"}, "same")
       [] t = "dserial" -> ops({"delete", "empty", "rename", "num0", "num-1", "num1", "num9", "max"}, "unlisted") \cup ops({"twice"}, "free")
                           \cup ops({"junk", "long", "nonascii", "over", "fraction", "under_"}, "fatal") \cup ops({"plus", "lead0", "blank"}, "same")
       [] t = "nuri"    -> ops({"delete", "empty", "rename", "junk", "long", "nonascii"}, "gone") \cup ops({"twice"}, "free")
       [] t = "ouri"    -> ops(Odd, "lost")

ElemOps(tag, root, n) ==
  LET ops(S, m) == {[op |-> o, m |-> m] : o \in S}
      loss == IF n THEN (IF tag = "snapshot" THEN "gone" ELSE "unlisted") ELSE "lost"
  IN ops({"reverse", "prefix", "commentbefore", "pibefore", "spacebefore", "commentinside", "otherform", "spacetag"}, "same") \cup
     ops({"unclosed", "badclose", "doubleclose", "baretag"}, "fatal") \cup
     ops({"unknownattr", "unknownchild", "textbefore", "cdatabefore"}, "free") \cup
     IF root THEN ops({"delete", "rename", "case", "swapname", "twice", "wrap"}, "fatal")
             ELSE ops({"delete", "rename", "case", "wrap", "deep"}, loss) \cup ops({"twice"}, "free")
TextOps ==
  LET ops(S, m) == {[op |-> o, m |-> m] : o \in S}
  IN ops({"lines", "crlf", "tabs", "blanks", "comment", "pi", "cdata", "charrefs", "mixed", "oneline"}, "same") \cup
     ops({"star", "urlsafe", "nopad", "morepad", "midpad", "cutone", "nonascii", "cdataend", "nul", "ampersand"}, "fatal") \cup
     ops({"child"}, "free") \cup ops({"empty", "big", "bits"}, "lost")
DocOps ==
  LET ops(S, m) == {[op |-> o, m |-> m] : o \in S}
  IN ops({"utf8", "UTF8", "ascii", "ASCII", "standalone", "prologquotes", "leadspace", "trailspace", "leadcomment", "trailcomment",
          "leadpi", "trailpi", "manycomments", "bigcomment", "crlf"}, "same") \cup
     ops({"none", "blank", "cut1", "cut2", "cut3", "cut4", "cut5", "cut6", "html", "json", "binary", "second", "baddash", "badpi", "nulltail", "utf16"}, "fatal") \cup
     ops({"bom", "latin1", "version11", "doctype", "doctypeentity", "lateprolog", "tailtext", "badutf8comment"}, "free")

\* a change: document, place (index of the element, 0: the root, -1: the document), attribute or "text" or ""
Changes(d) ==
  LET at(i, e) == UNION {{[doc |-> d, el |-> i, at |-> e.at[j].n, op |-> x.op, m |-> x.m, obj |-> e.obj] : x \in AttrOps(e.at[j].t)} : j \in DOMAIN e.at}
                  \cup {[doc |-> d, el |-> i, at |-> "", op |-> x.op, m |-> x.m, obj |-> e.obj] : x \in ElemOps(e.tag, i = 0, d = "n")}
                  \cup (IF e.text THEN {[doc |-> d, el |-> i, at |-> "text", op |-> x.op, m |-> x.m, obj |-> e.obj] : x \in TextOps} ELSE {})
  IN at(0, Docs[d]) \cup UNION {at(i, Docs[d].kids[i]) : i \in DOMAIN Docs[d].kids}
     \cup {[doc |-> d, el |-> -1, at |-> "", op |-> x.op, m |-> x.m, obj |-> ""] : x \in DocOps}
All == UNION {Changes(d) : d \in DOMAIN Docs}

(* ---- Part 3 ---- *)
Clients == [none |-> [sess |-> "", serial |-> "0", has |-> Nothing], two |-> [sess |-> "A", serial |-> "2", has |-> State2],
            three |-> [sess |-> "A", serial |-> "3", has |-> State3], four |-> [sess |-> "A", serial |-> "4", has |-> State4],
            other |-> [sess |-> "B", serial |-> "3", has |-> Nothing]]

VARIABLES client, change, pc, plan, sess, serial, rec, store
vars == <<client, change, pc, plan, sess, serial, rec, store>>

Init == /\ client \in DOMAIN Clients
        /\ change \in (IF Mode = "one" THEN {{c} : c \in All}
                       ELSE {{p[1], p[2]} : p \in RandomSubset(Count, {q \in RandomSubset(200, All) \X RandomSubset(200, All) : q[1].doc # q[2].doc})})
        /\ pc = "notification" /\ plan = <<>> /\ sess = "" /\ serial = ""
        /\ rec = [sess |-> Clients[client].sess, serial |-> Clients[client].serial]
        /\ store = Clients[client].has

Of(d) == {c \in change : c.doc = d}
Meaning(d) == IF Of(d) = {} THEN "same" ELSE (CHOOSE c \in Of(d) : TRUE).m
Object(d) == (CHOOSE c \in Of(d) : TRUE).obj
MayFail(d) == Meaning(d) # "same"
MayPass(d) == Meaning(d) \notin {"fatal"}

Fail == pc' = "failed" /\ UNCHANGED <<client, change, plan, sess, serial, rec, store>>

\* what the notification asks for
PlanDeltas(ser, listed) ==   \* the deltas to follow, for a client in the session
  CASE rec.serial = ser -> <<>>
    [] rec.serial = "2" /\ ser = "3" /\ "d3" \in listed -> <<"d3">>
    [] rec.serial = "2" /\ ser = "4" /\ {"d3", "d4"} \subseteq listed -> <<"d3", "d4">>
    [] rec.serial = "3" /\ ser = "4" /\ "d4" \in listed -> <<"d4">>
    [] OTHER -> <<"s">>
Notification ==
  /\ pc = "notification"
  /\ \/ MayFail("n") /\ Fail
     \/ /\ MayPass("n")
        /\ LET m == Meaning("n")
               sss == IF m = "sess" THEN "?" ELSE "A"
               ser == CASE m = "num 0" -> "0" [] m = "num -1" -> "-1" [] m = "num 3" -> "3" [] m = "num 9" -> "9" [] m = "num max" -> "max" [] OTHER -> "4"
               listed == {"d2", "d3", "d4"} \ (IF m = "unlisted" THEN {Object("n")} ELSE {})
               deltas == PlanDeltas(ser, listed)
           IN /\ sess' = sss /\ serial' = ser
              /\ plan' \in {<<"s">>} \cup (IF rec.sess = sss THEN {deltas} ELSE {})
        /\ pc' = "fetch"
        /\ UNCHANGED <<client, change, rec, store>>
Apply(d) == [o \in DOMAIN store |-> IF o \in Objs(d) THEN (IF Meaning(d) = "lost" /\ o = Object(d) THEN -1 ELSE New[d][o]) ELSE store[o]]
Reachable(d) == ~(Meaning("n") = "gone" /\ Object("n") = d)
Fetch ==
  /\ pc = "fetch" /\ plan # <<>>
  /\ LET d == Head(plan) IN
       \/ (MayFail(d) \/ ~Reachable(d)) /\ Fail
       \/ /\ MayPass(d) /\ Reachable(d)
          /\ store' = Apply(d) /\ plan' = Tail(plan) /\ UNCHANGED <<client, change, pc, sess, serial, rec>>
Record ==
  /\ pc = "fetch" /\ plan = <<>>
  /\ rec' = [sess |-> sess, serial |-> serial] /\ pc' = "done"
  /\ UNCHANGED <<client, change, plan, sess, serial, store>>
Next == Notification \/ Fetch \/ Record
Spec == Init /\ [][Next]_vars

(* ---- what holds ---- *)
\* a failed attempt is not recorded
Unrecorded == pc = "failed" => rec = [sess |-> Clients[client].sess, serial |-> Clients[client].serial]
\* an unchanged or otherwise spelled set of documents always brings the client up to date
Meanings == {c.m : c \in change}
Converges == /\ (Meanings = {"same"} => pc # "failed")
             /\ (pc = "done" /\ Meanings \subseteq {"same", "free", "unlisted", "sess"} =>
                    \A o \in {"x", "y", "z"} : store[o] = State4[o])
\* a document that is not well-formed is never recorded as followed
Refused == pc = "done" => \A c \in change : c.m = "fatal" => c.doc # "n"
Emit == pc \in {"done", "failed"} =>
          PrintT("@M@" \o ToJson([client |-> client, start |-> Clients[client], change |-> change, ok |-> pc = "done", rec |-> rec, store |-> store]))
=============================================================================
