--------------------------------- MODULE Ct ---------------------------------
(***************************************************************************)
(* The stand-alone submission tool (cmd/ctrpki): a main routine hands the  *)
(* certificate chains of a validation to T threads over a channel that     *)
(* buffers up to T chains, the threads post them to a log that answers     *)
(* each chain in one of several ways, and the program ends.                *)
(*                                                                         *)
(* Design "wait": the channel is closed and main waits until every thread  *)
(* has emptied it.  Design "quit": each thread is told to stop over a      *)
(* channel of its own (what the code did); TLC shows that this loses the   *)
(* chains still buffered.                                                  *)
(*                                                                         *)
(* Emitted: number of threads, answers in the order in which the chains    *)
(* arrive, and the number of requests the specification has for each.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Design, MaxN, MaxT

Answers == {"ok", "bad", "busy", "timeout"}
Retried(a) == a \in {"busy", "timeout"}     \* the client asks once more

VARIABLES n, t, ans,   \* chains, threads, answers by order of arrival
          next,        \* chains handed over so far
          buf,         \* the channel
          hand,        \* [thread -> chain in hand, 0 = none]
          gone,        \* threads that have ended
          arrived,     \* order of arrival of the chains at the log
          reqs,        \* [chain -> requests]
          quits,       \* threads told to stop (design "quit")
          pc           \* main: "send", "stop", "exit"
vars == <<n, t, ans, next, buf, hand, gone, arrived, reqs, quits, pc>>

Init == /\ n \in 0..MaxN /\ t \in 0..MaxT
        /\ ans \in [1..n -> Answers]
        /\ next = 0 /\ buf = <<>> /\ hand = [i \in 1..t |-> 0] /\ gone = {}
        /\ arrived = <<>> /\ reqs = [c \in 1..n |-> 0] /\ quits = 0 /\ pc = "send"

Pos(c, s) == CHOOSE i \in 1..Len(s) : s[i] = c
Arrive(c) == IF \E i \in 1..Len(arrived) : arrived[i] = c THEN arrived ELSE Append(arrived, c)
AnswerOf(c) == ans[Pos(c, Arrive(c))]
\* one request for chain c; it is over unless the log asks to come back
Over(c) == ~Retried(AnswerOf(c)) \/ reqs[c] >= 1

Produce == /\ pc = "send" /\ t > 0 /\ next < n /\ Len(buf) < t
           /\ next' = next + 1 /\ buf' = Append(buf, next + 1)
           /\ UNCHANGED <<n, t, ans, hand, gone, arrived, reqs, quits, pc>>
Direct == /\ pc = "send" /\ t = 0 /\ next < n
          /\ arrived' = Arrive(next + 1) /\ reqs' = [reqs EXCEPT ![next + 1] = @ + 1]
          /\ next' = IF Over(next + 1) THEN next + 1 ELSE next
          /\ UNCHANGED <<n, t, ans, buf, hand, gone, quits, pc>>
Take(i) == /\ i \notin gone /\ hand[i] = 0 /\ buf # <<>>
           /\ hand' = [hand EXCEPT ![i] = Head(buf)] /\ buf' = Tail(buf)
           /\ UNCHANGED <<n, t, ans, next, gone, arrived, reqs, quits, pc>>
Post(i) == /\ hand[i] # 0
           /\ LET c == hand[i] IN
              /\ arrived' = Arrive(c) /\ reqs' = [reqs EXCEPT ![c] = @ + 1]
              /\ hand' = IF Over(c) THEN [hand EXCEPT ![i] = 0] ELSE hand
           /\ UNCHANGED <<n, t, ans, next, buf, gone, quits, pc>>
Stop == /\ pc = "send" /\ next = n /\ pc' = "stop"
        /\ UNCHANGED <<n, t, ans, next, buf, hand, gone, arrived, reqs, quits>>
\* a thread ends
End(i) == /\ i \notin gone /\ hand[i] = 0
          /\ IF Design = "wait" THEN pc = "stop" /\ buf = <<>> ELSE pc = "stop" /\ quits = i - 1
          /\ gone' = gone \cup {i} /\ quits' = IF Design = "quit" THEN i ELSE quits
          /\ UNCHANGED <<n, t, ans, next, buf, hand, arrived, reqs, pc>>
Exit == /\ pc = "stop" /\ gone = 1..t /\ pc' = "exit"
        /\ UNCHANGED <<n, t, ans, next, buf, hand, gone, arrived, reqs, quits>>

Next == Produce \/ Direct \/ Stop \/ Exit \/ \E i \in 1..t : Take(i) \/ Post(i) \/ End(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllSent == pc = "exit" => \A c \in 1..n : reqs[c] = IF Retried(AnswerOf(c)) THEN 2 ELSE 1
NoMore  == \A c \in 1..n : reqs[c] <= 2
Bounded == Len(buf) <= t /\ Cardinality({i \in 1..t : hand[i] # 0}) <= t
Ends    == <>(pc = "exit")

Emit == pc = "exit" => PrintT("@C@" \o ToJson([t |-> t, ans |-> ans, reqs |-> [k \in 1..n |-> reqs[arrived[k]]]]))
=============================================================================
