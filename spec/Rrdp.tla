-------------------------------- MODULE Rrdp --------------------------------
(* RRDP (RFC 8182): a publisher that publishes, withdraws, starts sessions   *)
(* over, goes back in serials and forgets deltas, and a client that records  *)
(* (session, serial) and applies snapshots or deltas, with a fault anywhere  *)
(* in an attempt. Every attempt from every reachable state is emitted and    *)
(* replayed on the client of sync/lib.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Uris, MaxSteps, Sessions, MaxFail, Emitting

VARIABLES
  sess, serial,     \* the publisher's notification
  content,          \* uri -> version (0: not published)
  deltas,           \* serial -> changes (uri -> version, 0: withdraw), of this session
  listed,           \* serials whose delta is on the notification
  clock,            \* publisher steps so far; versions are drawn from it
  csess, cserial,   \* recorded by the client (0, 0: nothing)
  store,            \* uri -> version, 0: nothing, -1: emptied
  lastOk,           \* the last attempt succeeded and the publisher is unchanged since
  dropped,          \* uris withdrawn by the deltas of the last success
  hist,             \* serial -> content, of this session
  back,             \* an older serial of this session was restored
  fails
vars == <<sess, serial, content, deltas, listed, clock, csess, cserial, store, lastOk, dropped, hist, back, fails>>

Init == /\ sess = 1 /\ serial = 1 /\ content = [u \in Uris |-> 0] /\ deltas = <<>> /\ listed = {} /\ clock = 0
        /\ csess = 0 /\ cserial = 0 /\ store = [u \in Uris |-> 0] /\ lastOk = FALSE /\ dropped = {} /\ fails = 0 /\ hist = (1 :> [u \in Uris |-> 0]) /\ back = FALSE

Keep == UNCHANGED <<csess, cserial, store, dropped, fails>>
(* a change: some uris get a new version, some are withdrawn *)
Change(new, gone) ==
  /\ clock < MaxSteps /\ clock' = clock + 1 /\ ~back
  /\ new \cap gone = {} /\ \A u \in gone : content[u] # 0
  /\ content' = [u \in Uris |-> IF u \in new THEN clock' ELSE IF u \in gone THEN 0 ELSE content[u]]
  /\ serial' = serial + 1 /\ sess' = sess
  /\ deltas' = (serial' :> [u \in new \cup gone |-> content'[u]]) @@ deltas
  /\ listed' = listed \cup {serial'} /\ hist' = (serial' :> content') @@ hist /\ back' = FALSE
  /\ lastOk' = FALSE /\ Keep
Forget(S) == /\ clock < MaxSteps /\ clock' = clock + 1 /\ S # {} /\ S \subseteq listed /\ listed' = listed \ S
             /\ UNCHANGED <<sess, serial, content, deltas, hist, back>> /\ lastOk' = FALSE /\ Keep
(* a new session keeps what is published but starts counting anew, or the same serial, by chance *)
Restart(n, gone) ==
  /\ clock < MaxSteps /\ clock' = clock + 1 /\ sess < Sessions /\ sess' = sess + 1 /\ serial' = n
  /\ content' = [u \in Uris |-> IF u \in gone THEN 0 ELSE content[u]]
  /\ deltas' = [i \in (IF n = 1 THEN {} ELSE {n}) |-> [u \in {} |-> 0]] /\ listed' = DOMAIN deltas'
  /\ hist' = (n :> content') /\ back' = FALSE
  /\ lastOk' = FALSE /\ Keep
(* a restored backup: same session, lower serial, its content. A publisher that goes on from
   there reuses serials for other content, which no client can notice: it has to start a session. Likewise when a client
   saw a part of what was rolled back (fails) *)
Rollback(n) ==
  /\ clock < MaxSteps /\ clock' = clock + 1 /\ n < serial /\ fails = 0 /\ n \in DOMAIN hist /\ serial' = n /\ sess' = sess /\ back' = TRUE
  /\ content' = hist[n] /\ hist' = hist
  /\ deltas' = [i \in {j \in DOMAIN deltas : j <= n} |-> deltas[i]] /\ listed' = listed \cap (1..n)
  /\ lastOk' = FALSE /\ Keep

(* ------------------------------------------------------------- the client *)
NeedSnapshot == cserial = 0 \/ csess # sess \/ serial < cserial \/ ~((cserial + 1)..serial \subseteq listed)
(* the deltas suffice, but the recorded serial's own delta is no longer listed: a client may then use either *)
MaySnapshot == NeedSnapshot \/ cserial \notin listed
Docs(snap) == IF snap THEN <<0>> ELSE [i \in 1..(serial - cserial) |-> cserial + i]
ApplySnap(st) == [u \in Uris |-> IF content[u] # 0 THEN content[u] ELSE st[u]]
ApplyDelta(st, d) == [u \in Uris |-> IF u \in DOMAIN d THEN (IF d[u] = 0 THEN -1 ELSE d[u]) ELSE st[u]]
RECURSIVE ApplyDeltas(_, _)
ApplyDeltas(st, i) == IF i > serial THEN st ELSE ApplyDeltas(ApplyDelta(st, deltas[i]), i + 1)
Changed(doc) == IF doc = 0 THEN {u \in Uris : content[u] # 0} ELSE DOMAIN deltas[doc]

(* faults: of the notification, of the k-th document as a whole, of one of its elements *)
Faults(snap) == {<<"none", 0, "">>, <<"notif", 0, "">>} \cup
  UNION {{<<"fetch", k, "">>, <<"parse", k, "">>} \cup {<<t, k, u>> : t \in {"value", "store"}, u \in Changed(Docs(snap)[k])} : k \in DOMAIN Docs(snap)}

Final(snap) == IF snap THEN ApplySnap(store) ELSE ApplyDeltas(store, cserial + 1)
(* what may be in the store after a failure: elements of the documents before the fault, each applied or not *)
RECURSIVE Partial(_, _, _)
Partial(st, docs, k) ==
  IF k = 0 \/ docs = <<>> THEN {st} ELSE
  LET d == Head(docs)
      eff(u) == IF d = 0 THEN content[u] ELSE IF deltas[d][u] = 0 THEN -1 ELSE deltas[d][u]
      full == [u \in Uris |-> IF u \in Changed(d) THEN eff(u) ELSE st[u]] IN
  IF k > 1 THEN Partial(full, Tail(docs), k - 1)
  ELSE {[u \in Uris |-> IF u \in S THEN eff(u) ELSE st[u]] : S \in SUBSET Changed(d)}

Doc(d) == [u \in Uris |-> IF u \notin Changed(d) THEN -2 ELSE IF d = 0 THEN content[u] ELSE deltas[d][u]]
Out(f, snap) == [sess |-> sess, serial |-> serial, listed |-> listed, csess |-> csess, cserial |-> cserial,
   store |-> store, snap |-> Doc(0), deltas |-> [i \in {j \in DOMAIN deltas : TRUE} |-> <<i, Doc(i)>>],
   fault |-> f, docs |-> Docs(snap), ok |-> f[1] = "none", final |-> Final(snap), alt |-> MaySnapshot /\ ~NeedSnapshot,
   must |-> content, gone |-> IF snap THEN {} ELSE {u \in Uris : \E i \in (cserial + 1)..serial : u \in DOMAIN deltas[i] /\ content[u] = 0}]
Say(f, snap) == IF Emitting THEN PrintT("@V@" \o ToJson(Out(f, snap))) ELSE TRUE

Attempt(f, snap) ==
  /\ Say(f, snap)
  /\ IF f[1] = "none"
     THEN /\ csess' = sess /\ cserial' = serial /\ store' = Final(snap) /\ lastOk' = TRUE /\ fails' = fails
          /\ dropped' = IF snap THEN {} ELSE {u \in Uris : \E i \in (cserial + 1)..serial : u \in DOMAIN deltas[i] /\ content[u] = 0}
     ELSE /\ fails < MaxFail /\ fails' = fails + 1 /\ UNCHANGED <<csess, cserial, dropped>> /\ lastOk' = FALSE
          /\ store' \in IF f[1] = "notif" THEN {store} ELSE IF f[1] \in {"fetch", "parse"} THEN Partial(store, Docs(snap), f[2] - 1) \cup {store}
                        ELSE Partial(store, Docs(snap), f[2])
  /\ UNCHANGED <<sess, serial, content, deltas, listed, clock, hist, back>>

Next == \/ \E new, gone \in SUBSET Uris : Change(new, gone)
        \/ \E i \in listed : Forget({i}) \/ Forget({j \in listed : j <= i})
        \/ \E n \in {1, serial, serial + 1}, gone \in SUBSET Uris : Restart(n, gone)
        \/ \E n \in 1..serial : Rollback(n)
        \/ \E snap \in {NeedSnapshot} \cup {MaySnapshot} : \E f \in Faults(snap) : Attempt(f, snap)
Spec == Init /\ [][Next]_vars

(* S02: after a success, everything published is stored and what the deltas withdrew is not usable *)
Converged == lastOk => /\ \A u \in Uris : content[u] # 0 => store[u] = content[u]
                       /\ \A u \in dropped : store[u] = -1
                       /\ csess = sess /\ cserial = serial
(* S01: progress is recorded only by successes *)
Recorded == [][(csess' # csess \/ cserial' # cserial) => lastOk']_vars
(* a recorded serial of the current session never is ahead of what was ever applied: deltas from it lead to the content *)
Sane == cserial = 0 <=> csess = 0
=============================================================================
