-------------------------------- MODULE Octo --------------------------------
(* The daemon octorpki: rounds of RRDP, trust anchor, rsync synchronisation  *)
(* and validation over a cache, in one-off and server mode, with restarts,   *)
(* kills and an environment that decides every attempt. Behaviours are       *)
(* emitted and replayed on the real process (harness/octo).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Topos,       \* names of topologies, see Topology
  TalSets,     \* kinds of the URIs of the locators, see UriSeq
  Modes,       \* subset of {"oneoff", "server"}
  Limits,      \* iteration limits
  Variants,    \* subset of {"norrdp", "nofailover", "nowait"} and "": one setting changed each
  KillAts,     \* the attempts at which the process may be killed, 0: never
  MaxVer, MaxRounds, Runs, Emitting

(* modules 1..N of CAs; parent 0: trust anchor of the locator tal[m]; ann: announces RRDP *)
Topology(t) ==
  CASE t = "one"    -> [parent |-> <<0>>, tal |-> <<1>>, ann |-> <<TRUE>>]
    [] t = "oners"  -> [parent |-> <<0>>, tal |-> <<1>>, ann |-> <<FALSE>>]
    [] t = "chain3" -> [parent |-> <<0, 1, 2>>, tal |-> <<1, 1, 1>>, ann |-> <<TRUE, FALSE, TRUE>>]
    [] t = "chain5" -> [parent |-> <<0, 1, 2, 3, 4>>, tal |-> <<1, 1, 1, 1, 1>>, ann |-> <<FALSE, TRUE, TRUE, FALSE, TRUE>>]
    [] t = "fork"   -> [parent |-> <<0, 1, 1, 1>>, tal |-> <<1, 1, 1, 1>>, ann |-> <<TRUE, TRUE, FALSE, TRUE>>]
    [] t = "two"    -> [parent |-> <<0, 0, 1, 2>>, tal |-> <<1, 2, 1, 2>>, ann |-> <<TRUE, TRUE, TRUE, FALSE>>]
    \* thief: 3 announces the RRDP URL of 2, which was discovered before it and is on another host
    [] t = "thief"  -> [parent |-> <<0, 1, 2>>, tal |-> <<1, 1, 1>>, ann |-> <<FALSE, TRUE, FALSE>>]
    [] t = "twors"  -> [parent |-> <<0, 0>>, tal |-> <<1, 2>>, ann |-> <<FALSE, TRUE>>]
UriSeq(k) ==
  CASE k = "h" -> <<"h">> [] k = "r" -> <<"r">> [] k = "hh" -> <<"h", "h">> [] k = "hr" -> <<"h", "r">>
    [] k = "rh" -> <<"r", "h">> [] k = "hhr" -> <<"h", "h", "r">> [] k = "hrh" -> <<"h", "r", "h">>

VARIABLES
  topo, uris,           \* uris: locator -> kinds
  cfg,                  \* [rrdp, failover, wait, server, maxit]
  pub,                  \* module -> [sess, ver]
  cache,                \* module -> [mft, rest, sess]: versions of the manifest and of the other files
  taFile,               \* locator -> "none", "good", "bad"
  info,                 \* module -> [sess, ver] recorded (0, 0: nothing), in memory
  file,                 \* the same, as last saved
  known,                \* modules discovered in this run
  rrdps,                \* those of them synchronised over RRDP
  jobs,                 \* rsync jobs: modules, and <<"ta", t>>
  talq,                 \* locators to fetch in this round
  round, iters,         \* of this run, of this cycle
  phase, todo,          \* where in the round; what is left of the phase
  pos,                  \* next URI of the locator at hand
  stable, last,         \* published: stability and list of the last complete round
  run, log, results, done, okd
vars == <<topo, uris, cfg, pub, cache, taFile, info, file, known, rrdps, jobs, talq, round, iters, phase, todo, pos, stable, last, run, log, results, done, okd>>

T == Topology(topo)
Mods == DOMAIN T.parent
Talset == {T.tal[m] : m \in Mods}
Root(t) == CHOOSE m \in Mods : T.parent[m] = 0 /\ T.tal[m] = t
Leaf(m) == \A c \in Mods : T.parent[c] # m
TaJob(t) == 100 + t
HasR(t) == \E i \in DOMAIN uris[t] : uris[t][i] = "r"
Max2(a, b) == IF a > b THEN a ELSE b

Fresh == /\ known' = {} /\ rrdps' = {} /\ jobs' = {} /\ talq' = {} /\ round' = 0 /\ iters' = 0 /\ phase' = "start" /\ todo' = {} /\ pos' = 0
         /\ stable' = FALSE /\ last' = [ready |-> FALSE, list |-> {}, outp |-> FALSE, written |-> {}]
         /\ okd' = {}

Init ==
  /\ topo \in Topos
  /\ \E s \in [Talset -> TalSets] : uris = [t \in Talset |-> UriSeq(s[t])]
  /\ \E v \in Variants, m \in Modes, n \in Limits :
       \E q \in KillAts : cfg = [kill |-> q, rrdp |-> v # "norrdp", failover |-> v # "nofailover", wait |-> v # "nowait", server |-> m = "server", maxit |-> n]
  /\ pub = [m \in Mods |-> [sess |-> 1, ver |-> 1]]
  /\ cache = [m \in Mods |-> [mft |-> 0, rest |-> 0]]
  /\ taFile = [t \in Talset |-> "none"]
  /\ info = [m \in Mods |-> [sess |-> 0, ver |-> 0]] /\ file = info
  /\ known = {} /\ rrdps = {} /\ jobs = {} /\ talq = {} /\ round = 0 /\ iters = 0 /\ phase = "start" /\ todo = {} /\ pos = 0
  /\ stable = FALSE /\ last = [ready |-> FALSE, list |-> {}, outp |-> FALSE, written |-> {}]
  /\ run = 1 /\ log = <<>> /\ results = <<>> /\ done = "" /\ okd = {}

Env == <<topo, uris, cfg>>
Note(kind, m, k, bump, out, p) == log' = Append(log, [run |-> run, round |-> round, kind |-> kind, m |-> m, k |-> k, bump |-> bump, out |-> out, sess |-> p.sess, ver |-> p.ver])

StartRound ==
  /\ phase = "start" /\ done = "" /\ round < MaxRounds
  /\ round' = round + 1 /\ iters' = iters + 1 /\ okd' = {}
  /\ phase' = "rrdp" /\ todo' = (IF cfg.rrdp THEN rrdps ELSE {})
  /\ info' = file
  /\ UNCHANGED <<Env, pub, cache, taFile, file, known, rrdps, jobs, talq, pos, stable, last, run, log, results, done>>

KillNow == cfg.kill > 0 /\ Len(log) + 1 >= cfg.kill
Bumped(m, b) == IF b = "v" THEN [pub[m] EXCEPT !.ver = @ + 1] ELSE IF b = "s" THEN [pub[m] EXCEPT !.sess = @ + 1] ELSE pub[m]
Bumps(m, S) == {b \in S : (b = "v" => pub[m].ver < MaxVer) /\ (b = "s" => pub[m].sess < 2)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(* ---- RRDP: deltas one after the other where they lead to p, or the snapshot *)
FirstApplied(i, p) == IF i.ver > 0 /\ i.sess = p.sess /\ i.ver < p.ver THEN i.ver + 1 ELSE p.ver
RrdpAttempt ==
  /\ phase = "rrdp" /\ todo # {} /\ done = "" /\ ~KillNow
  /\ LET m == Min(todo) IN
     \E b \in Bumps(m, {"", "v", "s"}) :
     LET p == Bumped(m, b)
         docs == info[m] # p
         outs == {"ok", "notif"} \cup (IF docs THEN {"doc"} ELSE {}) \cup (IF docs /\ Leaf(m) THEN {"part"} ELSE {}) IN
     \E o \in outs :
       /\ pub' = [pub EXCEPT ![m] = p]
       /\ cache' = IF o = "ok" /\ docs THEN [cache EXCEPT ![m] = [mft |-> p.ver, rest |-> p.ver]]
                   ELSE IF o = "part" THEN [cache EXCEPT ![m].mft = FirstApplied(info[m], p)] ELSE cache
       /\ info' = IF o = "ok" THEN [info EXCEPT ![m] = p] ELSE info
       /\ jobs' = IF o = "ok" \/ ~cfg.failover THEN jobs \ {m} ELSE jobs
       /\ okd' = IF o = "ok" THEN okd \cup {m} ELSE okd
       /\ Note("rrdp", m, 0, b, o, p)
       /\ todo' = todo \ {m}
  /\ UNCHANGED <<Env, taFile, file, known, rrdps, talq, round, iters, phase, pos, stable, last, run, results, done>>

RrdpDone ==
  /\ phase = "rrdp" /\ todo = {} /\ done = ""
  /\ file' = IF cfg.rrdp THEN info ELSE file
  /\ phase' = "tal" /\ todo' = talq /\ pos' = 1
  /\ UNCHANGED <<Env, pub, cache, taFile, info, known, rrdps, jobs, talq, round, iters, stable, last, run, log, results, done, okd>>

(* ---- trust anchor certificates; a bad certificate is served only where nothing else could be tried *)
NoUri == ~\E i \in DOMAIN uris[Min(todo)] : i >= pos /\ uris[Min(todo)][i] = "h"
TalAttempt ==
  /\ phase = "tal" /\ todo # {} /\ done = "" /\ (KillNow => NoUri)
  /\ LET t == Min(todo)
         us == uris[t]
         next == {i \in DOMAIN us : i >= pos /\ us[i] = "h"} IN
     IF next = {}
     THEN /\ jobs' = IF cfg.failover /\ HasR(t) THEN jobs \cup {TaJob(t)} ELSE jobs
          /\ todo' = todo \ {t} /\ pos' = 1
          /\ UNCHANGED <<taFile, log>>
     ELSE LET i == Min(next)
              lastone == (\A j \in next : j = i) /\ ~HasR(t) IN
          \E o \in {"ok", "err"} \cup (IF lastone THEN {"bad"} ELSE {}) :
            /\ Note("http", t, i, "", o, [sess |-> 0, ver |-> 0])
            /\ IF o = "err" THEN pos' = i + 1 /\ UNCHANGED <<taFile, jobs, todo>>
               ELSE /\ taFile' = [taFile EXCEPT ![t] = IF o = "ok" THEN "good" ELSE "bad"]
                    /\ jobs' = jobs \ {TaJob(t)} /\ todo' = todo \ {t} /\ pos' = 1
  /\ UNCHANGED <<Env, pub, cache, info, file, known, rrdps, talq, round, iters, phase, stable, last, run, results, done, okd>>
TalDone ==
  /\ phase = "tal" /\ todo = {} /\ done = ""
  /\ phase' = "rsync" /\ todo' = jobs
  /\ UNCHANGED <<Env, pub, cache, taFile, info, file, known, rrdps, jobs, talq, round, iters, pos, stable, last, run, log, results, done, okd>>

(* ---- rsync *)
RsyncAttempt ==
  /\ phase = "rsync" /\ todo # {} /\ done = "" /\ ~KillNow
  /\ LET m == Min(todo) IN
     IF m > 100
     THEN \E o \in {"ok", "fail", "bad"} :
            /\ taFile' = [taFile EXCEPT ![m - 100] = IF o = "ok" THEN "good" ELSE IF o = "bad" THEN "bad" ELSE @]
            /\ Note("rsync", m, 0, "", o, [sess |-> 0, ver |-> 0])
            /\ todo' = todo \ {m} /\ UNCHANGED <<pub, cache, okd>>
     ELSE \E b \in Bumps(m, {"", "v"}) : \E o \in {"ok", "fail", "late"} \cup (IF Leaf(m) THEN {"part"} ELSE {}) :
            LET p == Bumped(m, b) IN
            /\ pub' = [pub EXCEPT ![m] = p]
            /\ cache' = IF o \in {"ok", "late"} THEN [cache EXCEPT ![m] = [mft |-> p.ver, rest |-> p.ver]]
                        ELSE IF o = "part" THEN [cache EXCEPT ![m].mft = p.ver] ELSE cache
            /\ okd' = IF o \in {"ok", "late"} THEN okd \cup {m} ELSE okd
            /\ Note("rsync", m, 0, b, o, p)
            /\ todo' = todo \ {m} /\ UNCHANGED taFile
  /\ UNCHANGED <<Env, info, file, known, rrdps, jobs, talq, round, iters, phase, pos, stable, last, run, results, done>>

(* ---- validation, publication, end of the round *)
Sound(m) == cache[m].mft = cache[m].rest /\ cache[m].mft > 0
RECURSIVE HasCert(_), Valid(_)
HasCert(m) == IF T.parent[m] = 0 THEN taFile[T.tal[m]] = "good" ELSE Valid(T.parent[m])
Valid(m) == HasCert(m) /\ Sound(m)
List == {<<m, cache[m].mft>> : m \in {x \in Mods : Valid(x)}}
Seen == {m \in Mods : HasCert(m)}
(* half updated: a client that applies documents as a whole could still use the old content *)
Maybe == {<<m, cache[m].rest>> : m \in {x \in Mods : HasCert(x) /\ ~Sound(x) /\ cache[x].rest > 0}}

(* ---- what monitoring shows after a round: failures, serial numbers and state of this run *)
Fails(kind, m, outs) == Cardinality({i \in DOMAIN log : log[i].run = run /\ log[i].kind = kind /\ log[i].m = m /\ log[i].out \notin outs})
LastOk(m) == LET s == {i \in DOMAIN log : log[i].run = run /\ log[i].kind = "rrdp" /\ log[i].m = m /\ log[i].out = "ok"} IN
             IF s = {} THEN 0 ELSE log[CHOOSE i \in s : \A j \in s : j <= i].ver
Monitor(fin) == [rrdp |-> [m \in Mods |-> Fails("rrdp", m, {"ok"})], rsync |-> [m \in Mods |-> Fails("rsync", m, {"ok"})],
                 ta |-> [t \in Talset |-> Fails("rsync", TaJob(t), {"ok", "bad"})], serial |-> [m \in Mods |-> LastOk(m)], state |-> IF fin THEN 1 ELSE 0]

Validate ==
  /\ phase = "rsync" /\ todo = {} /\ done = ""
  /\ LET changed == ~(Seen \subseteq known)
         st == ~changed /\ round > 1
         forced == iters > cfg.maxit
         fin == st \/ forced
         wr == ~cfg.server /\ (st \/ ~cfg.wait)
         l == [ready |-> st \/ ~cfg.wait, list |-> List, outp |-> last.outp \/ wr, written |-> IF wr THEN List ELSE last.written] IN
     /\ known' = known \cup Seen
     /\ rrdps' = rrdps \cup (IF cfg.rrdp THEN {m \in Seen : T.ann[m]} ELSE {})
     /\ jobs' = (jobs \ {TaJob(t) : t \in {x \in Talset : taFile[x] = "good"}}) \cup Seen
     /\ talq' = {t \in Talset : taFile[t] # "good"}
     /\ last' = l
     /\ stable' = st
     /\ results' = Append(results, [run |-> run, round |-> round, list |-> List, maybe |-> Maybe, seen |-> Seen, ready |-> l.ready, health |-> st, forced |-> forced /\ ~st,
                                    tas |-> {t \in Talset : taFile[t] = "good"}, certs |-> Seen, cycleend |-> fin, met |-> Monitor(fin)])
     /\ IF fin
        THEN /\ iters' = 0
             /\ IF cfg.server THEN phase' = "start" /\ UNCHANGED done
                ELSE phase' = "end" /\ UNCHANGED done
        ELSE UNCHANGED iters /\ phase' = "start" /\ UNCHANGED done
  /\ UNCHANGED <<Env, pub, cache, taFile, info, file, round, todo, pos, run, log, okd>>

(* a one-off run ended, or a server is stopped between rounds: run again on the same cache, or finish *)
Ended == done = "" /\ (phase = "end" \/ (cfg.server /\ phase = "start" /\ round = MaxRounds) \/ (phase = "start" /\ round = MaxRounds))
Again == /\ Ended /\ run < Runs /\ topo # "thief" (* there 2 and 3 would be discovered in one round *) /\ run' = run + 1 /\ Fresh
         /\ UNCHANGED <<Env, pub, cache, taFile, info, file, log, results, done>>
Finish == /\ Ended /\ done' = IF phase = "end" THEN "exit" ELSE "stop"
          /\ UNCHANGED <<Env, pub, cache, taFile, info, file, known, rrdps, jobs, talq, round, iters, phase, todo, pos, stable, last, run, log, results, okd>>

(* killed at an attempt. What the attempts of the same phase before it did is in the cache, or not. *)
Kill == /\ KillNow /\ done = "" /\ phase \in {"rrdp", "tal", "rsync"} /\ todo # {} /\ (phase = "tal" => ~NoUri)
        /\ done' = "kill" /\ log' = Append(log, [run |-> run, round |-> round, kind |-> IF phase = "tal" THEN "http" ELSE phase, m |-> Min(todo), k |-> 0, bump |-> "", out |-> "kill", sess |-> 0, ver |-> 0])
        /\ UNCHANGED <<Env, pub, cache, taFile, info, file, known, rrdps, jobs, talq, round, iters, phase, todo, pos, stable, last, run, results, okd>>

Next == StartRound \/ RrdpAttempt \/ RrdpDone \/ TalAttempt \/ TalDone \/ RsyncAttempt \/ Validate \/ Again \/ Finish \/ Kill
Spec == Init /\ [][Next]_vars

(* what a run against faultless publishers gives in the end, from this cache or from an empty one *)
Reachable(t) == (\E i \in DOMAIN uris[t] : uris[t][i] = "h") \/ (cfg.failover /\ HasR(t)) \/ taFile[t] = "good"
Final == {m \in Mods : Reachable(T.tal[m])}

Out == [topo |-> topo, parent |-> T.parent, tal |-> T.tal, ann |-> T.ann, uris |-> [t \in Talset |-> uris[t]], cfg |-> cfg, log |-> log,
        results |-> results, done |-> done, outp |-> last.outp, written |-> last.written, final |-> Final, file |-> file]
Emit == (Emitting /\ done # "") => PrintT("@V@" \o ToJson(Out))

(* ------------------------------------------------------------ properties *)
(* O01: a list is published as ready only if nothing new was discovered by the round it is of *)
ReadyIsStable == \A i \in DOMAIN results : (results[i].ready /\ cfg.wait) => /\ i > 1 /\ results[i-1].run = results[i].run /\ results[i].seen \subseteq UNION {results[j].seen : j \in {x \in 1..(i-1) : results[x].run = results[i].run}}
(* O02: cycles end *)
Bounded == iters <= cfg.maxit + 1
(* S01, S06: what is recorded is in the cache, in memory and on disk, at every point *)
Honest(i) == \A m \in Mods : i[m].ver > 0 => cache[m].mft >= i[m].ver /\ cache[m].rest >= i[m].ver
InfoHonest == Honest(info) /\ Honest(file)
(* S04: attempts of a round *)
Att(r, kind) == {log[i].m : i \in {j \in DOMAIN log : log[j].run = run /\ log[j].round = r /\ log[j].kind = kind}}
AttOk(r, kind) == {log[i].m : i \in {j \in DOMAIN log : log[j].run = run /\ log[j].round = r /\ log[j].kind = kind /\ log[j].out = "ok"}}
KnownBefore(r) == IF r = 1 THEN {} ELSE UNION {results[i].seen : i \in {j \in DOMAIN results : results[j].run = run /\ results[j].round <= r - 1}}
S04 == phase = "start" /\ round > 0 =>
  LET r == round k == KnownBefore(r) IN
  /\ Att(r, "rrdp") = IF cfg.rrdp THEN {m \in k : T.ann[m]} ELSE {}
  /\ \A m \in k : (m \in Att(r, "rsync")) <=> (~cfg.rrdp \/ ~T.ann[m] \/ (m \notin AttOk(r, "rrdp") /\ cfg.failover))
(* S05: fetched exactly while there is no good one *)
S05 == phase = "start" /\ round > 1 =>
  \A t \in Talset : (\A i \in DOMAIN results : (results[i].run = run /\ results[i].round = round - 1) => t \in results[i].tas) => t \notin Att(round, "http")
(* S02: what a round synchronised without fault is used as published *)
Fresh2 == phase = "start" /\ round > 0 => \A m \in okd : Valid(m) => cache[m].mft = pub[m].ver
(* O07: the counters never go back within a run, serial numbers are those recorded *)
MonitorOk == \A i \in DOMAIN results : LET r == results[i] IN
  /\ i > 1 /\ results[i-1].run = r.run => \A m \in Mods : r.met.rrdp[m] >= results[i-1].met.rrdp[m] /\ r.met.rsync[m] >= results[i-1].met.rsync[m]
  /\ (i = Len(results) /\ phase = "start" /\ r.run = run /\ r.round = round) => \A m \in Mods : r.met.serial[m] # 0 => r.met.serial[m] = file[m].ver
=============================================================================
