------------------------------- MODULE Daemon -------------------------------
(* The fcron daemon as a state machine: schedules, the serial queue, the load *)
(* queue, running jobs, the copies on disk, and what happens to them at each  *)
(* wake-up, signal, reload, suspend, stop, crash and restart.                 *)
(*                                                                            *)
(* A state is one record. Steps are operators from a state and an observation *)
(* (what the outside world saw the daemon do) to the SET of states the daemon *)
(* may be in afterwards; the empty set means the observation is impossible.   *)
(* MCDaemon.tla explores all environments of small instances; DaemonTrace.tla *)
(* runs the recorded behaviour of the real daemon through the same operators. *)
EXTENDS Schedule, TLC

CONSTANTS DefOf(_)   \* the entry (as installed) that a definition number stands for

(* A definition: id, u (owner), kind, f, dayor, kw, z, tzdiff, jitter, random, n (run every n   *)
(* matches), freq, first (seconds, @ only), serial, ssev (serialonce false), haslavg, lavg (x100,*)
(* 0 unset), lor, until, strict, lsev (lavgonce false), exesev, bootrun, boot (runatreboot),     *)
(* resume (runatresume), once (runonce), vol(atile), reset (rebootreset), notice.                *)

EmptyFn == [x \in {} |-> 0]
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Put(f, k, v) == Merge(f, [x \in {k} |-> v])
Del(f, S) == Restrict(f, DOMAIN f \ S)
RECURSIVE GroupSizes(_)
GroupSizes(q) == IF q = <<>> THEN 0 ELSE Cardinality(Head(q)) + GroupSizes(Tail(q))
SeqRange(s) == {s[i] : i \in 1..Len(s)}
FoldSet2(op(_, _), base, set) == FoldLeft(op, base, SetToSeq(set))

(* ------------------------------- the state -------------------------------
   up     the daemon runs
   t      the instant of its last event
   p      parameters: m (-m), q (-q), fs (first sleep), save (save interval)
   L      loaded entries: id -> [def, next, rem, nx, has, off]
            next  set of <<lo, hi>>: where the next execution time may lie ({}: never)
            rem   matches left before the entry runs (n-th match), 0 if n <= 1
            nx    executions queued or running      has   has run since the last boot
            off   the next time of an entry that does not run before the next boot
   sq     serial queue: sequence of groups (sets) of <<id, k>>; order inside a group is free
            (k: which of the executions of id put in the queue together)
   lq     load queue: sequence of [id, until, late]
   run    running jobs: run number -> [id ("" if its fcrontab is gone), kind]
   save   when the next periodic save is due
   disk   user -> [ts, L]: the schedules as last saved
   pend   user -> [rm, has, defs]: a removal and / or an installation not yet seen
   obs    the observed starts not yet explained: sequence of [id, run, ok]
   mails  the notices of non-execution that must have been sent: set of [def, why, since, next]
   cl     clients of the control socket: number -> [user ("": not identified), since (idle since)]
   fail   wrong passwords: [n, t (the last one)]
   ids    what has been seen of the numbers which fcron gives the entries: id -> number *)
Init0 == [up |-> FALSE, t |-> 0, p |-> [m |-> 1, q |-> 30, fs |-> 20, save |-> 1800, once |-> FALSE],
          L |-> EmptyFn, sq |-> <<>>, lq |-> <<>>, run |-> EmptyFn, save |-> 0,
          disk |-> EmptyFn, pend |-> EmptyFn, obs |-> <<>>, mails |-> {}, flaky |-> "no",
          cl |-> EmptyFn, fail |-> [n |-> 0, t |-> 0], ids |-> EmptyFn]

Kinds(st, k) == {r \in DOMAIN st.run : st.run[r].id # "" /\ st.run[r].kind = k}
SRun(st) == Cardinality(Kinds(st, "serial"))
LRun(st) == Cardinality(Kinds(st, "lserial"))
SLen(st) == GroupSizes(st.sq)
E(st, id) == DefOf(st.L[id].def)

Exact(t) == {<<t, t>>}
Hi(S) == SetMax({x[2] : x \in S})
Lo(S) == SetMin({x[1] : x \in S})
Prune(S, t) == {<<Max2(x[1], t + 1), x[2]>> : x \in {y \in S : y[2] > t}}
(* "" stands for a time nobody can check *)
Notice(d, why, since, next) == [def |-> d, why |-> why, since |-> since, next |-> next]

SetL(st, id, v) == [st EXCEPT !.L = [st.L EXCEPT ![id] = v]]

(* ------------------------------ starting jobs ---------------------------- *)
(* Explain the observed start number i as a run of the given kind. A start   *)
(* whose fork failed (ok = FALSE) runs nothing and leaves no trace.          *)
StartObs(st, i, kind) ==
  LET o == st.obs[i]
      s1 == [st EXCEPT !.obs = RemoveAt(st.obs, i)]
  IN IF o.ok THEN [s1 EXCEPT !.run = Put(st.run, o.run, [id |-> o.id, kind |-> kind])]
     ELSE SetL(s1, o.id, [st.L[o.id] EXCEPT !.nx = @ - 1])
ObsOf(st, id) == {i \in 1..Len(st.obs) : st.obs[i].id = id}
Queued(st) == UNION {{x[1] : x \in st.sq[i]} : i \in 1..Len(st.sq)}
IsSerialLine(st, id) == E(st, id).serial /\ ~E(st, id).haslavg
FirstSerialObs(st) == LET Q == Queued(st) I == {i \in 1..Len(st.obs) : st.obs[i].id \in Q}
                      IN IF I = {} THEN {} ELSE {SetMin(I)}
(* Start the next job of the serial queue.                                   *)
PopOne(st) ==
  LET G == Head(st.sq)
      one(id) == <<id, SetMin({x[2] : x \in {y \in G : y[1] = id}})>>
      rest(x) == IF G = {x} THEN Tail(st.sq) ELSE <<G \ {x}>> \o Tail(st.sq)
  IN {StartObs([st EXCEPT !.sq = rest(one(st.obs[i].id))], i, "serial") :
        i \in {k \in FirstSerialObs(st) : \E x \in G : x[1] = st.obs[k].id}}
RECURSIVE PopAll(_)
PopAll(st) == IF st.sq # <<>> /\ SRun(st) < st.p.m
              THEN UNION {PopAll(s) : s \in PopOne(st)} ELSE {st}

(* Put a group of jobs in the serial queue; one that finds it full is refused. *)
CanQueue(st, id, sev) == IF sev THEN st.L[id].nx < 255 ELSE st.L[id].nx <= 0
PushSerial(st, G, t) ==
  LET el == {x \in G : CanQueue(st, x[1], E(st, x[1]).ssev) /\ (x[2] = 1 \/ E(st, x[1]).ssev)}
      room == Max2(0, st.p.q - SLen(st))
      K == IF Cardinality(el) <= room THEN {el}
           ELSE {S \in SUBSET el : Cardinality(S) = room /\ \A x \in S : x[2] = 2 => <<x[1], 1>> \in S}
      num(S, id) == Cardinality({x \in S : x[1] = id})
  IN {[st EXCEPT !.sq = IF S = {} THEN @ ELSE Append(@, S),
                 !.L = [id \in DOMAIN st.L |-> [st.L[id] EXCEPT !.nx = @ + num(S, id)]],
                 !.mails = @ \cup {Notice(st.L[x[1]].def, "full", {}, {}) : x \in {y \in el \ S : E(st, y[1]).notice}}] : S \in K}

(* Put a job in the load queue at instant t, for an execution due since `due`.  *)
(* (When the clock is set back an interval may end twice; an execution moved    *)
(* out of its interval by a clock set forward may be taken for a late one.)     *)
UntilOf(e, t, due) ==
  LET w == EWall(e, due)
      ie == IntervalEnd(e, w)
      EN == IF ie = None THEN {2000000000} ELSE EInstants(e, ie)
      Moved == {x \in (w - 120)..(w - 1) : due \in EInstants(e, x) /\ Matches(e.f, e.dayor, x)}
      S == EN \cup {due} \cup UNION {LET k == IntervalEnd(e, x) IN IF k = None THEN {} ELSE EInstants(e, k) : x \in Moved}
  IN IF e.strict /\ e.kind = "pct"
     THEN {IF e.until > 0 /\ e.until + t < en THEN [until |-> e.until + t, late |-> TRUE]
           ELSE [until |-> en, late |-> FALSE] : en \in IF Matches(e.f, e.dayor, w) THEN EN ELSE S}
     ELSE {[until |-> IF e.until > 0 THEN e.until + t ELSE 0, late |-> TRUE]}
PushLavg(st, id, t, due, room) ==
  LET e == E(st, id)
  IN IF ~CanQueue(st, id, e.lsev) THEN {st}
     ELSE IF ~room
     THEN {[st EXCEPT !.mails = @ \cup (IF e.notice THEN {Notice(st.L[id].def, "full", {}, {})} ELSE {})]}
     ELSE {[SetL(st, id, [st.L[id] EXCEPT !.nx = @ + 1])
              EXCEPT !.lq = Append(@, [id |-> id, until |-> u.until, late |-> u.late])] : u \in UntilOf(e, t, due)}

(* ----------------------------- due executions ---------------------------- *)
Due(st, t) == {id \in DOMAIN st.L : st.L[id].next # {} /\ Lo(st.L[id].next) <= t}
Certain(st, t) == {id \in Due(st, t) : Hi(st.L[id].next) <= t}
After(st, id, t) ==
  LET e == E(st, id) ln == st.L[id]
  IN IF e.once /\ ln.has THEN {}
     ELSE IF e.kind = "at" THEN Exact(t + e.freq) ELSE AfterRun(e, t)
Skips(ln) == ln.rem > 1
Resched(st, id, t) == SetL(st, id, [st.L[id] EXCEPT !.next = After(st, id, t)])
(* one due entry; the serial ones are only counted here, they are queued as a group *)
RunDue(st, id, t, room) ==
  LET ln == st.L[id] e == E(st, id)
      due == Min2(t, Hi(ln.next))
      s0 == SetL(st, id, [ln EXCEPT !.rem = IF Skips(ln) THEN @ - 1 ELSE e.n, !.has = (@ \/ ~Skips(ln))])
      start == IF ln.nx <= 0 \/ e.exesev
               THEN {StartObs(SetL(s0, id, [s0.L[id] EXCEPT !.nx = @ + 1]), i, "normal") :
                       i \in IF ObsOf(s0, id) = {} THEN {} ELSE {SetMin(ObsOf(s0, id))}}
               ELSE {s0}
      s1 == IF Skips(ln) THEN {s0}
            ELSE IF e.haslavg THEN PushLavg(s0, id, t, due, room)
            ELSE IF e.serial THEN {s0} ELSE start
  IN {Resched(s, id, t) : s \in s1}
(* if not all find room in the load queue, any of them may be those that do      *)
RunDueAll(st, ids, t) ==
  LET V == {id \in ids : E(st, id).haslavg /\ ~Skips(st.L[id]) /\ CanQueue(st, id, E(st, id).lsev)}
      room == Max2(0, st.p.q - Len(st.lq))
      K == IF Cardinality(V) <= room THEN {V} ELSE {S \in SUBSET V : Cardinality(S) = room}
  IN UNION {FoldSet2(LAMBDA A, id : UNION {RunDue(s, id, t, id \in R) : s \in A}, {st}, ids) : R \in K}
SerialDue(st, ids) == {id \in ids : E(st, id).serial /\ ~E(st, id).haslavg /\ ~Skips(st.L[id])}
(* entries whose due times are known are queued in the order of these times  *)
RunGroups(st, ids, t) ==
  LET exact == \A id \in ids : Lo(st.L[id].next) = Hi(st.L[id].next)
      at(id) == Lo(st.L[id].next)
      Gs == IF ids = {} THEN <<>>
            ELSE IF exact THEN LET T == SetToSortSeq({at(id) : id \in ids}, <)
                               IN [i \in 1..Len(T) |-> {id \in ids : at(id) = T[i]}]
            ELSE <<ids>>
      one(A, G) ==
        UNION {LET x == SerialDue(s, G)
               IN IF x = {} THEN RunDueAll(s, G, t)
                  ELSE UNION {PushSerial(s2, {<<id, 1>> : id \in x}, t) : s2 \in RunDueAll(s, G, t)} : s \in A}
  IN FoldLeft(one, {st}, Gs)
(* Of the entries that may or may not be due, the normal ones are due if they *)
(* were seen starting; for the queued ones both cases are possible.           *)
TestJobs(st, t) ==
  LET D == Due(st, t)  C == Certain(st, t)  U == D \ C
      seen == {id \in U : ~E(st, id).serial /\ ~E(st, id).haslavg /\ id \notin Queued(st) /\ ObsOf(st, id) # {}}
      free == {id \in U : E(st, id).serial \/ E(st, id).haslavg \/ id \in Queued(st)
                          \/ Skips(st.L[id]) \/ (st.L[id].nx > 0 /\ ~E(st, id).exesev)}
      pr(s, X) == [s EXCEPT !.L = [id \in DOMAIN s.L |-> IF id \in U \ X THEN [s.L[id] EXCEPT !.next = Prune(@, t)]
                                                         ELSE s.L[id]]]
  IN UNION {RunGroups(pr(st, C \cup X), C \cup X, t) : X \in {seen \cup Y : Y \in SUBSET (free \ seen)}}

(* ------------------------------ load queue ------------------------------- *)
LoadOK(e, la) ==
  LET below(i) == la[i] < e.lavg[i]
  IN IF e.lor THEN \E i \in 1..3 : below(i)
     ELSE \A i \in 1..3 : e.lavg[i] = 0 \/ below(i)
DropLavg(st, k) == [st EXCEPT !.lq = RemoveAt(@, k)]
(* start the k-th entry of the load queue                                     *)
StartLavg(st, k) ==
  LET id == st.lq[k].id
  IN {StartObs(DropLavg(st, k), i, IF E(st, id).serial THEN "lserial" ELSE "lavg") :
        i \in IF ObsOf(st, id) = {} THEN {} ELSE {SetMin(ObsOf(st, id))}}
(* Does nx lie in the next interval (beginning at ni), so that the present one   *)
(* is missed for good? (At a clock set back the interval may begin twice.)       *)
PeriodOver(e, ni, nx) ==
  IF nx = {} THEN {TRUE} ELSE IF ni = None THEN {FALSE} ELSE {Lo(nx) >= i : i \in EInstants(e, ni)}
(* the interval is over: not run, next match                                   *)
ExpireLavg(st, k, t) ==
  LET id == st.lq[k].id  e == E(st, id)
      nx == IF e.kind = "at" THEN Exact(t + e.freq) ELSE FirstMatch(e, t, FALSE)
      s1 == SetL(DropLavg(st, k), id, [st.L[id] EXCEPT !.nx = @ - 1, !.next = nx])
      ni == NextInterval(e, EWall(e, t))
  IN {IF e.notice /\ whole THEN [s1 EXCEPT !.mails = @ \cup {Notice(st.L[id].def, "load", Exact(t), nx)}] ELSE s1
        : whole \in PeriodOver(e, ni, nx)}
RECURSIVE Expire(_, _)
Expire(S, t) ==
  UNION {LET X == {k \in 1..Len(st.lq) : st.lq[k].until > 0 /\ st.lq[k].until < t}
             k == SetMin(X)
         IN IF X = {} THEN {st}
            ELSE IF st.lq[k].late THEN Expire(StartLavg(st, k), t)
            ELSE Expire(ExpireLavg(st, k, t), t) : st \in S}
Ready(st, la) == {k \in 1..Len(st.lq) : LoadOK(E(st, st.lq[k].id), la)
                    /\ (~E(st, st.lq[k].id).serial \/ LRun(st) < st.p.m)}
RECURSIVE RunReady(_, _)
RunReady(st, la) ==
  LET R == Ready(st, la)
      nonser == {k \in R : ~E(st, st.lq[k].id).serial}
      cand == IF nonser # {} THEN {SetMin(nonser)} ELSE {k \in R : ObsOf(st, st.lq[k].id) # {}}
  IN IF R = {} THEN {st}
     ELSE UNION {UNION {RunReady(s, la) : s \in StartLavg(st, k)} : k \in cand}
CheckLavg(st, la, t) == UNION {RunReady(s, la) : s \in Expire({st}, t)}

(* ------------------------- loading and (re)starting ----------------------- *)
NewLine(d) == [def |-> d, next |-> {}, rem |-> IF DefOf(d).n > 1 THEN DefOf(d).n ELSE 0,
               nx |-> 0, has |-> FALSE, off |-> {}]
(* Schedule entry id when it is loaded (or at resume): ctx is "boot" (first   *)
(* start since boot), "start", "resume"; new: just installed; d: how long it  *)
(* was out. Result: set of [st, push] (push: executions for the serial queue)*)
MissedNotice(e, d0, old, nx) ==
  IF ~e.notice THEN {} ELSE {Notice(d0, "down", old, nx)}
StartLine(st, id, ctx, new, d, t) ==
  LET ln0 == st.L[id]
      e == DefOf(ln0.def)
      atboot == ctx = "boot" /\ e.boot
      atresume == ctx = "resume" /\ e.resume
      again == ctx # "resume" /\ ln0.nx > 0
      ln1 == IF again THEN [ln0 EXCEPT !.nx = 0] ELSE ln0
      ln == IF ctx = "boot" \/ (ctx = "start" /\ e.vol) \/ atresume THEN [ln1 EXCEPT !.has = FALSE] ELSE ln1
      requeue == again /\ ~atboot
      base == [st |-> SetL(st, id, ln), push |-> 0]
      toSerial(r) == [r EXCEPT !.push = @ + 1]
      toLavg(r, due) == [r EXCEPT !.st = CHOOSE x \in PushLavg(r.st, id, t, due, Len(r.st.lq) < r.st.p.q) : TRUE]  \* (there is one)
      b0 == IF ~requeue THEN base
            ELSE IF e.haslavg THEN (IF e.strict THEN base ELSE toLavg(base, t))
            ELSE toSerial(base)
      next(r, S) == [r EXCEPT !.st = SetL(r.st, id, [r.st.L[id] EXCEPT !.next = S, !.off = {}])]
      stop(r) == [r EXCEPT !.st = SetL(r.st, id, [r.st.L[id] EXCEPT !.next = {}, !.off = IF ln.next = {} THEN ln.off ELSE ln.next])]
      mail(r, M) == [r EXCEPT !.st.mails = @ \cup M]
      old == IF ln.next = {} /\ ~(e.once /\ ln.has) THEN ln.off ELSE ln.next
      missedPossible == old # {} /\ Lo(old) <= t
      keptPossible == old # {} /\ Hi(old) >= t
      (* a % entry reports only whole missed periods: it missed one if it cannot *)
      (* run any more in the period in which it should have run                  *)
      whole(o, nx) == IF e.kind # "pct" THEN {TRUE} ELSE PeriodOver(e, NextInterval(e, EWall(e, Lo(o))), nx)
      missed ==
        LET o == {<<x[1], Min2(x[2], t)>> : x \in {y \in old : y[1] <= t}}
            rem2 == IF Skips(ln) THEN ln.rem - 1 ELSE e.n
            fm == FirstMatch(e, t, st.p.fs = 0)
        IN IF e.bootrun /\ e.kind = "td"
           THEN LET r1 == [b0 EXCEPT !.st = SetL(b0.st, id, [b0.st.L[id] EXCEPT !.rem = rem2])]
                    r2 == IF Skips(ln) THEN r1
                          ELSE IF e.haslavg THEN toLavg(r1, t)
                          ELSE IF r1.st.L[id].nx > 0 /\ ~e.ssev THEN r1 ELSE toSerial(r1)
                IN {next(r2, AfterRun(e, t))}
           ELSE {mail(next(b0, fm), IF w THEN MissedNotice(e, ln0.def, o, fm) ELSE {}) : w \in whole(o, fm)}
      nowNotice ==
        LET o == {<<x[1], Min2(x[2], t)>> : x \in {y \in old : y[1] <= t}}
        IN IF new \/ ~missedPossible THEN {{}}
           ELSE {IF w THEN MissedNotice(e, ln0.def, o, Exact(t)) ELSE {} : w \in whole(o, Exact(t))}
      td == IF e.once /\ ln.has THEN {stop(b0)}
            ELSE IF atboot \/ atresume THEN {mail(next(b0, Exact(t)), M) : M \in nowNotice}
            ELSE IF new THEN {next(b0, FirstMatch(e, t, st.p.fs = 0))}
            ELSE (IF missedPossible THEN missed ELSE {})
                 \cup (IF keptPossible THEN {next(b0, {<<Max2(x[1], t), x[2]>> : x \in {y \in old : y[2] >= t}})} ELSE {})
                 \cup (IF old = {} THEN {next(b0, FirstMatch(e, t, st.p.fs = 0))} ELSE {})
      at == IF e.once /\ ln.has THEN {next(b0, {})}
            ELSE IF atboot \/ atresume THEN {next(b0, Exact(t))}
            ELSE IF new \/ (e.vol /\ ctx # "resume") \/ (ctx = "boot" /\ (e.reset \/ e.once))
            THEN {next(b0, IF e.first < 0 THEN {} ELSE Exact(t + e.first))}
            ELSE IF old = {} THEN {b0}
            ELSE {next(b0, Exact(Max2(t, Hi(old) + d)))}
  IN IF e.kind = "at" THEN at ELSE td
(* S: set of [st, grp]; the jobs queued by one load form one group            *)
StartLines(S, ids, ctx, new, d, t) ==
  LET one(r, id) == {[st |-> x.st, grp |-> r.grp \cup {<<id, k>> : k \in 1..x.push}] :
                       x \in StartLine(r.st, id, ctx, new, d, t)}
  IN FoldSet2(LAMBDA A, id : UNION {one(r, id) : r \in A}, S, ids)
Flush(S, t) == UNION {IF r.grp = {} THEN {r.st} ELSE PushSerial(r.st, r.grp, t) : r \in S}
Load(st, ids, ctx, new, d, t) == Flush(StartLines({[st |-> st, grp |-> {}]}, ids, ctx, new, d, t), t)

UserLines(st, u) == {id \in DOMAIN st.L : E(st, id).u = u}
Users(st) == {E(st, id).u : id \in DOMAIN st.L}
(* Forget a fcrontab: nothing of it stays queued; its running jobs go on      *)
Forget(st, ids) ==
  LET gone(G) == {x \in G : x[1] \notin ids}
      nonempty(G) == G # {}
      stays(x) == x.id \notin ids
      q == SelectSeq([i \in 1..Len(st.sq) |-> gone(st.sq[i])], nonempty)
  IN [st EXCEPT !.L = Del(@, ids), !.sq = q, !.ids = Del(@, ids),
                !.lq = SelectSeq(@, stays),
                !.run = [r \in DOMAIN @ |-> IF @[r].id \in ids THEN [@[r] EXCEPT !.id = ""] ELSE @[r]]]
Snap(st, ids, t) == [ts |-> t, L |-> Restrict(st.L, ids)]
SaveUser(st, u, t) == [st EXCEPT !.disk = Put(@, u, Snap(st, UserLines(st, u), t))]
(* Save every loaded fcrontab, empty ones included. Each is replaced as a whole *)
(* or stays as it was, which happens only if                                    *)
(*   flaky = "one"   one operation on a file fails at this event                *)
(*   flaky = "all"   no space is left on the disk from some point on            *)
(*   flaky = "crash" fcron is killed at this event                              *)
SaveAll(st, t) ==
  LET us == DOMAIN st.disk \cup Users(st)
      save(X) == [st EXCEPT !.disk = [u \in DOMAIN @ \cup X |-> IF u \in X THEN Snap(st, UserLines(st, u), t) ELSE st.disk[u]]]
  IN CASE st.flaky = "no" -> {save(us)}
       [] st.flaky = "one" -> {save(us)} \cup {save(us \ {u}) : u \in us}
       [] OTHER -> {save(X) : X \in SUBSET us}

SameSchedule(a, b) == /\ a.kind = b.kind
                      /\ IF a.kind = "at" THEN a.freq = b.freq
                         ELSE a.f = b.f /\ a.dayor = b.dayor /\ a.kw = b.kw /\ a.z = b.z /\ a.tzdiff = b.tzdiff
(* load a newly installed fcrontab: an entry that was there before with the   *)
(* same command and times keeps its schedule                                   *)
LoadNew(st, u, defs, ctx, t) ==
  LET old == Restrict(st.L, UserLines(st, u))
      s1 == Forget(st, DOMAIN old)
      ids == {DefOf(defs[i]).id : i \in 1..Len(defs)}
      defn(id) == CHOOSE d \in SeqRange(defs) : DefOf(d).id = id
      s2 == [s1 EXCEPT !.L = Merge(@, [id \in ids |-> NewLine(defn(id))])]
      keep(s, id) ==
        LET n == s.L[id]  e == DefOf(n.def)
            o == old[id]  oe == DefOf(o.def)
        IN IF id \in DOMAIN old /\ SameSchedule(e, oe) /\ (oe.once /\ o.has => e.once)
           THEN [n EXCEPT !.next = IF e.once /\ oe.once /\ o.has THEN {} ELSE o.next,
                          !.rem = IF e.n = oe.n THEN o.rem ELSE @,
                          !.off = IF e.once /\ oe.once /\ o.has THEN (IF o.next = {} THEN o.off ELSE o.next) ELSE {},
                          !.has = e.once /\ oe.once /\ o.has]
           ELSE n
      inherit(s) == [s EXCEPT !.L = [id \in DOMAIN s.L |-> IF id \in ids THEN keep(s, id) ELSE s.L[id]]]
      saved(s) == SaveUser([inherit(s) EXCEPT !.disk = Put(@, u, [ts |-> t, L |-> EmptyFn])], u, t)
      done(s) == [saved(s) EXCEPT !.pend = Del(@, {u})]
  IN \* what is not saved yet stays to be read again
     UNION {{done(s)} \cup (IF st.flaky = "no" THEN {} ELSE {inherit(s)})
                      \cup (IF st.flaky = "crash" THEN {saved(s)} ELSE {})
            : s \in Load(s2, ids, ctx, TRUE, 0, t)}
LoadPend(S, us, ctx, t) ==
  FoldSet2(LAMBDA A, u : UNION {LoadNew(s, u, s.pend[u].defs, ctx, t) : s \in A}, S, us)
RemoveUser(st, u) == [Forget(st, UserLines(st, u)) EXCEPT !.disk = Del(@, {u}), !.pend = Del(@, {u})]
RemoveAll(st, us) == FoldSet2(LAMBDA A, u : RemoveUser(A, u), st, us)
RmUsers(st) == {u \in DOMAIN st.pend : st.pend[u].rm}
NewUsers(st) == {u \in DOMAIN st.pend : st.pend[u].has}
DoRm(st) ==
  LET keep(R) == [u \in NewUsers(st) \cup (RmUsers(st) \ R) |-> IF u \in R THEN [st.pend[u] EXCEPT !.rm = FALSE] ELSE st.pend[u]]
      rm(R) == [RemoveAll(st, R) EXCEPT !.pend = keep(R)]
  IN {rm(R) : R \in IF st.flaky = "crash" THEN SUBSET RmUsers(st) ELSE {RmUsers(st)}}
Sync(st, ctx, t) == UNION {LoadPend({s}, NewUsers(s), ctx, t) : s \in DoRm(st)}
(* read every saved fcrontab, in any order                                      *)
LoadDisk(st, us, ctx, t) ==
  LET one(r, u) == LET k == st.disk[u]
                   IN StartLines({[r EXCEPT !.st.L = Merge(@, k.L)]}, DOMAIN k.L, ctx, FALSE, t - k.ts, t)
  IN Flush(FoldSet2(LAMBDA A, u : UNION {one(r, u) : r \in A}, {[st |-> st, grp |-> {}]}, us), t)
StartAll(st, ctx, t) ==
  UNION {LoadPend(LoadDisk(s, DOMAIN s.disk, ctx, t), NewUsers(s), ctx, t) : s \in DoRm(st)}

(* -------------------------------- events --------------------------------- *)
(* fresh (fcrontab -n): the schedules of the previous version are forgotten;   *)
(* installing an empty fcrontab removes it                                      *)
Uninstall(st, u) == [st EXCEPT !.pend = Put(@, u, [rm |-> TRUE, has |-> FALSE, defs |-> <<>>])]
RemoveCrash(st, u) ==
  {st, Uninstall(st, u), IF u \notin DOMAIN st.pend THEN st
                         ELSE IF st.pend[u].rm THEN Uninstall(st, u) ELSE [st EXCEPT !.pend = Del(@, {u})]}
Install(st, u, defs, fresh) ==
  IF defs = <<>> THEN Uninstall(st, u)
  ELSE [st EXCEPT !.pend = Put(@, u, [rm |-> fresh \/ (u \in DOMAIN st.pend /\ st.pend[u].rm),
                                      has |-> TRUE, defs |-> defs])]
Start(st, p, ctx, t) ==
  LET s0 == [Init0 EXCEPT !.disk = st.disk, !.pend = st.pend, !.up = TRUE, !.t = t, !.p = p, !.save = t + p.save,
                           !.flaky = st.flaky]
  IN StartAll(s0, ctx, t)
Crash(st) == [Init0 EXCEPT !.disk = st.disk, !.pend = st.pend, !.t = st.t]
(* killed while it starts                                                        *)
StartCrash(st, p, ctx, t) == {Crash(s) : s \in Start([st EXCEPT !.flaky = "crash"], p, ctx, t)}
(* fcrontab is killed while it installs or removes a fcrontab                    *)
(* gap: fcrontab -n has begun to remove the previous version (a known finding)    *)
InstallCrash(st, u, defs, fresh, gap) ==
  {st, Install(st, u, defs, fresh)} \cup (IF defs = <<>> THEN RemoveCrash(st, u) ELSE {Install(st, u, defs, FALSE)})
                                   \cup (IF gap THEN RemoveCrash(st, u) ELSE {})
Reap1(st, r) ==
  LET j == st.run[r]
      s1 == [st EXCEPT !.run = Del(@, {r})]
  IN IF j.id = "" \/ j.id \notin DOMAIN st.L THEN s1
     ELSE SetL(s1, j.id, [st.L[j.id] EXCEPT !.nx = @ - 1])
RECURSIVE ReapAll(_, _, _)
ReapAll(st, rs, pop) ==
  IF rs = <<>> THEN {st}
  ELSE LET r == Head(rs)
           wasSerial == st.run[r].kind = "serial" /\ st.run[r].id # ""
           s1 == Reap1(st, r)
           next == IF pop /\ wasSerial /\ s1.sq # <<>> /\ SRun(s1) < s1.p.m THEN PopOne(s1) ELSE {s1}
       IN IF r \notin DOMAIN st.run THEN {} ELSE UNION {ReapAll(s, Tail(rs), pop) : s \in next}
Alive(st) == {r \in DOMAIN st.run : st.run[r].id # ""}

Resume(st, d, t) == Load(st, DOMAIN st.L, "resume", FALSE, d, t)
(* SIGUSR1: once the running jobs have ended, save, forget and read everything  *)
Reload(st, wreap, t) ==
  UNION {IF Alive(s) # {} THEN {}
         ELSE UNION {StartAll(Forget(s1, DOMAIN s1.L), "start", t) : s1 \in SaveAll(s, t)}
         : s \in ReapAll(st, wreap, FALSE)}
(* SIGTERM: save, wait for the jobs, save again                                 *)
Term(st, wreap, t) ==
  UNION {IF Alive(s) # {} \/ s.obs # <<>> THEN {} ELSE {[Crash(x) EXCEPT !.mails = s.mails] : x \in SaveAll(s, t)}
         : s \in UNION {ReapAll(x, wreap, FALSE) : x \in SaveAll(st, t)}}
\* the jobs that are due when fcron is told to reload may run before or are
\* left to the options of missed entries
Signals(S, w) ==
  LET hup == IF "HUP" \in w.sig THEN UNION {Sync(s, "start", w.now) : s \in S} ELSE S
      usr == IF "USR1" \in w.sig THEN UNION {Reload(s, w.wreap, w.now) : s \in hup} ELSE hup
  IN usr
PeriodicSave(st, t) ==
  IF st.save <= t THEN {[s EXCEPT !.save = t + st.p.save] : s \in SaveAll(st, t)} ELSE {st}
(* ------------------------------- fcrondyn --------------------------------- *)
(* The clients of the control socket. What is served at one wake-up (d):        *)
(*   act     some connection had something to read                              *)
(*   conn    the new connection, if any: <<[c, user]>>, user "" if the kernel   *)
(*           does not say whose it is                                           *)
(*   bye     clients that have hung up      drop  clients that fcron hung up on *)
(*   err     clients that have hung up without reading the last answer          *)
(*   req     the requests, in the order in which they are served, and what was  *)
(*           answered (ans; "" if the client did not wait for the answer)       *)
(*   calls   signals and priorities given to jobs                               *)
MaxClients == 25  AuthTime == 60  IdleTime == 600  MaxFail == 10  AuthWait == 60
NeverT == 2000000000
NoJob == "no job"
Unlearned(st) == DOMAIN st.L \ DOMAIN st.ids
(* which entries a number may stand for: [id, st]                                *)
Targets(st, num) ==
  LET K == {id \in DOMAIN st.ids : st.ids[id] = num} IN
  IF K # {} THEN {[id |-> id, st |-> st] : id \in K}
  ELSE {[id |-> NoJob, st |-> st]} \cup {[id |-> id, st |-> [st EXCEPT !.ids = Put(@, id, num)]] : id \in Unlearned(st)}
Entitled(st, u, id) == id # NoJob /\ (u = "root" \/ E(st, id).u = u)
Unique(f) == \A a, b \in DOMAIN f : f[a] = f[b] => a = b
(* the rows of a listing show numbers that fit with all seen before, and the time *)
(* of the next execution                                                          *)
Learn(st, rows) ==
  LET R == {rows[i] : i \in {i \in 1..Len(rows) : rows[i].id # ""}}
      ids == Merge(st.ids, [id \in {r.id : r \in R} |-> (CHOOSE r \in R : r.id = id).num])
      timed == {r \in R : "next" \in DOMAIN r /\ st.L[r.id].next # {}}
      shown(id) == {r.next : r \in {r \in timed : r.id = id}}
      L2 == [id \in DOMAIN st.L |-> IF shown(id) = {} THEN st.L[id] ELSE [st.L[id] EXCEPT !.next = Exact(SetMin(shown(id)))]]
  IN IF /\ \A r \in R : r.id \in DOMAIN st.L /\ ids[r.id] = r.num /\ (r.id \in DOMAIN st.ids => st.ids[r.id] = r.num)
        /\ Unique(ids)
        /\ \A r \in timed : \E x \in st.L[r.id].next : x[1] <= r.next /\ r.next <= x[2]
        /\ \A r \in R : Cardinality(shown(r.id)) <= 1
        /\ \A r \in R : "user" \in DOMAIN r => r.user = E(st, r.id).u
     THEN {[st EXCEPT !.ids = ids, !.L = L2]} ELSE {}
Ids(rows) == {rows[i].id : i \in 1..Len(rows)}
Count(S) == Cardinality(S)
LsRows(st, vis, rows) == Len(rows) = Count(vis) /\ Ids(rows) = vis
(* the serial queue: each entry at a place that its group takes                   *)
RECURSIVE GroupStart(_, _)
GroupStart(q, g) == IF g = 1 THEN 0 ELSE GroupStart(q, g - 1) + Count(q[g - 1])
SerialRows(st, vis, rows) ==
  LET mine(g) == {x \in st.sq[g] : x[1] \in vis}
      at(g) == {i \in 1..Len(rows) : GroupStart(st.sq, g) <= rows[i].idx /\ rows[i].idx < GroupStart(st.sq, g) + Count(st.sq[g])}
      num(S, id) == Count({x \in S : x[1] = id})
  IN /\ \A i \in 2..Len(rows) : rows[i - 1].idx < rows[i].idx
     /\ \A i \in 1..Len(rows) : rows[i].idx \in 0..(SLen(st) - 1)
     /\ Len(rows) = FoldSet2(LAMBDA n, g : n + Count(mine(g)), 0, 1..Len(st.sq))
     /\ \A g \in 1..Len(st.sq) : \A id \in vis : num(mine(g), id) = Count({i \in at(g) : rows[i].id = id})
(* once the whole queue has been seen its order is known                          *)
SeenOrder(st, rows) ==
  IF Len(rows) # SLen(st) THEN st
  ELSE [st EXCEPT !.sq = [i \in 1..Len(rows) |-> {<<rows[i].id, 1>>}]]
LavgRows(st, vis, rows) ==
  LET Q == {i \in 1..Len(st.lq) : st.lq[i].id \in vis}
      num(id, un) == Count({i \in Q : st.lq[i].id = id /\ st.lq[i].until = un})
  IN /\ Len(rows) = Count(Q)
     /\ \A i \in 1..Len(rows) :
          /\ rows[i].id \in vis
          /\ num(rows[i].id, rows[i].until) = Count({j \in 1..Len(rows) : rows[j].id = rows[i].id /\ rows[j].until = rows[i].until})
          /\ rows[i].lavg = E(st, rows[i].id).lavg
          /\ rows[i].strict = (IF rows[i].until = 0 THEN "" ELSE IF E(st, rows[i].id).strict THEN "Y" ELSE "N")
ExeRows(st, u, vis, rows) ==
  LET R == {r \in DOMAIN st.run : st.run[r].id \in vis \/ (st.run[r].id = "" /\ u = "root")}
  IN /\ Len(rows) = Count(R) /\ {rows[i].run : i \in 1..Len(rows)} = R
     /\ \A i \in 1..Len(rows) : rows[i].id = st.run[rows[i].run].id
Opts(e) ==
  LET l == IF e.haslavg THEN (IF e.lsev THEN "L" ELSE "LO") ELSE ""
      s == IF e.serial THEN (IF e.ssev THEN "S" ELSE "SO") ELSE ""
  IN <<l, s, IF e.exesev THEN "ES" ELSE "">>
List(st, u, r) ==
  LET root == u = "root"
      all == r.who = "*"
      vis == {id \in DOMAIN st.L : all \/ E(st, id).u = r.who}
      want == IF all \/ r.who = "#" THEN (IF root THEN "rows" ELSE "denied")
              ELSE IF r.who = "?" THEN "baduser"
              ELSE IF r.who # u /\ ~root THEN "denied" ELSE "rows"
      good == CASE r.k = "ls" -> LsRows(st, vis, r.rows)
                [] r.k = "serialq" -> SerialRows(st, vis, r.rows)
                [] r.k = "lavgq" -> LavgRows(st, vis, r.rows)
                [] r.k = "exeq" -> ExeRows(st, u, vis, r.rows)
      learnt == Learn(st, r.rows)
  IN IF r.ans = "" THEN {st}
     ELSE IF want # "rows" THEN (IF r.ans = want /\ r.whole THEN {st} ELSE {})
     ELSE IF ~r.whole \/ r.ans # (IF r.rows = <<>> THEN "none" ELSE "rows") \/ ~good THEN {}
     ELSE IF r.k = "serialq" /\ learnt # {} THEN {SeenOrder(s, r.rows) : s \in learnt} ELSE learnt
Detail(st, u, r) ==
  UNION {LET id == x.id IN
         IF r.ans = "" THEN {st}
         ELSE IF ~r.whole THEN {}
         ELSE IF ~Entitled(x.st, u, id) THEN (IF r.ans = "none" THEN {st} ELSE {})
         ELSE IF r.ans = "rows" /\ Len(r.rows) = 1 /\ r.rows[1].id = id /\ r.rows[1].num = r.num
                 /\ r.rows[1].nx = st.L[id].nx /\ r.rows[1].opt = Opts(E(st, id)) /\ "user" \in DOMAIN r.rows[1]
              THEN Learn(x.st, r.rows) ELSE {}
         : x \in Targets(st, r.num)}
(* run an entry now; its schedule stays, or moves on past the execution that this *)
(* one replaces                                                                   *)
AfterCur(st, id) ==
  LET ln == st.L[id]  e == E(st, id) IN
  IF ln.next = {} THEN {{}} ELSE
  IF e.once /\ ln.has THEN {{}}
  ELSE IF e.kind = "at" THEN {{<<x[1] + e.freq, x[2] + e.freq>> : x \in ln.next}}
  ELSE {AfterRun(e, Lo(ln.next)), AfterRun(e, Hi(ln.next))}
RunNow(st, id, t, move) ==
  LET e == E(st, id)  ln == st.L[id]
      due == IF ln.next = {} THEN t ELSE Hi(ln.next)
      S == IF e.haslavg THEN PushLavg(st, id, t, due, Len(st.lq) < st.p.q)
           ELSE IF e.serial THEN PushSerial(st, {<<id, 1>>}, t)
           ELSE IF ln.nx <= 0 \/ e.exesev
           THEN {StartObs(SetL(st, id, [ln EXCEPT !.nx = @ + 1]), i, "normal") :
                   i \in IF ObsOf(st, id) = {} THEN {} ELSE {SetMin(ObsOf(st, id))}}
           ELSE {st}
  IN IF ~move THEN S ELSE UNION {{SetL(s, id, [s.L[id] EXCEPT !.next = n]) : n \in AfterCur(st, id)} : s \in S}
RunReq(st, u, r, t) ==
  UNION {IF r.ans # "" /\ (~r.whole \/ r.ans # (IF Entitled(x.st, u, x.id) THEN "done" ELSE "notfound")) THEN {}
         ELSE IF ~Entitled(x.st, u, x.id) THEN {st}
         ELSE RunNow(x.st, x.id, t, r.k = "runnow") : x \in Targets(st, r.num)}
(* signals and priorities: r0 = [st, calls (those not yet explained)]             *)
CallReq(r0, u, r) ==
  LET valid == IF r.k = "kill" THEN r.val > 0 ELSE r.val \in (IF u = "root" THEN -20 ELSE 0)..20
  IN UNION {LET s == x.st
                R == {j \in DOMAIN s.run : s.run[j].id # "" /\ s.run[j].id = x.id}
                ans == IF ~Entitled(s, u, x.id) \/ R = {} THEN "norun" ELSE IF ~valid THEN "invalid" ELSE "done"
                n == IF ans = "done" THEN Count(R) ELSE 0
            IN IF /\ r.ans = "" \/ (r.whole /\ r.ans = ans)
                  /\ Len(r0.calls) >= n
                  /\ n > 0 => {SubSeq(r0.calls, 1, n)[i] : i \in 1..n} = {[k |-> r.k, run |-> j, val |-> r.val] : j \in R}
               THEN {[st |-> IF R = {} THEN r0.st ELSE s, calls |-> SubSeq(r0.calls, n + 1, Len(r0.calls))]} ELSE {}
            : x \in Targets(r0.st, r.num)}
Auth(st, c, r, t) ==
  LET n == IF st.fail.n > 0 /\ st.fail.t + AuthWait <= t THEN 0 ELSE st.fail.n
      yes == r.known /\ n < MaxFail /\ r.pw
      fail == IF ~r.known \/ n >= MaxFail THEN st.fail ELSE IF r.pw THEN [n |-> n, t |-> st.fail.t] ELSE [n |-> n + 1, t |-> t]
      who == IF yes THEN r.name ELSE ""
  IN IF r.ans # "" /\ r.ans # (IF yes THEN "yes" ELSE "no") THEN {}
     ELSE {[st EXCEPT !.fail = fail, !.cl = [@ EXCEPT ![c] = [user |-> who, since |-> since]]]
             : since \in IF yes THEN {st.cl[c].since, t} ELSE {st.cl[c].since}}
Request(r0, r, t) ==
  IF r.c \notin DOMAIN r0.st.cl THEN {}
  ELSE LET u == r0.st.cl[r.c].user
           st == [r0.st EXCEPT !.cl = [@ EXCEPT ![r.c].since = t]]
           with(S) == {[st |-> s, calls |-> r0.calls] : s \in S}
       IN IF u = "" THEN (IF r.k = "auth" THEN with(Auth(r0.st, r.c, r, t)) ELSE {})
          ELSE CASE r.k = "auth" -> {}
                 [] r.k \in {"ls", "serialq", "lavgq", "exeq"} -> with(List(st, u, r))
                 [] r.k = "detail" -> with(Detail(st, u, r))
                 [] r.k \in {"run", "runnow"} -> with(RunReq(st, u, r, t))
                 [] r.k \in {"kill", "renice"} -> CallReq([r0 EXCEPT !.st = st], u, r)
                 [] OTHER -> IF r.ans = "" \/ (r.ans = "unknown" /\ r.whole) THEN with({st}) ELSE {}
NoDyn == [act |-> FALSE, conn |-> <<>>, bye |-> {}, err |-> {}, drop |-> {}, req |-> <<>>, calls |-> <<>>]
Serve(st, d, t) ==
  LET new == {d.conn[i].c : i \in 1..Len(d.conn)}
      refused == IF Count(DOMAIN st.cl) >= MaxClients THEN new ELSE {}
      s1 == IF new = refused THEN st ELSE [st EXCEPT !.cl = Put(@, d.conn[1].c, [user |-> d.conn[1].user, since |-> t])]
      input == new \cup d.bye \cup d.err \cup {d.req[i].c : i \in 1..Len(d.req)}
      idle == {c \in DOMAIN s1.cl \ input : t - s1.cl[c].since > IdleTime \/ (s1.cl[c].user = "" /\ t - s1.cl[c].since > AuthTime)}
      s2 == [s1 EXCEPT !.cl = Del(@, idle \cup d.bye)]
      R == FoldLeft(LAMBDA A, r : UNION {Request(x, r, t) : x \in A}, {[st |-> s2, calls |-> d.calls]}, d.req)
  IN IF ~d.act THEN (IF d = NoDyn THEN {st} ELSE {})
     ELSE IF d.drop # refused \cup idle THEN {}
     ELSE {x.st : x \in {x \in R : x.calls = <<>>}}
(* w: [now, reap (run numbers collected), sig, wreap (collected while waiting   *)
(* for running jobs), d (time suspended), la (load x 100), starts, exited, dyn]  *)
Wake(st0, w) ==
  LET t == w.now
      st == [st0 EXCEPT !.t = t, !.obs = w.starts, !.mails = {}]
      A == UNION {ReapAll(st, w.reap, pop) : pop \in IF w.sig = {} THEN {TRUE} ELSE {TRUE, FALSE}}
      T == UNION {Term(s, w.wreap, t) : s \in A}
      B == Signals(A, w)
      \* fcron measures the time suspended to the second
      C == IF w.d > 0 THEN UNION {Resume(s, w.d - k, t) : <<s, k>> \in B \X {0, 1}} ELSE B
      D == UNION {PopAll(s) : s \in UNION {TestJobs(s, t) : s \in C}}
      O == UNION {IF st0.p.once THEN Term(s, w.wreap, t) ELSE {} : s \in D}
      P == UNION {PeriodicSave(s, t) : s \in D}
      G == UNION {Serve(s, w.dyn, t) : s \in P}
      \* killed before, while or after it changes the files
      X == {[Crash(s) EXCEPT !.mails = {}] : s \in {s \in B \cup P \cup (IF "TERM" \in w.sig THEN A \cup UNION {SaveAll(s, t) : s \in A} ELSE {}) : s.obs = <<>>}}
      F == UNION {CheckLavg(s, w.la, t) : s \in IF w.dyn.act THEN UNION {PopAll(s) : s \in G} ELSE G}
  IN IF w.crash THEN X \cup T
     ELSE IF "TERM" \in w.sig THEN (IF w.exited THEN T ELSE {})
     ELSE IF st0.p.once THEN (IF w.exited THEN O ELSE {})
     ELSE IF w.exited THEN {} ELSE {s \in F : s.obs = <<>>}

(* When the daemon must wake up at the latest, given that it went to sleep at t *)
MustWake(st) ==
  {Hi(st.L[id].next) : id \in {x \in DOMAIN st.L : st.L[x].next # {}}} \cup {st.save}
   \cup (IF st.lq # <<>> THEN {st.t + 30} ELSE {})
SleepOK(st, tmo) == \A x \in MustWake(st) : st.t + tmo <= Max2(x, st.t)
(* at the start nothing runs before the first sleep is over                     *)
FirstSleepOK(st, tmo) ==
  /\ tmo >= st.p.fs
  /\ \A x \in (MustWake(st) \ {st.t + 30}) \cup (IF st.sq # <<>> THEN {st.t} ELSE {}) :
        st.t + tmo <= Max2(x, st.t + st.p.fs)
=============================================================================
