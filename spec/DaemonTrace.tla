---------------------------- MODULE DaemonTrace -----------------------------
(* Checks recorded executions of the real daemon (driver/) against Daemon.   *)
(* The file named by TRACE holds one execution per line: its entries (defs),  *)
(* time zones and events. An execution is accepted if some behaviour of       *)
(* Daemon explains all of its events; TLC prints OK for it, and the last event *)
(* reached with the reason otherwise.                                         *)
EXTENDS Daemon, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Raw)
Expand(tr, d) ==
  LET r == Raw[tr].defs[d]
  IN [r EXCEPT !.z = Raw[tr].zones[r.z],
               !.f = IF r.kind = "at" THEN r.f ELSE Fields(r.f)]
DefTab == [tr \in 1..N |-> [d \in 1..Len(Raw[tr].defs) |-> Expand(tr, d)]]

VARIABLES tr, l, st
vars == <<tr, l, st>>
TDefOf(d) == DefTab[d \div 1000][d % 1000]

Ev == Raw[tr].ev[l]
Did(ds) == [i \in 1..Len(ds) |-> tr * 1000 + ds[i]]
In(S, m) == \E x \in S : x[1] \div 60 <= m /\ m <= x[2] \div 60
WallIn(e, S, m) == \E x \in S : EWall(e, x[1]) <= m /\ m <= EWall(e, x[2])
Explains(x, o) ==
  LET e == DefOf(x.def)
  IN /\ e.id = o.id /\ x.why = o.why
     /\ x.since = {} \/ WallIn(e, x.since, o.since)
     /\ x.next = {} \/ WallIn(e, x.next, o.next)
NoticesOK(s, obs) == /\ Len(obs) = Cardinality(s.mails)
                     /\ \A x \in s.mails : \E i \in 1..Len(obs) : Explains(x, obs[i])
WakeObs(e) == [now |-> e.now, reap |-> e.reap, sig |-> SeqRange(e.sig), wreap |-> e.wreap, d |-> e.d,
               la |-> e.la, starts |-> e.starts, exited |-> e.exited, crash |-> "crash" \in DOMAIN e,
               dyn |-> IF "dyn" \in DOMAIN e THEN [e.dyn EXCEPT !.bye = SeqRange(@), !.drop = SeqRange(@), !.err = SeqRange(@)] ELSE NoDyn]
Has(e, f) == f \in DOMAIN e
Settled(S) == {IF s.flaky = "no" THEN s ELSE [s EXCEPT !.flaky = "no"] : s \in S}
Flaky(s, e) == [s EXCEPT !.flaky = IF Has(e, "crash") THEN "crash" ELSE IF Has(e, "fail") THEN e.fail ELSE "no"]
Steps(s0, e) ==
  LET s == Flaky(s0, e)
  IN Settled(
  CASE e.ev = "install" -> (IF Has(e, "crash") THEN InstallCrash(s, e.u, Did(e.defs), e.fresh, Has(e, "gap"))
                            ELSE IF Has(e, "failed") THEN {s}
                            ELSE (IF Has(e, "soft") THEN {Install(s, e.u, Did(e.defs), FALSE)} ELSE {})
                                 \cup {Install(s, e.u, Did(e.defs), e.fresh)})
    [] e.ev = "remove" -> (IF Has(e, "crash") THEN RemoveCrash(s, e.u) ELSE IF Has(e, "failed") THEN {s} ELSE {Uninstall(s, e.u)})
    [] e.ev = "crash" -> {Crash(s)}
    [] e.ev = "start" -> (IF Has(e, "crash") THEN StartCrash(s, e.p, e.ctx, e.now)
                          ELSE {x \in Start(s, e.p, e.ctx, e.now) : NoticesOK(x, e.mails) /\ FirstSleepOK(x, e.tmo)})
    [] e.ev = "wake" -> {x \in Wake(s, WakeObs(e)) : Has(e, "crash") \/ (NoticesOK(x, e.mails) /\ (~x.up \/ SleepOK(x, e.tmo)))}
    [] OTHER -> {s})
(* why no step is possible (only for the report)                               *)
Why(s, e) ==
  IF e.ev = "wake"
  THEN LET W == Wake(s, WakeObs(e))
       IN IF W = {} THEN (IF "dyn" \in DOMAIN e /\ e.dyn.act THEN "starts or fcrondyn" ELSE "starts")
          ELSE IF \A x \in W : x.up /\ ~SleepOK(x, e.tmo) THEN "sleep" ELSE "notices"
  ELSE IF e.ev = "start" THEN (IF \A x \in Start(s, e.p, e.ctx, e.now) : ~FirstSleepOK(x, e.tmo) THEN "sleep" ELSE "notices")
  ELSE "event"

Init == tr \in 1..N /\ l = 1 /\ st = Init0
Step == /\ l <= Len(Raw[tr].ev)
        /\ st' \in Steps(st, Ev)
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ l' > Len(Raw[tr].ev) => PrintT(<<"OK", tr>>)
Stuck == /\ l <= Len(Raw[tr].ev)
         /\ Steps(st, Ev) = {}
         /\ PrintT(<<"STUCK", tr, l, Why(st, Ev)>>)
         /\ FALSE /\ UNCHANGED vars
Next == Step \/ Stuck
Spec == Init /\ [][Next]_vars
(* invariants of Daemon, in every state of every execution                     *)
SerialLimit == SRun(st) <= st.p.m
QueueLimit == SLen(st) <= st.p.q /\ Len(st.lq) <= st.p.q
Counted == \A id \in DOMAIN st.L :
   st.L[id].nx = Cardinality({r \in DOMAIN st.run : st.run[r].id = id})
                 + FoldSet2(LAMBDA n, i : n + Cardinality({x \in st.sq[i] : x[1] = id}), 0, 1..Len(st.sq))
                 + Cardinality({i \in 1..Len(st.lq) : st.lq[i].id = id})
=============================================================================
