----------------------------- MODULE ParserTrace -----------------------------
(* Checks what the real programs read from a fcrontab (installed by fcrontab,  *)
(* loaded and listed by the daemon) against its Meaning (Parser).              *)
EXTENDS Parser, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Raw)
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Ctx(c) == [root |-> c.root, owner |-> c.owner, rootown |-> c.rootown, users |-> SeqSet(c.users)]
(* an entry as reported by the daemon, in the terms of Parser *)
Seen(e) == [ cmd |-> e.cmd, runas |-> e.runas, mailto |-> e.mailto, mailfrom |-> e.mailfrom, tz |-> e.tz, until |-> e.until,
             nice |-> e.nice, jitter |-> e.jitter, lavg |-> e.lavg, flags |-> [f \in Booleans \cup {"mail", "forcemail"} |-> e.flags[f]],
             kw |-> e.kw, td |-> e.td, runfreq |-> e.runfreq, freq |-> e.freq, first |-> e.first, mins |-> SeqSet(e.mins),
             hrs |-> SeqSet(e.hrs), days |-> SeqSet(e.days), mons |-> SeqSet(e.mons), dow |-> SeqSet(e.dow) ]
(* (load averages <<>>, until -1, first -2: any) *)
Is(e, any) == \E la \in {e.lavg, <<>>}, u \in {e.until, -1}, f \in {e.first, -2} :
                [e EXCEPT !.lavg = la, !.until = u, !.first = f] \in any
(* every entry seen is one that the text denotes, each of those once *)
Entries(m, seen) ==
  /\ Len(seen) <= Len(m.entries)
  /\ \A i \in 1..Len(seen) : \E k \in 1..Len(m.entries) : Is(seen[i], m.entries[k].any)
  /\ \A k \in 1..Len(m.entries) : m.entries[k].may \/ \E i \in 1..Len(seen) : Is(seen[i], m.entries[k].any)
EnvOK(m, c) == SeqSet(c.env) = {m.env[i].name \o <<S.eq>> \o m.env[i].val : i \in 1..Len(m.env)} /\ Len(c.env) = Len(m.env)
Reports(m, c) ==
  /\ \A i \in 1..Len(m.bad) : \E n \in SeqSet(c.lines) : m.bad[i].a <= n /\ n <= m.bad[i].b + 1
  /\ m.faults > 0 => c.said
Verdict(c) ==
  LET m == Meaning(c.text, Ctx(c))
      seen == [i \in 1..Len(c.entries) |-> Seen(c.entries[i])] IN
  CASE ~Entries(m, seen) -> "entries"
    [] seen # <<>> /\ ~EnvOK(m, c) -> "assignments"      \* (a fcrontab without entries is removed)
    [] seen # <<>> /\ m.tzdiff # c.tzdiff -> "tzdiff"
    [] ~Reports(m, c) -> "reports"
    [] OTHER -> "OK"

VARIABLES tr, l
vars == <<tr, l>>
Init == tr \in 1..N /\ l = 0
Next == /\ l = 0
        /\ LET v == Verdict(Raw[tr]) IN
           IF v = "OK" THEN PrintT(<<"OK", tr>>) /\ l' = 1 /\ UNCHANGED tr
           ELSE PrintT(<<"STUCK", tr, 1, v>>) /\ FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
