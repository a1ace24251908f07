------------------------------ MODULE JobTrace ------------------------------
(* Checks recorded runs of jobs of the real daemon against Job.  Every process of fcron (a slot) goes through
     new -> running -> ended -> mailed
   and may disappear ("gone") only where nothing more is due. *)
EXTENDS Job, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Raw)
SeqSet(s) == {s[i] : i \in 1..Len(s)}
PCtx(t, f) == [root |-> f.root, owner |-> f.owner, rootown |-> f.rootown, users |-> SeqSet(t.known)]
Ctx(t) == [t.ctx EXCEPT !.users = SeqSet(@), !.usable = SeqSet(@), !.dirs = SeqSet(@)]
(* the entries of all fcrontabs, with the assignments of theirs *)
Entries(t) == UNION {LET m == Meaning(t.files[i].text, PCtx(t, t.files[i])) IN
                     {[e |-> x, asg |-> m.env] : x \in UNION {m.entries[k].any : k \in 1..Len(m.entries)}} : i \in 1..Len(t.files)}
VARIABLES tr, l, c, ent,    \* trace, position, context, sequence of [e, asg]: entries and the assignments of their fcrontab
          run                \* run: slot -> [st, es (numbers of the entries it may be running), out, ok]
vars == <<tr, l, c, ent, run>>
View == <<tr, l, c = <<>>, run>>   \* c and ent follow from tr
Ev == Raw[tr].ev
(* an event with its texts in place of their numbers                          *)
Text(n) == Raw[tr].texts[n]
Texts(s) == [i \in 1..Len(s) |-> Text(s[i])]
Spelled(x) ==
  CASE x.k = "exec" -> [x EXCEPT !.argv = Texts(@), !.env = Texts(@), !.groups = Text(@), !.cwd = Text(@), !.path = Text(@)]
    [] x.k = "mail" -> [x EXCEPT !.argv = Texts(@), !.env = Texts(@), !.groups = Text(@), !.cwd = Text(@), !.path = Text(@),
                                 !.head = Texts(@), !.body = FoldLeft(LAMBDA a, b : a \o b, <<>>, Texts(@))]
    [] x.k = "end" -> [x EXCEPT !.out = Text(@)]
    [] OTHER -> x
Why(x) == IF PrintT(<<"STUCK", tr, l + 1, x>>) THEN FALSE ELSE FALSE

Init == tr \in 1..N /\ l = 0 /\ run = <<>> /\ ent = <<>> /\ c = <<>>
Set(s, r) == run' = [i \in DOMAIN run \cup {s} |-> IF i = s THEN r ELSE run[i]]
Of(s) == IF s \in DOMAIN run THEN run[s].st ELSE "none"

Fork(x) == /\ IF Of(x.slot) # "none" THEN Why("forked twice") ELSE TRUE
           /\ Set(x.slot, [st |-> "new", es |-> DOMAIN ent, out |-> <<>>, ok |-> TRUE])
Exec(x) ==
  LET cand == {a \in DOMAIN ent : Len(x.argv) >= 3 /\ ent[a].e.cmd = x.argv[3]}
      verdict(a) == Process(c, ent[a].e, ent[a].asg, x)
      good == {a \in cand : verdict(a) = "OK"} IN
  /\ IF Of(x.slot) # "new" THEN Why("one job, two processes") ELSE TRUE
  /\ IF cand = {} THEN Why("a command of nobody") ELSE TRUE
  /\ IF good = {} THEN Why(verdict(CHOOSE a \in cand : TRUE)) ELSE TRUE
  /\ Set(x.slot, [run[x.slot] EXCEPT !.st = "running", !.es = good])
End(x) ==
  /\ Assert(Of(x.slot) = "running", "the driver ends a job which does not run")
  /\ Set(x.slot, [run[x.slot] EXCEPT !.st = "ended", !.out = x.out, !.ok = x.ok])
Mail(x) ==
  LET r == run[x.slot]
      due == {a \in r.es : TRUE \in MailDue(ent[a].e, c, r.out # <<>>, r.ok)}
      verdict(a) == Letter(c, ent[a].e, ent[a].asg, x, r.out, ~r.ok, TRUE)
      rverdict(a) == Letter(IF c.refused THEN [c EXCEPT !.pamenv = <<>>] ELSE c, ent[a].e, ent[a].asg, x, <<>>, TRUE, FALSE)
      refusable == {a \in r.es : ent[a].e.flags["mail"] /\ c.refused /\ Exists(c, ent[a].e.runas)}
      rgood == {a \in refusable : rverdict(a) = "OK"}
      noticed == {a \in r.es : ent[a].e.flags["noticenotrun"] /\ ~c.refused /\ Exists(c, ent[a].e.runas) /\ rverdict(a) = "OK"}
      good == {a \in due : verdict(a) = "OK"} IN
  /\ IF Of(x.slot) \notin {"new", "ended"} THEN Why("a mail too many") ELSE TRUE
  /\ IF r.st = "ended"
     THEN /\ IF due = {} THEN Why("a mail which is not due") ELSE TRUE
          /\ IF good = {} THEN Why(verdict(CHOOSE a \in due : TRUE)) ELSE TRUE
     ELSE IF rgood \cup noticed = {} THEN Why(IF ~c.refused /\ \E a \in r.es : Exists(c, ent[a].e.runas) /\ ent[a].e.flags["noticenotrun"]
                                               THEN rverdict(CHOOSE a \in r.es : Exists(c, ent[a].e.runas) /\ ent[a].e.flags["noticenotrun"]) ELSE "a mail about nothing") ELSE TRUE
  /\ Set(x.slot, [r EXCEPT !.st = "mailed", !.out = <<>>, !.es = {}])
Gone(x) ==
  LET r == run[x.slot]
      okend == {a \in r.es : FALSE \in MailDue(ent[a].e, c, r.out # <<>>, r.ok)}
      okref == {a \in r.es : ~Exists(c, ent[a].e.runas) \/ (c.refused /\ ~ent[a].e.flags["mail"]) \/ c.nostart} IN
  /\ CASE Of(x.slot) = "mailed" -> TRUE
       [] Of(x.slot) = "ended" -> IF okend = {} THEN Why("no mail") ELSE TRUE
       [] Of(x.slot) = "new" -> IF okref = {} THEN Why("not executed") ELSE TRUE
       [] OTHER -> Why("given up")
  /\ Set(x.slot, [r EXCEPT !.st = "gone", !.out = <<>>, !.es = {}])
Restart(x) == run' = <<>>
Over(x) == /\ IF \E s \in DOMAIN run : run[s].st # "gone" THEN Why("left over") ELSE TRUE
           /\ UNCHANGED run
Start == c = <<>> /\ c' = Ctx(Raw[tr]) /\ ent' = SetToSeq(Entries(Raw[tr])) /\ UNCHANGED <<tr, l, run>>
Step == /\ c # <<>> /\ l < Len(Ev)
        /\ \E x \in {Spelled(Ev[l + 1])} :
           CASE x.k = "fork" -> Fork(x) [] x.k = "exec" -> Exec(x) [] x.k = "end" -> End(x) [] x.k = "mail" -> Mail(x)
             [] x.k = "gone" -> Gone(x) [] x.k = "over" -> Over(x) [] x.k = "restart" -> Restart(x)
        /\ l' = l + 1 /\ UNCHANGED <<tr, c, ent>>
        /\ l' = Len(Ev) => PrintT(<<"OK", tr>>)
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
