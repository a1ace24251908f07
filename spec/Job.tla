-------------------------------- MODULE Job --------------------------------
(* How one job is run: which process is started for an entry of a fcrontab, with which identity and environment,
   and whether and what is mailed when it ends.

   Strings are sequences of character codes.  A context c has
     shell, users (set of [name, uid, gid, home, shell, groups]), host, path (PATH of fcron), pamenv (sequence of NAME=VALUE),
     umask, fg (fcron runs in the foreground), refused (PAM refuses every account), usable (executable files),
     dirs (existing directories), dpath (default PATH of jobs)
   an entry e is as in Parser (the fields cmd, runas, mailto, mailfrom, tz, nice, flags are used here),
   env is the sequence of assignments [name, val] of its fcrontab. *)
EXTENDS Parser

Eq == <<61>>
User(c, name) == CHOOSE u \in c.users : u.name = name
Exists(c, name) == \E u \in c.users : u.name = name
(* names *)
nUSER == Name["USER"]  nLOGNAME == Name["LOGNAME"]
nHOME == <<72,79,77,69>>  nPATH == <<80,65,84,72>>  nSHELL == <<83,72,69,76,76>>  nTZ == <<84,90>>
nCT == <<67,79,78,84,69,78,84,95,84,89,80,69>>
nCTE == <<67,79,78,84,69,78,84,95,84,82,65,78,83,70,69,82,95,69,78,67,79,68,73,78,71>>
EqAt(s) == UpTo(s, 1, {61})
VarName(s) == SubSeq(s, 1, EqAt(s) - 1)
VarVal(s) == From(s, EqAt(s) + 1)
Env(seq) == [n \in {seq[i].name : i \in 1..Len(seq)} |-> seq[CHOOSE i \in 1..Len(seq) : seq[i].name = n].val]
Pairs(strs) == [i \in 1..Len(strs) |-> [name |-> VarName(strs[i]), val |-> VarVal(strs[i])]]

(* ------------------------------------------------------------------ identity *)
(* real and effective ids, groups: those of the user, in all of which no trace of root is left *)
Identity(c, name, x) ==
  LET u == User(c, name) IN
  x.ruid = u.uid /\ x.euid = u.uid /\ x.rgid = u.gid /\ x.egid = u.gid /\ x.groups = u.groups

(* ------------------------------------------------------------------ environment *)
DefaultShell(c, u) == IF c.shell # <<>> THEN c.shell ELSE u.shell
BaseEnv(c, e) ==
  LET u == User(c, e.runas) IN
  Env(Pairs(c.pamenv)) @@ (nUSER :> u.name) @@ (nLOGNAME :> u.name) @@ (nHOME :> u.home) @@ (nSHELL :> DefaultShell(c, u))
    @@ (IF e.tz = <<>> THEN <<>> ELSE nTZ :> e.tz)
(* the shell which is used: the one assigned in the fcrontab if it can be *)
Shell(c, e, env) ==
  LET u == User(c, e.runas) IN
  IF nSHELL \in DOMAIN env /\ env[nSHELL] \in c.usable THEN env[nSHELL] ELSE DefaultShell(c, u)
JobEnv(c, e, env) == (nSHELL :> Shell(c, e, env)) @@ env @@ BaseEnv(c, e) @@ (nPATH :> c.dpath)
Home(c, e, env) ==
  LET h == IF nHOME \in DOMAIN env THEN env[nHOME] ELSE User(c, e.runas).home IN
  IF h \in c.dirs THEN h ELSE <<47>>
EnvIs(strs, env) ==
  LET p == Pairs(strs) IN
  /\ Cardinality({p[i].name : i \in 1..Len(p)}) = Len(p)
  /\ Env(p) = env

(* the process x started for the entry e *)
Process(c, e, asg, x) ==
  LET env == Env(asg) IN
  CASE ~Exists(c, e.runas) \/ c.refused -> "executed though refused"
    [] ~Identity(c, e.runas, x) -> "identity"
    [] x.argv # <<Shell(c, e, env), <<45, 99>>, e.cmd>> \/ x.path # x.argv[1] -> "command"
    [] ~(EnvIs(x.env, JobEnv(c, e, env)) \/ (e.tz # <<>> /\ nTZ \in DOMAIN env /\ EnvIs(x.env, [JobEnv(c, e, env) EXCEPT ![nTZ] = e.tz])))
         -> "environment"
    [] x.nice # e.nice -> "priority"
    [] x.cwd # Home(c, e, env) -> "directory"
    [] x.umask # c.umask -> "umask"
    [] OTHER -> "OK"

(* ------------------------------------------------------------------ mail *)
(* Is the outcome mailed?  output: the job printed something; success: it exited with status 0.
   Where the manual and the program leave it open, both are accepted: a job which fails without a word (fcron then
   says so in a mail). *)
MailDue(e, c, output, success) ==
  CASE e.flags["stdout"] /\ c.fg -> {FALSE}
    [] ~e.flags["mail"] -> {FALSE}
    [] e.flags["forcemail"] -> {TRUE}
    [] e.flags["erroronlymail"] -> {~success}
    [] output -> {TRUE}
    [] success -> {FALSE}
    [] OTHER -> {TRUE, FALSE}

Has(s, w) == \E i \in 1..Len(s) - Len(w) + 1 : SubSeq(s, i, i + Len(w) - 1) = w
Headers == [ From |-> <<70,114,111,109>>, To |-> <<84,111>>, Subject |-> <<83,117,98,106,101,99,116>>,
  Type |-> <<67,111,110,116,101,110,116,45,84,121,112,101>>,
  Enc |-> <<67,111,110,116,101,110,116,45,84,114,97,110,115,102,101,114,45,69,110,99,111,100,105,110,103>>,
  Auto |-> <<65,117,116,111,45,83,117,98,109,105,116,116,101,100>>,
  XEnv |-> <<88,45,67,114,111,110,45,69,110,118>> ]
Key(line) == LET j == UpTo(line, 1, {58}) IN SubSeq(line, 1, j - 1)
Val(line) == LET j == UpTo(line, 1, {58}) IN From(line, SkipBlanks(line, j + 1))
Address(c, a) == IF 64 \in ToSet(a) THEN a ELSE a \o <<64>> \o c.host

(* the mail x about entry e (x.head: its lines up to the first empty one, x.body: what follows): text is what its body must start with, more: something may follow *)
Letter(c, e, asg, x, text, more, isjob) ==
  LET env == Env(asg)
      hs == x.head
      body == x.body
      vals(k) == {Val(hs[i]) : i \in {i \in 1..Len(hs) : Key(hs[i]) = k}}
      n(k) == Cardinality({i \in 1..Len(hs) : Key(hs[i]) = k})
      args == {i \in 2..Len(x.argv) : x.argv[i] = <<>> \/ x.argv[i][1] # S.dash}
      from == IF e.mailfrom = <<>> THEN e.runas ELSE e.mailfrom
      benv == BaseEnv(c, e) @@ (nPATH :> c.path)
  IN
  CASE ~Identity(c, e.runas, x) -> "identity of the mailer"
    [] x.nice # 0 -> "priority of the mailer"
    [] x.argv[Len(x.argv)] # e.mailto \/ args # {Len(x.argv)} -> "recipients"
    [] ~EnvIs(x.env, benv) -> "environment of the mailer"
    [] hs = <<>> \/ \E i \in 1..Len(hs) : Key(hs[i]) \notin {Headers[k] : k \in DOMAIN Headers} -> "headers"
    [] n(Headers.To) # 1 \/ vals(Headers.To) # {Address(c, e.mailto)} -> "To header"
    [] n(Headers.From) # 1 \/ \E v \in vals(Headers.From) : ~Has(v, Address(c, from)) -> "From header"
    [] n(Headers.Subject) # 1 \/ \E v \in vals(Headers.Subject) : ~Has(v, e.cmd) -> "Subject header"
    [] isjob /\ nCT \in DOMAIN env /\ (n(Headers.Type) # 1 \/ vals(Headers.Type) # {env[nCT]}) -> "Content-Type header"
    [] isjob /\ nCTE \in DOMAIN env /\ (n(Headers.Enc) # 1 \/ vals(Headers.Enc) # {env[nCTE]}) -> "Content-Transfer-Encoding header"
    [] n(Headers.Type) > 1 \/ n(Headers.Enc) > (IF nCTE \in DOMAIN env THEN 1 ELSE 0) -> "content headers"
    [] Len(body) < Len(text) \/ SubSeq(body, 1, Len(text)) # text -> "body"
    [] ~more /\ Len(body) # Len(text) -> "more in the body"
    [] OTHER -> "OK"
=============================================================================
