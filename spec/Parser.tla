------------------------------- MODULE Parser -------------------------------
(* The meaning of the text of a fcrontab, as fcrontab(5) documents it.

   Texts are sequences of character codes.  Meaning(text, ctx) gives everything the text denotes:
     entries : a sequence of [any |-> set of acceptable readings of the entry, may |-> BOOLEAN]
               (may: the manual leaves open whether the entry is installed)
     env     : the assignments, last one of each name
     tzdiff  : hours
     bad     : the lines (first and last physical line) which must be reported, their entry not installed
     faults  : number of things which must be reported in some way
   ctx.root     : the fcrontab is submitted by root
   ctx.owner    : name of the owner (codes)
   ctx.rootown  : the owner is root
   ctx.users    : set of names of existing users *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

NL == 10  TAB == 9  SP == 32  BSL == 92  DQ == 34  SQ == 39
S == [ hash |-> 35, pct |-> 37, amp |-> 38, lp |-> 40, rp |-> 41, star |-> 42, comma |-> 44, dash |-> 45, dot |-> 46,
       slash |-> 47, eq |-> 61, at |-> 64, bang |-> 33, tilde |-> 126, us |-> 95 ]
IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
IsAlnum(c) == IsDigit(c) \/ IsAlpha(c)
IsBlank(c) == c = SP \/ c = TAB
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c

(* character i of s, 0 after its end *)
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE SkipBlanks(_, _)
SkipBlanks(s, i) == IF IsBlank(At(s, i)) THEN SkipBlanks(s, i + 1) ELSE i
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF IsDigit(At(s, i)) THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE AlnumEnd(_, _)
AlnumEnd(s, i) == IF IsAlnum(At(s, i)) THEN AlnumEnd(s, i + 1) ELSE i
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF IsAlnum(At(s, i)) \/ At(s, i) = S.us THEN NameEnd(s, i + 1) ELSE i
RECURSIVE UserEnd(_, _)
UserEnd(s, i) == IF IsAlnum(At(s, i)) \/ At(s, i) \in {S.us, S.dash} THEN UserEnd(s, i + 1) ELSE i
RECURSIVE UpTo(_, _, _)
UpTo(s, i, stops) == IF i > Len(s) \/ s[i] \in stops THEN i ELSE UpTo(s, i + 1, stops)
RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s # <<>> /\ IsBlank(s[Len(s)]) THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s

Big == 100000000
Err == [ok |-> FALSE, i |-> 0, v |-> 0]
Ok(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
(* the number written at i..j-1; anything above Big is Big *)
Digits(s, i, j) == FoldLeft(LAMBDA a, c : IF a >= Big \div 10 THEN Big ELSE a * 10 + (c - 48), 0, SubSeq(s, i, j - 1))
Num(s, i, max) == LET j == DigitsEnd(s, i) IN LET n == Digits(s, i, j) IN IF j = i \/ n > max THEN Err ELSE Ok(j, n)
(* a number with at most one decimal, rounded off, in tenths *)
Tenths(s, i, max) ==
  LET j == DigitsEnd(s, i) IN
  IF At(s, j) # S.dot
  THEN IF j = i THEN Err ELSE LET n == Digits(s, i, j) IN IF n * 10 > max THEN Err ELSE Ok(j, n * 10)
  ELSE LET k == DigitsEnd(s, j + 1) IN
       LET n == Digits(s, i, j) * 10 + (IF k > j + 1 THEN s[j + 1] - 48 ELSE 0) + (IF k > j + 2 /\ s[j + 2] >= 53 THEN 1 ELSE 0) IN
       IF k = j + 1 \/ n > max THEN Err ELSE Ok(k, n)

(* ------------------------------------------------------------------ time and date fields *)
MonNames == <<<<106,97,110>>, <<102,101,98>>, <<109,97,114>>, <<97,112,114>>, <<109,97,121>>, <<106,117,110>>, <<106,117,108>>,
              <<97,117,103>>, <<115,101,112>>, <<111,99,116>>, <<110,111,118>>, <<100,101,99>>>>
DowNames == <<<<115,117,110>>, <<109,111,110>>, <<116,117,101>>, <<119,101,100>>, <<116,104,117>>, <<102,114,105>>, <<115,97,116>>>>
Field == [ mins |-> [lo |-> 0, hi |-> 59], hrs |-> [lo |-> 0, hi |-> 23], days |-> [lo |-> 1, hi |-> 31],
           mons |-> [lo |-> 1, hi |-> 12], dow |-> [lo |-> 0, hi |-> 7] ]
Full(f) == Field[f].lo .. Field[f].hi
(* a value of field f: a number or a name *)
Value(s, i, f) ==
  IF IsAlpha(At(s, i))
  THEN LET w == [k \in 1..3 |-> Lower(At(s, i + k - 1))]
           names == CASE f = "mons" -> MonNames [] f = "dow" -> DowNames [] OTHER -> <<>>
           hit == {n \in 1..Len(names) : names[n] = w} IN
       IF hit = {} THEN Err ELSE Ok(i + 3, IF f = "mons" THEN CHOOSE n \in hit : TRUE ELSE (CHOOSE n \in hit : TRUE) - 1)
  ELSE LET r == Num(s, i, Field[f].hi) IN IF r.ok /\ r.v < Field[f].lo THEN Err ELSE r
(* Sunday is both 0 and 7 *)
Close(f, v) == IF f = "dow" /\ v \cap {0, 7} # {} THEN v \cup {0, 7} ELSE v
Twin(f, n) == IF f = "dow" /\ n \in {0, 7} THEN {0, 7} ELSE {n}
(* the values of a range: it wraps around the end of the field if it is reversed *)
Cycle(f) == CASE f = "dow" -> 7 [] OTHER -> Field[f].hi - Field[f].lo + 1
RangeSet(f, a, b, step) ==
  LET last == IF a <= b THEN b ELSE b + Cycle(f)
      norm(n) == IF n > Field[f].hi THEN n - Cycle(f) ELSE n IN
  {norm(a + k * step) : k \in {k \in 0..60 : a + k * step <= last}}
RECURSIVE Excl(_, _, _, _)
Excl(s, i, f, acc) ==
  IF At(s, i) # S.tilde THEN Ok(i, acc)
  ELSE LET r == Value(s, i + 1, f) IN IF ~r.ok THEN Err ELSE Excl(s, r.i, f, acc \cup Twin(f, r.v))
(* one item of the list; v = [on, off]: values it sets and values it excludes *)
Item(s, i, f) ==
  LET star == At(s, i) = S.star
      a == IF star THEN Ok(i + 1, 0) ELSE Value(s, i, f) IN
  IF ~a.ok THEN Err
  ELSE IF ~star /\ At(s, a.i) # S.dash THEN Ok(a.i, [on |-> {a.v}, off |-> {}])
  ELSE LET b == IF star THEN a ELSE Value(s, a.i + 1, f) IN
       IF ~b.ok THEN Err
       ELSE LET st == IF At(s, b.i) = S.slash THEN Num(s, b.i + 1, Field[f].hi) ELSE Ok(b.i, 1) IN
            IF ~st.ok \/ st.v = 0 THEN Err
            ELSE LET e == Excl(s, st.i, f, {}) IN
                 IF ~e.ok THEN Err
                 ELSE Ok(e.i, [on |-> IF star THEN {n \in Full(f) : (n - Field[f].lo) % st.v = 0} ELSE RangeSet(f, a.v, b.v, st.v),
                               off |-> e.v])
(* The whole field, up to the next blank: v is the set of its acceptable readings.  An exclusion turns
   off values of its own range; the manual does not say whether also those of the items before it. *)
RECURSIVE Items(_, _, _, _, _)
Items(s, i, f, own, all) ==
  LET r == Item(s, i, f) IN
  IF ~r.ok THEN Err
  ELSE LET o == own \cup (Close(f, r.v.on) \ r.v.off)
           a == (all \cup Close(f, r.v.on)) \ r.v.off IN
       IF At(s, r.i) = S.comma THEN Items(s, r.i + 1, f, o, a)
       ELSE IF IsBlank(At(s, r.i)) THEN Ok(SkipBlanks(s, r.i), {Close(f, o), Close(f, a)})
       ELSE Err
FieldAt(s, i, f) == Items(s, i, f, {}, {})
(* the fields fs one after the other; v maps each to its readings, those not given are full *)
RECURSIVE FieldsAt(_, _, _, _)
FieldsAt(s, i, fs, acc) ==
  IF fs = <<>> THEN Ok(i, acc)
  ELSE LET r == FieldAt(s, i, Head(fs)) IN
       IF ~r.ok THEN Err ELSE FieldsAt(s, r.i, Tail(fs), [acc EXCEPT ![Head(fs)] = r.v])
AllFull == [f \in DOMAIN Field |-> {Full(f)}]
Five == <<"mins", "hrs", "days", "mons", "dow">>

(* ------------------------------------------------------------------ time values *)
Mult(c) == CASE c = 109 -> 2419200 [] c = 119 -> 604800 [] c = 100 -> 86400 [] c = 104 -> 3600 [] c = 115 -> 1 [] OTHER -> 0
RECURSIVE Time(_, _, _)
Time(s, i, acc) ==
  LET j == DigitsEnd(s, i) IN
  LET n == Digits(s, i, j) IN
  IF IsBlank(At(s, i)) \/ At(s, i) \in {0, S.rp} THEN Ok(i, acc)
  ELSE IF j = i THEN Err
  ELSE IF Mult(At(s, j)) > 0 THEN Time(s, j + 1, acc + n * Mult(At(s, j)))
  ELSE IF IsBlank(At(s, j)) \/ At(s, j) = S.rp THEN Ok(j, acc + n * 60)
  ELSE Err

(* ------------------------------------------------------------------ options *)
Defaults(ctx) ==
  [ serial |-> FALSE, bootrun |-> FALSE, exesev |-> FALSE, serialonce |-> FALSE, lavgonce |-> TRUE, rebootreset |-> FALSE,
    runatreboot |-> FALSE, runatresume |-> FALSE, runonce |-> FALSE, strict |-> TRUE, noticenotrun |-> FALSE,
    lavg0 |-> 0, lavg1 |-> 0, lavg2 |-> 0, lavgor |-> FALSE, until |-> 0, first |-> -1, mail |-> TRUE, forcemail |-> FALSE,
    mailto |-> ctx.owner, mailfrom |-> <<>>, erroronlymail |-> FALSE, dayor |-> FALSE, nolog |-> FALSE, volatile |-> FALSE,
    stdout |-> FALSE, nice |-> 0, runas |-> ctx.owner, random |-> FALSE, jitter |-> 0, tz |-> <<>>, runfreq |-> 0,
    kw |-> <<>>, lavgq |-> FALSE ]
(* option names (as codes) *)
Name == [ x \in {
  "tzdiff", "timezone", "s", "serial", "serialonce", "lavgonce", "exesev", "b", "bootrun", "rebootreset", "runatreboot",
  "runatresume", "runonce", "reset", "f", "first", "r", "runfreq", "strict", "noticenotrun", "lavg", "lavg1", "lavg5", "lavg15",
  "lavgand", "lavgor", "u", "until", "m", "mail", "forcemail", "mailfrom", "mailto", "erroronlymail", "dayand", "dayor", "nolog",
  "volatile", "stdout", "n", "nice", "runas", "random", "jitter",
  "mins", "hours", "days", "mons", "dow", "hourly", "daily", "monthly", "weekly", "midhourly", "middaily", "nightly", "midmonthly",
  "midweekly", "reboot", "resume", "yearly", "annually", "midnight",
  "USER", "LOGNAME", "MAILTO", "MAILFROM", "true", "yes", "false", "no" } |->
  CASE x = "tzdiff" -> <<116,122,100,105,102,102>> [] x = "timezone" -> <<116,105,109,101,122,111,110,101>> [] x = "s" -> <<115>>
    [] x = "serial" -> <<115,101,114,105,97,108>> [] x = "serialonce" -> <<115,101,114,105,97,108,111,110,99,101>>
    [] x = "lavgonce" -> <<108,97,118,103,111,110,99,101>> [] x = "exesev" -> <<101,120,101,115,101,118>> [] x = "b" -> <<98>>
    [] x = "bootrun" -> <<98,111,111,116,114,117,110>> [] x = "rebootreset" -> <<114,101,98,111,111,116,114,101,115,101,116>>
    [] x = "runatreboot" -> <<114,117,110,97,116,114,101,98,111,111,116>> [] x = "runatresume" -> <<114,117,110,97,116,114,101,115,117,109,101>>
    [] x = "runonce" -> <<114,117,110,111,110,99,101>> [] x = "reset" -> <<114,101,115,101,116>> [] x = "f" -> <<102>>
    [] x = "first" -> <<102,105,114,115,116>> [] x = "r" -> <<114>> [] x = "runfreq" -> <<114,117,110,102,114,101,113>>
    [] x = "strict" -> <<115,116,114,105,99,116>> [] x = "noticenotrun" -> <<110,111,116,105,99,101,110,111,116,114,117,110>>
    [] x = "lavg" -> <<108,97,118,103>> [] x = "lavg1" -> <<108,97,118,103,49>> [] x = "lavg5" -> <<108,97,118,103,53>>
    [] x = "lavg15" -> <<108,97,118,103,49,53>> [] x = "lavgand" -> <<108,97,118,103,97,110,100>> [] x = "lavgor" -> <<108,97,118,103,111,114>>
    [] x = "u" -> <<117>> [] x = "until" -> <<117,110,116,105,108>> [] x = "m" -> <<109>> [] x = "mail" -> <<109,97,105,108>>
    [] x = "forcemail" -> <<102,111,114,99,101,109,97,105,108>> [] x = "mailfrom" -> <<109,97,105,108,102,114,111,109>>
    [] x = "mailto" -> <<109,97,105,108,116,111>> [] x = "erroronlymail" -> <<101,114,114,111,114,111,110,108,121,109,97,105,108>>
    [] x = "dayand" -> <<100,97,121,97,110,100>> [] x = "dayor" -> <<100,97,121,111,114>> [] x = "nolog" -> <<110,111,108,111,103>>
    [] x = "volatile" -> <<118,111,108,97,116,105,108,101>> [] x = "stdout" -> <<115,116,100,111,117,116>> [] x = "n" -> <<110>>
    [] x = "nice" -> <<110,105,99,101>> [] x = "runas" -> <<114,117,110,97,115>> [] x = "random" -> <<114,97,110,100,111,109>>
    [] x = "jitter" -> <<106,105,116,116,101,114>> [] x = "mins" -> <<109,105,110,115>> [] x = "hours" -> <<104,111,117,114,115>>
    [] x = "days" -> <<100,97,121,115>> [] x = "mons" -> <<109,111,110,115>> [] x = "dow" -> <<100,111,119>>
    [] x = "hourly" -> <<104,111,117,114,108,121>> [] x = "daily" -> <<100,97,105,108,121>> [] x = "monthly" -> <<109,111,110,116,104,108,121>>
    [] x = "weekly" -> <<119,101,101,107,108,121>> [] x = "midhourly" -> <<109,105,100,104,111,117,114,108,121>>
    [] x = "middaily" -> <<109,105,100,100,97,105,108,121>> [] x = "nightly" -> <<110,105,103,104,116,108,121>>
    [] x = "midmonthly" -> <<109,105,100,109,111,110,116,104,108,121>> [] x = "midweekly" -> <<109,105,100,119,101,101,107,108,121>>
    [] x = "reboot" -> <<114,101,98,111,111,116>> [] x = "resume" -> <<114,101,115,117,109,101>> [] x = "yearly" -> <<121,101,97,114,108,121>>
    [] x = "annually" -> <<97,110,110,117,97,108,108,121>> [] x = "midnight" -> <<109,105,100,110,105,103,104,116>>
    [] x = "USER" -> <<85,83,69,82>> [] x = "LOGNAME" -> <<76,79,71,78,65,77,69>> [] x = "MAILTO" -> <<77,65,73,76,84,79>>
    [] x = "MAILFROM" -> <<77,65,73,76,70,82,79,77>> [] x = "true" -> <<116,114,117,101>> [] x = "yes" -> <<121,101,115>>
    [] x = "false" -> <<102,97,108,115,101>> [] x = "no" -> <<110,111>> ]
Booleans == {"serial", "serialonce", "lavgonce", "exesev", "bootrun", "rebootreset", "runatreboot", "runatresume", "runonce", "strict",
  "noticenotrun", "erroronlymail", "nolog", "volatile", "stdout", "random", "lavgor", "dayor"}
Short(x) == CASE x = "s" -> "serial" [] x = "b" -> "bootrun" [] x = "f" -> "first" [] x = "r" -> "runfreq" [] x = "u" -> "until"
              [] x = "m" -> "mail" [] x = "n" -> "nice" [] OTHER -> x
Ly == {"hourly", "daily", "monthly", "weekly", "midhourly", "middaily", "nightly", "midmonthly", "midweekly"}
Ss == {"mins", "hours", "days", "mons", "dow"}
OptNames == (DOMAIN Name) \ {"reboot", "resume", "yearly", "annually", "midnight", "USER", "LOGNAME", "MAILTO", "MAILFROM", "true", "yes", "false", "no"}
Which(w, names) == LET h == {x \in names : Name[x] = w} IN IF h = {} THEN "" ELSE CHOOSE x \in h : TRUE

Starts(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
Bool(s, i) ==
  CASE At(s, i) = 49 -> Ok(i + 1, TRUE) [] At(s, i) = 48 -> Ok(i + 1, FALSE)
    [] Starts(s, i, Name["true"]) -> Ok(i + 4, TRUE) [] Starts(s, i, Name["yes"]) -> Ok(i + 3, TRUE)
    [] Starts(s, i, Name["false"]) -> Ok(i + 5, FALSE) [] Starts(s, i, Name["no"]) -> Ok(i + 2, FALSE)
    [] OTHER -> Err
(* a string up to the closing parenthesis, without blanks or quotes around it *)
Str(s, i) ==
  LET j == UpTo(s, i, {S.rp}) IN
  LET bad(c) == IsBlank(c) \/ c \in {SQ, DQ} IN
  IF j > i /\ (bad(s[i]) \/ bad(s[j - 1])) THEN Err ELSE Ok(j, SubSeq(s, i, j - 1))

(* Reads the options standing at i.  The state is [o: options, tzdiff, faults]; result Ok(next position, state) or
   Err with the state in v.  per: in a %-line *)
Fail(st) == [ok |-> FALSE, i |-> 0, v |-> [st EXCEPT !.faults = @ + 1]]
RECURSIVE Opts(_, _, _, _, _)
Opts(s, i, st, per, ctx) ==
  LET j == AlnumEnd(s, i)
      br == At(s, j) = S.lp
      k == IF br THEN j + 1 ELSE j
      x == Short(Which(SubSeq(s, i, j - 1), OptNames))
      o == st.o
      more(r) ==   \* after the arguments
        LET e == IF br THEN (IF At(s, r.i) = S.rp THEN r.i + 1 ELSE 0) ELSE r.i IN
        IF e = 0 THEN Fail(r.v)
        ELSE IF At(s, e) = S.comma THEN Opts(s, e + 1, r.v, per, ctx)
        ELSE [ok |-> TRUE, i |-> SkipBlanks(s, e), v |-> r.v]
      set(f, r) == IF ~r.ok THEN Fail(st) ELSE more(Ok(r.i, [st EXCEPT !.o = [o EXCEPT ![f] = r.v]]))
      b == IF br THEN Bool(s, k) ELSE Ok(k, TRUE)
      arg(r) == IF br THEN r ELSE Err
  IN
  IF br /\ IsBlank(At(s, k)) THEN Fail(st)
  ELSE CASE x \in Booleans -> set(x, b)
    [] x = "lavgand" -> set("lavgor", IF b.ok THEN Ok(b.i, ~b.v) ELSE Err)
    [] x = "dayand" -> set("dayor", IF b.ok THEN Ok(b.i, ~b.v) ELSE Err)
    [] x = "mail" -> IF ~b.ok THEN Fail(st)
                     ELSE more(Ok(b.i, [st EXCEPT !.o.mail = b.v, !.o.forcemail = @ /\ b.v]))
    [] x = "forcemail" -> IF ~b.ok THEN Fail(st)
                     ELSE more(Ok(b.i, [st EXCEPT !.o.forcemail = b.v, !.o.mail = @ \/ b.v]))
    [] x = "reset" -> IF ~b.ok THEN Fail(st)
                     ELSE more(Ok(b.i, IF b.v THEN [st EXCEPT !.o = [Defaults(ctx) EXCEPT !.runfreq = IF per THEN 1 ELSE 0]] ELSE st))
    \* after a bad value, nothing is said about this option for the lines that follow
    [] x = "first" -> LET r == arg(Time(s, k, 0)) IN IF r.ok THEN set("first", r) ELSE Fail([st EXCEPT !.o.first = -2])
    [] x = "until" -> LET r == arg(Time(s, k, 0)) IN IF r.ok THEN set("until", r) ELSE Fail([st EXCEPT !.o.until = -1])
    [] x = "runfreq" -> LET r == arg(Num(s, k, 65535)) IN set("runfreq", IF per \/ (r.ok /\ r.v < 2) THEN Err ELSE r)
    [] x = "jitter" -> set("jitter", arg(Num(s, k, 255)))
    [] x = "lavg1" -> set("lavg0", arg(Tenths(s, k, 255)))
    [] x = "lavg5" -> set("lavg1", arg(Tenths(s, k, 255)))
    [] x = "lavg15" -> set("lavg2", arg(Tenths(s, k, 255)))
    [] x = "lavg" ->
         LET r1 == arg(Tenths(s, k, 255)) IN
         LET r2 == IF r1.ok /\ At(s, r1.i) = S.comma THEN Tenths(s, r1.i + 1, 255) ELSE Err IN
         LET r3 == IF r2.ok /\ At(s, r2.i) = S.comma THEN Tenths(s, r2.i + 1, 255) ELSE Err IN
         \* an error after the first number: nothing is said about the load averages of the lines that follow
         IF ~r3.ok THEN Fail([st EXCEPT !.o.lavgq = @ \/ r1.ok])
         ELSE more(Ok(r3.i, [st EXCEPT !.o.lavg0 = r1.v, !.o.lavg1 = r2.v, !.o.lavg2 = r3.v]))
    [] x = "nice" ->
         LET neg == At(s, k) = S.dash IN
         LET r == arg(Num(s, IF neg THEN k + 1 ELSE k, 20)) IN
         IF ~r.ok THEN Fail(st)
         ELSE IF neg /\ ~ctx.root THEN more(Ok(r.i, [st EXCEPT !.o.nice = 0, !.faults = @ + 1]))
         ELSE more(Ok(r.i, [st EXCEPT !.o.nice = IF neg THEN -r.v ELSE r.v]))
    [] x = "tzdiff" ->
         LET neg == At(s, k) = S.dash IN
         LET r == arg(Num(s, IF neg THEN k + 1 ELSE k, 24)) IN
         IF ~r.ok THEN Fail(st) ELSE more(Ok(r.i, [st EXCEPT !.tzdiff = IF neg THEN -r.v ELSE r.v]))
    [] x = "timezone" -> set("tz", arg(Str(s, k)))
    [] x = "mailfrom" -> set("mailfrom", arg(Str(s, k)))
    [] x = "mailto" ->
         LET r == arg(Str(s, k)) IN
         IF ~r.ok THEN Fail(st)
         ELSE IF r.v = <<>> THEN more(Ok(r.i, [st EXCEPT !.o.mail = FALSE, !.o.forcemail = FALSE]))
         ELSE more(Ok(r.i, [st EXCEPT !.o.mailto = r.v, !.o.mail = TRUE]))
    [] x = "runas" ->
         LET r == arg(Str(s, k)) IN
         IF ~r.ok \/ r.v = <<>> THEN Fail(st)
         ELSE IF ~ctx.root \/ r.v \notin ctx.users THEN more(Ok(r.i, [st EXCEPT !.faults = @ + 1]))
         ELSE more(Ok(r.i, [st EXCEPT !.o.runas = r.v]))
    [] x \in Ly \cup Ss /\ per -> more(Ok(k, [st EXCEPT !.o.kw = Append(@, x)]))
    [] j - i > 19 -> Fail(st)
    [] OTHER -> more(Ok(k, [st EXCEPT !.faults = @ + 1]))      \* unknown: reported, without effect

(* ------------------------------------------------------------------ entries *)
Safe(a) == ~(a # <<>> /\ a[1] = S.dash) /\ \A c \in {SP, TAB, NL, 59, 124} : c \notin ToSet(a)
Flags(o) == [f \in Booleans \cup {"mail", "forcemail"} |-> o[f]]
(* what is common to all kinds of entries, once loaded *)
Base(o, cmd, ctx) ==
  [ cmd |-> cmd, runas |-> IF ctx.rootown THEN o.runas ELSE ctx.owner,
    mailto |-> IF Safe(o.mailto) THEN o.mailto ELSE ctx.owner, mailfrom |-> IF Safe(o.mailfrom) THEN o.mailfrom ELSE <<>>,
    tz |-> o.tz, until |-> o.until, nice |-> IF o.nice < 0 /\ ~ctx.rootown THEN 0 ELSE o.nice, jitter |-> o.jitter,
    lavg |-> IF o.lavgq THEN <<>> ELSE <<o.lavg0, o.lavg1, o.lavg2>>, flags |-> Flags(o), kw |-> "" ]
Td(base, o, fv) == base @@ [td |-> TRUE, runfreq |-> o.runfreq, freq |-> 0, first |-> 0, mins |-> fv["mins"], hrs |-> fv["hrs"], days |-> fv["days"], mons |-> fv["mons"], dow |-> fv["dow"]]
Freq(base, freq, first) == base @@ [td |-> FALSE, runfreq |-> 0, freq |-> freq, first |-> first, mins |-> {}, hrs |-> {}, days |-> {}, mons |-> {}, dow |-> {}]
(* the readings of a set of fields *)
Readings(fr) == {[mins |-> a, hrs |-> b, days |-> c, mons |-> d, dow |-> e] : a \in fr["mins"], b \in fr["hrs"], c \in fr["days"], d \in fr["mons"], e \in fr["dow"]}

(* the command at i, and the user in front of it: [cmd, runas] *)
Command(s, i, o, ctx) ==
  LET j == UserEnd(s, i) IN
  IF j > i /\ (j > Len(s) \/ IsBlank(At(s, j))) /\ SubSeq(s, i, j - 1) \in ctx.users
  THEN [cmd |-> TrimEnd(From(s, SkipBlanks(s, j))), o |-> IF ctx.root THEN [o EXCEPT !.runas = SubSeq(s, i, j - 1)] ELSE o]
  ELSE [cmd |-> TrimEnd(From(s, i)), o |-> o]

None == [ok |-> FALSE]
LyKind(x) == CASE x = "nightly" -> "middaily" [] OTHER -> x
LyFields(x) == CASE x \in {"hourly", "midhourly"} -> <<"mins">> [] x \in {"monthly", "midmonthly"} -> <<"mins", "hrs", "days">>
                 [] OTHER -> <<"mins", "hrs">>
(* Some time must be outside of the intervals of a line like %hours: the fields under the keyword do not count. *)
Below(x) == CASE x = "hours" -> {"mins"} [] x = "days" -> {"mins", "hrs"} [] x = "mons" -> {"mins", "hrs", "days"}
              [] x = "dow" -> {"mins", "hrs", "days", "mons"} [] OTHER -> {}
HasGap(x, fv, dayor) ==
  LET lim(f) == f \notin Below(x) /\ fv[f] # Full(f) IN
  lim("mins") \/ lim("hrs") \/ lim("mons") \/ (IF dayor THEN lim("days") /\ lim("dow") ELSE lim("days") \/ lim("dow"))

(* Each reader gives [ok, any (readings), may, st]; s starts with the first character of the line, st as in Opts *)
Bad(st) == [ok |-> FALSE, st |-> [st EXCEPT !.faults = @ + 1]]
Entry(any, may, st) == [ok |-> TRUE, any |-> any, may |-> may, st |-> st]

Shortcuts == {"reboot", "resume", "yearly", "annually", "monthly", "weekly", "daily", "midnight", "hourly"}
ShortcutFields(x) ==
  LET z == {0}  F == [f \in DOMAIN Field |-> Full(f)] IN
  CASE x \in {"yearly", "annually"} -> [F EXCEPT !["mins"] = z, !["hrs"] = z, !["days"] = {1}, !["mons"] = {1}]
    [] x = "monthly" -> [F EXCEPT !["mins"] = z, !["hrs"] = z, !["days"] = {1}]
    [] x = "weekly" -> [F EXCEPT !["mins"] = z, !["hrs"] = z, !["dow"] = {0, 7}]
    [] x \in {"daily", "midnight"} -> [F EXCEPT !["mins"] = z, !["hrs"] = z]
    [] OTHER -> [F EXCEPT !["mins"] = z]
Never == -2
AtLine(s, st, ctx) ==
  LET j == AlnumEnd(s, 2)
      x == Which(SubSeq(s, 2, j - 1), Shortcuts) IN
  IF x # ""
  THEN LET c == Command(s, SkipBlanks(s, j), st.o, ctx) IN
       IF ~IsBlank(At(s, j)) \/ c.cmd = <<>> THEN Bad(st)
       ELSE IF x \in {"reboot", "resume"}
       THEN LET o == [c.o EXCEPT !.runatreboot = @ \/ x = "reboot", !.runatresume = @ \/ x = "resume", !.runonce = TRUE, !.volatile = FALSE] IN
            Entry({Freq(Base(o, c.cmd, ctx), Never, 0)}, FALSE, st)
       ELSE Entry({Td(Base(c.o, c.cmd, ctx), c.o, ShortcutFields(x))}, FALSE, st)
  ELSE LET r == IF IsDigit(At(s, 2))
                THEN LET t == Time(s, 2, 0) IN
                     IF t.ok THEN Ok(SkipBlanks(s, t.i), [st EXCEPT !.o.first = t.v]) ELSE Fail(st)
                ELSE IF IsAlpha(At(s, 2)) THEN Opts(s, 2, st, FALSE, ctx)
                ELSE Ok(SkipBlanks(s, 2), st) IN
       IF ~r.ok THEN [ok |-> FALSE, st |-> [st EXCEPT !.tzdiff = r.v.tzdiff, !.faults = r.v.faults]]
       ELSE LET f == Time(s, r.i, 0)
                out == [st EXCEPT !.tzdiff = r.v.tzdiff, !.faults = r.v.faults] IN
            IF ~f.ok \/ f.v = 0 THEN Bad(out)
            ELSE LET c == Command(s, SkipBlanks(s, f.i), r.v.o, ctx) IN
                 IF c.cmd = <<>> THEN Bad(out)
                 ELSE Entry({Freq(Base(c.o, c.cmd, ctx), f.v, IF c.o.first = -1 THEN f.v ELSE c.o.first)}, r.v.faults > st.faults, out)
AndLine(s, st, ctx) ==
  LET amp == At(s, 1) = S.amp
      r == IF ~amp THEN Ok(1, st)
           ELSE IF IsDigit(At(s, 2))
           THEN LET n == Num(s, 2, 65535) IN IF n.ok /\ n.v >= 2 THEN Ok(SkipBlanks(s, n.i), [st EXCEPT !.o.runfreq = n.v]) ELSE Fail(st)
           ELSE IF IsAlpha(At(s, 2)) THEN Opts(s, 2, st, FALSE, ctx)
           ELSE Ok(SkipBlanks(s, 2), st)
      out == [st EXCEPT !.tzdiff = r.v.tzdiff, !.faults = r.v.faults] IN
  IF ~r.ok THEN [ok |-> FALSE, st |-> out]
  ELSE LET f == FieldsAt(s, r.i, Five, AllFull) IN
       IF ~f.ok THEN Bad(out)
       ELSE LET c == Command(s, f.i, r.v.o, ctx) IN
            IF c.cmd = <<>> THEN Bad(out)
            ELSE Entry({Td(Base(c.o, c.cmd, ctx), c.o, fv) : fv \in Readings(f.v)}, r.v.faults > st.faults, out)
PctLine(s, st, ctx) ==
  LET r == Opts(s, 2, [st EXCEPT !.o.runfreq = 1], TRUE, ctx)
      out == [st EXCEPT !.tzdiff = r.v.tzdiff, !.faults = r.v.faults] IN
  IF ~r.ok THEN [ok |-> FALSE, st |-> out]
  ELSE LET kw == IF Len(r.v.o.kw) = 1 THEN r.v.o.kw[1] ELSE "mins"
           f == FieldsAt(s, r.i, IF kw \in Ly THEN LyFields(kw) ELSE Five, AllFull) IN
       IF ~f.ok THEN Bad(out)
       ELSE LET c == Command(s, f.i, r.v.o, ctx)
                gap == {fv \in Readings(f.v) : kw \in Ly \/ HasGap(kw, fv, c.o.dayor)} IN
            IF c.cmd = <<>> \/ gap = {} THEN Bad(out)
            ELSE Entry({[Td(Base(c.o, c.cmd, ctx), c.o, fv) EXCEPT !.kw = LyKind(kw)] : fv \in gap},
                       r.v.faults > st.faults \/ Len(r.v.o.kw) # 1 \/ gap # Readings(f.v), out)

(* ------------------------------------------------------------------ assignments *)
(* Ok(0, [name, val]) *)
Assign(s) ==
  LET j == NameEnd(s, 1)
      k == SkipBlanks(s, j)
      v0 == TrimEnd(From(s, SkipBlanks(s, k + 1)))
      q == IF v0 # <<>> /\ v0[1] \in {SQ, DQ} THEN v0[1] ELSE 0 IN
  IF j = 1 \/ At(s, k) # S.eq THEN Err
  ELSE IF q = 0 THEN Ok(0, [name |-> SubSeq(s, 1, j - 1), val |-> v0])
  ELSE IF Len(v0) = 1 \/ v0[Len(v0)] # q THEN Err
  ELSE Ok(0, [name |-> SubSeq(s, 1, j - 1), val |-> SubSeq(v0, 2, Len(v0) - 1)])

(* ------------------------------------------------------------------ the file *)
(* Logical lines: [s, a, b]: text, first and last physical line *)
Lines(text) ==
  LET step(acc, c) ==
        IF c = NL
        THEN IF acc.cur # <<>> /\ acc.cur[Len(acc.cur)] = BSL
             THEN [acc EXCEPT !.cur = SubSeq(@, 1, Len(@) - 1), !.n = @ + 1]
             ELSE [out |-> Append(acc.out, [s |-> acc.cur, a |-> acc.a, b |-> acc.n]), cur |-> <<>>, a |-> acc.n + 1, n |-> acc.n + 1]
        ELSE [acc EXCEPT !.cur = Append(@, c)]
      e == FoldLeft(step, [out |-> <<>>, cur |-> <<>>, a |-> 1, n |-> 1], text) IN
  Append(e.out, [s |-> e.cur, a |-> e.a, b |-> e.n])
MaxLine == 1022       \* longer lines may be refused, as a whole

Env0 == <<>>
SetVar(env, n, v) == SelectSeq(env, LAMBDA e : e.name # n) \o <<[name |-> n, val |-> v]>>

LineStep(ctx, m, ln) ==
  LET s == From(ln.s, SkipBlanks(ln.s, 1))
      c == At(s, 1)
      st == [o |-> m.o, tzdiff |-> m.tzdiff, faults |-> 0]
      here == [a |-> ln.a, b |-> ln.b]
      entry(r) == [m EXCEPT !.tzdiff = r.st.tzdiff, !.faults = @ + r.st.faults,
                            !.bad = IF r.ok THEN @ ELSE Append(@, here),
                            !.entries = IF r.ok THEN Append(@, [any |-> r.any, may |-> r.may]) ELSE @]
      bad == [m EXCEPT !.faults = @ + 1, !.bad = Append(@, here)]
  IN
  IF c \in {0, S.hash} /\ Len(ln.s) <= MaxLine THEN m
  ELSE IF Len(ln.s) > MaxLine
  THEN \* refused or read as any other line, and never cut
       CASE c = S.at -> LET r == AtLine(s, st, ctx) IN IF r.ok THEN [m EXCEPT !.entries = Append(@, [any |-> r.any, may |-> TRUE])] ELSE bad
         [] c = S.amp \/ c = S.star \/ IsDigit(c) -> LET r == AndLine(s, st, ctx) IN IF r.ok THEN [m EXCEPT !.entries = Append(@, [any |-> r.any, may |-> TRUE])] ELSE bad
         [] OTHER -> bad
  ELSE CASE c = S.at -> entry(AtLine(s, st, ctx))
    [] c = S.amp \/ c = S.star \/ IsDigit(c) -> entry(AndLine(s, st, ctx))
    [] c = S.pct -> entry(PctLine(s, st, ctx))
    [] c = S.bang ->
         LET r == Opts(s, 2, st, FALSE, ctx) IN
         [m EXCEPT !.o = r.v.o, !.tzdiff = r.v.tzdiff, !.faults = @ + r.v.faults + (IF r.ok /\ At(s, r.i) # 0 THEN 1 ELSE 0)]
    [] OTHER ->
         LET r == Assign(s) IN
         IF ~r.ok THEN bad
         ELSE IF r.v.name \in {Name["USER"], Name["LOGNAME"]} THEN m
         ELSE IF r.v.name = Name["MAILFROM"] THEN [m EXCEPT !.o.mailfrom = r.v.val]
         ELSE IF r.v.name = Name["MAILTO"]
         THEN IF r.v.val = <<>> THEN [m EXCEPT !.o.mail = FALSE, !.o.forcemail = FALSE] ELSE [m EXCEPT !.o.mailto = r.v.val, !.o.mail = TRUE]
         ELSE [m EXCEPT !.env = SetVar(@, r.v.name, r.v.val)]

Meaning(text, ctx) ==
  FoldLeft(LAMBDA m, ln : LineStep(ctx, m, ln),
           [o |-> Defaults(ctx), tzdiff |-> 0, faults |-> 0, bad |-> <<>>, entries |-> <<>>, env |-> Env0], Lines(text))
=============================================================================
