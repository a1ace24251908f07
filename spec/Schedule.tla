------------------------------ MODULE Schedule ------------------------------
(* What fcrontab.5 says about when an entry is to run: the calendar, time     *)
(* zones, the five time fields and the periods of the periodic entries.       *)
(*                                                                            *)
(* Instants are seconds since 2000-01-01 00:00 UTC (TLC's integers have 32    *)
(* bits); "wall" times are minutes since 2000-01-01 00:00 on the wall clock   *)
(* of some zone. A zone is a sequence of [t, o]: from instant t on, the       *)
(* offset to UTC is o seconds (the first t is before everything).             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
None == -1

(* ------------------------------- calendar ------------------------------- *)
IsLeap(y) == y % 4 = 0                       \* years since 2000, up to 2067
YearStart(y) == 365 * y + (y + 3) \div 4     \* day number of January 1st
MonthLen(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Cum == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
MonthStart(y, m) == YearStart(y) + Cum[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
YearOf(d) == LET g == d \div 365 IN IF YearStart(g) > d THEN g - 1 ELSE g
MonthOf(y, d) == LET g == (d - YearStart(y)) \div 32 + 1
                 IN IF g < 12 /\ MonthStart(y, g + 1) <= d THEN g + 1 ELSE g
DowOf(d) == (d + 6) % 7                      \* 2000-01-01 was a Saturday
NextMonthStart(y, m) == IF m = 12 THEN YearStart(y + 1) ELSE MonthStart(y, m + 1)

(* ------------------------------ time zones ------------------------------- *)
ZoneIdx(z, t) == SetMax({i \in 1..Len(z) : z[i].t <= t})
Off(z, t) == z[ZoneIdx(z, t)].o
LocalSec(z, t) == t + Off(z, t)
Wall(z, t) == LocalSec(z, t) \div 60
(* The instants at which the wall clock shows minute w (two when the clock is *)
(* set back, one otherwise); a minute skipped when the clock is set forward   *)
(* is the instant at the same distance after the change.                      *)
Instants(z, w) ==
  LET s == w * 60
      C == {s - o : o \in {z[i].o : i \in 1..Len(z)}}
      R == {t \in C : LocalSec(z, t) = s}
      G == {i \in 2..Len(z) : /\ z[i].t + z[i-1].o <= s
                              /\ s < z[i].t + z[i].o}
  IN IF R # {} THEN R ELSE {s - z[i-1].o : i \in G}

(* ------------------------------ time fields ------------------------------ *)
(* A field is a sequence of items [lo, hi, st, ex]: lo..hi by st without ex.  *)
ItemSet(it) == {v \in it.lo..it.hi : (v - it.lo) % it.st = 0}
                 \ {it.ex[i] : i \in 1..Len(it.ex)}
FieldSet(f) == UNION {ItemSet(f[i]) : i \in 1..Len(f)}
(* a = [mins, hrs, days, mons, dow] as written                                *)
Fields(a) == [mins |-> FieldSet(a.mins), hrs |-> FieldSet(a.hrs), days |-> FieldSet(a.days),
              mons |-> FieldSet(a.mons), dow |-> {d % 7 : d \in FieldSet(a.dow)}]
MinuteIn(f, tod) == (tod % 60) \in f.mins /\ (tod \div 60) \in f.hrs
DayIn(f, dayor, y, m, d) ==
  LET x == d - MonthStart(y, m) + 1 \in f.days
      w == DowOf(d) \in f.dow
  IN m \in f.mons /\ (IF dayor THEN x \/ w ELSE x /\ w)
Matches(f, dayor, w) ==
  LET d == w \div 1440  y == YearOf(d) IN MinuteIn(f, w % 1440) /\ DayIn(f, dayor, y, MonthOf(y, d), d)

FirstTod(f) == SetMin(f.hrs) * 60 + SetMin(f.mins)
TodFrom(f, tod) ==          \* first matching minute of the day from tod on
  LET h == tod \div 60
      A == IF h \in f.hrs THEN {m \in f.mins : m >= tod % 60} ELSE {}
      H == {k \in f.hrs : k > h}
  IN IF A # {} THEN h * 60 + SetMin(A)
     ELSE IF H # {} THEN SetMin(H) * 60 + SetMin(f.mins) ELSE None
(* First day from d0 on that matches (want) or does not; None: not for years. *)
(* (A function, because TLC evaluates the argument of a function only once.)   *)
FirstDay(f, dayor, want, d0) ==
  LET N[d \in Int, k \in Int] ==
        LET y == YearOf(d)
            m == MonthOf(y, d)
            e == NextMonthStart(y, m)
            S == IF want /\ m \notin f.mons THEN {} ELSE {x \in d..(e - 1) : DayIn(f, dayor, y, m, x) = want}
        IN IF S # {} THEN SetMin(S)
           ELSE IF k = 0 THEN None ELSE N[e, k - 1]
  IN N[d0, 130]
NextMatch(f, dayor, w) ==   \* first matching wall minute from w on
  LET d == w \div 1440
      y == YearOf(d)
      t == IF DayIn(f, dayor, y, MonthOf(y, d), d) THEN TodFrom(f, w % 1440) ELSE None
      d2 == FirstDay(f, dayor, TRUE, d + 1)
  IN IF t # None THEN d * 1440 + t
     ELSE IF d2 = None THEN None ELSE d2 * 1440 + FirstTod(f)

(* ------------------------- intervals and periods ------------------------- *)
(* The maximal run of matching minutes from minute w on ends before RunEnd    *)
(* (None: it does not end). All: the fields, with the ignored ones full.      *)
All(f, ig) == [mins |-> IF "mins" \in ig THEN 0..59 ELSE f.mins,
               hrs  |-> IF "hrs" \in ig THEN 0..23 ELSE f.hrs,
               days |-> IF "days" \in ig THEN 1..31 ELSE f.days,
               mons |-> IF "mons" \in ig THEN 1..12 ELSE f.mons,
               dow  |-> IF "dow" \in ig THEN 0..6 ELSE f.dow]
RunEnd(g, dayor, w) ==
  LET d == w \div 1440
      h == (w % 1440) \div 60
      dayEnd == LET x == FirstDay(g, dayor, FALSE, d) IN IF x = None THEN None ELSE x * 1440
      hourRun(from) ==        \* all minutes match: the run of hours from a matching one
        LET H == {k \in (from % 24)..23 : k \notin g.hrs}
            dd == from \div 24
            nextday == IF ~Matches(g, dayor, (dd + 1) * 1440) THEN (dd + 1) * 1440
                       ELSE (dd + 1) * 1440 + 60 * SetMin({k \in 0..23 : k \notin g.hrs})
        IN IF g.hrs = 0..23 THEN dayEnd
           ELSE IF H # {} THEN dd * 1440 + 60 * SetMin(H) ELSE nextday
      M == {k \in (w % 60)..59 : k \notin g.mins}
      nexthour == (d * 24 + h + 1) * 60
  IN IF ~Matches(g, dayor, w) THEN w
     ELSE IF g.mins = 0..59 THEN hourRun(d * 24 + h)
     ELSE IF M # {} THEN w - (w % 60) + SetMin(M)
     ELSE IF ~Matches(g, dayor, nexthour) THEN nexthour
     ELSE nexthour + SetMin({k \in 0..59 : k \notin g.mins})
(* Fields a *s keyword ignores when it delimits intervals (those below it)    *)
Ignored(k) == CASE k = "mins" -> {}
                [] k = "hours" -> {"mins"}
                [] k = "days" -> {"mins", "hrs"}
                [] k = "mons" -> {"mins", "hrs", "days"}
                [] k = "dow" -> {"mins", "hrs", "days", "mons"}
                [] OTHER -> {}
Periodical == {"hourly", "midhourly", "daily", "middaily", "nightly", "weekly", "midweekly",
               "monthly", "midmonthly"}
(* The first minute after w at which a new period begins.                     *)
PeriodEnd(k, w) ==
  LET d == w \div 1440
      y == YearOf(d)
      m == MonthOf(y, d)
      md == d - MonthStart(y, m) + 1
      hs == w - (w % 60)
      wd == DowOf(d)
      days(n) == (d + n) * 1440
  IN CASE k = "hourly" -> hs + 60
       [] k = "midhourly" -> IF w % 60 >= 30 THEN hs + 90 ELSE hs + 30
       [] k = "daily" -> days(1)
       [] k \in {"middaily", "nightly"} -> IF w % 1440 >= 720 THEN days(1) + 720 ELSE d * 1440 + 720
       [] k = "weekly" -> days(IF wd = 0 THEN 1 ELSE 8 - wd)
       [] k = "midweekly" -> days(IF wd >= 4 THEN 11 - wd ELSE 4 - wd)
       [] k = "monthly" -> NextMonthStart(y, m) * 1440
       [] k = "midmonthly" -> IF md < 15 THEN (MonthStart(y, m) + 14) * 1440
                              ELSE (NextMonthStart(y, m) + 14) * 1440

(* --------------------------- when an entry runs -------------------------- *)
(* An entry e: kind "td" (& and plain), "pct" (%) or "at" (@); f its fields,  *)
(* dayor, kw its keyword, zone z and tzdiff h (hours), jitter, random.        *)
EWall(e, t) == Wall(e.z, t - 3600 * e.tzdiff)
EInstants(e, w) == {t + 3600 * e.tzdiff : t \in Instants(e.z, w)}
(* last minute of the interval in which e may run, of which w is a minute     *)
IntervalEnd(e, w) ==
  LET r == RunEnd(e.f, e.dayor, w)
      p == IF e.kw \in Periodical THEN PeriodEnd(e.kw, w) ELSE r
  IN IF r = None THEN (IF p = None THEN None ELSE p - 1) ELSE Min2(r, p) - 1
(* The possible times [lo, hi] of the execution of e decided for minute w     *)
Times(e, w, after) ==
  LET C == EInstants(e, w)
      F == {t \in C : t > after}
      S == IF F # {} THEN F ELSE C
      en == IF e.random THEN IntervalEnd(e, w) ELSE w
      E == IF en = w THEN S ELSE EInstants(e, en)
  IN {<<t, IF e.random THEN Max2(t, SetMax(E)) ELSE t + (IF e.kind = "td" THEN e.jitter ELSE 0)>> : t \in S}
Never == {}
(* after nothing happened before (new entry, or missed): next match after t;   *)
(* with imm (first sleep 0) a % entry that may run now does so at once          *)
FirstMatch(e, t, imm) ==
  LET w0 == EWall(e, t)
      now == imm /\ e.kind = "pct"
      w == NextMatch(e.f, e.dayor, IF now THEN w0 ELSE w0 + 1)
  IN IF w = None THEN Never
     ELSE IF w = w0 THEN {<<t, IF e.random THEN Max2(t, SetMax(EInstants(e, IntervalEnd(e, w)))) ELSE t>>}
     ELSE Times(e, w, t)
(* after a run decided at t: the first minute of the next interval or period  *)
NextInterval(e, w) ==         \* None: the interval does not end
  IF e.kw \in Periodical THEN PeriodEnd(e.kw, w)
  ELSE LET r == RunEnd(All(e.f, Ignored(e.kw)), e.dayor, w) IN IF r = None THEN None ELSE Max2(w + 1, r)
AfterRun(e, t) ==
  LET w0 == EWall(e, t)
      from == IF e.kind = "pct" THEN NextInterval(e, w0) ELSE w0 + 1
      w == IF from = None THEN None ELSE NextMatch(e.f, e.dayor, from)
  IN IF w = None THEN Never ELSE Times(e, w, t)
=============================================================================
