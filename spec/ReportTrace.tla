----------------------------- MODULE ReportTrace -----------------------------
(***************************************************************************)
(* Validates what the display feature printed against Report.              *)
(*                                                                         *)
(* Every line of the trace file is one case.  Its events are `new' (an     *)
(* object is made), `mig' (another machine answers from here on), `report' *)
(* (the object's report was printed) and `raw' (the reader's raw dump was  *)
(* printed); the last two carry the printed lines and whether the call     *)
(* returned (end = "END") or not; `refuse' is the program asked for a      *)
(* format that there is not.  A report that is marked `lax' is judged *)
(* by its end only (its texts contain characters the renderer interprets). *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Cfg   == ndJsonDeserialize(IOEnv.TRACE_CFG)[1]
Known == {Cfg.known[i] : i \in 1..Len(Cfg.known)}

VARIABLES c, l, st, cpu, obj, vw, out
tvars == <<c, l, st, cpu, obj, vw, out>>

CaseMachine(p) == Cases[p[1]].m[p[2]]
INSTANCE Report WITH Machine <- CaseMachine

Ev == Cases[c].ev[l]
Say(what, data) == PrintT(what \o " " \o ToJson(data))

Min2(a, b) == IF a < b THEN a ELSE b
\* The first line that differs (lines in `any' are compared as a whole)
Differ(exp, obs, any) ==
  LET n == Min2(Len(exp), Len(obs))
      bad == {i \in 1..n : exp[i] # obs[i] /\ ~(any.from <= i /\ i <= any.to)}
      cnt(s, x) == Len(SelectSeq(SubSeq(s, any.from, any.to), LAMBDA y : y = x))
      bag == {i \in any.from..any.to :
                i <= n /\ cnt(exp, exp[i]) # cnt(obs, exp[i])}
  IN  IF Len(exp) # Len(obs) \/ bad # {} \/ bag # {}
      THEN LET all == bad \cup bag \cup {n + 1}
               i == CHOOSE i \in all : \A j \in all : i <= j
           IN  << i, IF i <= Len(exp) THEN exp[i] ELSE "-", IF i <= Len(obs) THEN obs[i] ELSE "-" >>
      ELSE << >>

\* Descriptor 0xC3 is missing from the implementation's table
C3Line(x) == Len(x) = 2 /\ x[1] = "0xc3"
HasC3(s, any) == \E i \in any.from..any.to : C3Line(s[i])
Drop3(s, any) == SubSeq(s, 1, any.from - 1)
                 \o SelectSeq(SubSeq(s, any.from, any.to), LAMBDA x : ~C3Line(x))
                 \o SubSeq(s, any.to + 1, Len(s))

NoRange == [from |-> 1, to |-> 0]

Verdict ==
  IF Ev.op = "refuse"
  THEN IF Ev.end = "PANIC" THEN TRUE
       ELSE Say("MISMATCH", <<Cases[c].id, l, Ev.op, "end", {<<"accepted">>}>>) /\ FALSE
  ELSE IF Ev.op \notin {"report", "raw"} THEN TRUE
  ELSE IF Ev.end # "END"
  THEN Say("MISMATCH", <<Cases[c].id, l, Ev.op, "end", {<<"the call ends with", Ev.end>>}>>) /\ FALSE
  ELSE IF "lax" \in DOMAIN Ev THEN TRUE
  ELSE LET any == IF Ev.op = "report" THEN DescRange(obj[Ev.h], M) ELSE NoRange
           d == Differ(out', Ev.r, any)
           less == Drop3(out', any)
       IN  \/ d = << >>
           \/ /\ "KF-DESC-C3" \in Known /\ HasC3(out', any)
              /\ Differ(less, Ev.r, [any EXCEPT !.to = @ - (Len(out') - Len(less))]) = << >>
              /\ Say("KNOWN", <<"KF-DESC-C3", Cases[c].id>>)
           \/ Say("MISMATCH", <<Cases[c].id, l, Ev.op, "line", {d}>>) /\ FALSE

Bound ==
  CASE Ev.op = "new"    -> New(Ev.h)
    [] Ev.op = "mig"    -> Migrate(<<c, Ev.i>>)
    [] Ev.op = "report" -> IF "lax" \in DOMAIN Ev THEN out' = << >> /\ UNCHANGED <<cpu, obj, vw>>
                           ELSE PrintReport(Ev.h)
    [] Ev.op = "raw"    -> PrintRaw
    [] Ev.op = "refuse" -> Refuse

TraceInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ st = "ok"
             /\ cpu = <<c, 1>> /\ obj = << >> /\ vw = << >> /\ out = << >>
TraceNext == /\ st = "ok" /\ l <= Len(Cases[c].ev)
             /\ Bound
             /\ st' = IF Verdict THEN "ok" ELSE "rejected"
             /\ l' = l + 1 /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
