------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates recorded executions of the implementation against CpuId.      *)
(*                                                                         *)
(* Every line of the trace file is one case: the machines behind the       *)
(* reader and the sequence of calls a program made, each with what it      *)
(* returned and which leaves it executed CPUID for.  A case is accepted    *)
(* iff it is a behaviour of CpuId: each recorded call is bound to the      *)
(* action of the same name, and what the call returned to the action's     *)
(* `out'.  Every case starts in its own initial state, so one TLC run      *)
(* validates a whole batch in parallel.                                    *)
(*                                                                         *)
(*   op    arguments      returned                                         *)
(*   new   h              Some                                             *)
(*   clone h, h2          Some                                             *)
(*   get   h, g, x        Some (now held in x) or Nothing                  *)
(*   read  x [, fs]       the values of all accessors [those with index fs]*)
(*   sub   x, q, y        Some or Nothing                                  *)
(*   next  x              << >> or the values of all accessors of the item *)
(*   skip  x, n           how many of n further items there were           *)
(*   citer x, y           Some                                             *)
(*   exec  leaf, sub      the four registers, are they all zero            *)
(*   mig   i              << >>                                            *)
(*   next  x, y           like next; the item is kept in y                 *)
(*   show  x              are {:?} and {:#?} the same (d: what they show), *)
(*                        << >> if there is no such representation         *)
(*   showid h             the same for a whole object                      *)
(*   text  x              Some (d: the display texts of the view)           *)
(*   eq    x, y           are they equal, << >> if that cannot be asked    *)
(*   peek  x, how[, n]    what a copy of the iterator returns if it is used *)
(*                        by count, last, nth, fold, size_hint, nth and    *)
(*                        fold, or by next after its end                   *)
(*   table                the numbers in the published descriptor table    *)
(*   entry h, d, x        Some (the table's entry is held in x) or Nothing *)
(*   conv  of, n          the published meaning of a number                *)
(*   numof of, n          the published number of a meaning                *)
(*   dbg   x              Some    (the debug representation was built)     *)
(*   dbgid h              Some    (the same for a whole object)            *)
(*                                                                         *)
(* However an object was constructed (`via'), New is the same action: over *)
(* the CPU's own instruction, the case's machine is the table that CPU     *)
(* showed when the calls were made.                                        *)
(*                                                                         *)
(* A call that panicked returned << <<-1>> >> (an accessor: <<-1>> in its  *)
(* place), one that did not return within the reader budget << <<-2>> >>.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Cfg   == ndJsonDeserialize(IOEnv.TRACE_CFG)[1]
\* "full": every result; "total": only that every call returns normally;
\* "reads": only which leaves are executed
Mode  == Cfg.mode
Known == {Cfg.known[i] : i \in 1..Len(Cfg.known)}

VARIABLES c, l, st, cpu, obj, vw, out
tvars == <<c, l, st, cpu, obj, vw, out>>

\* A machine is named by its case and its number within the case
CaseMachine(p) == Cases[p[1]].m[p[2]]
Lacks == IF "KF-DESC-C3" \in Known THEN {195} ELSE {}
INSTANCE Debug WITH Machine <- CaseMachine, Lacking <- Lacks

Ev == Cases[c].ev[l]

\* One line of output for the runner
Report(what, data) == PrintT(what \o " " \o ToJson(data))

\* The harness must report the same accessors in the same order as the model
Names(t) == [i \in 1..Len(FieldsOf[t]) |-> FieldsOf[t][i].n]
Meta == ndJsonDeserialize(IOEnv.META_FILE)[1]
ASSUME /\ DOMAIN Meta = DOMAIN FieldsOf
       /\ \A t \in DOMAIN FieldsOf : Names(t) = Meta[t]

----------------------------------------------------------------------------
(* Known findings: listed deviations of the implementation, each confined  *)
(* to the inputs named in known_findings.txt.                              *)

Deviation(v, f, exp, obs) ==
  CASE v.t = "Tlb1gbPageInfo" /\ f.k = "num" /\ "KF-TLB1G-SIZE" \in Known ->
         exp[1] > 255 /\ obs = << exp[1] % 256 >>
    [] v.t = "ProcessorTopologyInfo" /\ f.n = "threads_per_core"
       /\ "KF-THREADS-256" \in Known ->
         exp = <<256>> /\ obs \in { <<-1>>, <<0>> }
    [] v.t = "CacheParameter" /\ f.n = "sets" /\ Cfg.bits = 32 /\ "KF-SETS-32" \in Known ->
         exp = <<0, 0, 1>> /\ obs \in { <<-1>>, <<0>> }
    [] OTHER -> FALSE

KnownTag(v) == CASE v.t = "Tlb1gbPageInfo" -> "KF-TLB1G-SIZE"
                 [] v.t = "CacheParameter" -> "KF-SETS-32"
                 [] OTHER -> "KF-THREADS-256"

\* The accessors a read event recorded (indices into FieldsOf)
Selected == IF "fs" \in DOMAIN Ev THEN Ev.fs
            ELSE IF Ev.op = "read" THEN AllFields(vw[Ev.x].t)
            ELSE AllFields(ItemType(vw[Ev.x].k))

\* Accessors whose observed value is not what the model says
BadFields(v, exp, obs) ==
  IF Len(exp) # Len(obs) THEN {0}
  ELSE {i \in 1..Len(exp) :
          /\ exp[i] # obs[i]
          /\ ~Deviation(v, FieldsOf[v.t][Selected[i]], exp[i], obs[i])}

FieldsAccepted(v, exp, obs) ==
  \/ exp = obs
  \/ LET bad == BadFields(v, exp, obs)
     IN  IF bad = {} THEN Report("KNOWN", <<KnownTag(v), Cases[c].id>>)
         ELSE /\ Report("MISMATCH", <<Cases[c].id, l, Ev.op, v.t,
                   {<<IF i = 0 THEN "#" ELSE FieldsOf[v.t][Selected[i]].n,
                      IF i = 0 THEN Len(exp) ELSE exp[i],
                      IF i = 0 THEN Len(obs) ELSE obs[i]>> : i \in bad}>>)
              /\ FALSE

Panicked(r) == \E i \in 1..Len(r) : r[i] \in { <<-1>>, <<-2>> }

\* threads_per_core() of a CPU with 256 threads per core is a known panic
OnlyKnownPanics(v, r) ==
  \A i \in 1..Len(r) : r[i] \in { <<-1>>, <<-2>> } =>
     Deviation(v, FieldsOf[v.t][Selected[i]], Value(v, FieldsOf[v.t][Selected[i]], M), r[i])

\* The debug representations call threads_per_core() too
KnownDebugPanic ==
  /\ "KF-THREADS-256" \in Known /\ Ev.r = << <<-1>> >>
  /\ \/ /\ Ev.op \in {"dbg", "show"} /\ Ev.x \in DOMAIN vw /\ vw[Ev.x].t = "ProcessorTopologyInfo"
        /\ Bits(vw[Ev.x].w[EBX], 8, 15) = 255
     \/ /\ Ev.op \in {"dbgid", "showid"} /\ Ev.h \in DOMAIN obj /\ Avail(obj[Ev.h], "L8000001E")
        /\ Bits(Regs(M, "L8000001E", 0)[EBX], 8, 15) = 255

Accepted(what, exp) ==
  \/ exp = Ev.r
  \/ KnownDebugPanic /\ Report("KNOWN", <<"KF-THREADS-256", Cases[c].id>>)
  \/ /\ Report("MISMATCH", <<Cases[c].id, l, Ev.op, what, {<<"returned", exp, Ev.r>>}>>)
     /\ FALSE

Total ==
  \/ ~Panicked(Ev.r)
  \/ KnownDebugPanic /\ Report("KNOWN", <<"KF-THREADS-256", Cases[c].id>>)
  \/ /\ Ev.op = "read" /\ Ev.x \in DOMAIN vw /\ vw[Ev.x].t \in DOMAIN FieldsOf
     /\ Len(Ev.r) = Len(Selected)
     /\ OnlyKnownPanics(vw[Ev.x], Ev.r)
     /\ Report("KNOWN", <<KnownTag(vw[Ev.x]), Cases[c].id>>)
  \/ /\ Report("MISMATCH", <<Cases[c].id, l, Ev.op, "-", {<<"returned", "normally", Ev.r>>}>>)
     /\ FALSE

----------------------------------------------------------------------------
(* Leaves executed on behalf of the call                                   *)

Owner == IF "h" \in DOMAIN Ev THEN obj[Ev.h] ELSE vw[Ev.x].o
ReadsAccepted ==
  IF Ev.op = "mig" THEN TRUE
  ELSE LET o == IF Ev.op = "new" THEN Latch(M) ELSE Owner
           bad == {i \in 1..Len(Ev.rd) : ~MayRead(o, M, Ev.rd[i])}
       IN  \/ bad = {}
           \/ /\ Report("MISMATCH", <<Cases[c].id, l, Ev.op, "reads",
                          {<<"leaf", "advertised", Ev.rd[i]>> : i \in bad}>>)
              /\ FALSE

----------------------------------------------------------------------------
(* The action a recorded call is bound to                                  *)

\* The descriptor the implementation reported, if it is one the model allows
Chosen(it) ==
  IF Len(Ev.r) = 2 /\ Len(Ev.r[1]) = 1
     /\ (\E i \in 1..Len(it.rest) : it.rest[i] = Ev.r[1][1])
  THEN Ev.r[1][1] ELSE -1

\* Descriptor 0xC3 is missing from the implementation's table
OnlyMissing(it) == /\ "KF-DESC-C3" \in Known
                   /\ it.rest # << >>
                   /\ \A i \in 1..Len(it.rest) : it.rest[i] = 195
                   /\ Ev.r = << >>

Bound ==
  CASE Ev.op = "new"   -> New(Ev.h)
    [] Ev.op = "clone" -> CloneObj(Ev.h, Ev.h2)
    [] Ev.op = "get"   -> Get(Ev.h, Ev.g, Ev.x)
    [] Ev.op = "read"  -> ReadSome(Ev.x, Selected)
    [] Ev.op = "sub"   -> Sub(Ev.x, Ev.q, Ev.y)
    [] Ev.op = "next" /\ "y" \in DOMAIN Ev ->
         LET it == vw[Ev.x]
         IN  IF it.k # "desc"
             THEN IF it.ended /\ Ev.r = None THEN NextEndedInto(Ev.x, Ev.y) ELSE NextInto(Ev.x, Ev.y)
             ELSE IF Chosen(it) # -1 THEN NextDescInto(Ev.x, Chosen(it), Ev.y)
             ELSE IF it.rest = << >> THEN NextDescDoneInto(Ev.x, Ev.y)
             ELSE \E d \in {it.rest[1]} : NextDescInto(Ev.x, d, Ev.y)   \* a mismatch
    [] Ev.op = "next"  ->
         LET it == vw[Ev.x]
         IN  IF it.k # "desc" THEN IF it.ended /\ Ev.r = None THEN NextEnded(Ev.x) ELSE Next(Ev.x)
             ELSE IF Chosen(it) # -1 THEN NextDesc(Ev.x, Chosen(it))
             ELSE IF it.rest = << >> THEN NextDescDone(Ev.x)
             ELSE IF OnlyMissing(it)
             THEN /\ Report("KNOWN", <<"KF-DESC-C3", Cases[c].id>>)
                  /\ out' = << >> /\ UNCHANGED <<cpu, obj, vw>>
             ELSE \E d \in {it.rest[1]} : NextDesc(Ev.x, d)   \* a mismatch
    [] Ev.op = "skip"  -> Skip(Ev.x, Ev.n)
    [] Ev.op = "exec"  -> Execute(Ev.leaf, Ev.sub)
    [] Ev.op = "citer" -> CloneIter(Ev.x, Ev.y)
    [] Ev.op = "mig"   -> Migrate(<<c, Ev.i>>)
    [] Ev.op = "peek"  -> Peek(Ev.x, Ev.how, IF "n" \in DOMAIN Ev THEN Ev.n ELSE 0)
    [] Ev.op = "entry" -> Entry(Ev.h, Ev.d, Ev.x)
    [] Ev.op = "conv"  -> Convert(Ev.of, Ev.n)
    [] Ev.op = "numof" -> NumberOf(Ev.of, Ev.n)
    [] Ev.op \in {"show", "showid", "text", "eq", "table"} -> Look
    [] Ev.op \in {"dbg", "dbgid"} -> out' = Some /\ UNCHANGED <<cpu, obj, vw>>

View == IF Ev.op = "read" THEN vw[Ev.x]
        ELSE [t |-> ItemType(vw[Ev.x].k)]

Disagree(what, bad) ==
  \/ bad = << >>
  \/ /\ Report("MISMATCH", <<Cases[c].id, l, Ev.op, what,
               {<<bad[i], "agrees", "differs">> : i \in 1..Len(bad)}>>)
     /\ FALSE

\* Both debug representations say the same, and it is true
ShowAccepted ==
  IF Ev.op = "showid"
  THEN Accepted("-", Some) /\ Disagree("CpuId", BadObject(obj[Ev.h], M, Ev.d))
  ELSE \/ Ev.r = << >>
       \/ Accepted("-", Some) /\ Disagree(vw[Ev.x].t, BadHeld(vw[Ev.x], M, Ev.d))

TextAccepted ==
  LET bad == SelectSeq(Ev.d, LAMBDA e : ~TextOk(vw[Ev.x], M, e))
  IN  Accepted("-", Some) /\ Disagree(vw[Ev.x].t, [i \in 1..Len(bad) |-> bad[i].of])

EqAccepted ==
  LET a == vw[Ev.x]
      b == vw[Ev.y]
      say(e, s) == Ev.r = e \/ Disagree(a.t, << s >>)
  IN  IF a.t # b.t \/ a.t = "iter" \/ Ev.r = << >> THEN Ev.r = << >> \/ Disagree(a.t, << "comparable" >>)
      ELSE /\ MustEqual(a, b) => say(Some, "the same registers")
           /\ MustDiffer(a, b, M) => say(Nothing, "different values")

\* The table has one entry for each descriptor, and perhaps one for none
TableAccepted ==
  LET nums == {Ev.r[i][1] : i \in 1..Len(Ev.r)}
  IN  Disagree("CACHE_INFO_TABLE",
        (IF Cardinality(nums) = Len(Ev.r) THEN << >> ELSE << "one entry each" >>) \o
        (IF nums \ {0} = Descriptors \ Lacks THEN << >> ELSE << "descriptors" >>))

HintAccepted == HintOk(vw[Ev.x], M, Ev.r) \/ Disagree(vw[Ev.x].k, << "size_hint" >>)

Verdict ==
  CASE Mode = "reads" -> ReadsAccepted
    [] Mode = "total" -> Total
    [] Panicked(Ev.r) /\ Ev.op \in {"show", "showid", "text", "eq"} -> Accepted("-", Some)
    [] Ev.op \in {"show", "showid"} -> ShowAccepted
    [] Ev.op = "text" -> TextAccepted
    [] Ev.op = "eq" -> EqAccepted
    [] Ev.op = "table" /\ ~Panicked(Ev.r) -> TableAccepted
    [] Ev.op = "peek" /\ Ev.how = "hint" /\ ~Panicked(Ev.r) -> HintAccepted
    [] OTHER ->
         IF (Ev.op = "read") \/ (Ev.op = "next" /\ (out' # << >>) /\ (Ev.r # << >>))
         THEN FieldsAccepted(View, out', Ev.r)
         ELSE Accepted(IF "g" \in DOMAIN Ev THEN Ev.g
                       ELSE IF "q" \in DOMAIN Ev THEN Ev.q ELSE "-", out')

\* In the weaker modes a call may return something the model does not expect
\* (that is another property's business): from there on the model no longer
\* knows what the handles denote and only the recorded panics are judged.
Agrees == \/ Mode = "full"
          \/ Ev.op \notin {"get", "sub", "next", "skip"}
          \/ Ev.op = "next" /\ ((out' = << >>) <=> (Ev.r = << >>))
          \/ Ev.op # "next" /\ out' = Ev.r

\* Of a case that is marked `blind' (the CPU changes while calls run) nothing
\* but that is known from the start.
TraceInit == /\ c \in 1..Len(Cases) /\ l = 1
             /\ st = IF "blind" \in DOMAIN Cases[c] THEN "blind" ELSE "ok"
             /\ cpu = <<c, 1>> /\ obj = << >> /\ vw = << >> /\ out = << >>

Follow == /\ st = "ok" /\ l <= Len(Cases[c].ev)
          /\ Bound
          /\ st' = IF Verdict THEN (IF Agrees THEN "ok" ELSE "blind") ELSE "rejected"
          /\ l' = l + 1 /\ c' = c

Blind == /\ st = "blind" /\ l <= Len(Cases[c].ev)
         /\ st' = IF Mode = "total" /\ ~Total THEN "rejected" ELSE "blind"
         /\ l' = l + 1 /\ UNCHANGED <<c, cpu, obj, vw, out>>

TraceNext == Follow \/ Blind
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* Acceptance: TLC must find exactly one state per consumed call plus one per
\* case (the runner compares the count); a shorter count without a MISMATCH line
\* means that the trace is not a behaviour of the model.
=============================================================================
