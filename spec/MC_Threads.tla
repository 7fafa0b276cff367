----------------------------- MODULE MC_Threads -----------------------------
(***************************************************************************)
(* Two threads with handles of their own for views, which use one object   *)
(* in every interleaving.  Next to what they share there is the world each *)
(* of them would see alone: vw1 and out1, vw2 and out2.  A thread's answers *)
(* are those of its own world, whatever the other one does.                *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS Asked1, Asked2        \* the getters of the threads
VARIABLES cpu, obj, vw, out, vw1, out1, vw2, out2
tvars == <<cpu, obj, vw, out, vw1, out1, vw2, out2>>

Row(a, b, c, d) == <<a[1], a[2], b[1], b[2], c[1], c[2], d[1], d[2]>>
Z == <<0, 0>>
Cpus == << [
  L0 |-> <<Row(<<23, 0>>, <<25927, 30062>>, <<29806, 27749>>, <<28265, 18789>>)>>,
  L1 |-> <<Row(<<1697, 9>>, Z, <<512, 32768>>, <<1, 0>>)>>,
  L7 |-> <<Row(Z, <<4, 0>>, Z, Z), Row(Z, Z, Z, Z)>>,
  L12 |-> <<Row(<<1, 0>>, Z, Z, Z), Row(Z, Z, Z, Z), Row(<<4097, 0>>, Z, <<8193, 0>>, Z), Row(Z, Z, Z, Z)>>,
  L2 |-> <<Row(<<1, 0>>, <<73, 240>>, Z, Z)>>,
  L4 |-> <<Row(<<289, 0>>, <<63, 0>>, <<63, 0>>, Z), Row(<<67, 0>>, Z, Z, Z), Row(Z, Z, Z, Z)>>,
  L10 |-> <<Row(Z, <<6, 0>>, Z, Z), Row(<<10, 0>>, <<3, 0>>, <<4, 0>>, <<15, 0>>),
            Row(<<7, 0>>, <<1, 0>>, Z, <<3, 0>>)>>,
  L40000000 |-> <<Row(<<16, 16384>>, Z, Z, Z)>>, L40000010 |-> <<Row(<<77, 0>>, <<78, 0>>, Z, Z)>>,
  L80000000 |-> <<Row(<<8, 32768>>, Z, Z, Z)>> ] >>
Mach(i) == Cpus[i]

All == INSTANCE CpuId WITH Machine <- Mach
One == INSTANCE CpuId WITH Machine <- Mach, vw <- vw1, out <- out1
Two == INSTANCE CpuId WITH Machine <- Mach, vw <- vw2, out <- out2

Own(t) == {2 * t - 1, 2 * t}
Asked(t) == IF t = 1 THEN Asked1 ELSE Asked2
ThreadsInit ==
  /\ cpu = 1 /\ obj = (1 :> All!Latch(Cpus[1])) /\ vw = << >> /\ out = << >>
  /\ vw1 = << >> /\ out1 = << >> /\ vw2 = << >> /\ out2 = << >>

Alone1 == UNCHANGED <<vw2, out2>>
Alone2 == UNCHANGED <<vw1, out1>>

\* A call of thread t, in the world they share and in the one of its own
DoGet(t, g, x) ==
  All!Get(1, g, x) /\ IF t = 1 THEN One!Get(1, g, x) /\ Alone1 ELSE Two!Get(1, g, x) /\ Alone2
DoRead(t, x) ==
  All!Read(x) /\ IF t = 1 THEN One!Read(x) /\ Alone1 ELSE Two!Read(x) /\ Alone2
DoSub(t, x, q, y) ==
  All!Sub(x, q, y) /\ IF t = 1 THEN One!Sub(x, q, y) /\ Alone1 ELSE Two!Sub(x, q, y) /\ Alone2
DoNext(t, x, y) ==
  \/ All!NextInto(x, y) /\ IF t = 1 THEN One!NextInto(x, y) /\ Alone1 ELSE Two!NextInto(x, y) /\ Alone2
  \/ All!NextDescDoneInto(x, y)
     /\ IF t = 1 THEN One!NextDescDoneInto(x, y) /\ Alone1 ELSE Two!NextDescDoneInto(x, y) /\ Alone2
  \/ \E d \in All!Descriptors : All!NextDescInto(x, d, y)
     /\ IF t = 1 THEN One!NextDescInto(x, d, y) /\ Alone1 ELSE Two!NextDescInto(x, d, y) /\ Alone2
DoCopy(t, x, y) ==
  All!CloneIter(x, y) /\ IF t = 1 THEN One!CloneIter(x, y) /\ Alone1 ELSE Two!CloneIter(x, y) /\ Alone2

Step(t) ==
  \E x \in Own(t) :
    \/ \E g \in Asked(t) : DoGet(t, g, x)
    \/ /\ x \in DOMAIN vw
       /\ \/ DoRead(t, x)
          \/ \E y \in Own(t) \ {x} :
               \/ \E q \in All!QueriesOf(vw[x]) : DoSub(t, x, q, y)
               \/ DoNext(t, x, y)
               \/ DoCopy(t, x, y)
ThreadsNext == Step(1) \/ Step(2)
ThreadsSpec == ThreadsInit /\ [][ThreadsNext]_tvars

----------------------------------------------------------------------------
\* A call is possible when it would be alone, and with the same answer
Answered1 == [][\A x \in Own(1) : (x \in DOMAIN vw <=> x \in DOMAIN vw1)
                  /\ (out1' # out1 => out' = out1')]_tvars
Answered2 == [][\A x \in Own(2) : (x \in DOMAIN vw <=> x \in DOMAIN vw2)
                  /\ (out2' # out2 => out' = out2')]_tvars
\* Each holds what it would hold alone
Separate == /\ \A x \in Own(1) : x \in DOMAIN vw => x \in DOMAIN vw1 /\ vw[x] = vw1[x]
            /\ \A x \in Own(2) : x \in DOMAIN vw => x \in DOMAIN vw2 /\ vw[x] = vw2[x]
            /\ DOMAIN vw = (DOMAIN vw1) \cup (DOMAIN vw2)
\* What they share stays what it was
Common == obj = (1 :> All!Latch(Cpus[1])) /\ cpu = 1
\* Whether a thread can go on does not depend on the other one
Free == /\ \A x \in Own(1) : x \in DOMAIN vw1 /\ vw1[x].t # "iter" => ENABLED DoRead(1, x)
        /\ \A x \in Own(2) : x \in DOMAIN vw2 /\ vw2[x].t # "iter" => ENABLED DoRead(2, x)
WithoutOut == <<cpu, obj, vw, vw1, vw2>>
=============================================================================
