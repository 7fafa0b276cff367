------------------------------- MODULE MC_Life -------------------------------
(***************************************************************************)
(* The life of objects and views while the CPU behind the reader changes:  *)
(* every interleaving of constructing, cloning, asking, reading, sub-      *)
(* querying, iterating and migrating between CPUs of three kinds, with two *)
(* handles for objects and two for views.                                  *)
(*                                                                         *)
(*   born   object handle -> the CPU its identity was read from            *)
(*   from   view handle   -> the CPU its words were read from, and the     *)
(*                           CPU the identity behind it was read from      *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Objs,         \* the handles for objects
          Asked,        \* the getters to exercise
          Used          \* the CPUs to migrate between
VARIABLES cpu, obj, vw, out, born, from
lvars == <<cpu, obj, vw, out, born, from>>

Row(a, b, c, d) == <<a[1], a[2], b[1], b[2], c[1], c[2], d[1], d[2]>>
Z == <<0, 0>>
Pw(s, i) == <<s[i] + 256 * s[i + 1], s[i + 2] + 256 * s[i + 3]>>
L0of(max, s) == <<Row(max, Pw(s, 1), Pw(s, 9), Pw(s, 5))>>
IntelS == <<71, 101, 110, 117, 105, 110, 101, 73, 110, 116, 101, 108>>
AmdS   == <<65, 117, 116, 104, 101, 110, 116, 105, 99, 65, 77, 68>>

\* Three CPUs that differ in vendor, ranges, features and contents
AllCpus == <<
  [ L0 |-> L0of(<<23, 0>>, IntelS),
    L1 |-> <<Row(<<1697, 9>>, Z, <<512, 32768>>, <<1, 0>>)>>,
    L7 |-> <<Row(Z, <<4, 0>>, Z, Z), Row(Z, Z, Z, Z)>>,
    LF |-> <<Row(Z, <<9, 0>>, Z, <<2, 0>>), Row(Z, <<7, 0>>, <<3, 0>>, <<1, 0>>)>>,
    L12 |-> <<Row(<<1, 0>>, Z, Z, Z), Row(Z, Z, Z, Z), Row(<<4097, 0>>, Z, <<8193, 0>>, Z), Row(Z, Z, Z, Z)>>,
    L2 |-> <<Row(<<1, 0>>, <<73, 255>>, Z, Z)>>,
    L4 |-> <<Row(<<289, 0>>, <<63, 0>>, <<63, 0>>, Z), Row(Z, Z, Z, Z)>>,
    LD |-> <<Row(<<7, 0>>, <<832, 0>>, <<2696, 0>>, Z), Row(<<15, 0>>, Z, <<256, 0>>, Z),
             Row(<<256, 0>>, <<576, 0>>, Z, Z)>>,
    L10 |-> <<Row(Z, <<6, 0>>, Z, Z), Row(<<10, 0>>, <<3, 0>>, <<4, 0>>, <<15, 0>>),
              Row(<<7, 0>>, <<1, 0>>, Z, <<3, 0>>)>>,
    L17 |-> <<Row(<<5, 0>>, <<32902, 1>>, <<1, 0>>, <<2, 0>>), Row(Pw(IntelS, 1), Pw(IntelS, 5), Z, Z),
              Row(Z, Z, Z, Z), Row(Z, Z, Z, Z), Row(<<44, 0>>, Z, Z, Z), Row(<<55, 0>>, Z, Z, Z)>>,
    L40000000 |-> <<Row(<<16, 16384>>, Z, Z, Z)>>, L40000010 |-> <<Row(<<77, 0>>, <<78, 0>>, Z, Z)>>,
    L80000000 |-> <<Row(<<8, 32768>>, Z, Z, Z)>> ],
  [ L0 |-> L0of(<<16, 0>>, AmdS),
    L1 |-> <<Row(<<3857, 2208>>, Z, <<512, 0>>, Z)>>,
    L7 |-> <<Row(Z, <<32, 0>>, Z, Z), Row(Z, Z, Z, Z)>>,
    LF |-> <<Row(Z, <<5, 0>>, Z, Z), Row(Z, Z, Z, Z)>>,
    L4 |-> <<Row(<<33, 0>>, Z, Z, Z), Row(Z, Z, Z, Z)>>,
    LD |-> <<Row(<<6, 0>>, <<512, 0>>, <<512, 0>>, Z), Row(Z, Z, <<2048, 0>>, Z),
             Row(<<16, 0>>, <<960, 0>>, Z, Z)>>,
    L10 |-> <<Row(Z, <<10, 0>>, Z, Z), Row(<<15, 0>>, Z, Z, <<7, 0>>), Row(Z, Z, Z, Z),
              Row(<<89, 0>>, Z, <<4, 0>>, <<7, 0>>)>>,
    L80000020 |-> <<Row(Z, <<10, 0>>, Z, Z), Row(<<11, 0>>, Z, Z, <<15, 0>>), Row(Z, Z, Z, Z),
                    Row(Z, <<1, 0>>, <<127, 0>>, Z)>>,
    L8000001D |-> <<Row(<<67, 0>>, <<63, 0>>, <<127, 0>>, Z), Row(Z, Z, Z, Z)>>,
    L80000001 |-> <<Row(Z, Z, <<4, 0>>, Z)>>, L8000000A |-> <<Row(<<1, 0>>, Z, Z, <<9, 0>>)>>,
    L80000000 |-> <<Row(<<32, 32768>>, Z, Z, Z)>> ],
  [ L0 |-> L0of(<<15, 0>>, IntelS),
    L1 |-> <<Row(<<1697, 9>>, Z, <<512, 32768>>, <<1, 0>>)>>,
    LF |-> <<Row(Z, <<9, 0>>, Z, Z), Row(Z, Z, Z, Z)>>,
    L2 |-> <<Row(<<1, 0>>, <<0, 240>>, Z, Z)>>,
    L4 |-> <<Row(<<289, 0>>, <<63, 0>>, <<63, 0>>, Z), Row(<<67, 0>>, Z, Z, Z), Row(Z, Z, Z, Z)>>,
    L40000000 |-> <<Row(<<1, 16384>>, Z, Z, Z)>>,
    L80000000 |-> <<Row(Z, Z, Z, Z)>> ] >>
Cpus == [i \in Used |-> AllCpus[i]]
Mach(i) == AllCpus[i]
WithoutOut == <<cpu, obj, vw, born, from>>
INSTANCE CpuId WITH Machine <- Mach

LifeInit == Init(1) /\ born = << >> /\ from = << >>
Views == {1, 2}
Born(h) == born[h]

DoNew(h) == New(h) /\ born' = Put(born, h, cpu) /\ UNCHANGED from
DoClone(h, j) == CloneObj(h, j) /\ born' = Put(born, j, born[h]) /\ UNCHANGED from
DoGet(h, g, x) ==
  /\ Get(h, g, x) /\ UNCHANGED born
  /\ from' = IF out' = Some THEN Put(from, x, [at |-> cpu, id |-> born[h], g |-> g, q |-> "-"])
             ELSE Drop(from, x)
DoRead(x) == x \in DOMAIN vw /\ vw[x].t # "iter" /\ Read(x) /\ UNCHANGED <<born, from>>
DoSub(x, y) ==
  /\ x \in DOMAIN vw
  /\ \E q \in QueriesOf(vw[x]) :
       /\ Sub(x, q, y) /\ UNCHANGED born
       /\ from' = IF out' = Some THEN Put(from, y, [at |-> cpu, id |-> from[x].id, g |-> "-", q |-> q])
                  ELSE Drop(from, y)
DoNext(x) == /\ \/ Next(x) \/ NextEnded(x) \/ NextDescDone(x)
                \/ \E d \in Descriptors : NextDesc(x, d)
             /\ UNCHANGED <<born, from>>
\* The item is kept
DoKeep(x, y) == /\ \/ NextInto(x, y) \/ NextEndedInto(x, y) \/ NextDescDoneInto(x, y)
                   \/ \E d \in Descriptors : NextDescInto(x, d, y)
                /\ from' = IF out' = None THEN Drop(from, y)
                           ELSE Put(from, y, [at |-> cpu, id |-> from[x].id, g |-> "-", q |-> "item"])
                /\ UNCHANGED born
DoCopy(x, y) == CloneIter(x, y) /\ from' = Put(from, y, from[x]) /\ UNCHANGED born
DoMigrate == \E i \in DOMAIN Cpus : i # cpu /\ Migrate(i) /\ UNCHANGED <<born, from>>

LifeNext == \/ \E h \in Objs : DoNew(h) \/ (\E j \in Objs : h # j /\ DoClone(h, j))
            \/ \E h \in Objs, g \in Asked, x \in Views : DoGet(h, g, x)
            \/ \E x, y \in Views : x # y /\ (DoSub(x, y) \/ DoCopy(x, y) \/ DoKeep(x, y))
            \/ \E x \in Views : DoRead(x) \/ DoNext(x)
            \/ DoMigrate
LifeSpec == LifeInit /\ [][LifeNext]_lvars

----------------------------------------------------------------------------
(* P03: an object keeps the identity it latched                            *)
Latched == \A h \in DOMAIN obj : obj[h] = Latch(Cpus[born[h]])
Stable  == [][\A h \in DOMAIN obj : \A j \in DOMAIN obj' :
               (j = h /\ obj'[h] # obj[h]) => obj'[h] \in {Latch(M)} \cup {obj[i] : i \in DOMAIN obj}]_lvars

\* Views answer for the identity of the object they were made from
Inherits == \A x \in DOMAIN vw : vw[x].o = Latch(Cpus[from[x].id])

(* P26: a view is a snapshot of the CPU it was taken from                  *)
Snapshot == \A x \in DOMAIN vw :
  (vw[x].t # "iter" /\ from[x].g # "-") =>
    vw[x] = NewView(Latch(Cpus[from[x].id]), Cpus[from[x].at], from[x].g)
\* What a view reports does not depend on the CPU it is read on, except for
\* the hypervisor's frequencies
Steady == \A x \in DOMAIN vw : (vw[x].t \notin {"iter", "HypervisorInfo"}) =>
  \A i \in DOMAIN Cpus : AllValues(vw[x], Cpus[i]) = AllValues(vw[x], Cpus[cpu])
\* Nothing happens to a handle behind the program's back
Untouched == [][\A x \in DOMAIN vw : (x \in DOMAIN vw' /\ vw'[x] # vw[x]) =>
                  \/ vw[x].t = "iter" /\ vw'[x].t = "iter" /\ vw'[x].o = vw[x].o
                  \/ out' = Some
                  \/ from'[x].q = "item" /\ from[x] # from'[x]
                  \/ from'[x].q = "item" /\ \E y \in DOMAIN vw : vw'[y] # vw[y] /\ y # x /\ vw[y].t = "iter"]_lvars
\* A getter's answer follows from the latched identity and the present CPU
Answered == [][\A h \in DOMAIN obj, g \in Asked, x \in {1} :
                 DoGet(h, g, x) => (out' = Some <=> Present(Latch(Cpus[born[h]]), M, g))]_lvars
=============================================================================
