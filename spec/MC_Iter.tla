------------------------------- MODULE MC_Iter -------------------------------
(***************************************************************************)
(* Every enumeration, over every list of up to Len sub-leaves with         *)
(* interesting contents: two iterators, the second one cloned from the     *)
(* first at any point, advanced in any order and beyond their ends.        *)
(* What they report is compared with a declarative account of what there   *)
(* is to report; on a list that ends, enumeration ends.                    *)
(***************************************************************************)
EXTENDS Integers
CONSTANT Max            \* longest list of sub-leaves
VARIABLES cpu, obj, vw, out, kind, seen, over, phase
Mach(p) == p
INSTANCE CpuId WITH Machine <- Mach
ivars == <<cpu, obj, vw, out, kind, seen, over, phase>>

Kinds == {"desc", "cache", "topo", "topo2", "amdtopo", "dat", "sgx", "state", "attr"}
Getter == [desc |-> "cache_info", cache |-> "cache_parameters", topo |-> "extended_topology_info",
           topo2 |-> "extended_topology_info_v2", dat |-> "deterministic_address_translation_info",
           amdtopo |-> "extended_cpu_topology", sgx |-> "sgx_info",
           state |-> "extended_state_info", attr |-> "soc_vendor_info"]
Query == [sgx |-> "iter", state |-> "iter", attr |-> "get_vendor_attributes"]
LeafOf == [desc |-> "L2", cache |-> "L4", topo |-> "LB", topo2 |-> "L1F", dat |-> "L18",
           amdtopo |-> "L80000026", sgx |-> "L12", state |-> "LD", attr |-> "L17"]

Row(a, b, c, d) == a \o b \o c \o d
Z == ZeroW
Pw(i) == <<GenuineIntel[i] + 256 * GenuineIntel[i + 1], GenuineIntel[i + 2] + 256 * GenuineIntel[i + 3]>>
Lists(alpha) == UNION {[1..n -> alpha] : n \in 1..Max}
\* The register tables: the sub-leaves of the leaf the iterator enumerates
Subs(kd) ==
  CASE kd = "cache" -> Lists({Row(<<e, 0>>, Z, Z, Z) : e \in {0, 1, 35, 4, 31}})
    [] kd \in {"topo", "topo2", "amdtopo"} ->
         Lists({Row(<<1, 0>>, <<1, 0>>, <<x, 0>>, Z) : x \in {0, 1, 256, 1793, 65535}})
    [] kd = "sgx" -> {<<Row(Z, Z, Z, Z), Row(Z, Z, Z, Z)>> \o s :
         s \in Lists({Row(<<e, 0>>, <<1, 0>>, Z, Z) : e \in {0, 1, 17, 2, 15}})}
    [] kd = "attr" -> {<<Row(<<n, 0>>, Z, Z, Z), Row(<<1, 0>>, Z, Z, Z)>> : n \in {0, 3, 4, 5, 7}}
    [] kd = "dat" -> {[s EXCEPT ![1] = Row(<<n, 0>>, Z, Z, SubSeq(s[1], 7, 8))] :
         n \in 0..(Max + 1), s \in Lists({Row(<<9, 9>>, Z, Z, <<x, 0>>) : x \in {0, 1, 32, 6}})}
    [] kd = "state" -> {<<Row(x, Z, Z, Z), Row(Z, Z, y, Z), Row(<<1, 0>>, Z, Z, Z)>> :
         x, y \in {Z, <<4, 0>>, <<7, 0>>, <<772, 6>>, <<0, 32768>>, <<1, 16384>>}}
    [] kd = "desc" -> {<<Row(<<1 + 256 * p, 0>>, <<q, 256 * r>>, Z, <<s, 0>>)>> :
         p, q, r \in {0, 15, 73, 255}, s \in (IF Max = 2 THEN {0} ELSE {0, 73, 255})}

Table(kd, subs) ==
  (LeafOf[kd] :> subs) @@
  [L0 |-> <<Row(<<31, 0>>, Pw(1), Pw(9), Pw(5))>>,
   L7 |-> <<Row(Z, <<4, 0>>, Z, Z)>>,
   L80000000 |-> <<Row(<<38, 32768>>, Z, Z, Z)>>]
Tables(kd) == {Table(kd, s) : s \in Subs(kd)}

IterInit == /\ kind \in Kinds
            /\ cpu = << >> /\ obj = << >> /\ vw = << >> /\ out = << >>
            /\ seen = << >> /\ over = << >> /\ phase = "pick"
Ghost == <<kind, seen, over>>
Pick == /\ phase = "pick" /\ phase' = "new"
        /\ cpu' \in Tables(kind)
        /\ UNCHANGED <<obj, vw, out, kind, seen, over>>
Build == /\ phase = "new" /\ phase' = "get" /\ New(1) /\ UNCHANGED Ghost
Open1 == /\ phase = "get" /\ UNCHANGED kind
         /\ Get(1, Getter[kind], IF kind \in DOMAIN Query THEN 9 ELSE 1)
         /\ IF kind \in DOMAIN Query
            THEN phase' = (IF out' = Some THEN "sub" ELSE "none") /\ UNCHANGED <<seen, over>>
            ELSE phase' = "run" /\ seen' = (1 :> << >>) /\ over' = (1 :> FALSE)
Open2 == /\ phase = "sub" /\ Sub(9, Query[kind], 1)
         /\ phase' = (IF out' = Some THEN "run" ELSE "none")
         /\ seen' = (IF out' = Some THEN (1 :> << >>) ELSE << >>)
         /\ over' = (IF out' = Some THEN (1 :> FALSE) ELSE << >>)
         /\ kind' = kind
Step(x) == /\ phase = "run" /\ x \in DOMAIN vw
           /\ \/ Next(x) \/ NextEnded(x)
              \/ vw[x].t = "iter" /\ vw[x].k = "desc" /\ \E d \in Descriptors : NextDesc(x, d)
              \/ NextDescDone(x)
           /\ seen' = [seen EXCEPT ![x] = IF out' = None THEN @
                                          ELSE Append(@, IF vw[x].k = "desc" THEN out'[1][1]
                                                         ELSE vw'[x].pos - 1)]
           /\ over' = [over EXCEPT ![x] = @ \/ out' = None]
           /\ UNCHANGED <<kind, phase>>
Copy == /\ phase = "run" /\ 2 \notin DOMAIN vw /\ CloneIter(1, 2)
        /\ seen' = Put(seen, 2, seen[1]) /\ over' = Put(over, 2, over[1])
        /\ UNCHANGED <<kind, phase>>
IterNext == Pick \/ Build \/ Open1 \/ Open2 \/ Step(1) \/ Step(2) \/ Copy

----------------------------------------------------------------------------
(* What there is to report                                                 *)

\* Enumerations that stop before the first sub-leaf of no use
Stops(p) == LET r == Regs(cpu, LeafOf[kind], p)
            IN CASE kind = "cache" -> r[EAX][1] % 32 = 0 \/ r[EAX][1] % 32 > 3
                 [] kind \in {"topo", "topo2", "amdtopo"} -> r[ECX][1] \div 256 = 0
                 [] kind = "sgx" -> r[EAX][1] % 16 # 1
First == IF kind = "sgx" THEN 2 ELSE 0
Far == 2 * Max + 6
Run == {p \in First..Far : \A q \in First..p : ~Stops(q)}
\* Enumerations of a given set
Wanted ==
  CASE kind = "attr" -> {p \in 4..Far : p <= Regs(cpu, "L17", 0)[EAX][1]}
    [] kind = "dat" -> {p \in 0..Far : /\ p <= Regs(cpu, "L18", 0)[EAX][1]
                                       /\ Regs(cpu, "L18", p)[EDX][1] % 32 # 0}
    [] kind = "state" -> {p \in 2..31 : \/ BitAt(Regs(cpu, "LD", 0)[EAX], p) = 1
                                        \/ BitAt(Regs(cpu, "LD", 1)[ECX], p) = 1}
    [] OTHER -> Run
Seen(x) == {seen[x][i] : i \in 1..Len(seen[x])}
Sorted(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
Count(s, d) == Cardinality({i \in 1..Len(s) : s[i] = d})

\* Reported so far: the smallest of the wanted ones, in order, each once
Right == phase = "run" =>
  \A x \in DOMAIN seen :
    IF kind = "desc"
    THEN \A b \in {SelectSeq(KnownBag(cpu), LAMBDA d : d # 0)} : \A d \in Descriptors :
           /\ Count(seen[x], d) <= Count(b, d)
           /\ over[x] => Count(seen[x], d) = Count(b, d)
           /\ d \in {73, 255} => Count(b, d) = Cardinality(
                {i \in 2..16 : (Bytes(Regs(cpu, "L2", 0)[1]) \o Bytes(Regs(cpu, "L2", 0)[2]) \o
                  Bytes(Regs(cpu, "L2", 0)[3]) \o Bytes(Regs(cpu, "L2", 0)[4]))[i] = d})
    ELSE \A w \in {Wanted} :
           /\ Seen(x) \subseteq w /\ Sorted(seen[x])
           /\ \A p \in w, q \in Seen(x) : p < q => p \in Seen(x)
           /\ over[x] => Seen(x) = w

\* A list that never ends: do not look at more than this of it
Bound == \A x \in DOMAIN seen : Len(seen[x]) <= IF kind = "state" THEN 32 ELSE Max + 4

\* Once an iterator has reported its end it has reported it for good
Fused == [][\A x \in DOMAIN over : over[x] => seen'[x] = seen[x]]_ivars
\* A clone starts where the original is and then leads its own life
Independent == [][\A x \in DOMAIN seen : \A y \in DOMAIN seen' :
   (y \in DOMAIN seen /\ seen[x] # seen'[x] /\ x # y) => seen'[y] = seen[y]]_ivars

Endless == kind \in {"cache", "topo", "topo2", "amdtopo", "sgx"} /\ ~Stops(Far)

\* What an iterator has left is what it has not reported yet
Ahead == phase = "run" /\ ~Endless =>
  \A x \in DOMAIN seen :
    LET left == Left(vw[x], cpu)
    IN  /\ Consumed(vw[x], cpu, "count", 0) = << Num(Len(left)) >>
        /\ IF kind = "desc" THEN Len(left) + Len(seen[x]) = Len(KnownBag(cpu))
           ELSE LET ps == [i \in 1..Len(left) |-> left[i].sub]
                IN  /\ Sorted(ps)
                    /\ {ps[i] : i \in 1..Len(ps)} = Wanted \ Seen(x)
                    /\ Consumed(vw[x], cpu, "nth", Len(left)) = None
                    /\ left # << >> => Consumed(vw[x], cpu, "nth", Len(left) - 1)
                                       = Consumed(vw[x], cpu, "last", 0)

Ends == (phase = "run" /\ ~Endless) ~> (phase = "run" /\ (over[1] \/ Endless))
IterSpec == IterInit /\ [][IterNext]_ivars /\ WF_ivars(Step(1))
=============================================================================
