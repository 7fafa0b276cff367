----------------------------- MODULE MC_Published -----------------------------
(***************************************************************************)
(* What the library publishes apart from CPUs says the same as what it     *)
(* says about CPUs: for every descriptor byte, every state component and   *)
(* every topology level type, an enumeration of a CPU that has exactly     *)
(* that reports what the published value says.                             *)
(***************************************************************************)
EXTENDS Integers
VARIABLES cpu, obj, vw, out, of, n, said, phase
Mach(p) == p
INSTANCE CpuId WITH Machine <- Mach
pvars == <<cpu, obj, vw, out, of, n, said, phase>>

Z == ZeroW
Row(a, b, c, d) == a \o b \o c \o d
Pw(i) == <<GenuineIntel[i] + 256 * GenuineIntel[i + 1], GenuineIntel[i + 2] + 256 * GenuineIntel[i + 3]>>
Bit(p) == IF p < 16 THEN <<Pow2(p), 0>> ELSE <<0, Pow2(p - 16)>>
Leaf == [entry |-> "L2", register |-> "LD", level |-> "L80000026",
         cache |-> "L4", topology |-> "LB", dat |-> "L18"]
Getter == [entry |-> "cache_info", register |-> "extended_state_info",
           level |-> "extended_cpu_topology", cache |-> "cache_parameters",
           topology |-> "extended_topology_info", dat |-> "deterministic_address_translation_info"]
Shown == [entry |-> "CacheInfo", register |-> "register", level |-> "level_type", cache |-> "cache_type",
          topology |-> "level_type", dat |-> "cache_type"]
Numbers == [entry |-> 0..255, register |-> 2..31, level |-> 1..255, cache |-> 1..3,
            topology |-> 1..5, dat |-> 1..5]
Subs == CASE of = "entry"    -> << Row(<<1, 0>>, Z, <<n, 0>>, Z) >>
          [] of = "register" -> << Row(Bit(n), Z, Z, Z), Row(Z, Z, Z, Z), Row(<<1, 0>>, Z, Z, Z) >>
          [] of = "level"    -> << Row(Z, Z, <<256 * n, 0>>, Z), Row(Z, Z, Z, Z) >>
          [] of = "cache"    -> << Row(<<n, 0>>, Z, Z, Z), Row(Z, Z, Z, Z) >>
          [] of = "topology" -> << Row(Z, Z, <<256 * n, 0>>, Z), Row(Z, Z, Z, Z) >>
          [] of = "dat"      -> << Row(Z, Z, Z, <<n, 0>>) >>
Table == (Leaf[of] :> Subs) @@ [L0 |-> <<Row(<<31, 0>>, Pw(1), Pw(9), Pw(5))>>,
                                L80000000 |-> <<Row(<<38, 32768>>, Z, Z, Z)>>]

PInit == /\ of \in DOMAIN Leaf /\ n \in Numbers[of]
         /\ cpu = Table /\ obj = << >> /\ vw = << >> /\ out = << >>
         /\ said = << >> /\ phase = "new"
Go(from, to) == phase = from /\ phase' = to /\ UNCHANGED <<of, n>>
PNext ==
  \/ Go("new", "ask") /\ New(1) /\ said' = << >>
  \/ /\ Go("ask", "get")
     /\ CASE of = "entry" -> Entry(1, n, 5)
          [] of \in {"register", "level"} -> Convert(of, n)
          [] OTHER -> NumberOf(of, n)
     /\ said' = out'
  \/ Go("get", IF of = "register" THEN "sub" ELSE "next") /\ Get(1, Getter[of], 1) /\ said' = said
  \/ Go("sub", "next") /\ Sub(1, "iter", 1) /\ said' = said
  \/ Go("next", "end") /\ said' = said
     /\ IF of # "entry" THEN NextInto(1, 2)
        ELSE NextDescInto(1, n, 2) \/ NextDescDoneInto(1, 2)

Index(t) == CHOOSE i \in 1..Len(FieldsOf[t]) : FieldsOf[t][i].n = Shown[of]
Agree == phase = "end" =>
  IF of = "entry"
  THEN IF said = Nothing THEN out = None /\ 2 \notin DOMAIN vw
       ELSE said = Some /\ vw[2] = [vw[5] EXCEPT !.o = vw[2].o] /\ AllValues(vw[5], cpu) = out
  ELSE out[Index(vw[2].t)] = said[1]
PSpec == PInit /\ [][PNext]_pvars
=============================================================================
