------------------------------- MODULE Leaves -------------------------------
(***************************************************************************)
(* The CPU behind the library: a table of register words per leaf and      *)
(* sub-leaf, and the ranges of leaves it advertises.                       *)
(*                                                                         *)
(* A machine maps leaf names ("L1", "L80000008", ..) to the non-empty      *)
(* sequence of its sub-leaves; a sub-leaf is the tuple                     *)
(* <<eax.lo, eax.hi, ebx.lo, .., edx.hi>>.  Sub-leaves beyond the sequence *)
(* repeat its last entry, leaves that are not in the table read as zero.   *)
(***************************************************************************)
EXTENDS Words

LeafNum == [
  L0 |-> <<0, 0>>, L1 |-> <<1, 0>>, L2 |-> <<2, 0>>, L3 |-> <<3, 0>>,
  L4 |-> <<4, 0>>, L5 |-> <<5, 0>>, L6 |-> <<6, 0>>, L7 |-> <<7, 0>>,
  L9 |-> <<9, 0>>, LA |-> <<10, 0>>, LB |-> <<11, 0>>, LD |-> <<13, 0>>,
  LF |-> <<15, 0>>, L10 |-> <<16, 0>>, L12 |-> <<18, 0>>,
  L14 |-> <<20, 0>>, L15 |-> <<21, 0>>, L16 |-> <<22, 0>>,
  L17 |-> <<23, 0>>, L18 |-> <<24, 0>>, L1F |-> <<31, 0>>,
  L40000000 |-> <<0, 16384>>, L40000010 |-> <<16, 16384>>,
  L80000000 |-> <<0, 32768>>, L80000001 |-> <<1, 32768>>,
  L80000002 |-> <<2, 32768>>, L80000003 |-> <<3, 32768>>,
  L80000004 |-> <<4, 32768>>, L80000005 |-> <<5, 32768>>,
  L80000006 |-> <<6, 32768>>, L80000007 |-> <<7, 32768>>,
  L80000008 |-> <<8, 32768>>, L8000000A |-> <<10, 32768>>,
  L80000019 |-> <<25, 32768>>, L8000001A |-> <<26, 32768>>,
  L8000001B |-> <<27, 32768>>, L8000001D |-> <<29, 32768>>,
  L8000001E |-> <<30, 32768>>, L8000001F |-> <<31, 32768>>,
  L80000020 |-> <<32, 32768>>, L80000021 |-> <<33, 32768>>,
  L80000022 |-> <<34, 32768>>, L80000023 |-> <<35, 32768>>,
  L80000026 |-> <<38, 32768>> ]

LeafNames == DOMAIN LeafNum

\* Leaves that an AMD CPU reserves even if they lie inside its basic range
AmdReservedNum == { <<2, 0>>, <<3, 0>>, <<4, 0>>, <<8, 0>>, <<9, 0>>, <<10, 0>> }

ZeroRegs == <<0, 0, 0, 0, 0, 0, 0, 0>>

\* The eight limbs of a sub-leaf
Raw(m, leaf, sub) ==
  IF leaf \notin DOMAIN m THEN ZeroRegs
  ELSE LET subs == m[leaf]
       IN  IF sub < Len(subs) THEN subs[sub + 1] ELSE subs[Len(subs)]

\* The four words of a sub-leaf
Regs(m, leaf, sub) ==
  LET r == Raw(m, leaf, sub)
  IN  << <<r[1], r[2]>>, <<r[3], r[4]>>, <<r[5], r[6]>>, <<r[7], r[8]>> >>

----------------------------------------------------------------------------
(* The identity of a CPU as the library latches it when it is constructed. *)

\* "GenuineIntel", "AuthenticAMD", "HygonGenuine" in EBX, EDX, ECX order
VendorBytes(m) == LET r == Regs(m, "L0", 0)
                  IN  Bytes(r[2]) \o Bytes(r[4]) \o Bytes(r[3])
GenuineIntel == <<71, 101, 110, 117, 105, 110, 101, 73, 110, 116, 101, 108>>
AuthenticAMD == <<65, 117, 116, 104, 101, 110, 116, 105, 99, 65, 77, 68>>
HygonGenuine == <<72, 121, 103, 111, 110, 71, 101, 110, 117, 105, 110, 101>>

VendorOf(m) == LET b == VendorBytes(m)
               IN  IF b = GenuineIntel THEN "Intel"
                   ELSE IF b \in {AuthenticAMD, HygonGenuine} THEN "Amd"
                   ELSE "Other"

Latch(m) == [ vendor |-> VendorOf(m),
              maxb   |-> Regs(m, "L0", 0)[1],
              maxe   |-> Regs(m, "L80000000", 0)[1] ]

\* Is the leaf numbered w within what the object o may use?
AvailNum(o, w) ==
  /\ ~(o.vendor = "Amd" /\ w \in AmdReservedNum)
  /\ IF w[2] < 32768 THEN WLeq(w, o.maxb) ELSE WLeq(w, o.maxe)
Avail(o, leaf) == AvailNum(o, LeafNum[leaf])
=============================================================================
