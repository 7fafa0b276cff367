------------------------------- MODULE Walk_Iter -------------------------------
(***************************************************************************)
(* The graph of MC_Iter, written out (see Walk_Life): every enumeration,   *)
(* over every list of sub-leaves, an iterator and its copy in every        *)
(* interleaving.  The machine of a behaviour is the table picked first.    *)
(***************************************************************************)
EXTENDS MC_Iter, Json, IOUtils
CONSTANT Walked         \* the kinds of enumeration to write out

ItKey(v) == IF v.t = "iter" THEN <<v.pos, v.ended, v.rest>> ELSE << >>
Key == ToString(<<kind, phase, IF phase = "pick" THEN << >> ELSE cpu[LeafOf[kind]],
                  [x \in {1, 2, 9} |-> IF x \in DOMAIN vw THEN ItKey(vw[x]) ELSE <<0>>]>>)
Handles(iter) == {x \in DOMAIN vw : (vw[x].t = "iter") = iter}
E(op) == PrintT("EDGE " \o ToJson(<<Key, op, Key', Handles(FALSE)', Handles(TRUE)'>>))

WalkNext ==
  \/ Pick /\ E([op |-> "pick", m |-> cpu', endless |-> Endless'])
  \/ Build /\ E([op |-> "new", h |-> 1])
  \/ Open1 /\ E([op |-> "get", h |-> 1, g |-> Getter[kind], x |-> IF kind \in DOMAIN Query THEN 9 ELSE 1])
  \/ Open2 /\ E([op |-> "sub", x |-> 9, q |-> Query[kind], y |-> 1])
  \/ \E x \in {1, 2} : Step(x) /\ E([op |-> "next", x |-> x])
  \/ Copy /\ E([op |-> "citer", x |-> 1, y |-> 2])
WalkInit == IterInit /\ kind \in Walked
WalkSpec == WalkInit /\ [][WalkNext]_ivars
=============================================================================
