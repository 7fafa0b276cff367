------------------------------- MODULE Walk_Gate -------------------------------
(***************************************************************************)
(* The CPUs of MC_Gate, written out (see Walk_Life): one line per CPU with *)
(* what its getters answer there.                                          *)
(***************************************************************************)
EXTENDS MC_Gate, TLC, Json, IOUtils
WalkInit == GateInit /\ PrintT("EDGE " \o ToJson(cpu))
WalkNext == GateNext /\ PrintT("EDGE " \o ToJson(cpu'))
WalkSpec == WalkInit /\ [][WalkNext]_gvars
=============================================================================
