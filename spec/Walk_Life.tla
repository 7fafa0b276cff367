------------------------------- MODULE Walk_Life -------------------------------
(***************************************************************************)
(* The graph of MC_Life, written out: one line per transition, with the    *)
(* call of the driver that takes it.  gen/walks.py turns it into programs  *)
(* that take every transition; the driver runs them against the real code  *)
(* and Trace.tla judges what came back, so every transition of the small   *)
(* model is taken by the implementation too.                               *)
(***************************************************************************)
EXTENDS MC_Life, TLC, Json, IOUtils

Machines == JsonSerialize(IOEnv.WALK_MACHINES, AllCpus)
ASSUME Machines

\* What tells states apart, short
ItKey(v) == IF v.t = "iter" THEN <<v.pos, v.ended, v.last, v.rest, v.x0, v.xss>>
            ELSE IF "sub" \in DOMAIN v THEN <<v.sub>> ELSE IF "d" \in DOMAIN v THEN <<v.d>> ELSE << >>
At(f, x, Say(_)) == IF x \in DOMAIN f THEN Say(f[x]) ELSE << >>
Key == ToString(<<cpu, [h \in Objs |-> At(born, h, LAMBDA b : <<b>>)],
  [x \in Views |-> At(from, x, LAMBDA f : <<f.at, f.id, f.g, f.q>>)],
  [x \in Views |-> At(vw, x, ItKey)]>>)
\* The handles that can be looked at: views to read, iterators to drain a copy of
Handles(iter) == {x \in DOMAIN vw : (vw[x].t = "iter") = iter}
E(op) == PrintT("EDGE " \o ToJson(<<Key, op, Key', Handles(FALSE)', Handles(TRUE)'>>))

WalkNext ==
  \/ \E h \in Objs : \/ DoNew(h) /\ E([op |-> "new", h |-> h])
                     \/ \E j \in Objs : h # j /\ DoClone(h, j) /\ E([op |-> "clone", h |-> h, h2 |-> j])
  \/ \E h \in Objs, g \in Asked, x \in Views :
       DoGet(h, g, x) /\ E([op |-> "get", h |-> h, g |-> g, x |-> x])
  \/ \E x, y \in Views : x # y /\
       \/ x \in DOMAIN vw /\ \E q \in QueriesOf(vw[x]) :
            /\ Sub(x, q, y) /\ UNCHANGED born
            /\ from' = IF out' = Some THEN Put(from, y, [at |-> cpu, id |-> from[x].id, g |-> "-", q |-> q])
                       ELSE Drop(from, y)
            /\ E([op |-> "sub", x |-> x, q |-> q, y |-> y])
       \/ DoKeep(x, y) /\ E([op |-> "next", x |-> x, y |-> y])
       \/ DoCopy(x, y) /\ E([op |-> "citer", x |-> x, y |-> y])
  \/ \E x \in Views : \/ DoRead(x) /\ E([op |-> "read", x |-> x])
                      \/ DoNext(x) /\ E([op |-> "next", x |-> x])
  \/ \E i \in DOMAIN Cpus : i # cpu /\ Migrate(i) /\ UNCHANGED <<born, from>>
                            /\ E([op |-> "mig", i |-> i])
WalkSpec == LifeInit /\ [][WalkNext]_lvars
=============================================================================
