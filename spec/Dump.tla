-------------------------------- MODULE Dump --------------------------------
(* Exports the model's tables for the stimulus generators (gen/).          *)
EXTENDS TLC, Json, IOUtils
VARIABLES cpu, obj, vw, out
NoMachine(p) == << >>
INSTANCE CpuId WITH Machine <- NoMachine
Tables == [ fields  |-> FieldsOf,
            views   |-> [g \in DOMAIN ViewGetters |->
                           [t |-> ViewGetters[g].t, slots |-> ViewGetters[g].slots]],
            iters   |-> IterGetters,
            queries |-> [t \in DOMAIN SubQueries |->
                           [q \in DOMAIN SubQueries[t] |->
                              [t |-> SubQueries[t][q].t, slots |-> SubQueries[t][q].slots]]],
            leaves  |-> LeafNum ]
ASSUME JsonSerialize(IOEnv.DUMP_FILE, Tables)
DumpInit == Init(1)
DumpNext == FALSE /\ UNCHANGED vars
=============================================================================
