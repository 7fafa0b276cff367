------------------------------ MODULE MC_Family ------------------------------
(***************************************************************************)
(* The family and model rules against the manuals' own formulations, for   *)
(* every signature.                                                        *)
(***************************************************************************)
EXTENDS Decode, Integers
VARIABLES vendor, bf, xf, bm, xm
vars == <<vendor, bf, xf, bm, xm>>

\* family depends on bf and xf, model on bf, bm and xm
Init == /\ vendor \in {"Intel", "Amd", "Other"} /\ bf \in 0..15
        /\ \/ xf \in 0..255 /\ bm \in {0, 5, 15} /\ xm \in {0, 9, 15}
           \/ xf \in {0, 1, 255} /\ bm \in 0..15 /\ xm \in 0..15
Next == FALSE /\ UNCHANGED vars

V == [t |-> "FeatureInfo", vendor |-> vendor,
      w |-> << <<bm * 16 + bf * 256, xm + xf * 16>>, ZeroW, ZeroW, ZeroW >>]

\* SDM vol. 2A, CPUID: DisplayFamily and DisplayModel
Intel == vendor = "Intel" =>
  /\ Family(V) = IF bf # 15 THEN bf ELSE (xf + bf) % 256
  /\ Model(V) = IF bf = 6 \/ bf = 15 THEN xm * 16 + bm ELSE bm
\* APM vol. 3, CPUID Fn0000_0001_EAX: extended fields only count if bf = 0Fh
Amd == vendor = "Amd" =>
  /\ Family(V) = IF bf = 15 THEN (xf + 15) % 256 ELSE bf
  /\ Model(V) = IF bf = 15 THEN xm * 16 + bm ELSE bm
Other == vendor = "Other" =>
  /\ Family(V) = (bf + xf) % 256 /\ Model(V) = xm * 16 + bm
Ranges == Family(V) \in 0..255 /\ Model(V) \in 0..255
\* A CPU that does not use the extended fields is the same under every rule
Agree == (xf = 0 /\ xm = 0) => Family(V) = bf /\ Model(V) = bm
=============================================================================
