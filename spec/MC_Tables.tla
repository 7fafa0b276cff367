------------------------------ MODULE MC_Tables ------------------------------
(***************************************************************************)
(* Sanity of the accessor tables, checked exhaustively over every view,    *)
(* register and bit: an accessor depends on exactly the bits the table     *)
(* names, every bit field of a view is told apart from every other one     *)
(* (except for the documented aliases), flags are flags and numbers fit.   *)
(***************************************************************************)
EXTENDS Decode, FiniteSets, Integers, Json, IOUtils
VARIABLES t, r, b, vendor, ones
vars == <<t, r, b, vendor, ones>>

\* Views that are decoded from register words alone
Plain == DOMAIN FieldsOf \ {"CacheInfo"}
\* The views to look at (all of them unless the runner names some)
Types == IF "MC_TYPES" \in DOMAIN IOEnv
         THEN LET s == ndJsonDeserialize(IOEnv.MC_TYPES)[1]
              IN  {s[i] : i \in 1..Len(s)} \cap Plain
         ELSE Plain
Vendors == {"Intel", "Amd", "Other"}

W0 == [i \in 1..12 |-> ZeroW]
W1s == [i \in 1..12 |-> <<65535, 65535>>]
NW(x) == CASE x \in {"ProcessorBrandString", "SoCVendorBrand"} -> 12
          [] x \in {"ProcessorSerial", "ExtendedFeatures", "ExtendedStateInfo", "SgxInfo",
                    "ProcessorTraceInfo"} -> 8
          [] OTHER -> 4
FlipBit(w, i) ==
  IF i < 16 THEN <<IF BitAt(w, i) = 1 THEN w[1] - Pow2(i) ELSE w[1] + Pow2(i), w[2]>>
  ELSE <<w[1], IF BitAt(w, i) = 1 THEN w[2] - Pow2(i - 16) ELSE w[2] + Pow2(i - 16)>>

View(w) == [t |-> t, vendor |-> vendor, w |-> SubSeq(w, 1, NW(t)), sub |-> 3]
NoCpu == [L0 |-> << ZeroRegs >>]

Base == IF ones THEN W1s ELSE W0
Flipped == IF r = 0 \/ b = -1 THEN Base ELSE [Base EXCEPT ![r] = FlipBit(@, b)]

Init == t \in Types /\ r = 0 /\ b = 0 /\ vendor = "Other" /\ ones = FALSE
Next == \/ /\ r = 0                       \* pick a register, then the rest
           /\ r' \in 1..NW(t) /\ b' = -1 /\ UNCHANGED <<t, vendor, ones>>
        \/ /\ b = -1
           /\ b' \in 0..31 /\ r' = r
           /\ vendor' \in (IF \E i \in 1..Len(FieldsOf[t]) : FieldsOf[t][i].k = "amd"
                           THEN Vendors ELSE {"Amd"})
           /\ ones' \in BOOLEAN
           /\ t' = t

Fs == FieldsOf[t]
\* Flipping one bit changes exactly the table's accessors of that bit
Local == (r # 0 /\ b # -1) =>
  \A v \in {View(Base)}, x \in {View(Flipped)}, fs \in {Fs} :
      \A i \in 1..Len(fs) :
        LET f == fs[i]
            in == f.r = r /\ f.lo <= b /\ b <= f.hi
            changed == Value(v, f, NoCpu) # Value(x, f, NoCpu)
        IN CASE f.k = "spec" -> TRUE
             [] f.k = "amd"  -> changed <=> (in /\ vendor = "Amd")
             [] f.k \in {"assoc1", "assoc2"} -> changed => in    \* reserved codes collapse
             [] OTHER -> changed <=> in

\* Observed values are well formed
Aliases == { {"has_av512vbmi2", "has_avx512vbmi2"} }

WellFormed ==
  \A v \in {View(Flipped)}, fs \in {Fs} : \A i \in 1..Len(fs) :
     LET f == fs[i]  x == Value(v, f, NoCpu)
     IN CASE f.k \in {"bit", "amd"} -> x \in { <<0>>, <<1>> }
          [] f.k \in {"num", "num1", "word", "word1"} ->
               /\ Len(x) >= 1 /\ \A k \in 1..Len(x) : x[k] \in 0..65535
               /\ Len(x) > 1 => x[Len(x)] # 0
          [] OTHER -> \A k \in 1..Len(x) : x[k] \in 0..65535

\* Two accessors never report the same bits, a flag may lie within a number
ASSUME \A x \in Plain : LET Gs == FieldsOf[x] IN
  \A i, j \in 1..Len(Gs) : (i < j /\ Gs[i].k # "spec" /\ Gs[j].k # "spec") =>
     /\ Gs[i].n # Gs[j].n
     /\ \/ Gs[i].r # Gs[j].r
        \/ Gs[i].hi < Gs[j].lo \/ Gs[j].hi < Gs[i].lo
        \/ Gs[i].hi - Gs[i].lo # Gs[j].hi - Gs[j].lo
        \/ (Print(<<"alias", x, Gs[i].n, Gs[j].n>>, TRUE) /\ {Gs[i].n, Gs[j].n} \in Aliases)

\* AMD-only flags are never reported elsewhere
AmdOnly == vendor # "Amd" =>
  \A i \in 1..Len(Fs) : Fs[i].k = "amd" => Value(View(Base), Fs[i], NoCpu) = <<0>>

ASSUME \A x \in Plain : \A i \in 1..Len(FieldsOf[x]) :
  LET f == FieldsOf[x][i]
  IN f.k = "spec" \/ (f.r \in 1..8 /\ 0 <= f.lo /\ f.lo <= f.hi /\ f.hi <= 31)
=============================================================================
