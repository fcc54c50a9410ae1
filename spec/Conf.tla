-------------------------------- MODULE Conf --------------------------------
(* What a run is parametrised with, and small helpers used everywhere. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
LOCAL INSTANCE SequencesExt
LOCAL EnvGet(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Seed == EnvGet("VERIF_SEED", "1")
Thorough == EnvGet("VERIF_TIER", "quick") = "thorough"
Tier(q, t) == IF Thorough THEN t ELSE q
(* field f of record r, or d *)
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
Has(r, f) == f \in DOMAIN r
Range0(n) == 0 .. (n - 1)
Fold(op(_, _), base, sq) == FoldLeft(op, base, sq)
AsSeq(S) == SetToSeq(S)
(* x; a record saying so where x cannot be evaluated (overridden in Java)    *)
Guarded(x) == x
(* record r with the fields of u added or replaced *)
With(r, u) == u @@ r
=============================================================================
