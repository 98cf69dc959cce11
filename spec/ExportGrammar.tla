--------------------------- MODULE ExportGrammar ---------------------------
(* Writes the grammar as data, for the generation of inputs from it. *)
EXTENDS Grammar, Json, IOUtils
VARIABLE done
Init == done = FALSE
Next == /\ ~done
        /\ JsonSerialize(IOEnv.OUT, Rules)
        /\ done' = TRUE
=============================================================================
