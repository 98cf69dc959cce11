---------------------------- MODULE ExpectQuick -----------------------------
(* Computes what the specification of the quick parser expects. *)
EXTENDS QuickProps, Json, IOUtils
VARIABLE id
Inputs == ndJsonDeserialize(IOEnv.IN)

Init == \E k \in 1..Len(Inputs) : id = k /\ QuickInit(Inputs[k].t, Inputs[k].c)
Step == NextQuick /\ UNCHANGED id
Write == /\ stop /\ pos # 0
         /\ JsonSerialize(IOEnv.OUT \o "/" \o ToString(id) \o ".json",
                          [id |-> Inputs[id].id, segs |-> segs])
         /\ pos' = 0 /\ UNCHANGED <<text, cfg, segs, stop, id>>
Next == Step \/ Write
=============================================================================
