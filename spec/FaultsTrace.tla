---------------------------- MODULE FaultsTrace ----------------------------
(* Is each recorded trace a behaviour of Faults?  A line of the file: [id,    *)
(* kind, n, nodes, ev], ev being a sequence of events.                        *)
EXTENDS Faults, Json, IOUtils
VARIABLES id, i
Traces == ndJsonDeserialize(IOEnv.IN)
tr == Traces[id].ev
Init == \E k \in 1..Len(Traces) :
          /\ id = k /\ i = 1
          /\ Begin(Traces[k].kind, Traces[k].n, Traces[k].nodes)
Event(e) ==
    \/ e[1] = "T" /\ Try
    \/ e[1] = "R" /\ Refuse
    \/ e[1] = "D" /\ Deliver(e[2], e[3])
    \/ e[1] = "E" /\ Return(e[2], e[3], e[4])
    \/ e[1] = "K" /\ Kept(e[2])
    \/ e[1] = "S" /\ Change(e[2], e[3], e[4], e[5])
    \/ e[1] = "V" /\ Read(e[2])
    \/ e[1] = "L" /\ Released(e[2])
Step == i <= Len(tr) /\ Event(tr[i]) /\ i' = i + 1 /\ UNCHANGED id
(* a trace ends with everything released *)
Accept == /\ i = Len(tr) + 1 /\ phase = "idle"
          /\ PrintT(ToJson([id |-> id, at |-> 0])) /\ i' = i + 1 /\ UNCHANGED <<fvars, id>>
Reject == /\ i <= Len(tr) + 1 /\ ~ENABLED Step /\ ~(i = Len(tr) + 1 /\ phase = "idle")
          /\ PrintT(ToJson([id |-> id, at |-> i])) /\ i' = Len(tr) + 2 /\ UNCHANGED <<fvars, id>>
Next == Step \/ Accept \/ Reject
=============================================================================
