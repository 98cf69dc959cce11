------------------------------ MODULE PumpQuick ------------------------------
(* Pump, for the quick parser. *)
EXTENDS QuickProps, Growth, Json, IOUtils
VARIABLES id, runs
Inputs == ndJsonDeserialize(IOEnv.IN)
it == Inputs[id]
RECURSIVE Times(_, _)
Times(u, n) == IF n = 0 THEN <<>> ELSE u \o Times(u, n - 1)
TextOf(x, n) == x.p \o Times(x.u, n) \o x.s
Most == 7
Init == \E k \in 1..Len(Inputs) :
          id = k /\ runs = <<>> /\ QuickInit(TextOf(Inputs[k], 2), Inputs[k].c)
Step == NextQuick /\ UNCHANGED <<id, runs>>
SegVal(s) == [v |-> [k |-> <<s.kind, s.eof>>, f |-> s.start \o s.end \o s.next, l |-> <<s.text>>], nodes |-> <<>>, errs |-> <<>>]
Expectation == [i \in 1..Len(segs) |-> SegVal(segs[i])]
NextRun == /\ stop /\ Len(runs) < Most - 2
           /\ runs' = Append(runs, Expectation)
           /\ text' = TextOf(it, Len(runs') + 2) /\ pos' = 1 /\ segs' = <<>> /\ stop' = FALSE
           /\ UNCHANGED <<id, cfg>>
Holds(rs) == /\ Regular(rs[1], rs[2], rs[3])
             /\ \A n \in 5..Most : rs[n - 1] = Predicted(rs[1], rs[2], rs[3], n)
Done == /\ stop /\ Len(runs) = Most - 2
        /\ runs' = Append(runs, Expectation)
        /\ JsonSerialize(IOEnv.OUT \o "/" \o ToString(id) \o ".json",
                         [id |-> it.id, holds |-> Holds(runs'), e |-> SubSeq(runs', 1, 3)])
        /\ UNCHANGED <<text, cfg, pos, segs, stop, id>>
Next == Step \/ NextRun \/ Done
PumpHolds == (Len(runs) = Most - 1 /\ it.must) => Holds(runs)
=============================================================================
