-------------------------------- MODULE Pump --------------------------------
(* For each item [id, p, u, s, c]: sessions over p \o u^n \o s, n = 2..7.    *)
(* `holds`: what is expected for 5, 6 and 7 repetitions is what Growth       *)
(* derives from 2, 3 and 4.                                                  *)
EXTENDS Session, Props, Growth, Json, IOUtils
VARIABLES id, runs
Inputs == ndJsonDeserialize(IOEnv.IN)
it == Inputs[id]
RECURSIVE Times(_, _)
Times(u, n) == IF n = 0 THEN <<>> ELSE u \o Times(u, n - 1)
TextOf(x, n) == x.p \o Times(x.u, n) \o x.s
Most == 7
Init == \E k \in 1..Len(Inputs) :
          id = k /\ runs = <<>> /\ SessionInit(TextOf(Inputs[k], 2), Inputs[k].c)
Step == NextSegment /\ UNCHANGED <<id, runs>>

(* The expectation as Growth has it. *)
OpNames == <<"EQUAL", "NEQUAL", "LT", "LTE", "GT", "GTE">>
Letter(v) == SubSeq(ToString(v), 1, 1)
OpNumber(x) == CHOOSE i \in Idx(OpNames) : OpNames[i] = x
RoleList(v) == CASE Letter(v) \in {"T", "F"} -> <<IF v THEN 1 ELSE 0>>
                 [] Letter(v) = "<" -> [i \in Idx(v) |-> IF Letter(v[i]) = "\"" THEN OpNumber(v[i]) ELSE v[i]]
                 [] Letter(v) = "\"" -> <<>>
                 [] OTHER -> <<v>>
RoleName(r) == IF Letter(r[2]) = "\"" THEN <<r[1], r[2]>> ELSE <<r[1]>>
NodeVal(n) == [k |-> <<n.t, [i \in Idx(n.r) |-> RoleName(n.r[i])]>>,
               f |-> <<n.o>> \o n.s \o n.e,
               l |-> <<n.ch>> \o [i \in Idx(n.r) |-> RoleList(n.r[i][2])]]
SegVal(s) == [v |-> [k |-> <<s.eof>>, f |-> s.start \o s.end \o <<s.directive, Len(s.nodes)>>, l |-> <<s.roots>>],
              errs |-> [i \in Idx(s.errors) |-> [k |-> <<s.errors[i].msg>>, f |-> s.errors[i].at, l |-> <<>>]],
              nodes |-> [i \in Idx(s.nodes) |-> NodeVal(s.nodes[i])]]
Expectation == [i \in Idx(segs) |-> SegVal(segs[i])]
Restart(n) == text' = TextOf(it, n) /\ pos' = 1 /\ ord' = cfg.ord /\ segs' = <<>> /\ stop' = FALSE
NextRun == /\ stop /\ Len(runs) < Most - 2
           /\ runs' = Append(runs, Expectation)
           /\ Restart(Len(runs') + 2) /\ UNCHANGED <<id, cfg>>
Holds(rs) == /\ Regular(rs[1], rs[2], rs[3])
             /\ \A n \in 5..Most : rs[n - 1] = Predicted(rs[1], rs[2], rs[3], n)
Done == /\ stop /\ Len(runs) = Most - 2
        /\ runs' = Append(runs, Expectation)
        /\ JsonSerialize(IOEnv.OUT \o "/" \o ToString(id) \o ".json",
                         [id |-> it.id, holds |-> Holds(runs'), e |-> SubSeq(runs', 1, 3)])
        /\ UNCHANGED <<sessionVars, id>>
Next == Step \/ NextRun \/ Done
PumpHolds == (Len(runs) = Most - 1 /\ it.must) => Holds(runs)
=============================================================================
