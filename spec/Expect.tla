------------------------------- MODULE Expect -------------------------------
(* Computes what the specification expects for every given input, and checks *)
(* the properties of Props on it.                                            *)
EXTENDS Session, Props, Json, IOUtils
VARIABLE id
Inputs == ndJsonDeserialize(IOEnv.IN)
OutDir == IOEnv.OUT

Init == \E k \in 1..Len(Inputs) :
          id = k /\ SessionInit(Inputs[k].t, Inputs[k].c)
Step == NextSegment /\ UNCHANGED id
Write == /\ stop /\ pos # 0
         /\ JsonSerialize(OutDir \o "/" \o ToString(id) \o ".json",
                [id |-> Inputs[id].id, segs |-> segs, last |-> pos, ord |-> ord])
         /\ pos' = 0 /\ UNCHANGED <<text, cfg, ord, segs, stop, id>>
Next == Step \/ Write

First == <<cfg.off, cfg.line, cfg.col>>
SessionOK == stop => Failing(SessionProps(segs, First, cfg.ord)) = {}
SegmentOK == segs # <<>> => Failing(SegmentProps(segs[Len(segs)])) = {}
(* Flags, and where a session ends. *)
FlagsOK == /\ cfg.single => Len(segs) <= 1
           /\ cfg.only => \A i \in Idx(segs) : \A k \in Idx(segs[i].nodes) : segs[i].nodes[k].t # "command"
ConsumesAll == (stop /\ pos # 0 /\ ~cfg.single) => pos = TextLen + 1
CoversOK == segs # <<>> => Covers(segs[Len(segs)], text, cfg.off)
(* A segment without errors was found without looking beyond its terminator, *)
(* so it can be delivered before more of a stream is asked for.              *)
NoReadAhead == \A i \in Idx(segs) :
   (\A j \in 1..i : segs[j].errors = <<>>) =>
      segs[i].reach <= (segs[i].end[1] - cfg.off) + (IF segs[i].eof THEN 1 ELSE 0)
ReachGrows == \A i \in 1..(Len(segs) - 1) : segs[i].reach <= segs[i + 1].reach
=============================================================================
