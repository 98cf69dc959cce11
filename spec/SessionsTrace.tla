--------------------------- MODULE SessionsTrace ---------------------------
(* Is each recorded run a behaviour of Sessions?  A line of the file: [id,    *)
(* one (thread), want, ev]; want gives the segments each session delivers     *)
(* alone, ev the pauses: <<session, kind, k>>, k being which of its own       *)
(* segments the one delivered is like, 0 if it is like none of them (for the  *)
(* end: 1 if the outcome is that of the session alone).                       *)
EXTENDS Sessions, Json, IOUtils
VARIABLES id, i
Traces == ndJsonDeserialize(IOEnv.IN)
tvars == <<vars, id, i>>
ev == Traces[id].ev
One == Traces[id].one
TInit == \E k \in 1..Len(Traces) :
           /\ id = k /\ i = 1
           /\ goal = [s \in 1..Len(Traces[k].want) |->
                        Len(SelectSeq(Traces[k].ev, LAMBDA e : e[1] = s /\ e[2] # "end"))]
           /\ st = [s \in 1..Len(goal) |-> New]
           /\ stack = <<>> /\ sched = <<>>
Event(e) ==
  LET s == e[1] IN
  \/ e[2] = "read" /\ Pause(s, "read")
  \/ e[2] = "seg" /\ e[3] = st[s].segs + 1 /\ e[3] <= Traces[id].want[s] /\ Pause(s, "seg")
  \/ e[2] = "end" /\ e[3] = 1 /\ st[s].segs = Traces[id].want[s] /\ End(s)
Step == /\ i <= Len(ev) /\ i' = i + 1 /\ UNCHANGED <<id, goal>>
        /\ Event(ev[i])
        /\ sched' = Append(sched, ev[i][1])
Accept == /\ i = Len(ev) + 1 /\ AllDone
          /\ PrintT(ToJson([id |-> id, at |-> 0])) /\ i' = i + 1 /\ UNCHANGED <<vars, id>>
Reject == /\ i <= Len(ev) + 1 /\ ~ENABLED Step /\ ~(i = Len(ev) + 1 /\ AllDone)
          /\ PrintT(ToJson([id |-> id, at |-> i])) /\ i' = Len(ev) + 2 /\ UNCHANGED <<vars, id>>
TNext == Step \/ Accept \/ Reject
=============================================================================
