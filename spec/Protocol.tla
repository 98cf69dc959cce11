------------------------------ MODULE Protocol ------------------------------
(* The callback protocol: the environment answers each delivered segment     *)
(* with a number; the session goes on only after 0.  One item [id, t, c,     *)
(* vals] gives as many behaviours as the environment has choices.            *)
EXTENDS Session, Json, IOUtils
VARIABLES id, given, waiting, rc, last
Inputs == ndJsonDeserialize(IOEnv.IN)
it == Inputs[id]
pvars == <<sessionVars, id, given, waiting, rc, last>>
None == <<4242, 4242, 4242>>

Init == \E k \in 1..Len(Inputs) :
          /\ id = k /\ given = <<>> /\ waiting = FALSE /\ rc = 99 /\ last = None
          /\ SessionInit(Inputs[k].t, Inputs[k].c)

(* The next segment is parsed and handed over; nothing else happens until    *)
(* the environment answers. *)
Deliver == /\ rc = 99 /\ ~waiting /\ ~stop
           /\ NextSegment
           /\ waiting' = (Len(segs') > Len(segs))
           /\ last' = IF waiting' THEN segs'[Len(segs')].end ELSE last
           /\ UNCHANGED <<id, given, rc>>
Answer(v) == /\ waiting /\ waiting' = FALSE
             /\ given' = Append(given, v)
             /\ rc' = IF v < 0 THEN v ELSE IF v > 0 THEN 0 ELSE rc
             /\ UNCHANGED <<sessionVars, id, last>>
Finish == /\ rc = 99 /\ ~waiting /\ stop /\ rc' = 0
          /\ UNCHANGED <<sessionVars, id, given, waiting, last>>
Name(g) == IF g = <<>> THEN "0-0" ELSE ToString(Len(g)) \o "-" \o ToString(g[Len(g)])
Write == /\ rc # 99 /\ pos # 0
         /\ JsonSerialize(IOEnv.OUT \o "/" \o ToString(id) \o "-" \o Name(given) \o ".json",
               [id |-> it.id \o "/" \o Name(given), given |-> given, rc |-> rc, calls |-> Len(segs), last |-> last])
         /\ pos' = 0
         /\ UNCHANGED <<text, cfg, ord, segs, stop, id, given, waiting, rc, last>>
Next == Deliver \/ (\E i \in 1..Len(it.vals) : Answer(it.vals[i])) \/ Finish \/ Write

EachOnce == Len(given) = Len(segs) - (IF waiting THEN 1 ELSE 0)
StopsAtOnce == \A i \in 1..(Len(given) - 1) : given[i] = 0
Returned == rc # 99 => rc = (IF given # <<>> /\ given[Len(given)] < 0 THEN given[Len(given)] ELSE 0)
LastIsEnd == last = IF segs = <<>> THEN None ELSE segs[Len(segs)].end
=============================================================================
