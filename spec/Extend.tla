------------------------------- MODULE Extend -------------------------------
(* Three sessions per item [id, t, u, c]: over t, over t followed by u, and  *)
(* over u configured to begin where t ended.  What was decided without       *)
(* looking beyond t is decided the same way when u follows, and what follows *)
(* is parsed as if it were an input of its own - which is why large inputs   *)
(* may be judged by composing small ones, why input may arrive in pieces,    *)
(* and what the configured initial position and ordinal mean.                *)
EXTENDS Session, Props, Json, IOUtils
VARIABLES id, phase, runs
Inputs == ndJsonDeserialize(IOEnv.IN)
it == Inputs[id]

Init == \E k \in 1..Len(Inputs) :
          /\ id = k /\ phase = 1 /\ runs = <<>>
          /\ SessionInit(Inputs[k].t, Inputs[k].c)
Step == NextSegment /\ UNCHANGED <<id, phase, runs>>
EndOf(ss, c) == IF ss = <<>> THEN <<c.off, c.line, c.col>> ELSE ss[Len(ss)].end
Restart(t, c) == text' = t /\ cfg' = c /\ pos' = 1 /\ ord' = c.ord /\ segs' = <<>> /\ stop' = FALSE
NextPhase ==
  /\ stop /\ phase < 3 /\ UNCHANGED id /\ phase' = phase + 1
  /\ runs' = Append(runs, segs)
  /\ IF phase = 1 THEN Restart(it.t \o it.u, it.c)
     ELSE LET r == runs[1] e == EndOf(r, it.c)
          IN Restart(it.u, [it.c EXCEPT !.off = e[1], !.line = e[2], !.col = e[3],
                              !.ord = it.c.ord + FoldLeft(LAMBDA a, s : a + Len(s.nodes), 0, r)])
(* How many segments of the first run were decided within t. *)
DecidedIn(r, n) == LET ks == {i \in 0..Len(r) : \A j \in 1..i : r[j].reach <= n /\ ~r[j].eof}
                   IN CHOOSE k \in ks : \A j \in ks : j <= k
NoReach(s) == [s EXCEPT !.reach = 0]
NoContext(s) == [s EXCEPT !.reach = 0, !.errors = [i \in Idx(s.errors) |-> [at |-> s.errors[i].at, msg |-> s.errors[i].msg]]]
Map(f(_), s) == [i \in Idx(s) |-> f(s[i])]
Composed(rs, x) == LET k == DecidedIn(rs[1], Len(x.t)) IN k = Len(rs[1]) /\ EndOf(rs[1], x.c)[1] = x.c.off + Len(x.t)
Done == /\ stop /\ phase = 3 /\ phase' = 4 /\ runs' = Append(runs, segs)
        /\ JsonSerialize(IOEnv.OUT \o "/" \o ToString(id) \o ".json", [id |-> it.id, composed |-> Composed(runs', it)])
        /\ UNCHANGED <<text, cfg, pos, ord, segs, stop, id>>
Next == Step \/ NextPhase \/ Done

PrefixHolds ==
  phase = 4 =>
    LET k == DecidedIn(runs[1], Len(it.t))
    IN /\ Len(runs[2]) >= k
       /\ Map(NoContext, SubSeq(runs[2], 1, k)) = Map(NoContext, SubSeq(runs[1], 1, k))
       /\ Composed(runs, it) => Map(NoReach, SubSeq(runs[2], k + 1, Len(runs[2]))) = Map(NoReach, runs[3])
=============================================================================
