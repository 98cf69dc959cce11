------------------------------ MODULE Sessions ------------------------------
(* Several parsing sessions at once. A session pauses each time it asks its   *)
(* stream for bytes and each time it has delivered a segment; whoever runs it *)
(* may then let another go on. The sessions have nothing in common, so each   *)
(* passes through what it would pass through alone, in whatever order they    *)
(* move. On a single thread they nest: a session begins inside a pause of     *)
(* another, which can go on only once that one has ended.                     *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Goals,      \* how often each session pauses: a set of sequences
          Threads     \* "each" session its own thread, or "one" thread for all
VARIABLES goal, st, stack, sched
vars == <<goal, st, stack, sched>>
S == DOMAIN st
New == [phase |-> "new", pauses |-> 0, segs |-> 0]

Init == /\ goal \in Goals
        /\ st = [s \in 1..Len(goal) |-> New]
        /\ stack = <<>> /\ sched = <<>>

OnOneThread == Threads = "one"
MayMove(s) == /\ st[s].phase # "done"
              /\ \/ ~OnOneThread
                 \/ st[s].phase = "new"
                 \/ stack # <<>> /\ Last(stack) = s
(* (two sessions of up to three pauses; three of up to two) *)
SmallGoals == [1..2 -> 0..3] \cup {g \in [1..3 -> 0..2] : g[1] + g[2] + g[3] <= 4}

(* s runs to its next pause, *)
Pause(s, kind) ==
  /\ MayMove(s)
  /\ st' = [st EXCEPT ![s] = [phase |-> "paused", pauses |-> @.pauses + 1,
                              segs |-> IF kind = "seg" THEN @.segs + 1 ELSE @.segs]]
  /\ stack' = IF OnOneThread /\ st[s].phase = "new" THEN Append(stack, s) ELSE stack
(* or to its end. *)
End(s) == /\ MayMove(s)
          /\ st' = [st EXCEPT ![s].phase = "done"]
          /\ stack' = IF OnOneThread /\ st[s].phase = "paused" THEN Front(stack) ELSE stack

Move(s) == /\ IF st[s].pauses < goal[s] THEN Pause(s, "seg") ELSE End(s)
           /\ sched' = Append(sched, s)
           /\ UNCHANGED goal
AllDone == \A s \in S : st[s].phase = "done"
Finish == /\ AllDone /\ (sched = <<>> \/ Last(sched) # 0)
          /\ PrintT(<<"SCHED", ToString(goal), ToString(sched)>>)
          /\ sched' = Append(sched, 0)
          /\ UNCHANGED <<goal, st, stack>>
Next == (\E s \in S : Move(s)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == /\ \A s \in S : st[s].phase \in {"new", "paused", "done"} /\ st[s].pauses <= goal[s]
          /\ Range(stack) \subseteq S
(* One session moves at a time, and no other changes. *)
Isolation == [][Cardinality({s \in S : st'[s] # st[s]}) <= 1]_vars
(* Where it is depends only on how often it moved. *)
OwnPace == \A s \in S : LET n == Len(SelectSeq(sched, LAMBDA x : x = s))
                        IN /\ st[s].pauses = (IF n > goal[s] THEN goal[s] ELSE n)
                           /\ (st[s].phase = "done" <=> n = goal[s] + 1)
(* What nests is exactly what has begun and not ended, each once. *)
Nesting == OnOneThread =>
             /\ IsInjective(stack)
             /\ Range(stack) = {s \in S : st[s].phase = "paused"}
(* No session can keep another from its end. *)
Ends == <>AllDone
=============================================================================
