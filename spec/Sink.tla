-------------------------------- MODULE Sink --------------------------------
(* Writing a rendering, piece by piece, to something that may run out of     *)
(* room.  However it is cut into pieces, what arrives is what fits of it     *)
(* from its beginning, nothing is written after a refusal, and success is    *)
(* reported exactly when everything arrived.                                 *)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS MaxLen, MaxRoom
VARIABLES moody,   \* may it refuse a write although there is room, and take the next?
          whole,   \* what is to be written (its pieces, one after another)
          todo,    \* the pieces not yet written
          room, there, said
vars == <<moody, whole, todo, room, there, said>>
Pieces == UNION {[1..n -> 1..2] : n \in 0..MaxLen}       \* lengths of the pieces
Flat(ls) == FlattenSeq([i \in 1..Len(ls) |-> [j \in 1..ls[i] |-> i * 10 + j]])
Init == /\ moody \in BOOLEAN
        /\ \E ls \in Pieces : whole = Flat(ls) /\ todo = [i \in 1..Len(ls) |-> [j \in 1..ls[i] |-> i * 10 + j]]
        /\ room \in 0..MaxRoom /\ there = <<>> /\ said = "nothing"
Least(a, b) == IF a < b THEN a ELSE b
Write == /\ said = "nothing" /\ todo # <<>>
         /\ LET p == Head(todo) k == Least(Len(p), room)
            IN \E j \in (IF moody THEN 0..k ELSE {k}) :
               /\ there' = there \o SubSeq(p, 1, j) /\ room' = room - j
               /\ IF j = Len(p) THEN todo' = Tail(todo) /\ said' = said
                  ELSE todo' = todo /\ said' = "failed"
         /\ UNCHANGED <<moody, whole>>
Finish == /\ said = "nothing" /\ todo = <<>> /\ said' = "done" /\ UNCHANGED <<moody, whole, todo, room, there>>
Next == Write \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Outcome(bytes, r) == [there |-> SubSeq(bytes, 1, Least(r, Len(bytes))), ok |-> r >= Len(bytes)]
AsSaid == said # "nothing" /\ ~moody =>
            LET o == Outcome(whole, room + Len(there)) IN there = o.there /\ (said = "done" <=> o.ok)
Prefix == /\ IsPrefix(there, whole)
          /\ said = "done" => there = whole
          /\ said = "failed" => there # whole
Ends == <>(said # "nothing")
=============================================================================
