----------------------------- MODULE SegmentLife -----------------------------
(* Who owns what a parse gives.  While the callback runs the parser holds    *)
(* one reference to the segment it delivered; the caller may take more, give *)
(* them back, copy trees out, make and free results (parsing something else  *)
(* meanwhile), and take the input away once the parse returned.              *)
(* Everything stays readable, unchanged, until its last owner lets go of it, *)
(* and goes away entirely exactly then.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NSeg,      \* number of segments in the input
          MaxRefs,   \* most references the caller holds to one segment
          Lots,      \* how many references are taken or given back in one go
          Slots,     \* slots for copies
          MaxSteps, Mode
VARIABLES phase,     \* 0: not started, 1..NSeg: in the callback for that segment, NSeg + 1: over
          refs,      \* refs[i]: references held by the caller
          copy,      \* copy[s]: what the copy in the slot is of: a segment, NSeg + 1 for the result, or 0
          result,    \* "no", "yes"
          input,     \* is the input still there
          hist
vars == <<phase, refs, copy, result, input, hist>>
live == <<phase, refs, copy, result, input>>
Segs == 1..NSeg
Over == NSeg + 1
Res == NSeg + 1

Owned(i) == refs[i] + (IF phase = i THEN 1 ELSE 0)
Alive(i) == Owned(i) > 0
(* what exists, after a step, in order: segments, copies, the result *)
Exists(ph, rf, cp, rs) == [s |-> [i \in Segs |-> rf[i] > 0 \/ ph = i], c |-> [k \in Slots |-> cp[k] # 0], r |-> rs = "yes"]

Init == /\ phase = 0 /\ refs = [i \in Segs |-> 0] /\ copy = [s \in Slots |-> 0]
        /\ result = "no" /\ input = TRUE /\ hist = <<>>
Did(a, args, ret) ==
  /\ hist' = Append(hist, [a |-> a, g |-> args, ret |-> ret, ex |-> Exists(phase', refs', copy', result')])
  /\ \/ Mode # "cover" \/ PrintT(ToJson([h |-> hist', e |-> [phase |-> phase', refs |-> refs', copy |-> copy', result |-> result']]))

Start(src) == /\ phase = 0 /\ input /\ phase' = 1
              /\ UNCHANGED <<refs, copy, result, input>> /\ Did("P", <<src>>, 0)
Answer(v) == /\ phase \in Segs
             /\ phase' = IF v = 0 THEN phase + 1 ELSE Over
             /\ UNCHANGED <<refs, copy, result, input>> /\ Did("N", <<v>>, 0)
Retain(i, k) == /\ Alive(i) /\ refs[i] + k <= MaxRefs /\ refs' = [refs EXCEPT ![i] = @ + k]
                /\ UNCHANGED <<phase, copy, result, input>> /\ Did("T", <<i, k>>, 0)
Release(i, k) == /\ k <= refs[i] /\ refs' = [refs EXCEPT ![i] = @ - k]
                 /\ UNCHANGED <<phase, copy, result, input>> /\ Did("L", <<i, k>>, 0)
Read(i) == /\ Alive(i) /\ UNCHANGED live /\ Did("D", <<i>>, 1)
Clone(i, s) == /\ Alive(i) /\ copy[s] = 0 /\ copy' = [copy EXCEPT ![s] = i]
               /\ UNCHANGED <<phase, refs, result, input>> /\ Did("K", <<i, s>>, 0)
CloneResult(s) == /\ result = "yes" /\ copy[s] = 0 /\ copy' = [copy EXCEPT ![s] = Res]
                  /\ UNCHANGED <<phase, refs, result, input>> /\ Did("M", <<s>>, 0)
ReadCopy(s) == /\ copy[s] # 0 /\ UNCHANGED live /\ Did("X", <<s>>, 1)
FreeCopy(s) == /\ copy[s] # 0 /\ copy' = [copy EXCEPT ![s] = 0]
               /\ UNCHANGED <<phase, refs, result, input>> /\ Did("Y", <<s>>, 0)
NewResult == /\ result = "no" /\ result' = "yes" /\ UNCHANGED <<phase, refs, copy, input>> /\ Did("R", <<>>, 0)
ReadResult == /\ result = "yes" /\ UNCHANGED live /\ Did("Q", <<>>, 1)
FreeResult == /\ result = "yes" /\ result' = "no" /\ UNCHANGED <<phase, refs, copy, input>> /\ Did("Z", <<>>, 0)
FreeInput == /\ phase = Over /\ input /\ input' = FALSE /\ UNCHANGED <<phase, refs, copy, result>> /\ Did("I", <<>>, 0)
Do == \/ \E src \in {0, 1} : Start(src)
      \/ \E v \in {0, 1, -1} : Answer(v)
      \/ \E i \in Segs : Read(i) \/ (\E k \in Lots : Retain(i, k) \/ Release(i, k)) \/ (\E s \in Slots : Clone(i, s))
      \/ \E s \in Slots : CloneResult(s) \/ ReadCopy(s) \/ FreeCopy(s)
      \/ NewResult \/ ReadResult \/ FreeResult \/ FreeInput
Next == Len(hist) < MaxSteps /\ Do

-----------------------------------------------------------------------------
(* Stated on what was done: *)
Total(a, i) == LET RECURSIVE Sum(_)
                   Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) + (IF hist[k].a = a /\ hist[k].g[1] = i THEN hist[k].g[2] ELSE 0)
               IN  Sum(Len(hist))
InCallback(i) == phase = i
Took(i) == Total("T", i) - Total("L", i)
LivesByOwners == \A i \in Segs : Alive(i) <=> (InCallback(i) \/ Took(i) > 0)
NeverBack == \* what is gone stays gone
  \A i \in Segs : \A k \in 2..Len(hist) :
     hist[k - 1].ex.s[i] = FALSE /\ hist[k].ex.s[i] = TRUE => hist[k].a \in {"P", "N"}
CopiesOwnThemselves == \* nothing done to an original changes what copies exist
  \A k \in 2..Len(hist) : hist[k].a \notin {"K", "M", "Y"} => hist[k].ex.c = hist[k - 1].ex.c
OnlyOwnersMatter == \* a segment goes only with a release or the end of its callback
  \A i \in Segs : \A k \in 2..Len(hist) :
     hist[k - 1].ex.s[i] /\ ~hist[k].ex.s[i] => hist[k].a \in {"L", "N"}
-----------------------------------------------------------------------------
Finish == /\ Mode = "walk" /\ Len(hist) = MaxSteps
          /\ UNCHANGED live /\ hist' = Append(hist, [a |-> "end", g |-> <<>>, ret |-> 0, ex |-> 0])
          /\ Assert(LivesByOwners /\ NeverBack /\ CopiesOwnThemselves /\ OnlyOwnersMatter, hist)
          /\ PrintT(ToJson([h |-> hist, e |-> [phase |-> phase, refs |-> refs, copy |-> copy, result |-> result]]))
WalkNext == Next \/ Finish
=============================================================================
