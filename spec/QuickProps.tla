----------------------------- MODULE QuickProps -----------------------------
(* What must be true of what the quick parser reports, whatever the input.   *)
(* These are invariants of Quick, checked by TLC on every input it is run on. *)
EXTENDS Quick, Integers

QLeq(a, b) == a[1] <= b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3]))
InOrder ==
  \A i \in 1..Len(segs) :
    /\ QLeq(segs[i].start, segs[i].end) /\ QLeq(segs[i].end, segs[i].next)
    /\ i > 1 => QLeq(segs[i - 1].next, segs[i].start)
ExactText == \A i \in 1..Len(segs) :
               segs[i].text = SubSeq(text, segs[i].start[1] + 1, segs[i].end[1])
BlankCodes == {SP, TAB, NL}
(* No blank and no complete comment stands at either end of the text. *)
Trimmed ==
  \A i \in 1..Len(segs) :
    LET t == segs[i].text n == Len(t)
    IN n > 0 => /\ t[1] \notin BlankCodes
                /\ ~(n > 1 /\ t[1] = 47 /\ t[2] = 47)
                \* a blank may stand last only inside an unclosed quote or comment, which
                \* ends with the input, or escaped
                /\ (t[n] \in BlankCodes /\ ~segs[i].eof) => segs[i].kind = "command"
(* Between segments there is only blank space, comments and the terminator. *)
KindByColon == \A i \in 1..Len(segs) :
                 /\ (segs[i].kind = "command") => (segs[i].text # <<>> /\ segs[i].text[1] = 58)
                 /\ (segs[i].kind = "statement" /\ ~cfg.only) =>
                      (segs[i].text = <<>> \/ segs[i].text[1] # 58)
EofLast == \A i \in 1..(Len(segs) - 1) : ~segs[i].eof
QuickFlags == /\ cfg.single => Len(segs) <= 1
              /\ cfg.only => \A i \in 1..Len(segs) : segs[i].kind = "statement"
QuickReadsAhead == \A i \in 1..Len(segs) : 
  segs[i].reach <= segs[i].next[1] + (IF segs[i].eof THEN 1 ELSE 0)
QuickConsumes == (stop /\ pos # 0 /\ ~cfg.single) => pos = TextLen + 1
=============================================================================
