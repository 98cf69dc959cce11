----------------------------- MODULE TreeCheck ------------------------------
(* Evaluates Props on recorded sessions: one JSON record [id, segs, first,   *)
(* ord] per line of IN.                                                      *)
EXTENDS Props, Json, IOUtils, TLC
VARIABLES row, checked
Rows == ndJsonDeserialize(IOEnv.IN)
Init == row \in Idx(Rows) /\ checked = FALSE
Next == /\ ~checked /\ checked' = TRUE /\ UNCHANGED row
        /\ JsonSerialize(IOEnv.OUT \o "/" \o ToString(row) \o ".json",
             [id |-> Rows[row].id,
              failing |-> SetToSeq(
                 LET r == Rows[row] IN
                 FailingAll(r.segs, r.first, r.ord)
                 \cup (IF "t" \notin DOMAIN r THEN {} ELSE
                       (IF \A i \in Idx(r.segs) : Covers(r.segs[i], r.t, r.off) THEN {} ELSE {"Covers"})
                       \cup (IF ~r.all \/ r.t = <<>> \/ (r.segs # <<>> /\ r.segs[Len(r.segs)].end[1] = r.off + Len(r.t))
                             THEN {} ELSE {"ReachesTheEnd"})))])
=============================================================================
