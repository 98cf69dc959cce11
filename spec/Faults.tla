------------------------------- MODULE Faults -------------------------------
(* What may be seen of an operation that asks for memory, whatever requests   *)
(* are refused.  Kinds of operation:                                          *)
(*   each   hands over n segments, one after another, and returns             *)
(*   keep   the same, all segments being retained until after it returns      *)
(*   make   returns one thing (a result, a node, a copy, a configuration, a   *)
(*          rendering), released afterwards                                   *)
(*   notes  an annotation context, then a series of changes to the values     *)
(*          attached to nodes                                                 *)
(* Events: T tried, R refused memory, D a segment handed over, E returned,    *)
(* K retained segments found as they were, S a value attached or removed,     *)
(* V all values read, L what is still held after everything was released.     *)
EXTENDS Integers, Sequences, TLC
ENOMEM == 12
VARIABLES kind, n, nodes, phase, refused, given, vals, tries, failed
fvars == <<kind, n, nodes, phase, refused, given, vals, tries, failed>>
(* phase: idle, busy (in the call), failed, done (returned), set (a context   *)
(* at hand), unread (a change was made, values not read since) *)

Begin(k, m, w) == /\ kind = k /\ n = m /\ nodes = w /\ phase = "idle" /\ refused = FALSE
                  /\ given = 0 /\ vals = [i \in 1..w |-> 0] /\ tries = 0 /\ failed = FALSE

Try == /\ phase = "idle" /\ phase' = "busy" /\ refused' = FALSE /\ failed' = FALSE
       /\ given' = 0 /\ vals' = [i \in 1..nodes |-> 0] /\ tries' = tries + 1
       /\ UNCHANGED <<kind, n, nodes>>

(* Memory is refused only while the library is at work. *)
Refuse == /\ phase \in {"busy", "set"} /\ refused' = TRUE
          /\ UNCHANGED <<kind, n, nodes, phase, given, vals, tries, failed>>

(* A segment handed over is the next one, and just as it would have been. *)
Deliver(k, same) == /\ phase = "busy" /\ kind \in {"each", "keep"}
                    /\ k = given /\ k < n /\ same = 1 /\ given' = given + 1
                    /\ UNCHANGED <<kind, n, nodes, phase, refused, vals, tries, failed>>

(* Success means all of it; failure is only for want of memory, and says so. *)
Return(rc, err, same) ==
    /\ phase = "busy" /\ same = 1
    /\ \/ /\ rc = 0 /\ (kind \in {"each", "keep"} => given = n)
          /\ phase' = (IF kind = "notes" THEN "set" ELSE "done") /\ failed' = FALSE
       \/ /\ rc = -1 /\ refused /\ err = ENOMEM
          /\ phase' = "failed" /\ failed' = TRUE
    /\ refused' = FALSE
    /\ UNCHANGED <<kind, n, nodes, given, vals, tries>>

(* Retained segments outlive the failure of the parse they came from. *)
Kept(c) == /\ phase \in {"done", "failed"} /\ kind = "keep" /\ c = given
           /\ UNCHANGED fvars

(* A value attached (v > 0) or removed (v = 0): done, or refused and nothing  *)
(* changed. Removing needs no memory. *)
Change(i, v, rc, err) ==
    /\ phase = "set" /\ phase' = "unread" /\ i < nodes
    /\ \/ rc = 0 /\ vals' = [vals EXCEPT ![i + 1] = v] /\ failed' = FALSE
       \/ rc = -1 /\ refused /\ v # 0 /\ err = ENOMEM /\ vals' = vals /\ failed' = TRUE
    /\ refused' = FALSE
    /\ UNCHANGED <<kind, n, nodes, given, tries>>
Read(s) == /\ phase = "unread" /\ s = vals /\ phase' = "set"
           /\ UNCHANGED <<kind, n, nodes, refused, given, vals, tries, failed>>

(* Nothing is held once everything was given back. *)
Released(l) == /\ phase \in {"done", "failed", "set"} /\ l = 0 /\ phase' = "idle"
               /\ UNCHANGED <<kind, n, nodes, refused, given, vals, tries, failed>>

(* ---- the operations as such, for every pattern of refusals ---- *)
Design == \/ \E k \in {"each", "keep"}, m \in 0..3 : Begin(k, m, 0)
          \/ Begin("make", 0, 0)
          \/ Begin("notes", 0, 2)
Bound == tries < 3
DesignNext ==
    \/ Bound /\ Try
    \/ Refuse
    \/ Deliver(given, 1)
    \/ Return(0, 0, 1) \/ Return(-1, ENOMEM, 1)
    \/ Kept(given)
    \/ \E i \in 0..(nodes - 1), v \in 0..2 : Change(i, v, 0, 0) \/ Change(i, v, -1, ENOMEM)
    \/ Read(vals)
    \/ Released(0)
DesignSpec == Design /\ [][DesignNext]_fvars /\ WF_fvars(DesignNext)

OnlyForWant == [][(failed' /\ ~failed) => refused]_fvars
CompleteOrFailed == (phase = "done" /\ kind \in {"each", "keep"}) => given = n
NoChangeOnFailure == [][(failed' /\ phase = "set") => vals' = vals]_fvars
WorksAgain == [][(phase = "busy" /\ ~refused /\ phase' # "busy") => ~failed']_fvars
AlwaysReturns == (phase = "busy") ~> (phase # "busy")
=============================================================================
