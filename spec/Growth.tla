------------------------------- MODULE Growth -------------------------------
(* What is expected of inputs that differ only in how often a part of them   *)
(* is repeated.  Three expectations, for 2, 3 and 4 repetitions, decide all  *)
(* others when they grow regularly: numbers by a constant step, sequences by *)
(* a constant number of elements at one place.  That they do, for a given    *)
(* input, is checked on further repetitions (Pump, PumpQuick); then what is  *)
(* expected of ten thousands of repetitions is known without parsing them.   *)
(*                                                                           *)
(* A value is [k: what must be the same, f: numbers, l: sequences of         *)
(* numbers]; an expectation is a sequence of parts, each                     *)
(* [v: a value, nodes, errs: sequences of values].                           *)
EXTENDS Integers, Sequences

NumOf(a, b, n) == a + (n - 2) * (b - a)          \* 2 -> a, 3 -> b
Even(a, b, c) == c - b = b - a

(* Same(x2, x3, x4): the elements agree but for regular growth. *)
SameNum(a, b, c) == Even(a, b, c)
NumAt(a, b, n) == NumOf(a, b, n)

(* How a sequence grows: h elements, then the middle of (n - 2) * k, then t. *)
Grown(x2, x3, x4, Same(_, _, _)) ==
  LET k == Len(x3) - Len(x2)
      Pre(i) == \A j \in 1..i : Same(x2[j], x3[j], x4[j])
      h == CHOOSE i \in 0..Len(x2) : Pre(i) /\ (i < Len(x2) => ~Pre(i + 1))
      Post(j) == Same(x2[Len(x2) - j], x3[Len(x3) - j], x4[Len(x4) - j])
  IN [k |-> k, h |-> h,
      ok |-> k >= 0 /\ Len(x4) - Len(x3) = k /\ \A j \in 0..(Len(x2) - h - 1) : Post(j)]

(* j: which of the middle groups, from 0; r: which element of it, from 1. *)
MidNum(m3, m40, m41, j, n) == m3 + j * (m41 - m40) + (n - 3) * (m40 - m3)
GrowSeq(x2, x3, x4, n, Same(_, _, _), Elem(_, _, _), Mid(_, _, _, _)) ==
  LET g == Grown(x2, x3, x4, Same)
      len == Len(x2) + (n - 2) * g.k
  IN [i \in 1..len |->
        IF i <= g.h THEN Elem(x2[i], x3[i], n)
        ELSE IF i <= g.h + (n - 2) * g.k
        THEN LET j == (i - g.h - 1) \div g.k
                 r == ((i - g.h - 1) % g.k) + 1
             IN Mid(x3[g.h + r], x4[g.h + r], x4[g.h + g.k + r], <<j, n>>)
        ELSE Elem(x2[Len(x2) - (len - i)], x3[Len(x3) - (len - i)], n)]

NumSeqOK(x2, x3, x4) == Len(x3) >= Len(x2) /\ Len(x4) >= Len(x3) /\ Grown(x2, x3, x4, SameNum).ok
NumMid(a, b, c, jn) == MidNum(a, b, c, jn[1], jn[2])
NumSeqAt(x2, x3, x4, n) == GrowSeq(x2, x3, x4, n, SameNum, NumAt, NumMid)

SameVal(a, b, c) ==
  /\ a.k = b.k /\ b.k = c.k
  /\ \A i \in 1..Len(a.f) : Even(a.f[i], b.f[i], c.f[i])
  /\ \A i \in 1..Len(a.l) : NumSeqOK(a.l[i], b.l[i], c.l[i])
(* a, b, c: for 2, 3 and 4 *)
ValAt(a, b, c, n) ==
  [k |-> a.k, f |-> [i \in 1..Len(a.f) |-> NumOf(a.f[i], b.f[i], n)],
   l |-> [i \in 1..Len(a.l) |-> NumSeqAt(a.l[i], b.l[i], c.l[i], n)]]
(* Those in the middle keep their shape. *)
MidOK(a, b, c) == /\ a.k = b.k /\ b.k = c.k
                  /\ \A i \in 1..Len(a.l) : Len(a.l[i]) = Len(b.l[i]) /\ Len(b.l[i]) = Len(c.l[i])
MidVal(a, b, c, jn) ==
  [k |-> a.k, f |-> [i \in 1..Len(a.f) |-> MidNum(a.f[i], b.f[i], c.f[i], jn[1], jn[2])],
   l |-> [i \in 1..Len(a.l) |-> [x \in 1..Len(a.l[i]) |-> MidNum(a.l[i][x], b.l[i][x], c.l[i][x], jn[1], jn[2])]]]
ValSeqOK(x2, x3, x4) ==
  /\ Len(x3) >= Len(x2) /\ Len(x4) >= Len(x3)
  /\ LET g == Grown(x2, x3, x4, SameVal)
     IN g.ok /\ \A r \in 1..g.k : MidOK(x3[g.h + r], x4[g.h + r], x4[g.h + g.k + r])
ValSeqAt(x2, x3, x4, n) ==
  LET g == Grown(x2, x3, x4, SameVal)
      len == Len(x2) + (n - 2) * g.k
      Elem(i2, i3, i4) == ValAt(x2[i2], x3[i3], x4[i4], n)
  IN [i \in 1..len |->
        IF i <= g.h THEN Elem(i, i, i)
        ELSE IF i <= g.h + (n - 2) * g.k
        THEN LET j == (i - g.h - 1) \div g.k
                 r == ((i - g.h - 1) % g.k) + 1
             IN MidVal(x3[g.h + r], x4[g.h + r], x4[g.h + g.k + r], <<j, n>>)
        ELSE Elem(Len(x2) - (len - i), Len(x3) - (len - i), Len(x4) - (len - i))]

Regular(e2, e3, e4) ==
  /\ Len(e2) = Len(e3) /\ Len(e3) = Len(e4)
  /\ \A i \in 1..Len(e2) : /\ SameVal(e2[i].v, e3[i].v, e4[i].v)
                           /\ ValSeqOK(e2[i].nodes, e3[i].nodes, e4[i].nodes)
                           /\ ValSeqOK(e2[i].errs, e3[i].errs, e4[i].errs)
Predicted(e2, e3, e4, n) ==
  [i \in 1..Len(e2) |-> [v |-> ValAt(e2[i].v, e3[i].v, e4[i].v, n),
                         nodes |-> ValSeqAt(e2[i].nodes, e3[i].nodes, e4[i].nodes, n),
                         errs |-> ValSeqAt(e2[i].errs, e3[i].errs, e4[i].errs, n)]]
=============================================================================
