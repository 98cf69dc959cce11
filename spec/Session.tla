------------------------------ MODULE Session ------------------------------
(* A parsing session over one input: a sequence of segments, each made from  *)
(* the next part of the input.                                               *)
(*   cfg.only     only statements (no client commands) are accepted          *)
(*   cfg.single   stop after one segment                                     *)
(*   cfg.ord, cfg.line, cfg.col, cfg.off   initial ordinal and position      *)
(*   cfg.render   widths at which each segment's trees are to be rendered    *)
(*   cfg.marks    whether the rendering and messages carry visible marks     *)
(*   cfg.ctx      "whole": the whole input is at hand when an error's        *)
(*                context is taken; "any": only some of what follows may be  *)
EXTENDS Render

VARIABLES cfg, pos, ord, segs, stop

sessionVars == <<text, cfg, pos, ord, segs, stop>>

(* Positions are derived from the input alone. *)
LineStarts == LET F(acc, p) == IF text[p] = NL THEN Append(acc, p + 1) ELSE acc
              IN FoldLeft(F, <<1>>, [i \in 1..TextLen |-> i])
RECURSIVE LineAt(_, _, _, _)      \* index of the last line start at or before p
LineAt(ls, p, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF ls[m] <= p THEN LineAt(ls, p, m, hi) ELSE LineAt(ls, p, lo, m - 1)
Position(ls, p) ==
  LET i == LineAt(ls, p, 1, Len(ls))
  IN <<cfg.off + p - 1, cfg.line + i - 1, (p - ls[i]) + (IF i = 1 THEN cfg.col ELSE 1)>>

Desc(c) == CASE c = 0 -> "at end of input"
             [] c = 7 -> "'\\a'" [] c = 8 -> "'\\b'" [] c = 12 -> "'\\f'"
             [] c = 10 -> "'\\n'" [] c = 13 -> "'\\r'" [] c = 9 -> "'\\t'"
             [] c = 11 -> "'\\v'" [] c = 39 -> "'\\''"
             [] OTHER -> ""
DescCodes(c) == IF Desc(c) # "" THEN Codes(Desc(c)) ELSE <<39, c, 39>>

RECURSIVE Expected(_, _)
Expected(labels, i) ==
  IF i > Len(labels) THEN <<>>
  ELSE Codes(" ") \o Codes(labels[i])
       \o (IF i + 1 < Len(labels) THEN Codes(",")
           ELSE IF i < Len(labels) THEN Codes(" or") ELSE <<>>)
       \o Expected(labels, i + 1)

(* c = <<error on, off, token on, off, message on, off>>, escape sequences *)
Message(e, c) ==
  c[1] \o Codes("Invalid input") \o c[2] \o Codes(" ")
  \o c[3] \o DescCodes(IF More(e[1]) THEN text[e[1]] ELSE 0) \o c[4] \o Codes(": ")
  \o c[5] \o Codes("expected") \o Expected(e[2], 1) \o c[6]
Plain == <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>

(* The line around p, at most 80 bytes, from the segment start on: *)
IsNl(p) == text[p] = NL \/ text[p] = CR
RECURSIVE BackOff(_, _)
BackOff(p, from) == IF p > from /\ (text[p] \in {NL, CR, 0}) THEN BackOff(p - 1, from) ELSE p
RECURSIVE Window(_, _, _, _, _, _, _)
Window(s, e, n, sf, ef, from, lim) ==    \* s first byte, e one past the last
  IF (sf /\ ef) \/ n = 80 THEN <<s, e, sf, ef>>
  ELSE LET sf1 == sf \/ s = from \/ IsNl(s - 1)
           s1 == IF sf1 THEN s ELSE s - 1
           n1 == IF sf1 THEN n ELSE n + 1
       IN IF n1 = 80 THEN <<s1, e, sf1, ef>>
          ELSE LET ef1 == ef \/ e = lim \/ IsNl(e)
                   e1 == IF ef1 THEN e ELSE e + 1
                   n2 == IF ef1 THEN n1 ELSE n1 + 1
               IN Window(s1, e1, n2, sf1, ef1, from, lim)

(* What is reported as the context of an error at p in a segment starting at *)
(* `from`, when the input up to (excluding) lim is at hand: the text, and    *)
(* where in it the error is.                                                 *)
Context(p, from, lim) ==
  LET at == BackOff(IF p >= lim THEN lim - 1 ELSE p, from)
      w == Window(at, at, 0, FALSE, FALSE, from, lim)
      n == w[2] - w[1]
  IN << CStr([i \in 1..n |-> IF (~w[3] /\ i <= 3) \/ (~w[4] /\ i > n - 3)
                             THEN 46 ELSE text[w[1] + i - 1]]),
        p - w[1] >>
Contexts(p, from, fin) ==
  IF cfg.ctx = "whole" THEN {Context(p, from, TextLen + 1)}
  ELSE LET top == IF TextLen + 1 > fin + 90 THEN fin + 90 ELSE TextLen + 1
       IN {Context(p, from, lim) : lim \in fin..top}

Marks == [i \in 1..3 |-> <<Codes(<<"<e>", "<t>", "<m>">>[i]), Codes(<<"</e>", "</t>", "</m>">>[i])>>]
MessageMarks == IF cfg.marks THEN [i \in 1..6 |-> Marks[(i + 1) \div 2][2 - (i % 2)]] ELSE Plain
RenderMarks ==
  IF cfg.marks
  THEN [i \in 1..10 |-> Codes(<<"<o>", "</o>", "<r>", "</r>", "<i>", "</i>", "<y>", "</y>",
                                "<d>", "</d>">>[i])]
  ELSE NoMarks

SegmentAt(p) ==
  LET r == P[RuleCode[RuleIx[IF cfg.only THEN "statement" ELSE "directive"]], p, 0, St0]
      T == Build(r[3][1], p)
  IN [ok |-> r[1], tree |-> T, errs |-> r[3][3][3],
      reach |-> r[3][4]]      \* TextLen + 1: the end of input was seen

ValueOut(f, o) ==
  CASE f[1] = "n" -> IF f[3] = 0 THEN <<f[2], -1>> ELSE <<f[2], o[f[3]]>>
    [] f[1] = "l" -> <<f[2], [i \in 1..Len(f[3]) |-> o[f[3][i]]]>>
    [] OTHER -> <<f[2], f[3]>>

SegmentOut(p, seg) ==
  LET T == seg.tree
      roots == T.stk[1].ch
      order == Preorder(roots, T.nodes)
      o == [id \in Range(order) |-> ord - 1 + CHOOSE i \in 1..Len(order) : order[i] = id]
      ls == LineStarts
      before == IF segs = <<>> THEN 0 ELSE segs[Len(segs)].reach
  IN [ reach |-> IF seg.reach > before THEN seg.reach ELSE before,
       start |-> Position(ls, p), end |-> Position(ls, T.fin),
       eof |-> T.eof,
       directive |-> IF T.res = 0 THEN -1 ELSE o[T.res],
       roots |-> [i \in 1..Len(roots) |-> o[roots[i]]],
       errors |-> [i \in 1..Len(seg.errs) |->
                     [at |-> Position(ls, seg.errs[i][1]),
                      msg |-> Message(seg.errs[i], MessageMarks),
                      ctx |-> SetToSeq(Contexts(seg.errs[i][1], p, T.fin))]],
       render |-> [i \in 1..Len(cfg.render) |->
                     LET St(id) == cfg.off + T.nodes[id].s - 1
                         En(id) == cfg.off + T.nodes[id].e - 1
                     IN Rendering(roots, T.nodes, o, St, En, cfg.render[i], RenderMarks)],
       nodes |-> [i \in 1..Len(order) |->
                    LET n == T.nodes[order[i]]
                    IN [o |-> ord - 1 + i, t |-> n.t,
                        s |-> Position(ls, n.s), e |-> Position(ls, n.e),
                        ch |-> [j \in 1..Len(n.ch) |-> o[n.ch[j]]],
                        r |-> [j \in 1..Len(n.r) |-> ValueOut(n.r[j], o)]]] ]

SessionInit(t, c) ==
  /\ text = t /\ cfg = c /\ pos = 1 /\ ord = c.ord /\ segs = <<>> /\ stop = FALSE

NextSegment ==
  /\ ~stop
  /\ LET seg == SegmentAt(pos)
         fin == seg.tree.fin
     IN IF fin = pos
        THEN stop' = TRUE /\ UNCHANGED <<text, cfg, pos, ord, segs>>
        ELSE /\ pos' = fin
             /\ segs' = Append(segs, SegmentOut(pos, seg))
             /\ ord' = ord + Len(seg.tree.nodes)
             /\ stop' = (seg.tree.eof \/ cfg.single)
             /\ UNCHANGED <<text, cfg>>
=============================================================================
