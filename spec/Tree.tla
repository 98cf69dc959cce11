-------------------------------- MODULE Tree --------------------------------
(* Meaning of the actions performed by an accepted path: a machine that      *)
(* builds the syntax tree.  Its state is                                     *)
(*   stk    open blocks, innermost last; a block is where it started, its    *)
(*          collected nodes (seq) and the nodes created inside it (ch)       *)
(*   prev   the block closed last, until a node has been made from it        *)
(*   sb     accumulated text                                                 *)
(*   ops    operators matched and not yet used                               *)
(*   fr     values bound by the rules being applied                          *)
(*   yy     the value last yielded (0 is "no node")                          *)
(*   nodes  everything created: type, range, children, facts                 *)
(*   res    the directive; eof: the input ended; fin: where parsing finished *)
EXTENDS Peg, Kinds, SequencesExt

NoBlock == [s |-> 0, e |-> 0, seq |-> <<>>, ch |-> <<>>]
Tree0(p) == [stk |-> <<[NoBlock EXCEPT !.s = p, !.e = p]>>, prev |-> NoBlock, sb |-> <<>>,
             ops |-> <<>>, fr |-> <<>>, yy |-> 0, nodes |-> <<>>, res |-> 0,
             eof |-> FALSE, fin |-> 0]

Top_(s) == s[Len(s)]
SetTop(s, x) == [s EXCEPT ![Len(s)] = x]
Pop(s) == SubSeq(s, 1, Len(s) - 1)

(* Text up to the first zero byte. *)
CStr(s) == IF \E i \in 1..Len(s) : s[i] = 0
           THEN SubSeq(s, 1, (CHOOSE i \in 1..Len(s) : s[i] = 0 /\ \A j \in 1..(i-1) : s[j] # 0) - 1)
           ELSE s
BlockText(b) == SubSeq(text, b.s, b.e - 1)

IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(s) == IF s # <<>> /\ IsSpace(s[1]) THEN TrimLeft(Tail(s)) ELSE s
TrimRight(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN TrimRight(Pop(s)) ELSE s

Odds(s) == [i \in 1..(Len(s) \div 2) |-> s[2*i - 1]]
Evens(s) == [i \in 1..(Len(s) \div 2) |-> s[2*i]]

RECURSIVE Leading(_, _, _, _)   \* how many leading nodes are (not) of type t
Leading(seq, nodes, t, is) ==
  IF seq = <<>> \/ ((nodes[seq[1]].t = t) # is) THEN 0
  ELSE 1 + Leading(Tail(seq), nodes, t, is)

FactOf(node, name) ==
  LET i == CHOOSE i \in 1..Len(node.r) : node.r[i][2] = name IN node.r[i][3]

Fact(S, a, r) ==
  LET k == r[1] seq == S.prev.seq IN
  CASE k = "n"    -> <<"n", r[2], a[r[3]]>>
    [] k = "x"    -> <<"x", r[2], CStr(S.sb)>>
    [] k = "xb"   -> <<"x", r[2], CStr(BlockText(S.prev))>>
    [] k = "l"    -> <<"l", r[2], seq>>
    [] k = "b"    -> <<"b", r[2], a[r[3]]>>
    [] k = "s"    -> <<"s", r[2], a[r[3]]>>
    [] k = "op"   -> <<"s", r[2], Top_(S.ops)>>
    [] k = "ops"  -> <<"o", r[2], SubSeq(S.ops, Len(S.ops) - Len(seq) + 2, Len(S.ops))>>
    [] k = "odd"  -> <<"l", r[2], Odds(seq)>>
    [] k = "even" -> <<"l", r[2], Evens(seq)>>
    [] k = "pre"  -> <<"l", r[2], SubSeq(seq, 1, Leading(seq, S.nodes, "projection", FALSE))>>
    [] k = "post" -> <<"l", r[2], SubSeq(seq, Leading(seq, S.nodes, "projection", FALSE) + 1, Len(seq))>>
    [] k = "preopt"  -> <<"l", r[2], SubSeq(seq, 1, Leading(seq, S.nodes, "USING PERIODIC_COMMIT", TRUE))>>
    [] k = "postopt" -> <<"l", r[2], SubSeq(seq, Leading(seq, S.nodes, "USING PERIODIC_COMMIT", TRUE) + 1, Len(seq))>>
    [] k = "path" -> <<"l", r[2], FactOf(S.nodes[a[r[3]]], "elements")>>
    [] k = "none" -> <<"n", r[2], 0>>
    [] k = "nil"  -> <<"l", r[2], <<>>>>

Constant == {"OP", "NULL", "true", "false", "INBOUND", "OUTBOUND", "BIDIRECTIONAL"}
ArgOf(S, v) ==
  IF v \notin Constant THEN Top_(S.fr)[v]
  ELSE CASE v = "true" -> TRUE [] v = "false" -> FALSE [] v = "NULL" -> 0 [] OTHER -> v

NOps(f, seq) == IF f \in {"unary_operator", "binary_operator"} THEN 1
                ELSE IF f = "comparison_operator" THEN Len(seq) - 1 ELSE 0

AddNode(S, node) ==          \* append a node and make it a child of the open block
  LET b == Top_(S.stk) id == Len(S.nodes) + 1
  IN [S EXCEPT !.nodes = Append(@, node),
               !.stk = SetTop(@, [b EXCEPT !.ch = Append(@, id)]),
               !.prev = NoBlock]

Make(S, f, args, var) ==
  LET kind == Kinds[f]
      a == [i \in 1..Len(args) |-> ArgOf(S, args[i])]
      b == S.prev
      node == [t |-> kind.t, s |-> b.s, e |-> b.e, ch |-> b.ch,
               r |-> [i \in 1..Len(kind.r) |-> Fact(S, a, kind.r[i])]]
      S1 == AddNode([S EXCEPT !.ops = SubSeq(@, 1, Len(@) - NOps(f, b.seq))], node)
      id == Len(S1.nodes)
  IN IF var = "-" THEN S1                 \* a comment or an error: yields nothing
     ELSE IF var = "" THEN [S1 EXCEPT !.yy = id]
     ELSE [S1 EXCEPT !.fr = SetTop(@, [Top_(@) EXCEPT ![var] = id])]

Close(S, p) == [Top_(S.stk) EXCEPT !.e = p]

Do(S, ev) ==
  LET k == ev[1] IN
  CASE k = "bs" -> [S EXCEPT !.stk = Append(@, [NoBlock EXCEPT !.s = ev[2], !.e = ev[2]]),
                             !.prev = NoBlock]
    [] k = "be" -> [S EXCEPT !.stk = Pop(@), !.prev = Close(S, ev[2])]
    [] k = "set" -> [S EXCEPT !.fr = SetTop(@, [Top_(@) EXCEPT ![ev[2]] = S.yy])]
    [] k = "vars" -> [S EXCEPT !.fr = Append(@, [v \in Range(ev[2]) |-> 0])]
    [] k = "endvars" -> [S EXCEPT !.fr = Pop(@)]
    [] k = "mk" -> Make(S, ev[2], ev[3], ev[4])
    [] k = "bm" ->
         LET b == Close(S, ev[2])
             stk == Pop(S.stk)
         IN [S EXCEPT !.stk = SetTop(stk, [Top_(stk) EXCEPT !.ch = @ \o b.ch]),
                      !.prev = [b EXCEPT !.ch = <<>>]]
    [] k = "br" ->
         LET b == Close(S, ev[2])
         IN [S EXCEPT !.stk = SetTop(@, [NoBlock EXCEPT !.s = b.s, !.e = b.s]), !.prev = b]
    [] k = "yield" -> [S EXCEPT !.yy = IF ev[2] = "" THEN 0 ELSE Top_(S.fr)[ev[2]]]
    [] k = "add" -> LET b == Top_(S.stk) IN
         [S EXCEPT !.stk = SetTop(@, [b EXCEPT !.seq = Append(@, Top_(S.fr)[ev[2]])])]
    [] k = "sbreset" -> [S EXCEPT !.sb = <<>>]
    [] k = "sbblock" -> [S EXCEPT !.sb = @ \o BlockText(S.prev)]
    [] k = "sbbyte" -> [S EXCEPT !.sb = Append(@, ev[2])]
    [] k = "pushop" -> [S EXCEPT !.ops = Append(@, ev[2])]
    [] k = "alias" ->
         IF S.nodes[Top_(S.fr)["e"]].t = "identifier" THEN S
         ELSE LET S1 == AddNode(S, [t |-> "identifier", s |-> S.prev.s, e |-> S.prev.e,
                                    ch |-> <<>>,
                                    r |-> <<<<"x", "name",
                                      CStr(TrimRight(TrimLeft(BlockText(S.prev))))>>>>])
              IN [S1 EXCEPT !.fr = SetTop(@, [Top_(@) EXCEPT !["i"] = Len(S1.nodes)])]
    [] k = "eof" -> [S EXCEPT !.eof = TRUE]
    [] k = "result" -> [S EXCEPT !.res = IF ev[2] = "" THEN 0 ELSE Top_(S.fr)[ev[2]]]
    [] k = "fin" -> [S EXCEPT !.fin = ev[2]]

Build(evs, p) == FoldLeft(Do, Tree0(p), evs)

(* Nodes in document order: every node before its children. *)
RECURSIVE Preorder(_, _)
Preorder(ids, nodes) ==
  IF ids = <<>> THEN <<>>
  ELSE <<ids[1]>> \o Preorder(nodes[ids[1]].ch, nodes) \o Preorder(Tail(ids), nodes)
=============================================================================
