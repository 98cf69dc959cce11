-------------------------------- MODULE Props -------------------------------
(* What must be true of the segments of a session, whatever the input: these *)
(* predicates are invariants of Session (checked by TLC on every input it is *)
(* run on) and are also evaluated, by TLC, on what the implementation        *)
(* reported.  segs are records as SegmentOut makes them.                     *)
EXTENDS Kinds, FiniteSets, Integers, Sequences, SequencesExt

Idx(s) == 1..Len(s)
Leq(p, q) == p[1] <= q[1] /\ (p[2] < q[2] \/ (p[2] = q[2] /\ p[3] <= q[3]))
Lt(p, q) == p[1] < q[1] /\ Leq(p, q)

NodeFacts == {"n"}
ListFacts == {"l", "odd", "even", "pre", "post", "preopt", "postopt"}
RolesIn(t, ks) == {name \in UNION {{Kinds[f].r[i][2] : i \in {j \in Idx(Kinds[f].r) : Kinds[f].r[j][1] \in ks}}
                                   : f \in {g \in DOMAIN Kinds : Kinds[g].t = t}} : TRUE}
AllTypes == {Kinds[f].t : f \in DOMAIN Kinds}
NodeRoles == [t \in AllTypes |-> RolesIn(t, NodeFacts)]
ListRoles == [t \in AllTypes |-> RolesIn(t, ListFacts)]

(* The segments tile the input, starting at the configured position.  first  *)
(* is that position.                                                         *)
Tiles(segs, first) ==
  /\ segs # <<>> => segs[1].start = first
  /\ \A i \in Idx(segs) : Lt(segs[i].start, segs[i].end)
  /\ \A i \in 2..Len(segs) : segs[i].start = segs[i - 1].end
OnlyLastAtEof(segs) == \A i \in 1..(Len(segs) - 1) : ~segs[i].eof

(* Ordinals count the nodes of all trees in document order. *)
OrdinalsRun(segs, ord0) ==
  LET base(i) == ord0 + FoldLeft(LAMBDA a, s : a + Len(s.nodes), 0, SubSeq(segs, 1, i - 1))
  IN \A i \in Idx(segs) : \A k \in Idx(segs[i].nodes) : segs[i].nodes[k].o = base(i) + k - 1

(* Every node appears once, under one parent or as a root, parents first,   *)
(* and children in the order in which they stand.                           *)
Node(seg, o) == seg.nodes[o - seg.nodes[1].o + 1]
TreeShape(seg) ==
  LET all == {seg.nodes[i].o : i \in Idx(seg.nodes)}
      refs == seg.roots \o FoldLeft(LAMBDA a, n : a \o n.ch, <<>>, seg.nodes)
  IN /\ Len(refs) = Len(seg.nodes) /\ Range(refs) = all
     /\ \A i \in Idx(seg.nodes) : \A j \in Idx(seg.nodes[i].ch) : seg.nodes[i].ch[j] > seg.nodes[i].o
     /\ \A i \in Idx(seg.nodes) : LET c == seg.nodes[i].ch IN \A j \in 1..(Len(c) - 1) : c[j] < c[j + 1]
     /\ \A j \in 1..(Len(seg.roots) - 1) : seg.roots[j] < seg.roots[j + 1]

Spans(seg) ==
  /\ \A i \in Idx(seg.nodes) :
       LET n == seg.nodes[i]
       IN /\ Leq(n.s, n.e) /\ Leq(seg.start, n.s) /\ Leq(n.e, seg.end)
          /\ \A j \in Idx(n.ch) : Leq(n.s, Node(seg, n.ch[j]).s) /\ Leq(Node(seg, n.ch[j]).e, n.e)
(* Siblings stand in order and do not overlap - but a projection without an  *)
(* alias gives the expression's text as its name, and a comment within a     *)
(* label or the like is its sibling.                                         *)
Comments == {"line_comment", "block_comment"}
SiblingsInOrder(seg) ==
  /\ \A i \in Idx(seg.nodes) :
       LET c == seg.nodes[i].ch
       IN \A j \in 1..(Len(c) - 1) :
            LET a == Node(seg, c[j]) b == Node(seg, c[j + 1])
            IN \/ Leq(a.e, b.s)
               \/ a.t \in Comments /\ Leq(b.s, a.s) /\ Leq(a.e, b.e)
               \/ (seg.nodes[i].t = "projection" /\ b.t = "identifier" /\ j + 1 = Len(c)
                                 /\ Leq(b.s, Node(seg, c[1]).s) /\ Leq(a.e, b.e))
  /\ \A j \in 1..(Len(seg.roots) - 1) : Leq(Node(seg, seg.roots[j]).e, Node(seg, seg.roots[j + 1]).s)

(* What a node's accessors give are children of that node. *)
RolesAreChildren(seg) ==
  \A i \in Idx(seg.nodes) :
    LET n == seg.nodes[i]
    IN n.t \in AllTypes =>
       \A j \in Idx(n.r) :
         /\ n.r[j][1] \in NodeRoles[n.t] => n.r[j][2] = -1 \/ n.r[j][2] \in Range(n.ch)
         /\ n.r[j][1] \in ListRoles[n.t] => Range(n.r[j][2]) \subseteq Range(n.ch)

DirectiveIsRoot(seg) ==
  seg.directive = -1 \/
    (seg.directive \in Range(seg.roots) /\ Node(seg, seg.directive).t \in {"statement", "command"})

ErrorsInOrder(seg) ==
  /\ \A i \in Idx(seg.errors) : Leq(seg.start, seg.errors[i].at)
  /\ \A i \in 1..(Len(seg.errors) - 1) : Leq(seg.errors[i].at, seg.errors[i + 1].at)
(* Text that was not understood is in the tree and is reported. *)
ErrorNodesReported(seg) ==
  (\E i \in Idx(seg.nodes) : seg.nodes[i].t = "error") => seg.errors # <<>>

(* Nothing is silently dropped: what is not part of a tree is white space, a *)
(* comment's delimiters or the terminator.  t is the whole input, whose first *)
(* byte has offset off.                                                      *)
Covers(seg, t, off) ==
  LET spans == [j \in Idx(seg.roots) |->
                  LET n == Node(seg, seg.roots[j])
                  IN <<n.s[1] - (IF n.t \in Comments THEN 2 ELSE 0),
                       n.e[1] + (IF n.t = "block_comment" THEN 2 ELSE 0)>>]
      gap(a, b) == \A p \in (a - off + 1)..(b - off) :
                     \/ t[p] \in {9, 10, 32}
                     \/ t[p] = 13 /\ p < Len(t) /\ t[p + 1] = 10
                     \/ t[p] = 59 /\ p = seg.end[1] - off
      n == Len(spans)
  IN IF n = 0 THEN gap(seg.start[1], seg.end[1])
     ELSE /\ gap(seg.start[1], spans[1][1]) /\ gap(spans[n][2], seg.end[1])
          /\ \A j \in 1..(n - 1) : gap(spans[j][2], spans[j + 1][1])

SegmentProps(seg) ==
  << <<"TreeShape", TreeShape(seg)>>, <<"Spans", Spans(seg)>>,
     <<"SiblingsInOrder", SiblingsInOrder(seg)>>,
     <<"RolesAreChildren", RolesAreChildren(seg)>>, <<"DirectiveIsRoot", DirectiveIsRoot(seg)>>,
     <<"ErrorsInOrder", ErrorsInOrder(seg)>>, <<"ErrorNodesReported", ErrorNodesReported(seg)>> >>
SessionProps(segs, first, ord0) ==
  << <<"Tiles", Tiles(segs, first)>>, <<"OnlyLastAtEof", OnlyLastAtEof(segs)>>,
     <<"OrdinalsRun", OrdinalsRun(segs, ord0)>> >>

Failing(props) == {p[1] : p \in {q \in Range(props) : ~q[2]}}
FailingAll(segs, first, ord0) ==
  Failing(SessionProps(segs, first, ord0)) \cup UNION {Failing(SegmentProps(segs[i])) : i \in Idx(segs)}
=============================================================================
