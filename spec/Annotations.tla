---------------------------- MODULE Annotations ----------------------------
(* Annotation contexts: each maps nodes to values.  Trees own their nodes.   *)
(* A value leaves a context by being replaced or removed (it is given back   *)
(* to the caller) or by being released, when its context or its node goes    *)
(* (the context's handler, if any, is told, once).                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Ctxs,      \* slots for contexts
          Size,      \* number of nodes of the tree in each slot
          Picks,     \* the nodes used, numbered slot * 10 + place in the tree
          Values, Handlers, MaxSteps, Mode
VARIABLES ctx,       \* ctx[c]: is there a context in the slot
          tree,      \* tree[t]: is there a tree in the slot
          map,       \* map[c][n]: the value, or 0
          hnd,       \* hnd[c]: the handler in force, or 0
          hist       \* what was done, and what was seen
vars == <<ctx, tree, map, hnd, hist>>
live == <<ctx, tree, map, hnd>>
Trees == DOMAIN Size
Size2 == (0 :> 3) @@ (1 :> 3)
Size4 == (0 :> 3) @@ (1 :> 3) @@ (2 :> 6) @@ (3 :> 6)
Nodes == {n \in Picks : TRUE}
TreeOf(n) == n \div 10
Empty == [n \in Nodes |-> 0]

Init == /\ ctx = [c \in Ctxs |-> FALSE] /\ tree = [t \in Trees |-> FALSE]
        /\ map = [c \in Ctxs |-> Empty] /\ hnd = [c \in Ctxs |-> 0] /\ hist = <<>>

(* what can be got: <<context, node, value>> *)
Held(m) == {<<c, n, m[c][n]>> : c \in Ctxs, n \in Nodes} \ {<<c, n, 0>> : c \in Ctxs, n \in Nodes}
Did(a, args, ret, val, rel) ==
  /\ hist' = Append(hist, [a |-> a, g |-> args, ret |-> ret, val |-> val, rel |-> rel])
  /\ \/ Mode # "cover" \/ PrintT(ToJson([h |-> hist', m |-> Held(map')]))

(* What the handlers are told when the values at (c, n) in S are released. *)
Told(S) == {<<s[1], hnd[s[1]], s[2], map[s[1]][s[2]]>> : s \in {x \in S : map[x[1]][x[2]] # 0 /\ hnd[x[1]] # 0}}

NewContext(c) == /\ ~ctx[c] /\ ctx' = [ctx EXCEPT ![c] = TRUE]
                 /\ UNCHANGED <<tree, map, hnd>> /\ Did("C", <<c>>, 0, 0, {})
FreeContext(c) == /\ ctx[c]
                  /\ ctx' = [ctx EXCEPT ![c] = FALSE]
                  /\ map' = [map EXCEPT ![c] = Empty]
                  /\ hnd' = [hnd EXCEPT ![c] = 0]
                  /\ UNCHANGED tree
                  /\ Did("F", <<c>>, 0, 0, Told({c} \X Nodes))
SetHandler(c, h) == /\ ctx[c] /\ hnd' = [hnd EXCEPT ![c] = h]
                    /\ UNCHANGED <<ctx, tree, map>> /\ Did("H", <<c, h>>, 0, 0, {})
NewTree(t) == /\ ~tree[t] /\ tree' = [tree EXCEPT ![t] = TRUE]
              /\ UNCHANGED <<ctx, map, hnd>> /\ Did("T", <<t>>, 0, 0, {})
(* A copy of the tree in another slot; it carries no annotations. *)
CloneTree(s, t) == /\ tree[s] /\ ~tree[t] /\ Size[s] = Size[t] /\ tree' = [tree EXCEPT ![t] = TRUE]
                   /\ UNCHANGED <<ctx, map, hnd>> /\ Did("K", <<s, t>>, 0, 0, {})
(* how: the tree at once, or node by node from the root or from the last (trees that a result or a segment *)
(* owns go with it); its annotations are released in each case. *)
FreeTree(t, how) == /\ tree[t]
               /\ tree' = [tree EXCEPT ![t] = FALSE]
               /\ map' = [c \in Ctxs |-> [n \in Nodes |-> IF TreeOf(n) = t THEN 0 ELSE map[c][n]]]
               /\ UNCHANGED <<ctx, hnd>>
               /\ Did("U", <<t, how>>, 0, 0, Told(Ctxs \X {n \in Nodes : TreeOf(n) = t}))
(* p: was a place for the previous value given *)
Attach(c, n, v, p) == /\ ctx[c] /\ tree[TreeOf(n)]
                      /\ map' = [map EXCEPT ![c][n] = v]
                      /\ UNCHANGED <<ctx, tree, hnd>>
                      /\ Did("A", <<c, n, v, p>>, 0, IF p = 1 THEN map[c][n] ELSE 0, {})
Get(c, n) == /\ ctx[c] /\ tree[TreeOf(n)]
             /\ UNCHANGED live /\ Did("G", <<c, n>>, 0, map[c][n], {})
Remove(c, n) == /\ ctx[c] /\ tree[TreeOf(n)]
                /\ map' = [map EXCEPT ![c][n] = 0]
                /\ UNCHANGED <<ctx, tree, hnd>> /\ Did("R", <<c, n>>, 0, map[c][n], {})
(* Missing arguments are refused and change nothing. 99 stands for none. *)
Refused == \/ \E c \in Ctxs, n \in Nodes, v \in Values :
                /\ UNCHANGED live
                /\ \/ tree[TreeOf(n)] /\ Did("A", <<99, n, v, 0>>, 1, 0, {})
                   \/ ctx[c] /\ Did("A", <<c, 99, v, 0>>, 1, 0, {})
                   \/ ctx[c] /\ tree[TreeOf(n)] /\ Did("A", <<c, n, 0, 0>>, 1, 0, {})
           \/ \E c \in Ctxs, n \in Nodes, a \in {"G", "R"} :
                /\ UNCHANGED live
                /\ \/ tree[TreeOf(n)] /\ Did(a, <<99, n>>, 1, 0, {})
                   \/ ctx[c] /\ Did(a, <<c, 99>>, 1, 0, {})

-----------------------------------------------------------------------------
(* The properties, stated on what was done and seen. *)
At(k) == hist[k]
Is(k, a, c, n) == At(k).a = a /\ At(k).ret = 0 /\ Len(At(k).g) > 1 /\ At(k).g[1] = c /\ At(k).g[2] = n
(* the step at which the value held for (c, n) was given, or 0 *)
Holder(c, n) ==
  LET S == {k \in 1..Len(hist) : Is(k, "A", c, n)}
      D == {k \in 1..Len(hist) : Is(k, "R", c, n) \/ (At(k).a = "F" /\ At(k).g = <<c>>) \/ (At(k).a = "U" /\ At(k).g[1] = TreeOf(n))}
      Max(X) == IF X = {} THEN 0 ELSE CHOOSE x \in X : \A y \in X : y <= x
  IN IF Max(S) > Max(D) THEN Max(S) ELSE 0
LatestValue == \A c \in Ctxs, n \in Nodes :
  map[c][n] = (IF Holder(c, n) = 0 THEN 0 ELSE At(Holder(c, n)).g[3])
(* every release is of a value given and not given back, and no value is released twice *)
Given(c, n, v) == Cardinality({k \in 1..Len(hist) : Is(k, "A", c, n) /\ At(k).g[3] = v})
Freed(c, n, v) == Cardinality({k \in 1..Len(hist) : \E r \in At(k).rel : r[1] = c /\ r[3] = n /\ r[4] = v})
ReleasedAtMostOnce == \A c \in Ctxs, n \in Nodes, v \in Values : Freed(c, n, v) <= Given(c, n, v)
OnlyLive == \A c \in Ctxs, n \in Nodes : map[c][n] # 0 => ctx[c] /\ tree[TreeOf(n)]
OnlyOnFree == \A k \in 1..Len(hist) : At(k).rel # {} => At(k).a \in {"F", "U"}
-----------------------------------------------------------------------------
Do == \/ \E c \in Ctxs : NewContext(c) \/ FreeContext(c) \/ \E h \in Handlers \cup {0} : SetHandler(c, h)
      \/ \E t \in Trees : NewTree(t) \/ (\E how \in 0..2 : FreeTree(t, how)) \/ \E s \in Trees : CloneTree(s, t)
      \/ \E c \in Ctxs, n \in Nodes : Get(c, n) \/ Remove(c, n) \/ \E v \in Values, p \in {0, 1} : Attach(c, n, v, p)
Next == Len(hist) < MaxSteps /\ (Do \/ Refused)
(* The end of a walk: what it did, once, if the properties hold of it. *)
Finish == /\ Mode = "walk" /\ Len(hist) = MaxSteps
          /\ UNCHANGED live
          /\ hist' = Append(hist, [a |-> "end", g |-> <<>>, ret |-> 0, val |-> 0, rel |-> {}])
          /\ Assert(LatestValue /\ ReleasedAtMostOnce /\ OnlyLive /\ OnlyOnFree, hist)
          /\ PrintT(ToJson([h |-> hist, m |-> Held(map)]))
WalkNext == (Len(hist) < MaxSteps /\ Do) \/ Finish
Spec == Init /\ [][Next]_vars

=============================================================================
