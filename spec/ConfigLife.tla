----------------------------- MODULE ConfigLife -----------------------------
(* The life of configurations: made with the defaults, set, used by any      *)
(* number of parses, released.  A parse acts on what its configuration says  *)
(* when it begins, changes no configuration, and is not affected by what     *)
(* becomes of its configuration once it has returned.  Going on where the    *)
(* parse before ended makes the parses agree with one of the whole input.    *)
(*                                                                           *)
(* Docs: the documents parsed, each [end, n]: where it ends when begun at    *)
(* <<0, 1, 1>>, and its number of nodes.                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANTS Slots, Places, Ords, Colors, MaxSteps, Mode
VARIABLES conf,    \* conf[k]: "none" or [off, line, col, ord, color]
          last,    \* where the latest parse ended, and the next node's number
          hist
vars == <<conf, last, hist>>
Docs == ndJsonDeserialize(IOEnv.DOCS)
None == [off |-> -1, line |-> 0, col |-> 0, ord |-> 0, color |-> 0]
Default == [off |-> 0, line |-> 1, col |-> 1, ord |-> 0, color |-> 0]
Is(k) == conf[k] # None
FewPlaces == {<<7, 3, 5>>, <<0, 1, 1>>}
ManyPlaces == {<<0, 1, 1>>, <<7, 1, 8>>, <<70000, 300, 1>>, <<12, 2, 5>>, <<2147000000, 1000000, 70000>>}
FewOrds == {0, 5}
ManyOrds == {0, 1, 9, 250, 65533, 2147000000}

Did(a, g, c) == /\ hist' = Append(hist, [a |-> a, g |-> g, c |-> c])
                /\ Mode # "cover" \/ PrintT(ToJson([h |-> hist']))
Init == conf = [k \in Slots |-> None] /\ last = [at |-> <<0, 1, 1>>, ord |-> 0] /\ hist = <<>>
New(k) == /\ ~Is(k) /\ conf' = [conf EXCEPT ![k] = Default] /\ UNCHANGED last
          /\ Did("N", <<k>>, None)
SetPlace(k, p) == /\ Is(k) /\ conf' = [conf EXCEPT ![k].off = p[1], ![k].line = p[2], ![k].col = p[3]]
                  /\ UNCHANGED last /\ Did("P", <<k, p[1], p[2], p[3]>>, None)
SetOrd(k, n) == /\ Is(k) /\ conf' = [conf EXCEPT ![k].ord = n] /\ UNCHANGED last
                /\ Did("O", <<k, n>>, None)
SetColor(k, c) == /\ Is(k) /\ conf' = [conf EXCEPT ![k].color = c] /\ UNCHANGED last
                  /\ Did("C", <<k, c>>, None)
(* Where the latest parse ended is where the next one begins. *)
GoOn(k) == /\ Is(k)
           /\ conf' = [conf EXCEPT ![k].off = last.at[1], ![k].line = last.at[2], ![k].col = last.at[3], ![k].ord = last.ord]
           /\ UNCHANGED last
           /\ Did("G", <<k, last.at[1], last.at[2], last.at[3], last.ord>>, None)
Free(k) == /\ Is(k) /\ conf' = [conf EXCEPT ![k] = None] /\ UNCHANGED last /\ Did("F", <<k>>, None)
From(c, e) == <<c.off + e[1], c.line + e[2] - 1, IF e[2] = 1 THEN c.col + e[3] - 1 ELSE e[3]>>
(* With no configuration, k = 0, the defaults are in force.  how: 0 each, 1 a result, 2 each from a stream; *)
(* 3: each, its segments kept until the configuration has been released (which this parse does). *)
Parse(k, d, how) ==
  LET c == IF k = 0 THEN Default ELSE conf[k]
  IN /\ IF k = 0 THEN how # 3 ELSE Is(k)
     /\ last' = [at |-> From(c, Docs[d].end), ord |-> c.ord + Docs[d].n]
     /\ conf' = IF how = 3 THEN [conf EXCEPT ![k] = None] ELSE conf
     /\ Did("U", <<k, d, how>>, c)

Some == \/ \E k \in Slots : \/ New(k) \/ Free(k) \/ GoOn(k)
                            \/ \E p \in Places : SetPlace(k, p)
                            \/ \E n \in Ords : SetOrd(k, n)
                            \/ \E c \in Colors : SetColor(k, c)
        \/ \E k \in Slots \cup {0}, d \in DOMAIN Docs, how \in 0..3 : Parse(k, d, how)
Next == Len(hist) < MaxSteps /\ Some
Finish == /\ Len(hist) = MaxSteps /\ PrintT(ToJson([h |-> hist]))
          /\ hist' = Append(hist, [a |-> "end", g |-> <<>>, c |-> None]) /\ UNCHANGED <<conf, last>>
Some1(S) == {RandomElement(S)}
WalkNext == \/ /\ Len(hist) < MaxSteps
               /\ \E a \in Some1(1..14), k \in Some1(Slots), p \in Some1(Places), n \in Some1(Ords), c \in Some1(Colors),
                     d \in Some1(DOMAIN Docs), h \in Some1(0..2), r \in Some1(1..6) :
                    IF ~Is(k) THEN IF a > 12 THEN Parse(0, d, h) ELSE New(k)
                    ELSE CASE a <= 6 -> Parse(k, d, IF r = 1 THEN 3 ELSE h)
                           [] a = 7 -> SetPlace(k, p)
                           [] a \in 8..9 -> SetOrd(k, n)
                           [] a = 10 -> SetColor(k, c)
                           [] a \in 11..13 -> GoOn(k)
                           [] a = 14 -> IF r = 1 THEN Free(k) ELSE SetColor(k, c)
            \/ Finish

-----------------------------------------------------------------------------
(* What a configuration says is what was last set, stated on the history. *)
At(i) == hist[i]
Since(k) == LET S == {i \in DOMAIN hist : At(i).a = "N" /\ At(i).g[1] = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
LastOf(k, as) == LET S == {i \in DOMAIN hist : i > Since(k) /\ At(i).a \in as /\ At(i).g[1] = k}
                 IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
SaysWhatWasSet ==
  \A k \in {j \in Slots : Is(j)} :
    LET p == LastOf(k, {"P", "G"}) o == LastOf(k, {"O", "G"}) c == LastOf(k, {"C"})
    IN /\ <<conf[k].off, conf[k].line, conf[k].col>> = (IF p = 0 THEN <<0, 1, 1>> ELSE <<At(p).g[2], At(p).g[3], At(p).g[4]>>)
       /\ conf[k].ord = (IF o = 0 THEN 0 ELSE IF At(o).a = "O" THEN At(o).g[2] ELSE At(o).g[5])
       /\ conf[k].color = (IF c = 0 THEN 0 ELSE At(c).g[2])
(* Only its own steps change a configuration; a parse changes none (but for the release in one kind of it). *)
OnlyOwnSteps == [][\A k \in Slots : conf'[k] # conf[k] =>
                     /\ hist'[Len(hist')].g[1] = k
                     /\ hist'[Len(hist')].a = "U" => conf'[k] = None]_vars
(* Parses each of which went on from the one before give the positions of one input. *)
RECURSIVE Whole(_, _)
Whole(ds, p) == IF ds = <<>> THEN p
                ELSE Whole(Tail(ds), From([off |-> p[1], line |-> p[2], col |-> p[3]], Docs[Head(ds)].end))
Chained == \A i \in DOMAIN hist :
  \A j \in i + 1..Len(hist) :
    LET us == SelectSeq([x \in 1..j |-> x], LAMBDA x : x >= i /\ At(x).a = "U")
    IN (/\ Len(us) > 1 /\ us[1] = i /\ us[Len(us)] = j
        /\ \A m \in 2..Len(us) : /\ us[m] = us[m-1] + 2 /\ At(us[m] - 1).a = "G" /\ At(us[m] - 1).g[1] = At(us[m]).g[1])
       => LET b == At(i).c
              e == Whole([m \in 1..Len(us) - 1 |-> At(us[m]).g[2]], <<b.off, b.line, b.col>>)
          IN <<At(j).c.off, At(j).c.line, At(j).c.col>> = e
live == <<conf, last>>
=============================================================================
