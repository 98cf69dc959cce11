-------------------------------- MODULE Peg --------------------------------
(* Meaning of the parsing expressions of Grammar.tla over an input text.     *)
(*                                                                           *)
(*   P[n, p, pr, st] = << ok, q, st' >>                                      *)
(*                                                                           *)
(* matches expression n at position p (1-based index into the text) with the *)
(* minimum operator precedence pr.  q is the position reached, or, on        *)
(* failure, the position at which the match was given up, which is where an  *)
(* enclosing Err reports its label.  st = << ev, op, err, reach >> is       *)
(* threaded:                                                                 *)
(*   ev   the actions of the path matched so far (forgotten when the     *)
(*        path is abandoned),                                                *)
(*   op   the operator token matched last,                                   *)
(*   err  << far, labels, errors >>: the furthest failure seen, what was     *)
(*        expected there, and the errors already reported (never forgotten), *)
(*   reach  the furthest position looked at (never forgotten): what a stream *)
(*        must have handed out by then.                                      *)
EXTENDS Grammar, SequencesExt

VARIABLE text                 \* the input: a sequence of byte codes
TextLen == Len(text)
At(p) == text[p]

NoEv == <<>>                 \* the actions of the accepted path, in input order
St0 == <<NoEv, "NOT", <<0, <<>>, <<>>>>, 0>>
Push(st, e) == <<Append(st[1], e), st[2], st[3], st[4]>>
Back(st, ev) == <<ev, st[2], st[3], st[4]>>     \* forget the actions of a failed path
Sees(st, p) == IF p <= st[4] THEN st ELSE <<st[1], st[2], st[3], p>>

SeqHas(s, x) == \E i \in 1..Len(s) : s[i] = x

(* Record that `label` was expected at p. *)
Note(err, p, label) ==
  IF p < err[1] \/ (err[3] # <<>> /\ p <= err[3][Len(err[3])][1])
  THEN err
  ELSE IF p > err[1] \/ err[2] = <<>>
       THEN <<p, <<label>>, err[3]>>
       ELSE IF SeqHas(err[2], label) THEN err
            ELSE <<err[1], Append(err[2], label), err[3]>>

(* Turn the furthest failure into a reported error. *)
Reify(err) ==
  IF err[2] = <<>> THEN err ELSE <<0, <<>>, Append(err[3], <<err[1], err[2]>>)>>

More(p) == p <= TextLen
Is(p, c) == p <= TextLen /\ At(p) = c
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c

RECURSIVE LitRun(_, _, _)    \* << matched, position after or where given up, last byte seen >>
LitRun(codes, i, p) ==
  IF i > Len(codes) THEN <<TRUE, p, p - 1>>
  ELSE IF ~More(p) THEN <<FALSE, p, p>>
  ELSE IF At(p) # codes[i] THEN <<FALSE, 0, p>>
  ELSE LitRun(codes, i + 1, p + 1)

RECURSIVE WordRun(_, _, _)
WordRun(codes, i, p) ==
  IF i > Len(codes)
  THEN <<~(More(p) /\ In(SymPartClass, At(p))), p>>
  ELSE IF ~More(p) THEN <<FALSE, p>>
  ELSE IF Lower(At(p)) # codes[i] THEN <<FALSE, p>>
  ELSE WordRun(codes, i + 1, p + 1)

IsEol(p) == IF ~More(p) THEN 0
            ELSE IF At(p) = NL THEN 1
            ELSE IF At(p) = CR /\ Is(p + 1, NL) THEN 2 ELSE 0

RECURSIVE ToEol(_)           \* first end of line at or after p, or the end
ToEol(p) == IF ~More(p) \/ IsEol(p) > 0 THEN p ELSE ToEol(p + 1)
RECURSIVE ToClose(_)         \* first "*/" at or after p, or 0
ToClose(p) == IF ~More(p) THEN 0
              ELSE IF At(p) = 42 /\ Is(p + 1, 47) THEN p ELSE ToClose(p + 1)

(* One comment at p (where "/" stands): << end, st' >>, end = 0 when there is none. *)
Comment(p, st, lines) ==
  IF Is(p + 1, 47) /\ lines
  THEN LET e == ToEol(p + 2)
           s1 == Push(Push(Push(Sees(st, IF IsEol(e) = 2 THEN e + 1 ELSE e), <<"bs", p + 2>>), <<"be", e>>),
                      <<"mk", "line_comment", <<>>, "-">>)
       IN IF More(e) THEN <<e + IsEol(e), s1>> ELSE <<e, Push(s1, <<"eof">>)>>
  ELSE IF Is(p + 1, 42)
  THEN LET e == ToClose(p + 2)
       IN IF e = 0
          THEN <<0, <<st[1], st[2], Note(st[3], TextLen + 1, "*/"), TextLen + 1>>>>
          ELSE <<e + 2, Push(Push(Push(Sees(st, e + 1), <<"bs", p + 2>>), <<"be", e>>),
                             <<"mk", "block_comment", <<>>, "-">>)>>
  ELSE <<0, Sees(st, p + 1)>>

RECURSIVE WS(_, _, _)        \* skip white space and comments
WS(p, st, lines) ==
  IF ~More(p) THEN <<TRUE, p, Sees(st, p)>>
  ELSE LET c == At(p) IN
       IF c = SP \/ c = TAB THEN WS(p + 1, st, lines)
       ELSE IF c = 47
       THEN LET r == Comment(p, st, lines)
            IN IF r[1] = 0 THEN <<TRUE, p, r[2]>> ELSE WS(r[1], r[2], lines)
       ELSE IF lines /\ IsEol(p) > 0 THEN WS(p + IsEol(p), st, lines)
       ELSE <<TRUE, p, Sees(st, IF lines /\ c = CR THEN p + 1 ELSE p)>>

(* The grammar with rules referred to by number: TLC finds an element of a   *)
(* sequence faster than a field of a large record.                           *)
RuleNames == SetToSeq(DOMAIN Rules)
RuleIx == [r \in DOMAIN Rules |-> CHOOSE i \in 1..Len(RuleNames) : RuleNames[i] = r]
RECURSIVE Resolve(_)
ResolveAll(xs) == FoldLeft(LAMBDA acc, x : Append(acc, Resolve(x)), <<>>, xs)
Resolve(n) ==
  LET k == n[1] IN
  CASE k = "r" -> <<"r", RuleIx[n[2]]>>
    [] k \in {"q", "o"} -> <<k, ResolveAll(n[2])>>
    [] k \in {"*", "+", "?", "!", "&", "top", "prec"} -> <<k, Resolve(n[2])>>
    [] k = "e" -> <<k, Resolve(n[2]), n[3]>>
    [] k \in {"bind", "vars"} -> <<k, n[2], Resolve(n[3])>>
    [] OTHER -> n
RuleCode == ResolveAll([i \in 1..Len(RuleNames) |-> Rules[RuleNames[i]]])

(* << matched, position after, state after >> of matching n at p.  (One       *)
(* recursive function rather than operators: TLC evaluates it much faster.)  *)
P[n \in Any, p \in Any, pr \in Any, st \in Any] ==
  LET k == n[1] IN
  CASE k = "r"   -> LET r == P[RuleCode[n[2]], p, pr, st]
                    IN IF r[1] THEN r ELSE <<FALSE, p, r[3]>>
    [] k = "q"   -> FoldLeft(LAMBDA r, x : IF ~r[1] THEN r ELSE P[x, r[2], pr, r[3]],
                             <<TRUE, p, st>>, n[2])
    [] k = "e"   -> LET r == P[n[2], p, pr, st]
                    IN IF r[1] THEN r
                       ELSE <<FALSE, r[2], <<r[3][1], r[3][2], Note(r[3][3], r[2], n[3]), r[3][4]>>>>
    [] k = "w"   -> LET r == WordRun(n[2], 1, p) IN <<r[1], r[2], Sees(st, r[2])>>
    [] k = "c"   -> IF Is(p, n[2]) THEN <<TRUE, p + 1, Sees(st, p)>> ELSE <<FALSE, p, Sees(st, p)>>
    [] k = "-"   -> WS(p, st, TRUE)
    [] k = "o"   -> FoldLeft(LAMBDA r, x : IF r[1] THEN r ELSE P[x, p, pr, Back(r[3], st[1])],
                             <<FALSE, p, st>>, n[2])
    [] k = "ev"  -> <<TRUE, p, Push(st, n[2])>>
    [] k = "pos" -> <<TRUE, p, Push(st, <<n[2], p>>)>>
    [] k = "bind" -> LET r == P[n[3], p, pr, st]
                     IN IF r[1] THEN <<TRUE, r[2], Push(r[3], <<"set", n[2]>>)>> ELSE r
    [] k = "vars" -> LET r == P[n[3], p, pr, Push(st, <<"vars", n[2]>>)]
                     IN IF r[1] THEN <<TRUE, r[2], Push(r[3], <<"endvars">>)>> ELSE r
    [] k = "k"   -> IF More(p) /\ In(n[2], At(p)) THEN <<TRUE, p + 1, Sees(st, p)>> ELSE <<FALSE, p, Sees(st, p)>>
    [] k = "any" -> IF More(p) THEN <<TRUE, p + 1, Sees(st, p)>> ELSE <<FALSE, p, Sees(st, p)>>
    [] k = "s"   -> LET r == LitRun(n[2], 1, p)
                    IN <<r[1], IF r[2] = 0 THEN p ELSE r[2], Sees(st, r[3])>>
    [] k = "*"   -> LET r == P[n[2], p, pr, st]
                    IN IF ~r[1] THEN <<TRUE, p, Back(r[3], st[1])>> ELSE P[n, r[2], pr, r[3]]
    [] k = "+"   -> LET r == P[n[2], p, pr, st]
                    IN IF r[1] THEN P[<<"*", n[2]>>, r[2], pr, r[3]] ELSE r
    [] k = "?"   -> LET r == P[n[2], p, pr, st]
                    IN IF r[1] THEN r ELSE <<TRUE, p, Back(r[3], st[1])>>
    [] k = "!"   -> LET r == P[n[2], p, pr, st]
                    IN IF r[1] THEN <<FALSE, r[2], r[3]>> ELSE <<TRUE, p, Back(r[3], st[1])>>
    [] k = "&"   -> LET r == P[n[2], p, pr, st]
                    IN IF r[1] THEN <<TRUE, p, Back(r[3], st[1])>> ELSE r
    [] k = "op"  -> <<TRUE, p, <<st[1], n[2], st[3], st[4]>>>>
    [] k = "chk" -> <<Operator[st[2]][1] >= pr, p, st>>
    [] k = "top" -> P[n[2], p, 0, st]
    [] k = "prec" -> LET o == Operator[st[2]]
                     IN P[n[2], p, IF o[2] THEN o[1] + 1 ELSE o[1], st]
    [] k = "--"  -> WS(p, st, FALSE)
    [] k = "rec" -> <<TRUE, p, <<st[1], st[2], Reify(st[3]), st[4]>>>>
=============================================================================
