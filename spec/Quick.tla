------------------------------- MODULE Quick -------------------------------
(* The quick parser: splits an input into statements and client commands     *)
(* without parsing them.                                                     *)
EXTENDS Peg

VARIABLES cfg, pos, segs, stop

HWS_ == Cls(" \t")
EOL_ == Or(<<Lit("\n"), Lit("\r\n")>>)
EOF_ == Sq(<<Not(Dot), Eof>>)
WS_ == Or(<<HWS_, EOL_>>)
LineComment == Sq(<<Lit("//"), Star(Sq(<<Not(EOL_), Dot>>)), Or(<<EOL_, EOF_>>)>>)
BlockComment == Sq(<<Lit("/*"), Star(Or(<<EOL_, Sq(<<Not(Lit("*/")), Dot>>)>>)), Lit("*/")>>)
UnclosedBlockComment == Sq(<<Lit("/*"), Star(Or(<<EOL_, Sq(<<Not(Lit("*/")), Dot>>)>>)), EOF_>>)
Comment_ == Or(<<LineComment, BlockComment>>)
Blank == Star(Or(<<WS_, Comment_>>))
HBlank == Star(Or(<<HWS_, BlockComment>>))
LineEnd == Or(<<LineComment, EOL_, EOF_>>)
Escape == Sq(<<Lit("\\"), Cls("abfnrtv\"'?\\")>>)
QuotedBy(q) == Sq(<<Lit(q), Star(Or(<<Escape, EOL_, Sq(<<Not(Lit(q)), Dot>>)>>)),
                    Or(<<Lit(q), EOF_>>)>>)
Quotes == Or(<<QuotedBy("'"), QuotedBy("\"")>>)

(* Bodies end before trailing white space and comments. *)
CommandBody ==
  Star(Sq(<<Not(Sq(<<HBlank, Or(<<Lit(";"), LineEnd>>)>>)),
            Or(<<Escape, Lit("\\;"), Sq(<<Lit("\\"), HBlank, LineEnd>>), BlockComment,
                 UnclosedBlockComment, Quotes, Dot>>)>>))
StatementBody ==
  Star(Sq(<<Not(Sq(<<Blank, Or(<<Lit(";"), EOF_>>)>>)),
            Or(<<Comment_, Quotes, UnclosedBlockComment, Escape, Dot>>)>>))

ClientCommand ==
  Sq(<<Blank, <<"pos", "begin">>, Lit(":"), CommandBody, <<"pos", "end">>, HBlank,
       Or(<<Lit(";"), LineEnd>>), Ev(<<"command">>)>>)
Statement ==
  Sq(<<Blank, <<"pos", "begin">>, StatementBody, <<"pos", "end">>, Blank,
       Or(<<Lit(";"), EOF_>>), Ev(<<"statement">>)>>)

RuleFor(only) == IF only THEN Statement ELSE Or(<<ClientCommand, Statement>>)

RECURSIVE FirstOf(_, _, _)
FirstOf(evs, k, i) == IF i > Len(evs) THEN 0 ELSE IF evs[i][1] = k THEN i ELSE FirstOf(evs, k, i + 1)
HasEv(evs, k) == \E i \in 1..Len(evs) : evs[i][1] = k

(* Line and column follow from the input alone. *)
RECURSIVE LineCol(_, _, _, _)
LineCol(p, i, line, start) ==
  IF i >= p THEN <<p - 1, line, p - start + 1>>
  ELSE IF text[i] = NL THEN LineCol(p, i + 1, line + 1, i + 1) ELSE LineCol(p, i + 1, line, start)
PosOf(p) == LineCol(p, 1, 1, 1)

QuickAt(p) ==
  LET r == P[RuleFor(cfg.only), p, 0, St0]
      evs == r[3][1]
      b == evs[FirstOf(evs, "begin", 1)][2]
      e == evs[FirstOf(evs, "end", 1)][2]
  IN [ok |-> r[1], from |-> p, b |-> b, e |-> e, next |-> r[2],
      reach |-> r[3][4],
      command |-> HasEv(evs, "command"), eof |-> HasEv(evs, "eof")]

QuickInit(t, c) == text = t /\ cfg = c /\ pos = 1 /\ segs = <<>> /\ stop = FALSE
NextQuick ==
  /\ ~stop
  /\ LET q == QuickAt(pos)
         nothing == q.eof /\ q.e = pos     \* not even white space before the end
     IN /\ segs' = IF nothing THEN segs ELSE Append(segs,
               [kind |-> IF q.command THEN "command" ELSE "statement",
                reach |-> q.reach, start |-> PosOf(q.b), end |-> PosOf(q.e), next |-> PosOf(q.next),
                eof |-> q.eof, text |-> SubSeq(text, q.b, q.e - 1)])
        /\ pos' = q.next
        /\ stop' = (q.eof \/ cfg.single)
        /\ UNCHANGED <<text, cfg>>
=============================================================================
