------------------------------ MODULE Grammar ------------------------------
(* The concrete syntax of the language as data: one parsing expression per   *)
(* rule, together with the actions that an accepted path performs (in input  *)
(* order) and the labels that a failed path contributes to error reports.    *)
(* Peg.tla gives these expressions their meaning; Tree.tla gives the actions *)
(* their meaning.                                                            *)
EXTENDS Chars

(* Parsing expressions *)
Sq(xs)     == <<"q", xs>>          \* sequence
Or(xs)     == <<"o", xs>>          \* ordered choice
Star(x)    == <<"*", x>>
Plus(x)    == <<"+", x>>
Opt(x)     == <<"?", x>>
Not(x)     == <<"!", x>>
And(x)     == <<"&", x>>
R(name)    == <<"r", name>>
Lit(s)     == IF Len(s) = 1 THEN <<"c", Codes(s)[1]>> ELSE <<"s", Codes(s)>>
Cls(s)     == <<"k", Class(s)>>
SymStart   == <<"k", SymStartClass>>
SymPart    == <<"k", SymPartClass>>
Dot        == <<"any">>
Eps        == <<"q", <<>>>>
KW(word)   == <<"w", Codes(word)>> \* case-insensitive word ending at a word boundary
W          == <<"-">>              \* any white space and comments
HW         == <<"--">>             \* white space and block comments on one line
Err(x, label) == <<"e", x, label>> \* where x fails, `label` was expected
RecordError   == <<"rec">>         \* report the furthest failure

(* Operator precedence climbing *)
Op(name)   == <<"op", name>>
Chk        == <<"chk">>
Top(x)     == <<"top", x>>
Prec(x)    == <<"prec", x>>

(* Actions *)
Ev(e)      == <<"ev", e>>
BS         == <<"pos", "bs">>      \* open a block here
BE         == <<"pos", "be">>      \* close it
BR         == <<"pos", "br">>      \* close it and open another with the same start
BM         == <<"pos", "bm">>      \* close it, handing its nodes to its parent
Vars(vs, x) == <<"vars", vs, x>>
Bind(v, x) == <<"bind", v, x>>
Nil        == Ev(<<"yield", "">>)
Yield(v)   == Ev(<<"yield", v>>)
Add(v)     == Ev(<<"add", v>>)
PushOp(o)  == Ev(<<"pushop", o>>)
SbReset    == Ev(<<"sbreset">>)
SbBlock    == Ev(<<"sbblock">>)
SbByte(b)  == Ev(<<"sbbyte", b>>)
Eof        == Ev(<<"eof">>)
Finished   == <<"pos", "fin">>
Result(v)  == Ev(<<"result", v>>)
DefaultAlias == Ev(<<"alias">>)
Mk(f, args)  == Ev(<<"mk", f, args, "">>)
MkTo(v, f, args) == Ev(<<"mk", f, args, v>>)

(* precedence, left associative? (unary operators are not), spelling *)
Operator == [
  OR |-> <<1, TRUE, "OR">>, XOR |-> <<2, TRUE, "XOR">>, AND |-> <<3, TRUE, "AND">>,
  NOT |-> <<4, FALSE, "NOT">>,
  EQUAL |-> <<5, TRUE, "=">>, NEQUAL |-> <<5, TRUE, "<>">>,
  LT |-> <<6, TRUE, "<">>, GT |-> <<6, TRUE, ">">>,
  LTE |-> <<6, TRUE, "<=">>, GTE |-> <<6, TRUE, ">=">>,
  PLUS |-> <<7, TRUE, "+">>, MINUS |-> <<7, TRUE, "-">>,
  MULT |-> <<8, TRUE, "*">>, DIV |-> <<8, TRUE, "/">>, MOD |-> <<8, TRUE, "%">>,
  POW |-> <<9, FALSE, "^">>,
  UNARY_PLUS |-> <<10, FALSE, "+">>, UNARY_MINUS |-> <<10, FALSE, "-">>,
  REGEX |-> <<11, TRUE, "=~">>, IN_ |-> <<11, TRUE, "IN">>,
  STARTS_WITH |-> <<11, TRUE, "STARTS WITH">>,
  ENDS_WITH |-> <<11, TRUE, "ENDS WITH">>, CONTAINS |-> <<11, TRUE, "CONTAINS">>,
  IS_NULL |-> <<11, FALSE, "IS NULL">>, IS_NOT_NULL |-> <<11, FALSE, "IS NOT NULL">>,
  SUBSCRIPT |-> <<12, TRUE, "">>, MAP_PROJECTION |-> <<12, TRUE, "">>,
  PROPERTY |-> <<13, TRUE, ".">>, LABEL |-> <<13, TRUE, ":">> ]

Rules == [
  directive |->
    Sq(<<W, R("u_directive")>>),
  u_directive |->
    Or(<<
        Sq(<<R("u__directive"), Finished>>),
        Sq(<<RecordError, Or(<<
          R("t_EOF"),
          R("skip_to_directive")>>), R("u_directive")>>)>>),
  u__directive |->
    Vars(<<"d">>, Or(<<
        Sq(<<R("t_EOF"), Result("")>>),
        Sq(<<R("t_SEMICOLON"), Result("")>>),
        Sq(<<W, Bind("d", R("client_command")), Result("d")>>),
        Sq(<<Bind("d", R("cypher_statement")), Result("d")>>)>>)),
  statement |->
    Sq(<<W, R("u_statement")>>),
  u_statement |->
    Or(<<
        Sq(<<R("u__statement"), Finished>>),
        Sq(<<RecordError, Or(<<
          R("t_EOF"),
          R("skip_to_statement")>>), R("u_statement")>>)>>),
  u__statement |->
    Vars(<<"d">>, Or(<<
        Sq(<<R("t_EOF"), Result("")>>),
        Sq(<<R("t_SEMICOLON"), Result("")>>),
        Sq(<<Bind("d", R("cypher_statement")), Result("d")>>)>>)),
  cypher_statement |->
    Vars(<<"b">>, Sq(<<BS, Star(R("statement_option")), W, Or(<<
        Bind("b", R("query")),
        Bind("b", R("schema_command"))>>), BE, Mk("statement", <<"b">>)>>)),
  statement_option |->
    Vars(<<"o">>, Sq(<<Err(Or(<<
        Bind("o", R("cypher_option")),
        Bind("o", R("profile_option")),
        Bind("o", R("explain_option"))>>), "a statement option"), W, Add("o")>>)),
  cypher_option |->
    Vars(<<"p", "v">>, Sq(<<BS, R("t_CYPHER"), W, Or(<<
        Bind("v", R("cypher_version")),
        Bind("v", Nil)>>), Star(Sq(<<W, Bind("p", R("cypher_param")), Add("p")>>)), BE,
            Mk("cypher_option", <<"v">>)>>)),
  cypher_version |->
    Sq(<<BS, Err(Sq(<<Plus(Cls("0123456789")), R("t_DOT"), Plus(Cls("0123456789"))>>),
        "a version number"), BE, Mk("block_string", <<>>)>>),
  cypher_param |->
    Vars(<<"n", "v">>, Sq(<<BS, Bind("n", R("cypher_param_name")), W, R("t_EQUAL"), W,
        Bind("v", R("cypher_param_val")), BE, Mk("cypher_option_param", <<"n", "v">>)>>)),
  cypher_param_name |->
    Sq(<<BS, Plus(Cls("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")), BE,
        Mk("block_string", <<>>)>>),
  cypher_param_val |->
    Sq(<<BS, Plus(Sq(<<Not(R("t_WS")), Dot>>)), BE, Mk("block_string", <<>>)>>),
  profile_option |->
    Sq(<<BS, R("t_PROFILE"), BE, Mk("profile_option", <<>>)>>),
  explain_option |->
    Sq(<<BS, R("t_EXPLAIN"), BE, Mk("explain_option", <<>>)>>),
  schema_command |->
    Sq(<<Err(Or(<<
        R("create_index"),
        R("create_constraint"),
        R("drop_index"),
        R("drop_constraint")>>), "a schema command"), Or(<<
        R("t_SEMICOLON"),
        R("t_EOF")>>)>>),
  create_index |->
    Vars(<<"l", "p">>, Sq(<<BS, R("t_CREATE_INDEX_ON"), Bind("l", R("label")),
        R("t_LEFT_PAREN"), W, Bind("p", R("prop_name")), Add("p"), Star(Sq(<<R("t_COMMA"), W,
        Bind("p", R("prop_name")), Add("p")>>)), R("t_RIGHT_PAREN"), BE, Mk("create_index",
        <<"l">>), W>>)),
  create_constraint |->
    Vars(<<"e", "i", "l", "t">>, Sq(<<BS, R("t_CREATE_CONSTRAINT_ON"), Or(<<
        Sq(<<R("t_LEFT_PAREN"), W, Bind("i", R("identifier")), Bind("l", R("label")),
            R("t_RIGHT_PAREN"), W, R("t_ASSERT"), Or(<<
          Sq(<<Bind("e", R("expression")), R("t_IS_UNIQUE"), BE,
              Mk("create_node_prop_constraint", <<"i", "l", "e", "true">>)>>),
          Sq(<<Bind("e", R("expression")), BE, Mk("create_node_prop_constraint", <<"i", "l",
              "e", "false">>)>>)>>)>>),
        Sq(<<R("t_LEFT_PAREN"), W, R("t_RIGHT_PAREN"), W, Opt(Sq(<<R("t_LEFT_ARROW_HEAD"),
            W>>)), R("t_DASH"), W, R("t_LEFT_SQ_PAREN"), W, Bind("i", R("identifier")),
            Bind("t", R("rel_type")), R("t_RIGHT_SQ_PAREN"), W, R("t_DASH"), W,
            Opt(Sq(<<R("t_RIGHT_ARROW_HEAD"), W>>)), R("t_LEFT_PAREN"), W, R("t_RIGHT_PAREN"),
            W, R("t_ASSERT"), Bind("e", R("expression")), BE, Mk("create_rel_prop_constraint",
            <<"i", "t", "e", "false">>)>>)>>), W>>)),
  drop_index |->
    Vars(<<"l", "p">>, Sq(<<BS, R("t_DROP_INDEX_ON"), Bind("l", R("label")), R("t_LEFT_PAREN"),
        W, Bind("p", R("prop_name")), Add("p"), Star(Sq(<<R("t_COMMA"), W, Bind("p",
        R("prop_name")), Add("p")>>)), R("t_RIGHT_PAREN"), BE, Mk("drop_index", <<"l">>), W>>)),
  drop_constraint |->
    Vars(<<"e", "i", "l", "t">>, Sq(<<BS, R("t_DROP_CONSTRAINT_ON"), Or(<<
        Sq(<<R("t_LEFT_PAREN"), W, Bind("i", R("identifier")), Bind("l", R("label")),
            R("t_RIGHT_PAREN"), W, R("t_ASSERT"), Or(<<
          Sq(<<Bind("e", R("expression")), R("t_IS_UNIQUE"), BE,
              Mk("drop_node_prop_constraint", <<"i", "l", "e", "true">>)>>),
          Sq(<<Bind("e", R("expression")), BE, Mk("drop_node_prop_constraint", <<"i", "l", "e",
              "false">>)>>)>>)>>),
        Sq(<<R("t_LEFT_PAREN"), W, R("t_RIGHT_PAREN"), W, Opt(Sq(<<R("t_LEFT_ARROW_HEAD"),
            W>>)), R("t_DASH"), W, R("t_LEFT_SQ_PAREN"), W, Bind("i", R("identifier")),
            Bind("t", R("rel_type")), R("t_RIGHT_SQ_PAREN"), W, R("t_DASH"), W,
            Opt(Sq(<<R("t_RIGHT_ARROW_HEAD"), W>>)), R("t_LEFT_PAREN"), W, R("t_RIGHT_PAREN"),
            W, R("t_ASSERT"), Bind("e", R("expression")), BE, Mk("drop_rel_prop_constraint",
            <<"i", "t", "e", "false">>)>>)>>), W>>)),
  query |->
    Sq(<<BS, Star(R("query_hints")), R("clauses"), BE, Mk("query", <<>>)>>),
  query_hints |->
    Vars(<<"c">>, Err(Sq(<<Bind("c", R("periodic_commit")), Add("c")>>), "a query hint")),
  clauses |->
    Vars(<<"c">>, Sq(<<Bind("c", R("clause")), Add("c"), R("u_clauses")>>)),
  u_clauses |->
    Vars(<<"c">>, Or(<<
        R("t_SEMICOLON"),
        R("t_EOF"),
        Sq(<<Bind("c", R("clause")), Add("c"), Eps, R("u_clauses")>>),
        Sq(<<RecordError, Or(<<
          R("t_EOF"),
          R("skip_to_clause")>>), W, R("u_clauses")>>)>>)),
  periodic_commit |->
    Vars(<<"l">>, Sq(<<BS, R("t_USING_PERIODIC_COMMIT"), Or(<<
        Bind("l", R("integer_literal")),
        Bind("l", Nil)>>), BE, Mk("using_periodic_commit", <<"l">>)>>)),
  clause |->
    Err(Or(<<
        R("match_clause"),
        R("return_clause"),
        R("unwind_clause"),
        R("merge_clause"),
        R("create_clause"),
        R("set_clause"),
        R("delete_clause"),
        R("remove_clause"),
        R("with_clause"),
        R("foreach_clause"),
        R("call_clause"),
        R("loadcsv_clause"),
        R("start_clause"),
        R("union_clause")>>), "a clause"),
  loadcsv_clause |->
    Vars(<<"i", "t", "u">>, Or(<<
        Sq(<<BS, R("t_LOADCSV"), R("t_WITH_HEADERS"), R("t_FROM"), Bind("u", R("expression")),
            R("t_AS"), Bind("i", R("identifier")), Or(<<
          Sq(<<R("t_FIELDTERMINATOR"), Bind("t", R("string_literal"))>>),
          Bind("t", Nil)>>), BE, Mk("load_csv", <<"true", "u", "i", "t">>)>>),
        Sq(<<BS, R("t_LOADCSV"), R("t_FROM"), Bind("u", R("expression")), R("t_AS"), Bind("i",
            R("identifier")), Or(<<
          Sq(<<R("t_FIELDTERMINATOR"), Bind("t", R("string_literal"))>>),
          Bind("t", Nil)>>), BE, Mk("load_csv", <<"false", "u", "i", "t">>)>>)>>)),
  start_clause |->
    Vars(<<"c", "s">>, Sq(<<BS, R("t_START"), Bind("s", R("start_point")), W, Add("s"),
        Star(Sq(<<R("t_COMMA"), W, Bind("s", R("start_point")), W, Add("s")>>)), Or(<<
        Sq(<<R("t_WHERE"), Bind("c", R("expression"))>>),
        Bind("c", Nil)>>), BE, Mk("start_clause", <<"c">>)>>)),
  start_point |->
    Vars(<<"i", "l", "p", "x">>, Sq(<<BS, Bind("i", R("identifier")), R("t_EQUAL"), W, Or(<<
        Sq(<<R("node"), Or(<<
          Sq(<<R("t_COLON"), W, Bind("x", R("index_name")), R("t_LEFT_PAREN"), W, Or(<<
            Sq(<<Bind("p", R("prop_name")), R("t_EQUAL"), W, Or(<<
              Bind("l", R("string_literal")),
              Bind("l", R("parameter"))>>), R("t_RIGHT_PAREN"), BE, Mk("node_index_lookup",
                  <<"i", "x", "p", "l">>)>>),
            Sq(<<Or(<<
              Bind("l", R("string_literal")),
              Bind("l", R("parameter"))>>), R("t_RIGHT_PAREN"), BE, Mk("node_index_query",
                  <<"i", "x", "l">>)>>)>>)>>),
          Sq(<<R("t_LEFT_PAREN"), W, Or(<<
            Sq(<<R("node_ids"), R("t_RIGHT_PAREN"), BE, Mk("node_id_lookup", <<"i">>)>>),
            Sq(<<R("t_STAR"), W, R("t_RIGHT_PAREN"), BE, Mk("all_nodes_scan",
                <<"i">>)>>)>>)>>)>>)>>),
        Sq(<<Or(<<
          R("relationship"),
          R("rel")>>), Or(<<
          Sq(<<R("t_COLON"), W, Bind("x", R("index_name")), R("t_LEFT_PAREN"), W, Or(<<
            Sq(<<Bind("p", R("prop_name")), R("t_EQUAL"), W, Or(<<
              Bind("l", R("string_literal")),
              Bind("l", R("parameter"))>>), R("t_RIGHT_PAREN"), BE, Mk("rel_index_lookup",
                  <<"i", "x", "p", "l">>)>>),
            Sq(<<Or(<<
              Bind("l", R("string_literal")),
              Bind("l", R("parameter"))>>), R("t_RIGHT_PAREN"), BE, Mk("rel_index_query",
                  <<"i", "x", "l">>)>>)>>)>>),
          Sq(<<R("t_LEFT_PAREN"), W, Or(<<
            Sq(<<R("node_ids"), R("t_RIGHT_PAREN"), BE, Mk("rel_id_lookup", <<"i">>)>>),
            Sq(<<R("t_STAR"), W, R("t_RIGHT_PAREN"), BE, Mk("all_rels_scan",
                <<"i">>)>>)>>)>>)>>)>>)>>)>>)),
  node_ids |->
    Vars(<<"i">>, Sq(<<Bind("i", R("integer_literal")), Add("i"), Star(Sq(<<R("t_COMMA"), W,
        Bind("i", R("integer_literal")), Add("i")>>))>>)),
  match_clause |->
    Vars(<<"c", "h", "p">>, Or(<<
        Sq(<<BS, R("t_OPTIONAL_MATCH"), Bind("p", R("pattern")), Star(Sq(<<Bind("h",
            R("hint")), Add("h")>>)), Or(<<
          Sq(<<R("t_WHERE"), Bind("c", R("expression"))>>),
          Bind("c", Nil)>>), BE, Mk("match_clause", <<"true", "p", "c">>)>>),
        Sq(<<BS, R("t_MATCH"), Bind("p", R("pattern")), Star(Sq(<<Bind("h", R("hint")),
            Add("h")>>)), Or(<<
          Sq(<<R("t_WHERE"), Bind("c", R("expression"))>>),
          Bind("c", Nil)>>), BE, Mk("match_clause", <<"false", "p", "c">>)>>)>>)),
  hint |->
    Vars(<<"i", "l", "p">>, Or(<<
        Sq(<<BS, R("t_USING_INDEX"), Bind("i", R("identifier")), Bind("l", R("label")),
            R("t_LEFT_PAREN"), W, Bind("p", R("prop_name")), R("t_RIGHT_PAREN"), W, BE,
            Mk("using_index", <<"i", "l", "p">>)>>),
        Sq(<<BS, R("t_USING_JOIN_ON"), Bind("i", R("identifier")), Add("i"),
            Star(Sq(<<R("t_COMMA"), W, Bind("i", R("identifier")), Add("i")>>)), BE,
            Mk("using_join", <<>>)>>),
        Sq(<<BS, R("t_USING_SCAN"), Bind("i", R("identifier")), Bind("l", R("label")), BE,
            Mk("using_scan", <<"i", "l">>)>>)>>)),
  merge_clause |->
    Vars(<<"a", "p">>, Sq(<<BS, R("t_MERGE"), Bind("p", R("pattern_part")), W,
        Star(Sq(<<Bind("a", R("merge_action")), Add("a")>>)), BE, Mk("merge_clause", <<"p">>),
        W>>)),
  merge_action |->
    Or(<<
        Sq(<<BS, R("t_ON_MATCH"), R("merge_action_set"), BE, Mk("on_match", <<>>)>>),
        Sq(<<BS, R("t_ON_CREATE"), R("merge_action_set"), BE, Mk("on_create", <<>>)>>)>>),
  merge_action_set |->
    Vars(<<"i">>, Sq(<<Err(R("t_SET"), "SET"), Bind("i", R("set_item")), Add("i"),
        Star(Sq(<<R("t_COMMA"), W, Bind("i", R("set_item")), Add("i")>>))>>)),
  create_clause |->
    Vars(<<"p">>, Or(<<
        Sq(<<BS, R("t_CREATE_UNIQUE"), Bind("p", R("pattern")), BE, Mk("create_clause",
            <<"true", "p">>)>>),
        Sq(<<BS, R("t_CREATE"), Bind("p", R("pattern")), BE, Mk("create_clause", <<"false",
            "p">>)>>)>>)),
  set_clause |->
    Vars(<<"i">>, Sq(<<BS, R("t_SET"), Bind("i", R("set_item")), Add("i"),
        Star(Sq(<<R("t_COMMA"), W, Bind("i", R("set_item")), Add("i")>>)), BE, Mk("set_clause",
        <<>>)>>)),
  set_item |->
    Vars(<<"e", "i", "l", "p">>, Or(<<
        Sq(<<BS, Bind("p", R("property_expression")), R("t_EQUAL"), W, Bind("e",
            R("expression")), BE, Mk("set_property", <<"p", "e">>)>>),
        Sq(<<BS, Bind("i", R("identifier")), R("t_EQUAL"), W, Bind("e", R("expression")), BE,
            Mk("set_all_properties", <<"i", "e">>)>>),
        Sq(<<BS, Bind("i", R("identifier")), R("t_PLUSEQUAL"), W, Bind("e", R("expression")),
            BE, Mk("merge_properties", <<"i", "e">>)>>),
        Sq(<<BS, Bind("i", R("identifier")), Plus(Sq(<<Bind("l", R("label")), Add("l")>>)), BE,
            Mk("set_labels", <<"i">>)>>)>>)),
  delete_clause |->
    Vars(<<"e">>, Or(<<
        Sq(<<BS, R("t_DETACH_DELETE"), Bind("e", R("expression")), Add("e"),
            Star(Sq(<<R("t_COMMA"), W, Bind("e", R("expression")), Add("e")>>)), BE,
            Mk("delete", <<"true">>)>>),
        Sq(<<BS, R("t_DELETE"), Bind("e", R("expression")), Add("e"), Star(Sq(<<R("t_COMMA"),
            W, Bind("e", R("expression")), Add("e")>>)), BE, Mk("delete", <<"false">>)>>)>>)),
  remove_clause |->
    Vars(<<"i">>, Sq(<<BS, R("t_REMOVE"), Bind("i", R("remove_item")), Add("i"),
        Star(Sq(<<R("t_COMMA"), W, Bind("i", R("remove_item")), Add("i")>>)), BE,
        Mk("remove_clause", <<>>)>>)),
  remove_item |->
    Vars(<<"i", "l", "p">>, Or(<<
        Sq(<<BS, Bind("p", R("property_expression")), BE, Mk("remove_property", <<"p">>)>>),
        Sq(<<BS, Bind("i", R("identifier")), Plus(Sq(<<Bind("l", R("label")), Add("l")>>)), BE,
            Mk("remove_labels", <<"i">>)>>)>>)),
  foreach_clause |->
    Vars(<<"c", "e", "i">>, Sq(<<BS, R("t_FOREACH"), R("t_LEFT_PAREN"), W, Bind("i",
        R("identifier")), R("t_IN"), W, Bind("e", R("expression")), R("t_PIPE"), W,
        Plus(Sq(<<Bind("c", R("clause")), Add("c")>>)), R("t_RIGHT_PAREN"), BE,
        Mk("foreach_clause", <<"i", "e">>), W>>)),
  with_clause |->
    Vars(<<"i", "l", "o", "p", "s">>, Sq(<<BS, R("t_WITH"), Or(<<
        Sq(<<R("t_DISTINCT"), R("t_STAR"), W, R("additional_with_projections"), Or(<<
          Bind("o", R("order_by")),
          Bind("o", Nil)>>), Or(<<
          Bind("s", R("skip")),
          Bind("s", Nil)>>), Or(<<
          Bind("l", R("limit")),
          Bind("l", Nil)>>), Or(<<
          Sq(<<R("t_WHERE"), Bind("p", R("expression"))>>),
          Bind("p", Nil)>>), BE, Mk("with_clause", <<"true", "true", "o", "s", "l", "p">>)>>),
        Sq(<<R("t_DISTINCT"), Bind("i", R("with_projection")), Add("i"),
            R("additional_with_projections"), Or(<<
          Bind("o", R("order_by")),
          Bind("o", Nil)>>), Or(<<
          Bind("s", R("skip")),
          Bind("s", Nil)>>), Or(<<
          Bind("l", R("limit")),
          Bind("l", Nil)>>), Or(<<
          Sq(<<R("t_WHERE"), Bind("p", R("expression"))>>),
          Bind("p", Nil)>>), BE, Mk("with_clause", <<"true", "false", "o", "s", "l", "p">>)>>),
        Sq(<<R("t_STAR"), W, R("additional_with_projections"), Or(<<
          Bind("o", R("order_by")),
          Bind("o", Nil)>>), Or(<<
          Bind("s", R("skip")),
          Bind("s", Nil)>>), Or(<<
          Bind("l", R("limit")),
          Bind("l", Nil)>>), Or(<<
          Sq(<<R("t_WHERE"), Bind("p", R("expression"))>>),
          Bind("p", Nil)>>), BE, Mk("with_clause", <<"false", "true", "o", "s", "l", "p">>)>>),
        Sq(<<Bind("i", R("with_projection")), Add("i"), R("additional_with_projections"), Or(<<
          Bind("o", R("order_by")),
          Bind("o", Nil)>>), Or(<<
          Bind("s", R("skip")),
          Bind("s", Nil)>>), Or(<<
          Bind("l", R("limit")),
          Bind("l", Nil)>>), Or(<<
          Sq(<<R("t_WHERE"), Bind("p", R("expression"))>>),
          Bind("p", Nil)>>), BE, Mk("with_clause", <<"false", "false", "o", "s", "l",
              "p">>)>>)>>)>>)),
  additional_with_projections |->
    Vars(<<"i">>, Star(Sq(<<R("t_COMMA"), W, Bind("i", R("with_projection")), Add("i")>>))),
  with_projection |->
    Vars(<<"e", "i">>, Sq(<<BS, Bind("e", R("expression")), Or(<<
        Sq(<<R("t_AS"), Bind("i", R("identifier")), BE, Mk("projection", <<"e", "i">>)>>),
        Sq(<<Eps, BE, Mk("projection", <<"e", "NULL">>)>>)>>)>>)),
  unwind_clause |->
    Vars(<<"e", "i">>, Sq(<<BS, R("t_UNWIND"), Bind("e", R("expression")), R("t_AS"), Bind("i",
        R("identifier")), BE, Mk("unwind_clause", <<"e", "i">>)>>)),
  call_clause |->
    Vars(<<"e", "p", "r", "w">>, Sq(<<BS, R("t_CALL"), Bind("p", R("proc_name")),
        Opt(Sq(<<R("t_LEFT_PAREN"), W, Opt(Sq(<<Bind("e", R("expression")), Add("e"),
        Star(Sq(<<R("t_COMMA"), W, Bind("e", R("expression")), Add("e")>>))>>)),
        R("t_RIGHT_PAREN"), W>>)), Opt(Sq(<<R("t_YIELD"), Or(<<
        Sq(<<Bind("r", R("proc_projection")), Add("r"), Star(Sq(<<R("t_COMMA"), W, Bind("r",
            R("proc_projection")), Add("r")>>))>>),
        Lit("-")>>), W>>)), Or(<<
        Sq(<<R("t_WHERE"), Bind("w", R("expression"))>>),
        Bind("w", Nil)>>), BE, Mk("call_clause", <<"p", "w">>)>>)),
  proc_projection |->
    Vars(<<"i", "r">>, Sq(<<BS, Bind("r", R("identifier")), Or(<<
        Sq(<<R("t_AS"), Bind("i", R("identifier")), BE, Mk("projection", <<"r", "i">>)>>),
        Sq(<<Eps, BE, Mk("projection", <<"r", "NULL">>)>>)>>)>>)),
  return_clause |->
    Vars(<<"i", "l", "o", "s">>, Sq(<<BS, R("t_RETURN"), Or(<<
        Sq(<<R("t_DISTINCT"), R("t_STAR"), W, R("additional_return_projections"), Or(<<
          Bind("o", R("order_by")),
          Bind("o", Nil)>>), Or(<<
          Bind("s", R("skip")),
          Bind("s", Nil)>>), Or(<<
          Bind("l", R("limit")),
          Bind("l", Nil)>>), BE, Mk("return_clause", <<"true", "true", "o", "s", "l">>)>>),
        Sq(<<R("t_DISTINCT"), Bind("i", R("return_projection")), Add("i"),
            R("additional_return_projections"), Or(<<
          Bind("o", R("order_by")),
          Bind("o", Nil)>>), Or(<<
          Bind("s", R("skip")),
          Bind("s", Nil)>>), Or(<<
          Bind("l", R("limit")),
          Bind("l", Nil)>>), BE, Mk("return_clause", <<"true", "false", "o", "s", "l">>)>>),
        Sq(<<R("t_STAR"), W, R("additional_return_projections"), Or(<<
          Bind("o", R("order_by")),
          Bind("o", Nil)>>), Or(<<
          Bind("s", R("skip")),
          Bind("s", Nil)>>), Or(<<
          Bind("l", R("limit")),
          Bind("l", Nil)>>), BE, Mk("return_clause", <<"false", "true", "o", "s", "l">>)>>),
        Sq(<<Bind("i", R("return_projection")), Add("i"), R("additional_return_projections"),
            Or(<<
          Bind("o", R("order_by")),
          Bind("o", Nil)>>), Or(<<
          Bind("s", R("skip")),
          Bind("s", Nil)>>), Or(<<
          Bind("l", R("limit")),
          Bind("l", Nil)>>), BE, Mk("return_clause", <<"false", "false", "o", "s",
              "l">>)>>)>>)>>)),
  additional_return_projections |->
    Vars(<<"i">>, Star(Sq(<<R("t_COMMA"), W, Bind("i", R("return_projection")), Add("i")>>))),
  return_projection |->
    Vars(<<"e", "i">>, Sq(<<BS, BS, Bind("e", R("expression")), Or(<<
        Sq(<<R("t_AS"), Bind("i", R("identifier")), BM>>),
        Sq(<<Bind("i", Nil), BM, DefaultAlias>>)>>), BE, Mk("projection", <<"e", "i">>)>>)),
  order_by |->
    Vars(<<"s">>, Sq(<<BS, R("t_ORDER_BY"), Bind("s", R("sort_item")), Add("s"),
        Star(Sq(<<R("t_COMMA"), W, Bind("s", R("sort_item")), Add("s")>>)), BE, Mk("order_by",
        <<>>)>>)),
  sort_item |->
    Vars(<<"e">>, Sq(<<BS, Bind("e", R("expression")), Or(<<
        Sq(<<Or(<<
          R("t_DESCENDING"),
          R("t_DESC")>>), BE, Mk("sort_item", <<"e", "false">>)>>),
        Sq(<<Opt(Or(<<
          R("t_ASCENDING"),
          R("t_ASC")>>)), BE, Mk("sort_item", <<"e", "true">>)>>)>>)>>)),
  skip |->
    Vars(<<"e">>, Sq(<<R("t_SKIP"), Bind("e", R("expression")), Yield("e")>>)),
  limit |->
    Vars(<<"e">>, Sq(<<R("t_LIMIT"), Bind("e", R("expression")), Yield("e")>>)),
  union_clause |->
    Sq(<<BS, R("t_UNION"), Or(<<
        Sq(<<R("t_ALL"), BE, Mk("union_clause", <<"true">>)>>),
        Sq(<<Eps, BE, Mk("union_clause", <<"false">>)>>)>>)>>),
  expression |->
    Top(R("u_expression")),
  u_prec_expression |->
    Prec(R("u_expression")),
  u_expression |->
    Vars(<<"e", "l", "m", "n", "r", "s">>, Or(<<
        Sq(<<BS, Bind("l", R("u_atom")), Plus(Or(<<
          Sq(<<R("t_DOT"), Op("PROPERTY"), Chk, W, Bind("n", R("prop_name")), BR, MkTo("l",
              "property_operator", <<"l", "n">>)>>),
          Sq(<<R("t_INFIX_OP"), Chk, W, Bind("r", R("u_prec_expression")), BR, MkTo("l",
              "binary_operator", <<"OP", "l", "r">>)>>),
          Sq(<<Add("l"), Plus(Sq(<<R("t_COMPARISON_OP"), Chk, W, Bind("r",
              R("u_prec_expression")), Add("r")>>)), BR, MkTo("l", "comparison_operator",
              <<>>)>>),
          Sq(<<R("t_POSTFIX_OP"), Chk, BR, MkTo("l", "unary_operator", <<"OP", "l">>)>>),
          Sq(<<R("t_LEFT_SQ_PAREN"), Op("SUBSCRIPT"), Chk, W, Bind("r", R("expression")),
              R("t_RIGHT_SQ_PAREN"), W, BR, MkTo("l", "subscript_operator", <<"l", "r">>)>>),
          Sq(<<R("t_LEFT_SQ_PAREN"), Op("SUBSCRIPT"), Chk, W, Or(<<
            Bind("s", R("expression")),
            Bind("s", Nil)>>), R("t_ELLIPSIS"), W, Or(<<
            Bind("e", R("expression")),
            Bind("e", Nil)>>), R("t_RIGHT_SQ_PAREN"), W, BR, MkTo("l", "slice_operator", <<"l",
                "s", "e">>)>>),
          Sq(<<R("t_LEFT_CURLY"), Op("MAP_PROJECTION"), Chk, W, Opt(Sq(<<Bind("m",
              R("map_projection_element")), Add("m"), Star(Sq(<<R("t_COMMA"), W, Bind("m",
              R("map_projection_element")), Add("m")>>))>>)), R("t_RIGHT_CURLY"), W, BR,
              MkTo("l", "map_projection", <<"l">>)>>),
          Sq(<<Plus(Sq(<<Op("LABEL"), Chk, Bind("n", R("label")), Add("n")>>)), BR, MkTo("l",
              "labels_operator", <<"l">>)>>)>>)), BM, Yield("l")>>),
        R("u_atom")>>)),
  u_atom |->
    Vars(<<"r">>, Or(<<
        Sq(<<BS, R("t_PREFIX_OP"), W, Bind("r", R("u_prec_expression")), BE,
            Mk("unary_operator", <<"OP", "r">>)>>),
        R("atom")>>)),
  map_projection_element |->
    Vars(<<"e", "i", "p">>, Or(<<
        Sq(<<BS, Bind("p", R("prop_name")), R("t_COLON"), W, Bind("e", R("expression")), BE,
            Mk("map_projection_literal", <<"p", "e">>)>>),
        Sq(<<BS, R("t_DOT"), W, Bind("p", R("prop_name")), BE, Mk("map_projection_property",
            <<"p">>)>>),
        Sq(<<BS, Bind("i", R("identifier")), BE, Mk("map_projection_identifier", <<"i">>)>>),
        Sq(<<BS, R("t_DOT_STAR"), W, BE, Mk("map_projection_all_properties", <<>>)>>)>>)),
  atom |->
    Vars(<<"e">>, Or(<<
        R("true_literal"),
        R("false_literal"),
        R("null_literal"),
        R("string_literal"),
        R("float_literal"),
        R("integer_literal"),
        R("list_comprehension"),
        R("pattern_comprehension"),
        R("collection_literal"),
        R("parameter"),
        R("map_literal"),
        R("case_expression"),
        R("filter_expression"),
        R("extract_expression"),
        R("reduce_expression"),
        R("all_predicate"),
        R("any_predicate"),
        R("none_predicate"),
        R("single_predicate"),
        R("pattern_expression"),
        Sq(<<R("t_LEFT_PAREN"), W, Bind("e", R("expression")), R("t_RIGHT_PAREN"), W,
            Yield("e")>>),
        R("function_application"),
        R("identifier")>>)),
  property_expression |->
    Vars(<<"n", "p">>, Sq(<<BS, Bind("p", R("atom")), Plus(Sq(<<R("t_DOT"), W, Bind("n",
        R("prop_name")), BR, MkTo("p", "property_operator", <<"p", "n">>)>>)), BM,
        Yield("p")>>)),
  t_PREFIX_OP |->
    Sq(<<Or(<<
        Sq(<<R("t_NOT"), Op("NOT"), PushOp("NOT")>>),
        Sq(<<R("t_PLUS"), Op("UNARY_PLUS"), PushOp("UNARY_PLUS")>>),
        Sq(<<R("t_MINUS"), Op("UNARY_MINUS"), PushOp("UNARY_MINUS")>>)>>), W>>),
  t_POSTFIX_OP |->
    Sq(<<Or(<<
        Sq(<<R("t_IS_NULL"), Op("IS_NULL"), PushOp("IS_NULL")>>),
        Sq(<<R("t_IS_NOT_NULL"), Op("IS_NOT_NULL"), PushOp("IS_NOT_NULL")>>)>>), W>>),
  t_INFIX_OP |->
    Sq(<<Or(<<
        Sq(<<R("t_AND"), Op("AND"), PushOp("AND")>>),
        Sq(<<R("t_OR"), Op("OR"), PushOp("OR")>>),
        Sq(<<R("t_XOR"), Op("XOR"), PushOp("XOR")>>),
        Sq(<<R("t_NOT"), Op("NOT"), PushOp("NOT")>>),
        Sq(<<R("t_REGEX"), Op("REGEX"), PushOp("REGEX")>>),
        Sq(<<R("t_EQUAL"), Op("EQUAL"), PushOp("EQUAL")>>),
        Sq(<<R("t_NEQUAL"), Op("NEQUAL"), PushOp("NEQUAL")>>),
        Sq(<<R("t_PLUS"), Op("PLUS"), PushOp("PLUS")>>),
        Sq(<<R("t_MINUS"), Op("MINUS"), PushOp("MINUS")>>),
        Sq(<<R("t_MULT"), Op("MULT"), PushOp("MULT")>>),
        Sq(<<R("t_DIV"), Op("DIV"), PushOp("DIV")>>),
        Sq(<<R("t_MOD"), Op("MOD"), PushOp("MOD")>>),
        Sq(<<R("t_POW"), Op("POW"), PushOp("POW")>>),
        Sq(<<R("t_IN"), Op("IN_"), PushOp("IN_")>>),
        Sq(<<R("t_CONTAINS"), Op("CONTAINS"), PushOp("CONTAINS")>>),
        Sq(<<R("t_STARTS_WITH"), Op("STARTS_WITH"), PushOp("STARTS_WITH")>>),
        Sq(<<R("t_ENDS_WITH"), Op("ENDS_WITH"), PushOp("ENDS_WITH")>>)>>), W>>),
  t_COMPARISON_OP |->
    Sq(<<Or(<<
        Sq(<<R("t_LTE"), Op("LTE"), PushOp("LTE")>>),
        Sq(<<R("t_GTE"), Op("GTE"), PushOp("GTE")>>),
        Sq(<<R("t_LT"), Op("LT"), PushOp("LT")>>),
        Sq(<<R("t_GT"), Op("GT"), PushOp("GT")>>)>>), W>>),
  list_comprehension |->
    Vars(<<"e", "i", "p", "v">>, Sq(<<BS, R("t_LEFT_SQ_PAREN"), W, Bind("i", R("identifier")),
        R("t_IN"), W, Bind("e", R("expression")), Or(<<
        Sq(<<R("t_WHERE"), Bind("p", R("expression"))>>),
        Bind("p", Nil)>>), Or(<<
        Sq(<<R("t_PIPE"), W, Bind("v", R("expression"))>>),
        Bind("v", Nil)>>), R("t_RIGHT_SQ_PAREN"), BE, Mk("list_comprehension", <<"i", "e", "p",
            "v">>), W>>)),
  pattern_comprehension |->
    Vars(<<"i", "p", "r", "v">>, Sq(<<BS, R("t_LEFT_SQ_PAREN"), W, Or(<<
        Sq(<<Bind("i", R("identifier")), R("t_EQUAL"), W>>),
        Bind("i", Nil)>>), Bind("r", R("pattern_expression_path")), W, Or(<<
        Sq(<<R("t_WHERE"), Bind("p", R("expression"))>>),
        Bind("p", Nil)>>), R("t_PIPE"), W, Bind("v", R("expression")), R("t_RIGHT_SQ_PAREN"),
            BE, Mk("pattern_comprehension", <<"i", "r", "p", "v">>), W>>)),
  case_expression |->
    Vars(<<"d", "e">>, Sq(<<BS, R("t_CASE"), Or(<<
        Sq(<<Bind("e", Nil), Plus(R("case_alternative"))>>),
        Sq(<<Bind("e", R("expression")), Plus(R("case_alternative"))>>)>>), Or(<<
        Bind("d", R("case_default")),
        Bind("d", Nil)>>), R("t_END"), BE, Mk("case_expression", <<"e", "d">>), W>>)),
  case_alternative |->
    Vars(<<"e">>, Sq(<<R("t_WHEN"), Bind("e", R("expression")), Add("e"), R("t_THEN"),
        Bind("e", R("expression")), Add("e")>>)),
  case_default |->
    Vars(<<"e">>, Sq(<<R("t_ELSE"), Bind("e", R("expression")), Yield("e")>>)),
  filter_expression |->
    Vars(<<"e", "i", "p">>, Sq(<<BS, R("t_FILTER"), R("t_LEFT_PAREN"), W, Bind("i",
        R("identifier")), R("t_IN"), W, Bind("e", R("expression")), Or(<<
        Sq(<<R("t_WHERE"), Bind("p", R("expression"))>>),
        Bind("p", Nil)>>), R("t_RIGHT_PAREN"), BE, Mk("filter", <<"i", "e", "p">>), W>>)),
  extract_expression |->
    Vars(<<"e", "i", "v">>, Sq(<<BS, R("t_EXTRACT"), R("t_LEFT_PAREN"), W, Bind("i",
        R("identifier")), R("t_IN"), W, Bind("e", R("expression")), Or(<<
        Sq(<<R("t_PIPE"), W, Bind("v", R("expression"))>>),
        Bind("v", Nil)>>), R("t_RIGHT_PAREN"), BE, Mk("extract", <<"i", "e", "v">>), W>>)),
  reduce_expression |->
    Vars(<<"a", "e", "i", "n", "v">>, Sq(<<BS, R("t_REDUCE"), R("t_LEFT_PAREN"), W, Bind("a",
        R("identifier")), R("t_EQUAL"), W, Bind("n", R("expression")), R("t_COMMA"), W,
        Bind("i", R("identifier")), R("t_IN"), W, Bind("e", R("expression")), Or(<<
        Sq(<<R("t_PIPE"), W, Bind("v", R("expression"))>>),
        Bind("v", Nil)>>), R("t_RIGHT_PAREN"), BE, Mk("reduce", <<"a", "n", "i", "e", "v">>),
            W>>)),
  all_predicate |->
    Vars(<<"e", "i", "p">>, Sq(<<BS, R("t_ALL"), R("t_LEFT_PAREN"), W, Bind("i",
        R("identifier")), R("t_IN"), W, Bind("e", R("expression")), Or(<<
        Sq(<<R("t_WHERE"), Bind("p", R("expression"))>>),
        Bind("p", Nil)>>), R("t_RIGHT_PAREN"), BE, Mk("all_predicate", <<"i", "e", "p">>),
            W>>)),
  any_predicate |->
    Vars(<<"e", "i", "p">>, Sq(<<BS, R("t_ANY"), R("t_LEFT_PAREN"), W, Bind("i",
        R("identifier")), R("t_IN"), W, Bind("e", R("expression")), Or(<<
        Sq(<<R("t_WHERE"), Bind("p", R("expression"))>>),
        Bind("p", Nil)>>), R("t_RIGHT_PAREN"), BE, Mk("any_predicate", <<"i", "e", "p">>),
            W>>)),
  single_predicate |->
    Vars(<<"e", "i", "p">>, Sq(<<BS, R("t_SINGLE"), R("t_LEFT_PAREN"), W, Bind("i",
        R("identifier")), R("t_IN"), W, Bind("e", R("expression")), Or(<<
        Sq(<<R("t_WHERE"), Bind("p", R("expression"))>>),
        Bind("p", Nil)>>), R("t_RIGHT_PAREN"), BE, Mk("single_predicate", <<"i", "e", "p">>),
            W>>)),
  none_predicate |->
    Vars(<<"e", "i", "p">>, Sq(<<BS, R("t_NONE"), R("t_LEFT_PAREN"), W, Bind("i",
        R("identifier")), R("t_IN"), W, Bind("e", R("expression")), Or(<<
        Sq(<<R("t_WHERE"), Bind("p", R("expression"))>>),
        Bind("p", Nil)>>), R("t_RIGHT_PAREN"), BE, Mk("none_predicate", <<"i", "e", "p">>),
            W>>)),
  function_application |->
    Vars(<<"e", "n">>, Sq(<<Or(<<
        Sq(<<BS, Bind("n", R("function_name")), R("t_LEFT_PAREN"), W, R("t_DISTINCT"),
            R("t_STAR"), W, R("t_RIGHT_PAREN"), BE, Mk("apply_all_operator", <<"n",
            "true">>)>>),
        Sq(<<BS, Bind("n", R("function_name")), R("t_LEFT_PAREN"), W, R("t_STAR"), W,
            R("t_RIGHT_PAREN"), BE, Mk("apply_all_operator", <<"n", "false">>)>>),
        Sq(<<BS, Bind("n", R("function_name")), R("t_LEFT_PAREN"), W, R("t_DISTINCT"),
            Opt(Sq(<<Bind("e", R("expression")), Add("e"), Star(Sq(<<R("t_COMMA"), W, Bind("e",
            R("expression")), Add("e")>>))>>)), R("t_RIGHT_PAREN"), BE, Mk("apply_operator",
            <<"n", "true">>)>>),
        Sq(<<BS, Bind("n", R("function_name")), R("t_LEFT_PAREN"), W, Opt(Sq(<<Bind("e",
            R("expression")), Add("e"), Star(Sq(<<R("t_COMMA"), W, Bind("e", R("expression")),
            Add("e")>>))>>)), R("t_RIGHT_PAREN"), BE, Mk("apply_operator", <<"n",
            "false">>)>>)>>), W>>)),
  collection_literal |->
    Vars(<<"e">>, Sq(<<BS, R("t_LEFT_SQ_PAREN"), W, Opt(Sq(<<Bind("e", R("expression")),
        Add("e"), Star(Sq(<<R("t_COMMA"), W, Bind("e", R("expression")), Add("e")>>))>>)),
        R("t_RIGHT_SQ_PAREN"), BE, Mk("collection_literal", <<>>), W>>)),
  map_literal |->
    Vars(<<"n", "v">>, Sq(<<BS, R("t_LEFT_CURLY"), W, Opt(Sq(<<Bind("n", R("prop_name")),
        Add("n"), R("t_COLON"), W, Bind("v", R("expression")), Add("v"),
        Star(Sq(<<R("t_COMMA"), W, Bind("n", R("prop_name")), Add("n"), R("t_COLON"), W,
        Bind("v", R("expression")), Add("v")>>))>>)), R("t_RIGHT_CURLY"), BE, Mk("map_literal",
        <<>>), W>>)),
  identifier |->
    Sq(<<SbReset, Err(Sq(<<BS, R("symbolic_name"), BE, Mk("strbuf_identifier", <<>>), W>>),
        "an identifier")>>),
  string_literal |->
    Sq(<<SbReset, Err(Sq(<<BS, R("quoted"), BE, Mk("strbuf_string", <<>>), W>>),
        "\"...string...\"")>>),
  float_literal |->
    Sq(<<SbReset, Err(Sq(<<BS, R("float_string"), BE, Mk("strbuf_float", <<>>), W>>),
        "a float")>>),
  integer_literal |->
    Sq(<<SbReset, Err(Sq(<<BS, R("integer_string"), BE, Mk("strbuf_integer", <<>>), W>>),
        "an integer")>>),
  true_literal |->
    Sq(<<BS, R("t_TRUE"), BE, Mk("true_literal", <<>>), W>>),
  false_literal |->
    Sq(<<BS, R("t_FALSE"), BE, Mk("false_literal", <<>>), W>>),
  null_literal |->
    Sq(<<BS, R("t_NULL"), BE, Mk("null_literal", <<>>), W>>),
  parameter |->
    Sq(<<BS, SbReset, Or(<<
        Err(Sq(<<Lit("$"), W, R("parameter_name")>>), "a parameter"),
        Sq(<<Err(Sq(<<Lit("{"), W, R("parameter_name")>>), "a parameter"), W,
            R("t_RIGHT_CURLY")>>)>>), BM, Mk("strbuf_parameter", <<>>), W>>),
  label |->
    Sq(<<BS, SbReset, Err(Sq(<<Lit(":"), W, R("symbolic_name")>>), "a label"), BM,
        Mk("strbuf_label", <<>>), W>>),
  rel_type |->
    Sq(<<BS, SbReset, Err(Sq(<<Lit(":"), W, R("symbolic_name")>>), "a relationship type"), BM,
        Mk("strbuf_reltype", <<>>), W>>),
  rel_type_name |->
    Sq(<<BS, SbReset, Err(R("symbolic_name"), "a relationship type name"), BE,
        Mk("strbuf_reltype", <<>>), W>>),
  prop_name |->
    Sq(<<BS, SbReset, Err(R("symbolic_name"), "a property name"), BE, Mk("strbuf_prop_name",
        <<>>), W>>),
  function_name |->
    Sq(<<BS, SbReset, Err(Sq(<<Star(Sq(<<R("symbolic_name"), W, R("t_DOT"), W, SbByte(46)>>)),
        R("symbolic_name")>>), "a function name"), BM, Mk("strbuf_function_name", <<>>), W>>),
  index_name |->
    Sq(<<BS, SbReset, Err(R("symbolic_name"), "an index name"), BE, Mk("strbuf_index_name",
        <<>>), W>>),
  proc_name |->
    Sq(<<BS, SbReset, Err(Sq(<<Star(Sq(<<R("symbolic_name"), W, R("t_DOT"), W, SbByte(46)>>)),
        R("symbolic_name")>>), "a procedure name"), BM, Mk("strbuf_proc_name", <<>>), W>>),
  pattern |->
    Vars(<<"p">>, Sq(<<BS, Bind("p", R("pattern_part")), Add("p"), Star(Sq(<<R("t_COMMA"), W,
        Bind("p", R("pattern_part")), Add("p")>>)), BE, Mk("pattern", <<>>), W>>)),
  pattern_part |->
    Vars(<<"i", "p">>, Or(<<
        Sq(<<BS, Bind("i", R("identifier")), R("t_EQUAL"), W, Bind("p",
            R("anon_pattern_part")), BE, Mk("named_path", <<"i", "p">>)>>),
        Sq(<<Bind("p", R("anon_pattern_part")), Yield("p")>>)>>)),
  anon_pattern_part |->
    Vars(<<"p">>, Or(<<
        Sq(<<Bind("p", R("shortest_path_pattern")), Yield("p")>>),
        Sq(<<Bind("p", R("pattern_path")), Yield("p")>>)>>)),
  shortest_path_pattern |->
    Vars(<<"p">>, Or(<<
        Sq(<<BS, R("t_SHORTESTPATH"), R("t_LEFT_PAREN"), W, Bind("p", R("pattern_path")), W,
            R("t_RIGHT_PAREN"), BE, Mk("shortest_path", <<"true", "p">>)>>),
        Sq(<<BS, R("t_ALLSHORTESTPATHS"), R("t_LEFT_PAREN"), W, Bind("p", R("pattern_path")),
            W, R("t_RIGHT_PAREN"), BE, Mk("shortest_path", <<"false", "p">>)>>)>>)),
  pattern_path |->
    Vars(<<"n", "r">>, Sq(<<BS, Bind("n", R("node_pattern")), Add("n"), Star(Sq(<<W, Bind("r",
        R("relationship_pattern")), W, Bind("n", R("node_pattern")), Add("r"), Add("n")>>)),
        BE, Mk("pattern_path", <<>>)>>)),
  pattern_expression |->
    Vars(<<"p">>, Or(<<
        Sq(<<Bind("p", R("shortest_path_pattern")), W, Yield("p")>>),
        Sq(<<Bind("p", R("pattern_expression_path")), W, Yield("p")>>)>>)),
  pattern_expression_path |->
    Vars(<<"n", "r">>, Sq(<<BS, Bind("n", R("node_pattern")), Add("n"), Plus(Sq(<<W, Bind("r",
        R("relationship_pattern")), W, Bind("n", R("node_pattern")), Add("r"), Add("n")>>)),
        BE, Mk("pattern_path", <<>>)>>)),
  node_pattern |->
    Vars(<<"i", "n", "p">>, Sq(<<BS, R("t_LEFT_PAREN"), W, Or(<<
        Bind("i", R("identifier")),
        Bind("i", Nil)>>), Star(Sq(<<Bind("n", R("label")), Add("n")>>)), Or(<<
        Bind("p", R("pattern_properties")),
        Bind("p", Nil)>>), R("t_RIGHT_PAREN"), BE, Mk("node_pattern", <<"i", "p">>)>>)),
  relationship_pattern |->
    Vars(<<"i", "l", "p">>, Sq(<<BS, Or(<<
        Sq(<<R("t_LEFT_ARROW_HEAD"), W, R("t_DASH"), W, Or(<<
          Sq(<<R("t_DASH"), Or(<<
            Sq(<<W, R("t_RIGHT_ARROW_HEAD"), BE, Mk("simple_rel_pattern",
                <<"BIDIRECTIONAL">>)>>),
            Sq(<<Eps, BE, Mk("simple_rel_pattern", <<"INBOUND">>)>>)>>)>>),
          Sq(<<R("t_LEFT_SQ_PAREN"), W, Or(<<
            Bind("i", R("identifier")),
            Bind("i", Nil)>>), Opt(R("rel_types")), Or(<<
            Bind("l", R("rel_varlength")),
            Bind("l", Nil)>>), Or(<<
            Bind("p", R("pattern_properties")),
            Bind("p", Nil)>>), R("t_RIGHT_SQ_PAREN"), W, R("t_DASH"), Or(<<
            Sq(<<W, R("t_RIGHT_ARROW_HEAD"), BE, Mk("rel_pattern", <<"BIDIRECTIONAL", "i", "l",
                "p">>)>>),
            Sq(<<Eps, BE, Mk("rel_pattern", <<"INBOUND", "i", "l", "p">>)>>)>>)>>)>>)>>),
        Sq(<<R("t_DASH"), W, Or(<<
          Sq(<<R("t_DASH"), Or(<<
            Sq(<<W, R("t_RIGHT_ARROW_HEAD"), BE, Mk("simple_rel_pattern", <<"OUTBOUND">>)>>),
            Sq(<<Eps, BE, Mk("simple_rel_pattern", <<"BIDIRECTIONAL">>)>>)>>)>>),
          Sq(<<R("t_LEFT_SQ_PAREN"), W, Or(<<
            Bind("i", R("identifier")),
            Bind("i", Nil)>>), Opt(R("rel_types")), Or(<<
            Bind("l", R("rel_varlength")),
            Bind("l", Nil)>>), Or(<<
            Bind("p", R("pattern_properties")),
            Bind("p", Nil)>>), R("t_RIGHT_SQ_PAREN"), W, R("t_DASH"), Or(<<
            Sq(<<W, R("t_RIGHT_ARROW_HEAD"), BE, Mk("rel_pattern", <<"OUTBOUND", "i", "l",
                "p">>)>>),
            Sq(<<Eps, BE, Mk("rel_pattern", <<"BIDIRECTIONAL", "i", "l",
                "p">>)>>)>>)>>)>>)>>)>>)>>)),
  rel_types |->
    Vars(<<"n">>, Sq(<<Bind("n", R("rel_type")), Add("n"), Star(Sq(<<R("t_PIPE"), W, Or(<<
        Bind("n", R("rel_type")),
        Bind("n", R("rel_type_name"))>>), Add("n")>>))>>)),
  rel_varlength |->
    Vars(<<"e", "s">>, Or(<<
        Sq(<<BS, R("t_STAR"), W, Or(<<
          Bind("s", R("integer_literal")),
          Bind("s", Nil)>>), R("t_ELLIPSIS"), W, Or(<<
          Bind("e", R("integer_literal")),
          Bind("e", Nil)>>), BE, Mk("range", <<"s", "e">>)>>),
        Sq(<<R("t_STAR"), W, BS, Or(<<
          Bind("s", R("integer_literal")),
          Bind("s", Nil)>>), BE, Mk("range", <<"s", "s">>)>>),
        Sq(<<BS, R("t_STAR"), W, BE, Mk("range", <<"NULL", "NULL">>)>>)>>)),
  pattern_properties |->
    Or(<<
        R("map_literal"),
        R("parameter")>>),
  client_command |->
    Vars(<<"a", "n">>, Sq(<<BS, R("t_COLON"), HW, Bind("n", R("client_command_name")),
        Star(Or(<<
        Sq(<<Lit("\\"), HW, R("line_end"), HW>>),
        Sq(<<Bind("a", R("client_command_arg")), Add("a")>>)>>)), BE, Mk("command", <<"n">>),
            Or(<<
        R("t_SEMICOLON"),
        R("line_end")>>)>>)),
  client_command_name |->
    Vars(<<"n">>, Sq(<<Err(Bind("n", R("client_command_arg")), "a command name"),
        Yield("n")>>)),
  client_command_arg |->
    Vars(<<"s">>, Sq(<<Bind("s", R("client_arg_string")), HW, Yield("s")>>)),
  client_arg_string |->
    Sq(<<SbReset, BS, Plus(Or(<<
        R("unquoted"),
        R("quoted")>>)), BE, Mk("strbuf_string", <<>>)>>),
  unquoted |->
    Plus(Or(<<
        R("escaped_char"),
        Sq(<<Lit("\\;"), SbByte(59)>>),
        Sq(<<BS, Plus(Sq(<<Not(Or(<<
          Cls("'\""),
          R("t_WS"),
          Lit("//"),
          Lit("/*"),
          Lit("\\"),
          R("t_SEMICOLON"),
          R("t_EOF")>>)), Dot>>)), BE, SbBlock>>)>>)),
  quoted |->
    Or(<<
        R("single_quoted"),
        R("double_quoted")>>),
  single_quoted |->
    Sq(<<Lit("'"), Star(Or(<<
        R("escaped_char"),
        Sq(<<BS, R("t_EOL"), BE, SbBlock>>),
        Sq(<<BS, Plus(Sq(<<Not(Or(<<
          Lit("'"),
          R("escaped_char"),
          R("t_EOL")>>)), Dot>>)), BE, SbBlock>>)>>)), Err(Lit("'"), "'")>>),
  double_quoted |->
    Sq(<<Lit("\""), Star(Or(<<
        R("escaped_char"),
        Sq(<<BS, R("t_EOL"), BE, SbBlock>>),
        Sq(<<BS, Plus(Sq(<<Not(Or(<<
          Lit("\""),
          R("escaped_char"),
          R("t_EOL")>>)), Dot>>)), BE, SbBlock>>)>>)), Err(Lit("\""), "\"")>>),
  escaped_char |->
    Or(<<
        Sq(<<Lit("\\a"), SbByte(7)>>),
        Sq(<<Lit("\\b"), SbByte(8)>>),
        Sq(<<Lit("\\f"), SbByte(12)>>),
        Sq(<<Lit("\\n"), SbByte(10)>>),
        Sq(<<Lit("\\r"), SbByte(13)>>),
        Sq(<<Lit("\\t"), SbByte(9)>>),
        Sq(<<Lit("\\v"), SbByte(11)>>),
        Sq(<<Lit("\\\\"), SbByte(92)>>),
        Sq(<<Lit("\\'"), SbByte(39)>>),
        Sq(<<Lit("\\\""), SbByte(34)>>),
        Sq(<<Lit("\\?"), SbByte(63)>>)>>),
  symbolic_name |->
    Or(<<
        R("unescaped_symbolic_name"),
        R("escaped_symbolic_name")>>),
  unescaped_symbolic_name |->
    Sq(<<BS, SymStart, Star(SymPart), BE, SbBlock>>),
  escaped_symbolic_name |->
    Sq(<<Lit("`"), BS, Star(Or(<<
        R("t_EOL"),
        Sq(<<Not(Lit("`")), Dot>>)>>)), BE, Err(Lit("`"), "`"), SbBlock>>),
  parameter_name |->
    Or(<<
        R("symbolic_name"),
        Sq(<<BS, Cls("123456789"), Star(Cls("0123456789")), BE, SbBlock>>)>>),
  float_string |->
    Or(<<
        Sq(<<BS, Plus(Cls("0123456789")), Opt(Lit(".")), Star(Cls("0123456789")), Cls("eE"),
            Opt(Cls("-+")), Cls("0123456789"), Star(SymPart), BE, SbBlock>>),
        Sq(<<BS, Star(Cls("0123456789")), Lit("."), Cls("0123456789"), Star(SymPart), BE,
            SbBlock>>)>>),
  integer_string |->
    Sq(<<BS, Cls("0123456789"), Star(SymPart), BE, SbBlock>>),
  line_end |->
    Or(<<
        R("line_comment"),
        R("t_EOL"),
        R("t_EOF")>>),
  comment |->
    Or(<<
        R("line_comment"),
        R("block_comment")>>),
  line_comment |->
    Sq(<<Lit("//"), BS, Star(Sq(<<Not(R("t_EOL")), Dot>>)), BE, MkTo("-", "line_comment", <<>>), Or(<<
        R("t_EOL"),
        R("t_EOF")>>)>>),
  block_comment |->
    Sq(<<Lit("/*"), BS, Star(Or(<<
        R("t_EOL"),
        Sq(<<Not(Lit("*/")), Dot>>)>>)), BE, MkTo("-", "block_comment", <<>>), Err(Lit("*/"), "*/")>>),
  t_WS |->
    Or(<<
        R("t_HWS"),
        R("t_EOL")>>),
  t_HWS |->
    Cls(" \t"),
  t_EOL |->
    Sq(<<Or(<<
        Lit("\n"),
        Lit("\r\n")>>), Eps>>),
  t_EOF |->
    Sq(<<Not(Dot), Eof>>),
  t_CYPHER |->
    Sq(<<Cls("Cc"), Err(KW("ypher"), "CYPHER")>>),
  t_PROFILE |->
    Sq(<<Cls("Pp"), Err(KW("rofile"), "PROFILE")>>),
  t_EXPLAIN |->
    Sq(<<Cls("Ee"), Err(KW("xplain"), "EXPLAIN")>>),
  t_OR |->
    Err(KW("or"), "OR"),
  t_XOR |->
    Err(KW("xor"), "XOR"),
  t_AND |->
    Err(KW("and"), "AND"),
  t_NOT |->
    Err(KW("not"), "NOT"),
  t_EQUAL |->
    Err(Lit("="), "'='"),
  t_NEQUAL |->
    Err(Lit("<>"), "'<>'"),
  t_PLUSEQUAL |->
    Err(Lit("+="), "'+='"),
  t_LT |->
    Err(Lit("<"), "'<'"),
  t_GT |->
    Err(Lit(">"), "'>'"),
  t_LTE |->
    Err(Lit("<="), "'<='"),
  t_GTE |->
    Err(Lit(">="), "'>='"),
  t_PLUS |->
    Err(Lit("+"), "'+'"),
  t_MINUS |->
    Err(Lit("-"), "'-'"),
  t_MULT |->
    Err(Lit("*"), "'*'"),
  t_DIV |->
    Err(Lit("/"), "'/'"),
  t_MOD |->
    Err(Lit("%"), "'%'"),
  t_POW |->
    Err(Lit("^"), "'^'"),
  t_IN |->
    Err(KW("in"), "IN"),
  t_REGEX |->
    Err(Lit("=~"), "'=~'"),
  t_STARTS_WITH |->
    Err(Sq(<<KW("starts"), W, KW("with")>>), "STARTS WITH"),
  t_ENDS_WITH |->
    Err(Sq(<<KW("ends"), W, KW("with")>>), "ENDS WITH"),
  t_CONTAINS |->
    Err(KW("contains"), "CONTAINS"),
  t_IS_NULL |->
    Err(Sq(<<KW("is"), W, KW("null")>>), "IS NULL"),
  t_IS_NOT_NULL |->
    Err(Sq(<<KW("is"), W, KW("not"), W, KW("null")>>), "IS NOT NULL"),
  t_DOT |->
    Err(Lit("."), "'.'"),
  t_DOT_STAR |->
    Err(Sq(<<Lit("."), W, Lit("*")>>), "'.*'"),
  t_COLON |->
    Err(Lit(":"), "':'"),
  t_SEMICOLON |->
    Err(Lit(";"), "';'"),
  t_COMMA |->
    Err(Lit(","), "','"),
  t_STAR |->
    Err(Lit("*"), "'*'"),
  t_PIPE |->
    Err(Lit("|"), "'|'"),
  t_DASH |->
    Err(Lit("-"), "'-'"),
  t_LEFT_PAREN |->
    Err(Lit("("), "'('"),
  t_RIGHT_PAREN |->
    Err(Lit(")"), "')'"),
  t_LEFT_SQ_PAREN |->
    Err(Lit("["), "'['"),
  t_RIGHT_SQ_PAREN |->
    Err(Lit("]"), "']'"),
  t_LEFT_CURLY |->
    Err(Lit("{"), "'{'"),
  t_RIGHT_CURLY |->
    Err(Lit("}"), "'}'"),
  t_ELLIPSIS |->
    Err(Lit(".."), "'..'"),
  t_LEFT_ARROW_HEAD |->
    Err(Lit("<"), "'<'"),
  t_RIGHT_ARROW_HEAD |->
    Err(Lit(">"), "'>'"),
  t_CREATE_CONSTRAINT_ON |->
    Sq(<<Cls("Cc"), Err(Sq(<<KW("reate"), W, KW("constraint"), W, KW("on"), W>>),
        "CREATE CONSTRAINT ON")>>),
  t_CREATE_INDEX_ON |->
    Sq(<<Cls("Cc"), Err(Sq(<<KW("reate"), W, KW("index"), W, KW("on"), W>>),
        "CREATE INDEX ON")>>),
  t_DROP_CONSTRAINT_ON |->
    Sq(<<Cls("Dd"), Err(Sq(<<KW("rop"), W, KW("constraint"), W, KW("on"), W>>),
        "DROP CONSTRAINT ON")>>),
  t_DROP_INDEX_ON |->
    Sq(<<Cls("Dd"), Err(Sq(<<KW("rop"), W, KW("index"), W, KW("on"), W>>), "DROP INDEX ON")>>),
  t_ASSERT |->
    Err(Sq(<<KW("assert"), W>>), "ASSERT"),
  t_IS_UNIQUE |->
    Err(Sq(<<KW("is"), W, KW("unique"), W>>), "IS UNIQUE"),
  t_DROP |->
    Sq(<<KW("drop"), W>>),
  t_USING_PERIODIC_COMMIT |->
    Sq(<<Cls("Uu"), Err(Sq(<<KW("sing"), W, KW("periodic"), W, KW("commit"), W>>),
        "USING PERIODIC COMMIT")>>),
  t_LOADCSV |->
    Sq(<<Cls("Ll"), Err(Sq(<<KW("oad"), W, KW("csv"), W>>), "LOAD CSV")>>),
  t_START |->
    Sq(<<Cls("Ss"), Err(Sq(<<KW("tart"), W>>), "START")>>),
  t_MATCH |->
    Sq(<<Cls("Mm"), Err(Sq(<<KW("atch"), W>>), "MATCH")>>),
  t_OPTIONAL_MATCH |->
    Sq(<<Cls("Oo"), Err(Sq(<<KW("ptional"), W, R("t_MATCH")>>), "OPTIONAL MATCH")>>),
  t_UNWIND |->
    Sq(<<Cls("Uu"), Err(Sq(<<KW("nwind"), W>>), "UNWIND")>>),
  t_MERGE |->
    Sq(<<Cls("Mm"), Err(Sq(<<KW("erge"), W>>), "MERGE")>>),
  t_CREATE |->
    Sq(<<Cls("Cc"), Err(Sq(<<KW("reate"), W>>), "CREATE")>>),
  t_CREATE_UNIQUE |->
    Sq(<<Cls("Cc"), Err(Sq(<<KW("reate"), W, KW("unique"), W>>), "CREATE UNIQUE")>>),
  t_SET |->
    Sq(<<Cls("Ss"), Err(Sq(<<KW("et"), W>>), "SET")>>),
  t_DELETE |->
    Sq(<<Cls("Dd"), Err(Sq(<<KW("elete"), W>>), "DELETE")>>),
  t_DETACH_DELETE |->
    Sq(<<Cls("Dd"), Err(Sq(<<KW("etach"), W, KW("delete"), W>>), "DETACH DELETE")>>),
  t_REMOVE |->
    Sq(<<Cls("Rr"), Err(Sq(<<KW("emove"), W>>), "REMOVE")>>),
  t_FOREACH |->
    Sq(<<Cls("Ff"), Err(Sq(<<KW("oreach"), W>>), "FOREACH")>>),
  t_WITH |->
    Sq(<<Cls("Ww"), Err(Sq(<<KW("ith"), W>>), "WITH")>>),
  t_CALL |->
    Sq(<<Cls("Cc"), Err(Sq(<<KW("all"), W>>), "CALL")>>),
  t_RETURN |->
    Sq(<<Cls("Rr"), Err(Sq(<<KW("eturn"), W>>), "RETURN")>>),
  t_UNION |->
    Sq(<<Cls("Uu"), Err(Sq(<<KW("nion"), W>>), "UNION")>>),
  node |->
    Err(Sq(<<KW("node"), W>>), "node"),
  relationship |->
    Err(Sq(<<KW("relationship"), W>>), "relationship"),
  rel |->
    Err(Sq(<<KW("rel"), W>>), "rel"),
  t_USING_INDEX |->
    Err(Sq(<<KW("using"), W, KW("index"), W>>), "USING INDEX"),
  t_USING_JOIN_ON |->
    Err(Sq(<<KW("using"), W, KW("join"), W, KW("on"), W>>), "USING JOIN ON"),
  t_USING_SCAN |->
    Err(Sq(<<KW("using"), W, KW("scan"), W>>), "USING SCAN"),
  t_ON_MATCH |->
    Err(Sq(<<KW("on"), W, KW("match"), W>>), "ON MATCH"),
  t_ON_CREATE |->
    Err(Sq(<<KW("on"), W, KW("create"), W>>), "ON CREATE"),
  t_WHERE |->
    Err(Sq(<<KW("where"), W>>), "WHERE"),
  t_AS |->
    Err(Sq(<<KW("as"), W>>), "AS"),
  t_DISTINCT |->
    Err(Sq(<<KW("distinct"), W>>), "DISTINCT"),
  t_YIELD |->
    Err(Sq(<<KW("yield"), W>>), "YIELD"),
  t_ORDER_BY |->
    Err(Sq(<<KW("order"), W, KW("by"), W>>), "ORDER BY"),
  t_ASCENDING |->
    Err(Sq(<<KW("ascending"), W>>), "ASCENDING"),
  t_ASC |->
    Err(Sq(<<KW("asc"), W>>), "ASC"),
  t_DESCENDING |->
    Err(Sq(<<KW("descending"), W>>), "DESCENDING"),
  t_DESC |->
    Err(Sq(<<KW("desc"), W>>), "DESC"),
  t_SKIP |->
    Err(Sq(<<KW("skip"), W>>), "SKIP"),
  t_LIMIT |->
    Err(Sq(<<KW("limit"), W>>), "LIMIT"),
  t_CASE |->
    Err(Sq(<<KW("case"), W>>), "CASE"),
  t_WHEN |->
    Err(Sq(<<KW("when"), W>>), "WHEN"),
  t_THEN |->
    Err(Sq(<<KW("then"), W>>), "THEN"),
  t_ELSE |->
    Err(Sq(<<KW("else"), W>>), "ELSE"),
  t_END |->
    Err(KW("end"), "END"),
  t_FILTER |->
    Err(Sq(<<KW("filter"), W>>), "FILTER"),
  t_EXTRACT |->
    Err(Sq(<<KW("extract"), W>>), "EXTRACT"),
  t_REDUCE |->
    Err(Sq(<<KW("reduce"), W>>), "REDUCE"),
  t_ALL |->
    Err(Sq(<<KW("all"), W>>), "ALL"),
  t_ANY |->
    Err(Sq(<<KW("any"), W>>), "ANY"),
  t_SINGLE |->
    Err(Sq(<<KW("single"), W>>), "SINGLE"),
  t_NONE |->
    Err(Sq(<<KW("none"), W>>), "NONE"),
  t_WITH_HEADERS |->
    Err(Sq(<<R("t_WITH"), KW("headers"), W>>), "WITH HEADERS"),
  t_FROM |->
    Err(Sq(<<KW("from"), W>>), "FROM"),
  t_FIELDTERMINATOR |->
    Err(Sq(<<KW("fieldterminator"), W>>), "FIELDTERMINATOR"),
  t_TRUE |->
    Err(KW("true"), "TRUE"),
  t_FALSE |->
    Err(KW("false"), "FALSE"),
  t_NULL |->
    Err(KW("null"), "NULL"),
  t_SHORTESTPATH |->
    Err(Sq(<<KW("shortestpath"), W>>), "shortestPath"),
  t_ALLSHORTESTPATHS |->
    Err(Sq(<<KW("allshortestpaths"), W>>), "allShortestPaths"),
  skip_to_directive |->
    Sq(<<BS, Dot, Star(Sq(<<Not(Or(<<
        R("t_EOF"),
        R("t_SEMICOLON"),
        Sq(<<Or(<<
          R("t_WS"),
          R("comment")>>), R("resync_directive")>>)>>)), Dot>>)), BE, MkTo("-", "skip", <<>>)>>),
  resync_directive |->
    Or(<<
        R("resync_statement"),
        R("t_COLON")>>),
  skip_to_statement |->
    Sq(<<BS, Dot, Star(Sq(<<Not(Or(<<
        R("t_EOF"),
        R("t_SEMICOLON"),
        Sq(<<Or(<<
          R("t_WS"),
          R("comment")>>), R("resync_statement")>>)>>)), Dot>>)), BE, MkTo("-", "skip", <<>>)>>),
  resync_statement |->
    Or(<<
        R("resync_clause"),
        R("t_CYPHER"),
        R("t_PROFILE"),
        R("t_EXPLAIN")>>),
  skip_to_clause |->
    Sq(<<BS, Dot, Star(Sq(<<Not(Or(<<
        R("t_EOF"),
        R("t_SEMICOLON"),
        Sq(<<Or(<<
          R("t_WS"),
          R("comment")>>), R("resync_clause")>>)>>)), Dot>>)), BE, MkTo("-", "skip", <<>>)>>),
  resync_clause |->
    Or(<<
        R("t_LOADCSV"),
        R("t_START"),
        R("t_MATCH"),
        R("t_UNWIND"),
        R("t_MERGE"),
        R("t_CREATE"),
        R("t_SET"),
        R("t_DELETE"),
        R("t_REMOVE"),
        R("t_FOREACH"),
        R("t_WITH"),
        R("t_CALL"),
        R("t_RETURN"),
        R("t_DROP")>>)
]
=============================================================================
