------------------------------- MODULE Render -------------------------------
(* The textual rendering of syntax trees: one line per node, in document     *)
(* order, with its ordinal, source range, type and a description that refers *)
(* to other nodes by ordinal.                                                *)
EXTENDS Tree

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
NDigits(n) == Len(Digits(n))
Spaces(n) == [i \in 1..n |-> SP]
RightJust(s, w) == IF Len(s) >= w THEN s ELSE Spaces(w - Len(s)) \o s
LeftJust(s, w) == IF Len(s) >= w THEN s ELSE s \o Spaces(w - Len(s))

S_(s) == Codes(s)
RECURSIVE JoinFrom(_, _, _)
JoinFrom(parts, sep, i) ==
  IF i > Len(parts) THEN <<>>
  ELSE (IF i > 1 THEN sep ELSE <<>>) \o parts[i] \o JoinFrom(parts, sep, i + 1)
Join(parts, sep) == JoinFrom(parts, sep, 1)
Commas(parts) == Join(parts, <<44, SP>>)
When(c, part) == IF c THEN <<part>> ELSE <<>>

OpText(op) == Operator[op][3]

(* Description of node id, where o gives the ordinal of every node. *)
Describe(nodes, o, id) ==
  LET n == nodes[id]
      Val(name) == LET i == CHOOSE i \in 1..Len(n.r) : n.r[i][2] = name IN n.r[i][3]
      Ref(x) == <<64>> \o Digits(o[x])
      N(name) == Ref(Val(name))
      Has(name) == Val(name) # 0
      Refs(name) == [i \in 1..Len(Val(name)) |-> Ref(Val(name)[i])]
      List(name) == <<91>> \o Commas(Refs(name)) \o <<93>>
      Field(label, name) == S_(label) \o <<61>> \o N(name)
      Opt_(label, name) == IF Has(name) THEN <<Field(label, name)>> ELSE <<>>
      LField(label, name) == S_(label) \o <<61>> \o List(name)
      OptL(label, name) == IF Val(name) # <<>> THEN <<LField(label, name)>> ELSE <<>>
      Quoted(name) == <<96>> \o Val(name) \o <<96>>
      Comprehension ==
        <<91>> \o N("identifier") \o S_(" IN ") \o N("expression")
        \o (IF Has("predicate") THEN S_(" WHERE ") \o N("predicate") ELSE <<>>)
        \o (IF Has("eval") THEN S_(" | ") \o N("eval") ELSE <<>>) \o <<93>>
      Colons(name) == LET F(i) == <<58>> \o Refs(name)[i]
                      IN Join([i \in 1..Len(Val(name)) |-> F(i)], <<>>)
      Pairs(ks, vs, sep) == Commas([i \in 1..Len(Val(ks)) |->
                              Ref(Val(ks)[i]) \o sep \o Ref(Val(vs)[i])])
      Constraint(l) ==
        Commas(<<S_("ON=(") \o N("identifier") \o <<58>> \o N(l) \o S_(")"),
                 Field("expression", "expression")>>
               \o When(Val("unique"), S_("IS UNIQUE")))
      Index == S_("ON=:") \o N("label") \o <<40>> \o Commas(Refs("prop_names")) \o <<41>>
      Lookup(what) == N("identifier") \o S_(" = ") \o S_(what) \o <<58>> \o N("index_name")
        \o <<40>> \o N("prop_name") \o S_(" = ") \o N("lookup") \o <<41>>
      Query(what) == N("identifier") \o S_(" = ") \o S_(what) \o <<58>> \o N("index_name")
        \o <<40>> \o N("query") \o <<41>>
      Ids(what) == N("identifier") \o S_(" = ") \o S_(what) \o <<40>> \o Commas(Refs("ids")) \o <<41>>
      Projecting ==
        When(Val("distinct"), S_("DISTINCT")) \o When(Val("include_existing"), <<42>>)
        \o <<LField("projections", "projections")>> \o Opt_("ORDER BY", "order_by")
        \o Opt_("SKIP", "skip") \o Opt_("LIMIT", "limit")
      RelDetail ==
        LET types == Join([i \in 1..Len(Val("reltypes")) |->
                       (IF i = 1 THEN <<58>> ELSE <<124, 58>>) \o Refs("reltypes")[i]], <<>>)
            props == IF ~Has("properties") THEN <<>>
                     ELSE <<SP, 123>> \o N("properties") \o <<125>>
            body == (IF Has("identifier") THEN N("identifier") ELSE <<>>) \o types
                    \o (IF Has("varlength") THEN <<42>> \o N("varlength") ELSE <<>>) \o props
            d == Val("direction")
        IN (IF d = "INBOUND" THEN S_("<-[") ELSE S_("-["))
           \o body \o (IF d = "OUTBOUND" THEN S_("]->") ELSE S_("]-"))
      NodeDetail ==
        LET props == IF ~Has("properties") THEN <<>>
                     ELSE <<SP, 123>> \o N("properties") \o <<125>>
        IN <<40>> \o (IF Has("identifier") THEN N("identifier") ELSE <<>>)
           \o Colons("labels") \o props \o <<41>>
      PathDetail ==
        LET E == Val("elements")
        IN Join([i \in 1..Len(E) |-> IF i % 2 = 1 THEN <<40>> \o Ref(E[i]) \o <<41>>
                                     ELSE S_("-[") \o Ref(E[i]) \o S_("]-")], <<>>)
      t == n.t
  IN
  CASE t \in {"all", "any", "single", "none", "filter", "extract", "list comprehension"}
         -> Comprehension
    [] t \in {"all nodes scan", "all rels scan"} -> Field("identifier", "identifier")
    [] t = "apply all" -> N("func_name") \o <<40>>
         \o (IF Val("distinct") THEN S_("DISTINCT ") ELSE <<>>) \o S_("*)")
    [] t = "apply" -> N("func_name") \o <<40>>
         \o (IF Val("distinct") THEN S_("DISTINCT ") ELSE <<>>) \o Commas(Refs("arguments")) \o <<41>>
    [] t = "binary operator" -> N("argument1") \o <<SP>> \o S_(OpText(Val("operator"))) \o <<SP>>
         \o N("argument2")
    [] t = "unary operator" -> S_(OpText(Val("operator"))) \o <<SP>> \o N("argument")
    [] t = "comparison" ->
         LET A == Val("arguments") ops == Val("operators")
         IN Ref(A[1]) \o Join([i \in 1..Len(ops) |-> <<SP>> \o S_(OpText(ops[i])) \o <<SP>>
                                                    \o Ref(A[i + 1])], <<>>)
    [] t = "block_comment" -> S_("/*") \o Val("value") \o S_("*/")
    [] t = "line_comment" -> S_("//") \o Val("value")
    [] t = "CALL" -> Commas(<<Field("name", "proc_name")>> \o OptL("args", "arguments")
         \o OptL("YIELD", "projections") \o Opt_("WHERE", "predicate"))
    [] t = "case" -> Commas(Opt_("expression", "expression")
         \o <<S_("alternatives=[") \o Commas([i \in 1..Len(Val("predicates")) |->
               <<40>> \o Ref(Val("predicates")[i]) \o <<58>> \o Ref(Val("values")[i]) \o <<41>>]) \o <<93>>>>
         \o Opt_("default", "default"))
    [] t = "collection" -> List("elements")
    [] t = "command" -> Commas(<<Field("name", "name"), LField("args", "arguments")>>)
    [] t = "CREATE" -> Commas(When(Val("unique"), S_("UNIQUE")) \o <<Field("pattern", "pattern")>>)
    [] t \in {"create node prop constraint", "drop node prop constraint"} -> Constraint("label")
    [] t \in {"create rel prop constraint", "drop rel prop constraint"} -> Constraint("reltype")
    [] t \in {"CREATE INDEX", "DROP INDEX"} -> Index
    [] t = "CYPHER" -> Commas(Opt_("version", "version") \o OptL("params", "params"))
    [] t = "cypher parameter" -> N("name") \o S_(" = ") \o N("value")
    [] t = "DELETE" -> Commas(When(Val("detach"), S_("DETACH")) \o <<LField("expressions", "expressions")>>)
    [] t = "error" -> S_(">>") \o Val("value") \o S_("<<")
    [] t \in {"float", "integer"} -> Val("value")
    [] t = "FOREACH" -> <<91>> \o N("identifier") \o S_(" IN ") \o N("expression") \o S_(" | ")
         \o Commas(Refs("clauses")) \o <<93>>
    [] t \in {"identifier"} -> Quoted("name")
    [] t \in {"function name", "index name", "proc name", "prop name"} -> Quoted("value")
    [] t \in {"label", "rel type"} -> <<58>> \o Quoted("name")
    [] t = "parameter" -> <<36>> \o Quoted("name")
    [] t = "string" -> <<34>> \o Val("value") \o <<34>>
    [] t = "has labels" -> N("expression") \o Colons("labels")
    [] t = "LOAD CSV" -> Commas(When(Val("with_headers"), S_("WITH HEADERS"))
         \o <<Field("url", "url"), Field("identifier", "identifier")>>
         \o Opt_("field_terminator", "field_terminator"))
    [] t = "map" -> <<123>> \o Pairs("keys", "values", <<58>>) \o <<125>>
    [] t = "map projection" -> N("expression") \o <<123>> \o Commas(Refs("selectors")) \o <<125>>
    [] t = "all properties projection" -> S_(".*")
    [] t = "identifier projection" -> N("identifier")
    [] t = "literal projection" -> N("prop_name") \o S_(": ") \o N("expression")
    [] t = "property projection" -> <<46>> \o N("prop_name")
    [] t = "MATCH" -> Commas(When(Val("optional"), S_("OPTIONAL")) \o <<Field("pattern", "pattern")>>
         \o OptL("hints", "hints") \o Opt_("where", "predicate"))
    [] t = "MERGE" -> Field("path", "path")
         \o (IF Val("actions") # <<>> THEN S_(", action") \o List("actions") ELSE <<>>)
    [] t = "merge properties" -> N("identifier") \o S_(" += ") \o N("expression")
    [] t = "named path" -> N("identifier") \o S_(" = ") \o N("path")
    [] t = "node id lookup" -> Ids("node")
    [] t = "rel id lookup" -> Ids("rel")
    [] t = "node index lookup" -> Lookup("node")
    [] t = "rel index lookup" -> Lookup("rel")
    [] t = "node index query" -> Query("node")
    [] t = "rel index query" -> Query("rel")
    [] t = "node pattern" -> NodeDetail
    [] t = "rel pattern" -> RelDetail
    [] t = "pattern path" -> PathDetail
    [] t \in {"ON CREATE", "ON MATCH", "ORDER BY", "REMOVE", "SET"} -> LField("items", "items")
    [] t = "pattern" -> LField("paths", "paths")
    [] t = "pattern comprehension" -> <<91>>
         \o (IF Has("identifier") THEN N("identifier") \o S_(" = ") ELSE <<>>) \o N("pattern")
         \o (IF Has("predicate") THEN S_(" WHERE ") \o N("predicate") ELSE <<>>)
         \o S_(" | ") \o N("eval") \o <<93>>
    [] t = "projection" -> Commas(<<Field("expression", "expression")>> \o Opt_("alias", "alias"))
    [] t = "property" -> N("expression") \o <<46>> \o N("prop_name")
    [] t = "query" -> LField("clauses", "clauses")
    [] t = "range" -> IF ~Has("start") /\ ~Has("end") THEN <<42>> ELSE <<42>> \o (IF Has("start") THEN N("start") ELSE <<>>) \o S_("..")
         \o (IF Has("end") THEN N("end") ELSE <<>>)
    [] t = "reduce" -> <<91>> \o N("accumulator") \o <<61>> \o N("init") \o S_(", ")
         \o N("identifier") \o S_(" IN ") \o N("expression")
         \o (IF Has("eval") THEN S_(" | ") \o N("eval") ELSE <<>>) \o <<93>>
    [] t = "remove property" -> Field("prop", "property")
    [] t = "RETURN" -> Commas(Projecting)
    [] t = "WITH" -> Commas(Projecting \o Opt_("WHERE", "predicate"))
    [] t \in {"set labels", "remove labels"} -> N("identifier") \o Colons("labels")
    [] t = "set property" -> N("property") \o S_(" = ") \o N("expression")
    [] t = "set all properties" -> N("identifier") \o S_(" = ") \o N("expression")
    [] t = "shortestPath" -> S_(IF Val("single") THEN "single=true" ELSE "single=false")
         \o S_(", path=") \o N("path")
    [] t = "slice" -> N("expression") \o <<91>> \o (IF Has("start") THEN N("start") ELSE <<>>)
         \o S_("..") \o (IF Has("end") THEN N("end") ELSE <<>>) \o <<93>>
    [] t = "sort item" -> Commas(<<Field("expression", "expression"),
         S_(IF Val("ascending") THEN "ASCENDING" ELSE "DESCENDING")>>)
    [] t = "START" -> Commas(<<LField("points", "points")>> \o Opt_("WHERE", "predicate"))
    [] t = "statement" -> Commas(OptL("options", "options") \o <<Field("body", "body")>>)
    [] t = "subscript" -> N("expression") \o <<91>> \o N("subscript") \o <<93>>
    [] t = "UNION" -> IF Val("all") THEN S_("ALL") ELSE <<>>
    [] t = "UNWIND" -> Commas(<<Field("expression", "expression"), Field("alias", "alias")>>)
    [] t = "USING INDEX" -> N("identifier") \o <<58>> \o N("label") \o <<40>> \o N("prop_name") \o <<41>>
    [] t = "USING JOIN" -> LField("on", "identifiers")
    [] t = "USING PERIODIC_COMMIT" -> Commas(Opt_("limit", "limit"))
    [] t = "USING SCAN" -> N("identifier") \o <<58>> \o N("label")
    [] OTHER -> <<>>

EscapedByte(c) ==
  CASE c = 7 -> S_("\\a") [] c = 8 -> S_("\\b") [] c = 12 -> S_("\\f") [] c = 10 -> S_("\\n")
    [] c = 13 -> S_("\\r") [] c = 9 -> S_("\\t") [] c = 11 -> S_("\\v") [] OTHER -> <<c>>
RECURSIVE Escaped(_)
Escaped(s) == IF s = <<>> THEN <<>> ELSE EscapedByte(s[1]) \o Escaped(Tail(s))

(* The description broken into lines of w bytes (0: not broken), later lines *)
(* indented; no break after the last source byte.                            *)
RECURSIVE Wrap(_, _, _, _, _)
Wrap(d, i, left, w, indent) ==
  IF i > Len(d) THEN <<>>
  ELSE LET e == EscapedByte(d[i])
           F(acc, c) ==
             LET l == acc[2] - 1
             IN IF w > 0 /\ l = 0 /\ i < Len(d)
                THEN <<acc[1] \o <<c, NL>> \o Spaces(indent), w>>
                ELSE <<Append(acc[1], c), l>>
           r == FoldLeft(F, <<<<>>, left>>, e)
       IN r[1] \o Wrap(d, i + 1, r[2], w, indent)

RECURSIVE DepthList(_, _, _)         \* <<node, depth>> in document order
DepthList(ids, nodes, d) ==
  IF ids = <<>> THEN <<>>
  ELSE <<<<ids[1], d>>>> \o DepthList(nodes[ids[1]].ch, nodes, d + 1) \o DepthList(Tail(ids), nodes, d)

MaxOf(s, min) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, min, s)

(* c = the on and off marks of ordinal, range, indent, type, description;    *)
(* S(id), E(id) give the byte offsets at which a node starts and ends.       *)
NoMarks == [i \in 1..10 |-> <<>>]
Rendering(roots, nodes, o, S(_), E(_), width, c) ==
  LET all == DepthList(roots, nodes, 0)
      Kn == Len(all)
      ow == NDigits(MaxOf([i \in 1..Kn |-> o[all[i][1]]], 0)) + 1
      sw == NDigits(MaxOf([i \in 1..Kn |-> S(all[i][1])], 0))
      ew == NDigits(MaxOf([i \in 1..Kn |-> E(all[i][1])], 0))
      nw == MaxOf([i \in 1..Kn |-> Len(nodes[all[i][1]].t) + 2 * all[i][2]], 0)
      offset == nw + sw + ew + ow + 8
      w == IF width = 0 THEN 0 ELSE IF offset < width THEN width - offset ELSE 10
      Line(i) ==
        LET id == all[i][1] d == all[i][2] n == nodes[id]
            text_ == Describe(nodes, o, id)
            indent == Join([j \in 1..d |-> <<62, SP>>], <<>>)
        IN c[1] \o RightJust(<<64>> \o Digits(o[id]), ow) \o c[2] \o Spaces(2)
           \o c[3] \o RightJust(Digits(S(id)), sw) \o S_("..") \o LeftJust(Digits(E(id)), ew)
           \o c[4] \o Spaces(2) \o c[5] \o indent \o c[6] \o c[7] \o S_(n.t) \o c[8]
           \o (IF text_ = <<>> THEN <<NL>>
               ELSE Spaces(nw - (2 * d + Len(n.t)) + 2)
                    \o c[9] \o Wrap(text_, 1, w, w, offset) \o <<NL>> \o c[10])
  IN FoldLeft(LAMBDA acc, i : acc \o Line(i), <<>>, [i \in 1..Kn |-> i])
=============================================================================
