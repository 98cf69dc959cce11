-------------------------------- MODULE Build -------------------------------
(* Trees made with the constructors of the library, and what may be asked of *)
(* them.  A behaviour designs a tree from the root down: each step settles   *)
(* the next node that has not been settled - which constructor makes it, how *)
(* many parts of each kind it has, in which order its children are given -   *)
(* and adds its parts as nodes still to be settled.  The root may be given a *)
(* part it cannot have.  The finished design says, for every node, which     *)
(* constructor is called with which parts and children, whether the call is  *)
(* accepted, and the type, children and facts of the node made.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
T == INSTANCE Types

CONSTANTS Mode,      \* "shapes", "faults", "pairs" or "walk"
          MaxNodes   \* of a walk

-----------------------------------------------------------------------------
(* the constructors: the type they make and the parts they take, in order    *)
One(n, ts) == [k |-> "one", n |-> n, ts |-> ts]
Opt(n, ts) == [k |-> "opt", n |-> n, ts |-> ts]
Many(n, ts, m) == [k |-> "many", n |-> n, ts |-> ts, min |-> m]
Bool(n) == [k |-> "bool", n |-> n]
Dir == [k |-> "dir", n |-> "direction"]
Op == [k |-> "op", n |-> "operator"]
Chain == [k |-> "chain", n |-> "arguments", ts |-> {"EXPRESSION"}]
Pairs(a, ta, b, tb) == [k |-> "pairs", n |-> a, ts |-> {ta}, m |-> b, us |-> {tb}]
Path == [k |-> "path", n |-> "elements"]
Nil(n) == [k |-> "nil", n |-> n]          \* a fact without a part: always none
Inner == [k |-> "inner", n |-> "elements"] \* the elements of the path given last
Str(n) == [k |-> "str", n |-> n]

X == {"EXPRESSION"}
I == {"IDENTIFIER"}
C(t, ps) == [t |-> t, ps |-> ps]
Name(t, n) == C(t, <<Str(n)>>)
Constraint(t, second, ty) ==
  C(t, <<One("identifier", I), One(second, {ty}), One("expression", X), Bool("unique")>>)
Props(t) == C(t, <<One("label", {"LABEL"}), Many("prop_names", {"PROP_NAME"}, 1)>>)
Lookup(t) == C(t, <<One("identifier", I), One("index_name", {"INDEX_NAME"}),
  One("prop_name", {"PROP_NAME"}), One("lookup", {"STRING", "PARAMETER"})>>)
Query(t) == C(t, <<One("identifier", I), One("index_name", {"INDEX_NAME"}),
  One("query", {"STRING", "PARAMETER"})>>)
Ids(t) == C(t, <<One("identifier", I), Many("ids", {"INTEGER"}, 1)>>)
Predicate(t) == C(t, <<One("identifier", I), One("expression", X), Opt("predicate", X), Nil("eval")>>)

Ctors == [
  statement |-> C("STATEMENT", <<Many("options", {"STATEMENT_OPTION"}, 0), One("body", {"QUERY", "SCHEMA_COMMAND"})>>),
  cypher_option |-> C("CYPHER_OPTION", <<Opt("version", {"STRING"}), Many("params", {"CYPHER_OPTION_PARAM"}, 0)>>),
  cypher_option_param |-> C("CYPHER_OPTION_PARAM", <<One("name", {"STRING"}), One("value", {"STRING"})>>),
  explain_option |-> C("EXPLAIN_OPTION", <<>>),
  profile_option |-> C("PROFILE_OPTION", <<>>),
  create_node_props_index |-> Props("CREATE_NODE_PROPS_INDEX"),
  drop_node_props_index |-> Props("DROP_NODE_PROPS_INDEX"),
  create_node_prop_constraint |-> Constraint("CREATE_NODE_PROP_CONSTRAINT", "label", "LABEL"),
  drop_node_prop_constraint |-> Constraint("DROP_NODE_PROP_CONSTRAINT", "label", "LABEL"),
  create_rel_prop_constraint |-> Constraint("CREATE_REL_PROP_CONSTRAINT", "reltype", "RELTYPE"),
  drop_rel_prop_constraint |-> Constraint("DROP_REL_PROP_CONSTRAINT", "reltype", "RELTYPE"),
  query |-> C("QUERY", <<Many("options", {"QUERY_OPTION"}, 0), Many("clauses", {"QUERY_CLAUSE"}, 1)>>),
  using_periodic_commit |-> C("USING_PERIODIC_COMMIT", <<Opt("limit", {"INTEGER"})>>),
  load_csv |-> C("LOAD_CSV", <<Bool("with_headers"), One("url", X), One("identifier", I), Opt("field_terminator", {"STRING"})>>),
  start |-> C("START", <<Many("points", {"START_POINT"}, 1), Opt("predicate", X)>>),
  node_index_lookup |-> Lookup("NODE_INDEX_LOOKUP"),
  rel_index_lookup |-> Lookup("REL_INDEX_LOOKUP"),
  node_index_query |-> Query("NODE_INDEX_QUERY"),
  rel_index_query |-> Query("REL_INDEX_QUERY"),
  node_id_lookup |-> Ids("NODE_ID_LOOKUP"),
  rel_id_lookup |-> Ids("REL_ID_LOOKUP"),
  all_nodes_scan |-> C("ALL_NODES_SCAN", <<One("identifier", I)>>),
  all_rels_scan |-> C("ALL_RELS_SCAN", <<One("identifier", I)>>),
  match |-> C("MATCH", <<Bool("optional"), One("pattern", {"PATTERN"}), Many("hints", {"MATCH_HINT"}, 0), Opt("predicate", X)>>),
  using_index |-> C("USING_INDEX", <<One("identifier", I), One("label", {"LABEL"}), One("prop_name", {"PROP_NAME"})>>),
  using_join |-> C("USING_JOIN", <<Many("identifiers", I, 1)>>),
  using_scan |-> C("USING_SCAN", <<One("identifier", I), One("label", {"LABEL"})>>),
  merge |-> C("MERGE", <<One("path", {"PATTERN_PATH"}), Many("actions", {"MERGE_ACTION"}, 0)>>),
  on_match |-> C("ON_MATCH", <<Many("items", {"SET_ITEM"}, 1)>>),
  on_create |-> C("ON_CREATE", <<Many("items", {"SET_ITEM"}, 1)>>),
  create |-> C("CREATE", <<Bool("unique"), One("pattern", {"PATTERN"})>>),
  set |-> C("SET", <<Many("items", {"SET_ITEM"}, 1)>>),
  set_property |-> C("SET_PROPERTY", <<One("property", {"PROPERTY_OPERATOR"}), One("expression", X)>>),
  set_all_properties |-> C("SET_ALL_PROPERTIES", <<One("identifier", I), One("expression", X)>>),
  merge_properties |-> C("MERGE_PROPERTIES", <<One("identifier", I), One("expression", X)>>),
  set_labels |-> C("SET_LABELS", <<One("identifier", I), Many("labels", {"LABEL"}, 1)>>),
  delete |-> C("DELETE", <<Bool("detach"), Many("expressions", X, 1)>>),
  remove |-> C("REMOVE", <<Many("items", {"REMOVE_ITEM"}, 1)>>),
  remove_labels |-> C("REMOVE_LABELS", <<One("identifier", I), Many("labels", {"LABEL"}, 1)>>),
  remove_property |-> C("REMOVE_PROPERTY", <<One("property", {"PROPERTY_OPERATOR"})>>),
  foreach |-> C("FOREACH", <<One("identifier", I), One("expression", X), Many("clauses", {"QUERY_CLAUSE"}, 1)>>),
  with |-> C("WITH", <<Bool("distinct"), Bool("include_existing"), Many("projections", {"PROJECTION"}, 0),
    Opt("order_by", {"ORDER_BY"}), Opt("skip", X), Opt("limit", X), Opt("predicate", X)>>),
  return |-> C("RETURN", <<Bool("distinct"), Bool("include_existing"), Many("projections", {"PROJECTION"}, 0),
    Opt("order_by", {"ORDER_BY"}), Opt("skip", X), Opt("limit", X)>>),
  projection |-> C("PROJECTION", <<One("expression", X), Opt("alias", I)>>),
  order_by |-> C("ORDER_BY", <<Many("items", {"SORT_ITEM"}, 1)>>),
  sort_item |-> C("SORT_ITEM", <<One("expression", X), Bool("ascending")>>),
  unwind |-> C("UNWIND", <<One("expression", X), One("alias", I)>>),
  call |-> C("CALL", <<One("proc_name", {"PROC_NAME"}), Many("arguments", X, 0),
    Many("projections", {"PROJECTION"}, 0), Opt("predicate", X)>>),
  union |-> C("UNION", <<Bool("all")>>),
  unary_operator |-> C("UNARY_OPERATOR", <<Op, One("argument", X)>>),
  binary_operator |-> C("BINARY_OPERATOR", <<Op, One("argument1", X), One("argument2", X)>>),
  comparison |-> C("COMPARISON", <<Chain>>),
  apply_operator |-> C("APPLY_OPERATOR", <<One("func_name", {"FUNCTION_NAME"}), Bool("distinct"), Many("arguments", X, 0)>>),
  apply_all_operator |-> C("APPLY_ALL_OPERATOR", <<One("func_name", {"FUNCTION_NAME"}), Bool("distinct")>>),
  property_operator |-> C("PROPERTY_OPERATOR", <<One("expression", X), One("prop_name", {"PROP_NAME"})>>),
  subscript_operator |-> C("SUBSCRIPT_OPERATOR", <<One("expression", X), One("subscript", X)>>),
  slice_operator |-> C("SLICE_OPERATOR", <<One("expression", X), Opt("start", X), Opt("end", X)>>),
  map_projection |-> C("MAP_PROJECTION", <<One("expression", X), Many("selectors", {"MAP_PROJECTION_SELECTOR"}, 0)>>),
  map_projection_literal |-> C("MAP_PROJECTION_LITERAL", <<One("prop_name", {"PROP_NAME"}), One("expression", X)>>),
  map_projection_property |-> C("MAP_PROJECTION_PROPERTY", <<One("prop_name", {"PROP_NAME"})>>),
  map_projection_identifier |-> C("MAP_PROJECTION_IDENTIFIER", <<One("identifier", I)>>),
  map_projection_all_properties |-> C("MAP_PROJECTION_ALL_PROPERTIES", <<>>),
  labels_operator |-> C("LABELS_OPERATOR", <<One("expression", X), Many("labels", {"LABEL"}, 1)>>),
  list_comprehension |-> C("LIST_COMPREHENSION", <<One("identifier", I), One("expression", X), Opt("predicate", X), Opt("eval", X)>>),
  filter |-> Predicate("FILTER"),
  extract |-> C("EXTRACT", <<One("identifier", I), One("expression", X), Nil("predicate"), Opt("eval", X)>>),
  reduce |-> C("REDUCE", <<One("accumulator", I), One("init", X), One("identifier", I), One("expression", X), Opt("eval", X)>>),
  all |-> Predicate("ALL"),
  any |-> Predicate("ANY"),
  single |-> Predicate("SINGLE"),
  none |-> Predicate("NONE"),
  pattern_comprehension |-> C("PATTERN_COMPREHENSION", <<Opt("identifier", I), One("pattern", {"PATTERN_PATH"}),
    Opt("predicate", X), One("eval", X)>>),
  case |-> C("CASE", <<Opt("expression", X), Pairs("predicates", "EXPRESSION", "values", "EXPRESSION"), Opt("default", X)>>),
  collection |-> C("COLLECTION", <<Many("elements", X, 0)>>),
  map |-> C("MAP", <<Pairs("keys", "PROP_NAME", "values", "EXPRESSION")>>),
  pair_map |-> C("MAP", <<Pairs("keys", "PROP_NAME", "values", "EXPRESSION")>>),
  identifier |-> Name("IDENTIFIER", "name"),
  parameter |-> Name("PARAMETER", "name"),
  string |-> Name("STRING", "value"),
  integer |-> Name("INTEGER", "value"),
  float |-> Name("FLOAT", "value"),
  true |-> C("TRUE", <<>>),
  false |-> C("FALSE", <<>>),
  null |-> C("NULL", <<>>),
  label |-> Name("LABEL", "name"),
  reltype |-> Name("RELTYPE", "name"),
  prop_name |-> Name("PROP_NAME", "value"),
  function_name |-> Name("FUNCTION_NAME", "value"),
  index_name |-> Name("INDEX_NAME", "value"),
  proc_name |-> Name("PROC_NAME", "value"),
  pattern |-> C("PATTERN", <<Many("paths", {"PATTERN_PATH"}, 1)>>),
  named_path |-> C("NAMED_PATH", <<One("identifier", I), One("path", {"PATTERN_PATH"}), Inner>>),
  shortest_path |-> C("SHORTEST_PATH", <<Bool("single"), One("path", {"PATTERN_PATH"}), Inner>>),
  pattern_path |-> C("PATTERN_PATH", <<Path>>),
  node_pattern |-> C("NODE_PATTERN", <<Opt("identifier", I), Many("labels", {"LABEL"}, 0), Opt("properties", {"MAP", "PARAMETER"})>>),
  rel_pattern |-> C("REL_PATTERN", <<Dir, Opt("identifier", I), Many("reltypes", {"RELTYPE"}, 0),
    Opt("properties", {"MAP", "PARAMETER"}), Opt("varlength", {"RANGE"})>>),
  range |-> C("RANGE", <<Opt("start", {"INTEGER"}), Opt("end", {"INTEGER"})>>),
  command |-> C("COMMAND", <<One("name", {"STRING"}), Many("arguments", {"STRING"}, 0)>>),
  line_comment |-> Name("LINE_COMMENT", "value"),
  block_comment |-> Name("BLOCK_COMMENT", "value"),
  error |-> Name("ERROR", "value") ]

CtorNames == DOMAIN Ctors
ASSUME EveryTypeHasAConstructor == { Ctors[c].t : c \in CtorNames } = T!Concrete

FitsAny(t, ts) == \E s \in ts : T!InstanceOf(t, s)
FittingTable == [t \in T!Types |-> { c \in CtorNames : T!InstanceOf(Ctors[c].t, t) }]
Fitting(ts) == UNION { FittingTable[t] : t \in ts }
(* the one that is taken when nothing else is asked for *)
Preferred == <<"identifier", "string", "union", "query", "pattern_path", "all_nodes_scan", "explain_option",
  "using_periodic_commit", "using_scan", "on_match", "remove_property", "set_all_properties", "map", "map_projection_property">>
DefaultTable == [t \in T!Types |->
  LET fit == { i \in 1..Len(Preferred) : Preferred[i] \in FittingTable[t] }
  IN IF fit = {} THEN CHOOSE c \in FittingTable[t] : Ctors[c].t = t \/ Cardinality(FittingTable[t]) = 1 \/ t \notin { Ctors[d].t : d \in CtorNames }
     ELSE Preferred[CHOOSE i \in fit : \A j \in fit : i <= j]]
Default(ts) ==
  IF "STRING" \in ts THEN "string" ELSE IF "QUERY" \in ts THEN "query" ELSE IF "MAP" \in ts THEN "map"
  ELSE DefaultTable[CHOOSE t \in ts : TRUE]

-----------------------------------------------------------------------------
(* shapes: a number for every part *)
Operators == <<"OR", "XOR", "AND", "NOT", "EQUAL", "NEQUAL", "LT", "GT", "LTE", "GTE", "PLUS", "MINUS", "MULT",
  "DIV", "MOD", "POW", "UNARY_PLUS", "UNARY_MINUS", "SUBSCRIPT", "MAP_PROJECTION", "REGEX", "IN_", "STARTS_WITH",
  "ENDS_WITH", "CONTAINS", "IS_NULL", "IS_NOT_NULL", "PROPERTY", "LABEL">>
Comparisons == <<"LT", "GTE", "EQUAL", "NEQUAL", "GT">>
Directions == <<"INBOUND", "OUTBOUND", "BIDIRECTIONAL">>
Texts == <<<<118>>, <<>>, <<34, 39, 92, 10, 195, 169, 96, 58, 49>>,
  [i \in 1..40 |-> 97 + (i % 26)]>>

Low(p) ==
  CASE p.k = "one" -> 1 [] p.k = "opt" -> 0 [] p.k = "many" -> p.min [] p.k = "bool" -> 0
    [] p.k \in {"dir", "op", "chain", "path", "str"} -> 1 [] p.k = "pairs" -> 0 [] OTHER -> 0
High(p) ==
  CASE p.k = "one" -> 1 [] p.k = "opt" -> 1 [] p.k = "many" -> 2 [] p.k = "bool" -> 1
    [] p.k = "dir" -> 3 [] p.k = "op" -> Len(Operators) [] p.k = "chain" -> 3 [] p.k = "path" -> 5
    [] p.k = "pairs" -> 2 [] p.k = "str" -> Len(Texts) [] OTHER -> 0
Step(p) == IF p.k = "path" THEN 2 ELSE 1
PartChoices(p) == { n \in Low(p)..High(p) : (n - Low(p)) % Step(p) = 0 }
(* a walk takes longer lists, too *)
WalkPartChoices(p) ==
  CASE p.k = "many" -> {p.min, p.min + 1, p.min + 3} [] p.k = "op" -> {1, 4, 17} [] p.k = "pairs" -> {0, 1, 3}
    [] p.k = "str" -> {1, 3} [] p.k = "chain" -> {1, 4} [] p.k = "path" -> {1, 3, 5} [] OTHER -> PartChoices(p)

RECURSIVE Products(_)
Products(sets) == IF sets = <<>> THEN {<<>>}
  ELSE { <<x>> \o r : x \in Head(sets), r \in Products(Tail(sets)) }
(* a projection list must not be empty unless everything is included *)
EnoughFor(c, sh) == c \in {"with", "return"} => sh[2] = 1 \/ sh[3] > 0
AllShapes == [c \in CtorNames |-> { sh \in Products([i \in 1..Len(Ctors[c].ps) |-> PartChoices(Ctors[c].ps[i])]) : EnoughFor(c, sh) }]
WalkShapes == [c \in CtorNames |-> { sh \in Products([i \in 1..Len(Ctors[c].ps) |-> WalkPartChoices(Ctors[c].ps[i])]) : EnoughFor(c, sh) }]
LowShape == [c \in CtorNames |-> [i \in 1..Len(Ctors[c].ps) |-> IF c \in {"with", "return"} /\ i = 2 THEN 1 ELSE Low(Ctors[c].ps[i])]]
HighShape == [c \in CtorNames |-> [i \in 1..Len(Ctors[c].ps) |->
  IF c \in {"with", "return"} /\ i = 2 THEN 0 ELSE IF Ctors[c].ps[i].k = "str" THEN 1 ELSE High(Ctors[c].ps[i])]]

(* the goals of a part: the sets of types its nodes may have, in order *)
Goals(p, n) ==
  CASE p.k \in {"one", "opt", "many"} -> [i \in 1..n |-> p.ts]
    [] p.k = "chain" -> [i \in 1..n + 1 |-> p.ts]
    [] p.k = "pairs" -> [i \in 1..2 * n |-> IF i % 2 = 1 THEN p.ts ELSE p.us]
    [] p.k = "path" -> [i \in 1..n |-> IF i % 2 = 1 THEN {"NODE_PATTERN"} ELSE {"REL_PATTERN"}]
    [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* nodes: ts are the types it may have, c the constructor chosen ("" while   *)
(* none is), sh its shape, parts the nodes given for each part, ch the       *)
(* children, in the order given.  Node numbers are indices less one.         *)
VARIABLES nodes,  \* the design
          fault,  \* what is wrong with the root: [f |-> kind, p |-> part, i |-> index, t |-> constructor]
          done,
          pick    \* the node to settle next in a walk, and its constructor
vars == <<nodes, fault, done, pick>>

NoPick == [i |-> 0, c |-> ""]
NoFault == [f |-> "", p |-> 0, i |-> 0, t |-> ""]
Fresh(ts) == [ts |-> ts, c |-> "", sh |-> <<>>, parts |-> <<>>, ch |-> <<>>]
Pending == { i \in 1..Len(nodes) : nodes[i].c = "" }
Settled == Pending = {}
First == CHOOSE i \in Pending : \A j \in Pending : i <= j
Latest == CHOOSE i \in Pending : \A j \in Pending : i >= j

(* Settle node i: constructor c, shape sh; ord = 0 gives the children in the *)
(* order of the parts, 1 in reverse, 2 with comments among them.             *)
Settle(i, c, sh, ord, goalsAt(_, _)) ==
  LET ps == Ctors[c].ps
      goals == [k \in 1..Len(ps) |-> goalsAt(k, Goals(ps[k], sh[k]))]
      \* numbers of the new nodes
      first == [k \in 1..Len(ps) + 1 |-> Len(nodes) + FoldSeq(LAMBDA g, n : n + Len(g), 0, SubSeq(goals, 1, k - 1))]
      parts == [k \in 1..Len(ps) |-> [j \in 1..Len(goals[k]) |-> first[k] + j - 1]]
      flat == FlattenSeq(parts)
      more == IF ord = 2 THEN <<{"COMMENT"}, {"COMMENT"}>> ELSE <<>>
      c1 == first[Len(ps) + 1]
      ch == IF ord = 1 THEN Reverse(flat)
            ELSE IF ord = 2 THEN IF flat = <<>> THEN <<c1, c1 + 1>> ELSE <<c1, Head(flat), c1 + 1>> \o Tail(flat)
            ELSE flat
  IN [nodes EXCEPT ![i] = [ts |-> nodes[i].ts, c |-> c, sh |-> sh, parts |-> parts, ch |-> ch]]
     \o [g \in 1..Len(FlattenSeq(goals)) + Len(more) |-> Fresh((FlattenSeq(goals) \o more)[g])]
Same(k, g) == g

(* constructors of nodes that have children of their own choosing *)
Leafy(c) == \A k \in 1..Len(Ctors[c].ps) : Ctors[c].ps[k].k = "str"
Childless == { c \in CtorNames : Leafy(c) /\ c \notin {"map_projection_all_properties"} }
Orders(c) == IF c \in Childless THEN {0} ELSE {0, 1, 2}

(* the faults that may be put in *)
Faults(c) ==
  LET ps == Ctors[c].ps
      at(k) == 1..Len(Goals(ps[k], HighShape[c][k]))
      sites == UNION { {<<k, i>> : i \in at(k)} : k \in 1..Len(ps) }
      goal(s) == Goals(ps[s[1]], HighShape[c][s[1]])[s[2]]
      F(f, s, t) == [f |-> f, p |-> s[1], i |-> s[2], t |-> t]
  IN { F("absent", s, "") : s \in { s \in sites : ps[s[1]].k # "opt" } }
     \cup { F("stray", s, "") : s \in sites }
     \cup UNION { { F("wrong", s, t) : t \in CtorNames \ Fitting(goal(s)) } : s \in sites }
     \cup { F("few", <<k, 0>>, "") : k \in { k \in 1..Len(ps) : ps[k].k \in {"chain", "path"} \/ (ps[k].k = "many" /\ ps[k].min > 0)
                                                              \/ (ps[k].k = "many" /\ c \in {"with", "return"}) } }
     \cup { F("even", <<k, 0>>, "") : k \in { k \in 1..Len(ps) : ps[k].k = "path" } }
     \cup { F("nolist", <<k, 0>>, "") : k \in { k \in 1..Len(ps) : ps[k].k \in {"many", "pairs", "chain", "path"} } }
     \cup { F("noop", <<k, 0>>, "") : k \in { k \in 1..Len(ps) : ps[k].k \in {"op", "chain"} } }
     \cup (IF sites = {} THEN {} ELSE {F("nochildren", <<0, 0>>, "")})
FaultyShape(c, f) ==
  IF f.f = "few" THEN [HighShape[c] EXCEPT ![f.p] = IF Ctors[c].ps[f.p].k = "many" THEN 0 ELSE 0]
  ELSE IF f.f = "even" THEN [HighShape[c] EXCEPT ![f.p] = 2]
  ELSE HighShape[c]

Init == /\ nodes = <<Fresh({"any"})>>
        /\ fault = NoFault
        /\ done = FALSE
        /\ pick = NoPick

Expand ==
  /\ ~Settled
  /\ LET i == First
         ts == nodes[i].ts
     IN
     \/ /\ Mode = "shapes"
        /\ IF i = 1 THEN \E c \in CtorNames : \E sh \in AllShapes[c], o \in Orders(c) : nodes' = Settle(i, c, sh, o, Same)
           ELSE nodes' = Settle(i, Default(ts), LowShape[Default(ts)], 0, Same)
        /\ UNCHANGED fault
     \/ /\ Mode = "pairs"      \* every kind of child in every place of every kind of node
        /\ IF i = 1 THEN \E c \in CtorNames : nodes' = Settle(i, c, HighShape[c], 0, Same)
           ELSE \/ /\ fault.f = "" /\ i <= 1 + Len(nodes[1].ch)
                   /\ \E c \in Fitting(ts) \ {Default(ts)}, h \in {LowShape, HighShape} : nodes' = Settle(i, c, h[c], 0, Same)
                \/ nodes' = Settle(i, Default(ts), LowShape[Default(ts)], 0, Same)
        /\ fault' = IF i > 1 /\ nodes'[i].c # Default(ts) THEN [NoFault EXCEPT !.f = "used"] ELSE fault
     \/ /\ Mode = "faults"
        /\ IF i = 1
           THEN \E c \in CtorNames : \E f \in Faults(c) :
                  /\ fault' = f
                  /\ nodes' = Settle(i, c, FaultyShape(c, f), 0,
                       LAMBDA k, g : IF k = f.p /\ f.f = "wrong" THEN [g EXCEPT ![f.i] = {Ctors[f.t].t}] ELSE g)
           ELSE nodes' = Settle(i, Default(ts), LowShape[Default(ts)], 0, Same) /\ UNCHANGED fault
     \/ /\ Mode = "walk"       \* first which node, in breadth or in depth, and what it shall be; then how
        /\ IF pick.c = "" THEN
             /\ \E i2 \in {First, Latest} : \E c \in
                     IF i2 = 1 THEN {"statement", "command", "query", "case", "map"}
                     ELSE IF Len(nodes) > MaxNodes THEN {Default(nodes[i2].ts)} ELSE Fitting(nodes[i2].ts) :
                  pick' = [i |-> i2, c |-> c]
             /\ UNCHANGED nodes
           ELSE
             /\ \E sh \in IF Len(nodes) > MaxNodes THEN {LowShape[pick.c]} ELSE WalkShapes[pick.c],
                  o \in IF Len(nodes) > MaxNodes THEN {0} ELSE Orders(pick.c) : nodes' = Settle(pick.i, pick.c, sh, o, Same)
             /\ pick' = NoPick
        /\ UNCHANGED fault
  /\ (Mode # "walk" => UNCHANGED pick)
  /\ UNCHANGED done

-----------------------------------------------------------------------------
(* what is handed to the constructor of node i: each part as a list of       *)
(* numbers of nodes, -1 for none                                             *)
Given(i) == [k \in 1..Len(nodes[i].parts) |->
  [j \in 1..Len(nodes[i].parts[k]) |->
    IF i = 1 /\ fault.f = "absent" /\ fault.p = k /\ fault.i = j THEN -1 ELSE nodes[i].parts[k][j]]]
Children(i) ==
  IF i = 1 /\ fault.f = "nochildren" THEN <<>>
  ELSE IF i = 1 /\ fault.f \in {"stray", "absent"}
    THEN SelectSeq(nodes[i].ch, LAMBDA x : x # nodes[i].parts[fault.p][fault.i])
  ELSE nodes[i].ch

(* whether the constructor accepts what it is handed *)
TypeOf(n) == Ctors[nodes[n + 1].c].t
Accepted(i) ==
  LET ps == Ctors[nodes[i].c].ps
      g == Given(i)
      kids == { Children(i)[j] : j \in 1..Len(Children(i)) }
      Good(n, ts) == n # -1 /\ FitsAny(TypeOf(n), ts) /\ n \in kids
      lists == ~(i = 1 /\ fault.f \in {"nolist", "noop"})
      EachGood(k) == LET goals == Goals(ps[k], nodes[i].sh[k]) IN \A j \in 1..Len(g[k]) : Good(g[k][j], goals[j])
      Enough(k) ==
        CASE ps[k].k = "many" -> Len(g[k]) >= ps[k].min
          [] ps[k].k = "chain" -> Len(g[k]) >= 2
          [] ps[k].k = "path" -> Len(g[k]) % 2 = 1
          [] OTHER -> TRUE
  IN lists /\ EnoughFor(nodes[i].c, nodes[i].sh) /\ \A k \in 1..Len(ps) : EachGood(k) /\ Enough(k)

(* what can be asked of node i afterwards *)
RECURSIVE Elements(_)
Elements(i) ==
  IF nodes[i].c = "pattern_path" THEN nodes[i].parts[1]
  ELSE Elements(nodes[i].parts[2][1] + 1)
Every(s, from) == [j \in 1..(Len(s) + 2 - from) \div 2 |-> s[2 * j - 2 + from]]
FactsOf(i) ==
  LET c == nodes[i].c  ps == Ctors[c].ps  sh == nodes[i].sh
      F(k) ==
        LET p == ps[k]  g == nodes[i].parts[k]
        IN CASE p.k \in {"one", "opt"} -> <<[n |-> p.n, v |-> IF g = <<>> THEN -1 ELSE g[1]]>>
             [] p.k = "many" -> <<[n |-> p.n, v |-> g]>>
             [] p.k = "bool" -> <<[n |-> p.n, v |-> sh[k] = 1]>>
             [] p.k = "dir" -> <<[n |-> p.n, v |-> Directions[sh[k]]]>>
             [] p.k = "op" -> <<[n |-> p.n, v |-> Operators[sh[k]]]>>
             [] p.k = "chain" -> <<[n |-> "operators", v |-> [j \in 1..sh[k] |-> Comparisons[j]]], [n |-> p.n, v |-> g]>>
             [] p.k = "pairs" -> <<[n |-> p.n, v |-> Every(g, 1)], [n |-> p.m, v |-> Every(g, 2)]>>
             [] p.k = "path" -> <<[n |-> p.n, v |-> g]>>
             [] p.k = "nil" -> <<[n |-> p.n, v |-> -1]>>
             [] p.k = "inner" -> <<[n |-> p.n, v |-> Elements(i)]>>
             [] p.k = "str" -> <<[n |-> p.n, v |-> Texts[sh[k]]]>>
  IN FlattenSeq([k \in 1..Len(ps) |-> F(k)])

(* the places of the text that a node is said to stand for *)
Start(i) == <<100 * i + 7, i + 1, 2 * i + 1>>
End(i) == <<100 * i + 50, i + 2, 3>>
(* what is given for a part that is not a node *)
Word(i, k) ==
  LET p == Ctors[nodes[i].c].ps[k]  n == nodes[i].sh[k]
  IN CASE p.k = "bool" -> <<n>> [] p.k = "dir" -> <<Directions[n]>> [] p.k = "op" -> <<Operators[n]>>
       [] p.k = "chain" -> SubSeq(Comparisons, 1, n) [] p.k = "str" -> Texts[n] [] OTHER -> <<>>
Report(i) == [s |-> Start(i), e |-> End(i), w |-> [k \in 1..Len(Ctors[nodes[i].c].ps) |-> Word(i, k)], c |-> nodes[i].c, t |-> T!Table[TypeOf(i - 1)].name, sh |-> nodes[i].sh, g |-> Given(i), ch |-> Children(i),
              ok |-> Accepted(i), r |-> IF Accepted(i) THEN FactsOf(i) ELSE <<>>]

-----------------------------------------------------------------------------
(* a sound design: every node but the root is a child or left over in        *)
(* exactly one place, a node is accepted exactly when nothing is wrong with  *)
(* it, and every fact is about children (or children of the path given)      *)
Sound ==
  Settled =>
    /\ \A n \in 1..Len(nodes) - 1 :
         Cardinality({ i \in 1..Len(nodes) : n \in { nodes[i].ch[j] : j \in 1..Len(nodes[i].ch) } }) = 1
    /\ \A i \in 2..Len(nodes) : Accepted(i) /\ FitsAny(TypeOf(i - 1), nodes[i].ts)
    /\ Accepted(1) <=> fault.f \in {"", "used"}
    /\ \A i \in 1..Len(nodes) : Len(nodes[i].parts) = Len(Ctors[nodes[i].c].ps)

Finish ==
  /\ Settled /\ ~done
  /\ Assert(Sound, "unsound design")
  /\ PrintT(ToJson([f |-> fault, nodes |-> [i \in 1..Len(nodes) |-> Report(i)]]))
  /\ done' = TRUE
  /\ UNCHANGED <<nodes, fault, pick>>

Next == Expand \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
