-------------------------------- MODULE Types -------------------------------
(* The node types: the name each goes by ("" for the abstract types, of      *)
(* which there are no nodes) and the types it directly specialises.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Rows == <<
  <<"STATEMENT", "statement", {}>>,
  <<"STATEMENT_OPTION", "", {}>>,
  <<"CYPHER_OPTION", "CYPHER", {"STATEMENT_OPTION"}>>,
  <<"CYPHER_OPTION_PARAM", "cypher parameter", {}>>,
  <<"EXPLAIN_OPTION", "EXPLAIN", {"STATEMENT_OPTION"}>>,
  <<"PROFILE_OPTION", "PROFILE", {"STATEMENT_OPTION"}>>,
  <<"SCHEMA_COMMAND", "", {}>>,
  <<"CREATE_NODE_PROPS_INDEX", "CREATE INDEX", {"SCHEMA_COMMAND"}>>,
  <<"DROP_NODE_PROPS_INDEX", "DROP INDEX", {"SCHEMA_COMMAND"}>>,
  <<"CREATE_NODE_PROP_CONSTRAINT", "create node prop constraint", {"SCHEMA_COMMAND"}>>,
  <<"DROP_NODE_PROP_CONSTRAINT", "drop node prop constraint", {"SCHEMA_COMMAND"}>>,
  <<"CREATE_REL_PROP_CONSTRAINT", "create rel prop constraint", {"SCHEMA_COMMAND"}>>,
  <<"DROP_REL_PROP_CONSTRAINT", "drop rel prop constraint", {"SCHEMA_COMMAND"}>>,
  <<"QUERY", "query", {}>>,
  <<"QUERY_OPTION", "", {}>>,
  <<"USING_PERIODIC_COMMIT", "USING PERIODIC_COMMIT", {"QUERY_OPTION"}>>,
  <<"QUERY_CLAUSE", "", {}>>,
  <<"LOAD_CSV", "LOAD CSV", {"QUERY_CLAUSE"}>>,
  <<"START", "START", {"QUERY_CLAUSE"}>>,
  <<"START_POINT", "", {}>>,
  <<"NODE_INDEX_LOOKUP", "node index lookup", {"START_POINT"}>>,
  <<"NODE_INDEX_QUERY", "node index query", {"START_POINT"}>>,
  <<"NODE_ID_LOOKUP", "node id lookup", {"START_POINT"}>>,
  <<"ALL_NODES_SCAN", "all nodes scan", {"START_POINT"}>>,
  <<"REL_INDEX_LOOKUP", "rel index lookup", {"START_POINT"}>>,
  <<"REL_INDEX_QUERY", "rel index query", {"START_POINT"}>>,
  <<"REL_ID_LOOKUP", "rel id lookup", {"START_POINT"}>>,
  <<"ALL_RELS_SCAN", "all rels scan", {"START_POINT"}>>,
  <<"MATCH", "MATCH", {"QUERY_CLAUSE"}>>,
  <<"MATCH_HINT", "", {}>>,
  <<"USING_INDEX", "USING INDEX", {"MATCH_HINT"}>>,
  <<"USING_JOIN", "USING JOIN", {"MATCH_HINT"}>>,
  <<"USING_SCAN", "USING SCAN", {"MATCH_HINT"}>>,
  <<"MERGE", "MERGE", {"QUERY_CLAUSE"}>>,
  <<"MERGE_ACTION", "", {}>>,
  <<"ON_MATCH", "ON MATCH", {"MERGE_ACTION"}>>,
  <<"ON_CREATE", "ON CREATE", {"MERGE_ACTION"}>>,
  <<"CREATE", "CREATE", {"QUERY_CLAUSE"}>>,
  <<"SET", "SET", {"QUERY_CLAUSE"}>>,
  <<"SET_ITEM", "", {}>>,
  <<"SET_PROPERTY", "set property", {"SET_ITEM"}>>,
  <<"SET_ALL_PROPERTIES", "set all properties", {"SET_ITEM"}>>,
  <<"MERGE_PROPERTIES", "merge properties", {"SET_ITEM"}>>,
  <<"SET_LABELS", "set labels", {"SET_ITEM"}>>,
  <<"DELETE", "DELETE", {"QUERY_CLAUSE"}>>,
  <<"REMOVE", "REMOVE", {"QUERY_CLAUSE"}>>,
  <<"REMOVE_ITEM", "", {}>>,
  <<"REMOVE_LABELS", "remove labels", {"REMOVE_ITEM"}>>,
  <<"REMOVE_PROPERTY", "remove property", {"REMOVE_ITEM"}>>,
  <<"FOREACH", "FOREACH", {"QUERY_CLAUSE"}>>,
  <<"WITH", "WITH", {"QUERY_CLAUSE"}>>,
  <<"UNWIND", "UNWIND", {"QUERY_CLAUSE"}>>,
  <<"CALL", "CALL", {"QUERY_CLAUSE"}>>,
  <<"RETURN", "RETURN", {"QUERY_CLAUSE"}>>,
  <<"PROJECTION", "projection", {}>>,
  <<"ORDER_BY", "ORDER BY", {}>>,
  <<"SORT_ITEM", "sort item", {}>>,
  <<"UNION", "UNION", {"QUERY_CLAUSE"}>>,
  <<"EXPRESSION", "", {}>>,
  <<"UNARY_OPERATOR", "unary operator", {"EXPRESSION"}>>,
  <<"BINARY_OPERATOR", "binary operator", {"EXPRESSION"}>>,
  <<"COMPARISON", "comparison", {"EXPRESSION"}>>,
  <<"APPLY_OPERATOR", "apply", {"EXPRESSION"}>>,
  <<"APPLY_ALL_OPERATOR", "apply all", {"EXPRESSION"}>>,
  <<"PROPERTY_OPERATOR", "property", {"EXPRESSION"}>>,
  <<"SUBSCRIPT_OPERATOR", "subscript", {"EXPRESSION"}>>,
  <<"SLICE_OPERATOR", "slice", {"EXPRESSION"}>>,
  <<"MAP_PROJECTION", "map projection", {"EXPRESSION"}>>,
  <<"MAP_PROJECTION_SELECTOR", "", {}>>,
  <<"MAP_PROJECTION_LITERAL", "literal projection", {"MAP_PROJECTION_SELECTOR"}>>,
  <<"MAP_PROJECTION_PROPERTY", "property projection", {"MAP_PROJECTION_SELECTOR"}>>,
  <<"MAP_PROJECTION_IDENTIFIER", "identifier projection", {"MAP_PROJECTION_SELECTOR"}>>,
  <<"MAP_PROJECTION_ALL_PROPERTIES", "all properties projection", {"MAP_PROJECTION_SELECTOR"}>>,
  <<"LABELS_OPERATOR", "has labels", {"EXPRESSION"}>>,
  <<"LIST_COMPREHENSION", "list comprehension", {"EXPRESSION"}>>,
  <<"PATTERN_COMPREHENSION", "pattern comprehension", {"EXPRESSION"}>>,
  <<"CASE", "case", {"EXPRESSION"}>>,
  <<"FILTER", "filter", {"LIST_COMPREHENSION"}>>,
  <<"EXTRACT", "extract", {"LIST_COMPREHENSION"}>>,
  <<"REDUCE", "reduce", {"EXPRESSION"}>>,
  <<"ALL", "all", {"LIST_COMPREHENSION"}>>,
  <<"ANY", "any", {"LIST_COMPREHENSION"}>>,
  <<"SINGLE", "single", {"LIST_COMPREHENSION"}>>,
  <<"NONE", "none", {"LIST_COMPREHENSION"}>>,
  <<"COLLECTION", "collection", {"EXPRESSION"}>>,
  <<"MAP", "map", {"EXPRESSION"}>>,
  <<"IDENTIFIER", "identifier", {"EXPRESSION"}>>,
  <<"PARAMETER", "parameter", {"EXPRESSION"}>>,
  <<"STRING", "string", {"EXPRESSION"}>>,
  <<"INTEGER", "integer", {"EXPRESSION"}>>,
  <<"FLOAT", "float", {"EXPRESSION"}>>,
  <<"BOOLEAN", "", {"EXPRESSION"}>>,
  <<"TRUE", "TRUE", {"BOOLEAN"}>>,
  <<"FALSE", "FALSE", {"BOOLEAN"}>>,
  <<"NULL", "NULL", {"EXPRESSION"}>>,
  <<"LABEL", "label", {}>>,
  <<"RELTYPE", "rel type", {}>>,
  <<"PROP_NAME", "prop name", {}>>,
  <<"FUNCTION_NAME", "function name", {}>>,
  <<"INDEX_NAME", "index name", {}>>,
  <<"PROC_NAME", "proc name", {}>>,
  <<"PATTERN", "pattern", {}>>,
  <<"NAMED_PATH", "named path", {"PATTERN_PATH"}>>,
  <<"SHORTEST_PATH", "shortestPath", {"EXPRESSION", "PATTERN_PATH"}>>,
  <<"PATTERN_PATH", "pattern path", {"EXPRESSION"}>>,
  <<"NODE_PATTERN", "node pattern", {}>>,
  <<"REL_PATTERN", "rel pattern", {}>>,
  <<"RANGE", "range", {}>>,
  <<"COMMAND", "command", {}>>,
  <<"COMMENT", "", {}>>,
  <<"LINE_COMMENT", "line_comment", {"COMMENT"}>>,
  <<"BLOCK_COMMENT", "block_comment", {"COMMENT"}>>,
  <<"ERROR", "error", {}>> >>


Types == { Rows[i][1] : i \in 1..Len(Rows) }
ASSUME NoneTwice == Cardinality(Types) = Len(Rows)
Table == [t \in Types |->
  LET i == CHOOSE i \in 1..Len(Rows) : Rows[i][1] = t IN [name |-> Rows[i][2], sup |-> Rows[i][3]]]
Abstract == { t \in Types : Table[t].name = "" }
Concrete == Types \ Abstract

(* all supertypes, the type itself included *)
SupersUpTo[n \in 0..Cardinality(Types), t \in Types] ==
  IF n = 0 THEN {t} ELSE {t} \cup UNION { SupersUpTo[n - 1, s] : s \in Table[t].sup }
Supers == [t \in Types |-> SupersUpTo[4, t]]
InstanceOf(t, s) == s \in Supers[t]
Under(s) == { t \in Concrete : InstanceOf(t, s) }

-----------------------------------------------------------------------------
(* the hierarchy is sound *)
ASSUME Deep == \A t \in Types : SupersUpTo[5, t] = Supers[t]
ASSUME Reflexive == \A t \in Types : InstanceOf(t, t)
ASSUME Transitive == \A a, b, c \in Types : InstanceOf(a, b) /\ InstanceOf(b, c) => InstanceOf(a, c)
ASSUME Antisymmetric == \A a, b \in Types : InstanceOf(a, b) /\ InstanceOf(b, a) => a = b
ASSUME DistinctNames == \A a, b \in Concrete : Table[a].name = Table[b].name => a = b
ASSUME AbstractUsed == \A t \in Abstract : Under(t) # {}
=============================================================================
