------------------------------ MODULE Accessors -----------------------------
(* What every accessor answers, asked of a node of every type: of its own    *)
(* type the part asked for, of any other its failure.                        *)
EXTENDS Build

(* accessor, the type it is for, what it returns, which fact it tells        *)
Accessors == <<
  <<"statement_noptions", "STATEMENT", "count", "options">>,
  <<"statement_get_option", "STATEMENT", "item", "options">>,
  <<"statement_get_body", "STATEMENT", "node", "body">>,
  <<"cypher_option_get_version", "CYPHER_OPTION", "node", "version">>,
  <<"cypher_option_nparams", "CYPHER_OPTION", "count", "params">>,
  <<"cypher_option_get_param", "CYPHER_OPTION", "item", "params">>,
  <<"cypher_option_param_get_name", "CYPHER_OPTION_PARAM", "node", "name">>,
  <<"cypher_option_param_get_value", "CYPHER_OPTION_PARAM", "node", "value">>,
  <<"create_node_props_index_get_label", "CREATE_NODE_PROPS_INDEX", "node", "label">>,
  <<"create_node_props_index_nprops", "CREATE_NODE_PROPS_INDEX", "count", "prop_names">>,
  <<"create_node_props_index_get_prop_name", "CREATE_NODE_PROPS_INDEX", "item", "prop_names">>,
  <<"drop_node_props_index_get_label", "DROP_NODE_PROPS_INDEX", "node", "label">>,
  <<"drop_node_props_index_nprops", "DROP_NODE_PROPS_INDEX", "count", "prop_names">>,
  <<"drop_node_props_index_get_prop_name", "DROP_NODE_PROPS_INDEX", "item", "prop_names">>,
  <<"create_node_prop_constraint_get_identifier", "CREATE_NODE_PROP_CONSTRAINT", "node", "identifier">>,
  <<"create_node_prop_constraint_get_label", "CREATE_NODE_PROP_CONSTRAINT", "node", "label">>,
  <<"create_node_prop_constraint_get_expression", "CREATE_NODE_PROP_CONSTRAINT", "node", "expression">>,
  <<"create_node_prop_constraint_is_unique", "CREATE_NODE_PROP_CONSTRAINT", "bool", "unique">>,
  <<"drop_node_prop_constraint_get_identifier", "DROP_NODE_PROP_CONSTRAINT", "node", "identifier">>,
  <<"drop_node_prop_constraint_get_label", "DROP_NODE_PROP_CONSTRAINT", "node", "label">>,
  <<"drop_node_prop_constraint_get_expression", "DROP_NODE_PROP_CONSTRAINT", "node", "expression">>,
  <<"drop_node_prop_constraint_is_unique", "DROP_NODE_PROP_CONSTRAINT", "bool", "unique">>,
  <<"create_rel_prop_constraint_get_identifier", "CREATE_REL_PROP_CONSTRAINT", "node", "identifier">>,
  <<"create_rel_prop_constraint_get_reltype", "CREATE_REL_PROP_CONSTRAINT", "node", "reltype">>,
  <<"create_rel_prop_constraint_get_expression", "CREATE_REL_PROP_CONSTRAINT", "node", "expression">>,
  <<"create_rel_prop_constraint_is_unique", "CREATE_REL_PROP_CONSTRAINT", "bool", "unique">>,
  <<"drop_rel_prop_constraint_get_identifier", "DROP_REL_PROP_CONSTRAINT", "node", "identifier">>,
  <<"drop_rel_prop_constraint_get_reltype", "DROP_REL_PROP_CONSTRAINT", "node", "reltype">>,
  <<"drop_rel_prop_constraint_get_expression", "DROP_REL_PROP_CONSTRAINT", "node", "expression">>,
  <<"drop_rel_prop_constraint_is_unique", "DROP_REL_PROP_CONSTRAINT", "bool", "unique">>,
  <<"query_noptions", "QUERY", "count", "options">>,
  <<"query_get_option", "QUERY", "item", "options">>,
  <<"query_nclauses", "QUERY", "count", "clauses">>,
  <<"query_get_clause", "QUERY", "item", "clauses">>,
  <<"using_periodic_commit_get_limit", "USING_PERIODIC_COMMIT", "node", "limit">>,
  <<"load_csv_has_with_headers", "LOAD_CSV", "bool", "with_headers">>,
  <<"load_csv_get_url", "LOAD_CSV", "node", "url">>,
  <<"load_csv_get_identifier", "LOAD_CSV", "node", "identifier">>,
  <<"load_csv_get_field_terminator", "LOAD_CSV", "node", "field_terminator">>,
  <<"start_npoints", "START", "count", "points">>,
  <<"start_get_point", "START", "item", "points">>,
  <<"start_get_predicate", "START", "node", "predicate">>,
  <<"node_index_lookup_get_identifier", "NODE_INDEX_LOOKUP", "node", "identifier">>,
  <<"node_index_lookup_get_index_name", "NODE_INDEX_LOOKUP", "node", "index_name">>,
  <<"node_index_lookup_get_prop_name", "NODE_INDEX_LOOKUP", "node", "prop_name">>,
  <<"node_index_lookup_get_lookup", "NODE_INDEX_LOOKUP", "node", "lookup">>,
  <<"node_index_query_get_identifier", "NODE_INDEX_QUERY", "node", "identifier">>,
  <<"node_index_query_get_index_name", "NODE_INDEX_QUERY", "node", "index_name">>,
  <<"node_index_query_get_query", "NODE_INDEX_QUERY", "node", "query">>,
  <<"node_id_lookup_get_identifier", "NODE_ID_LOOKUP", "node", "identifier">>,
  <<"node_id_lookup_nids", "NODE_ID_LOOKUP", "count", "ids">>,
  <<"node_id_lookup_get_id", "NODE_ID_LOOKUP", "item", "ids">>,
  <<"all_nodes_scan_get_identifier", "ALL_NODES_SCAN", "node", "identifier">>,
  <<"rel_index_lookup_get_identifier", "REL_INDEX_LOOKUP", "node", "identifier">>,
  <<"rel_index_lookup_get_index_name", "REL_INDEX_LOOKUP", "node", "index_name">>,
  <<"rel_index_lookup_get_prop_name", "REL_INDEX_LOOKUP", "node", "prop_name">>,
  <<"rel_index_lookup_get_lookup", "REL_INDEX_LOOKUP", "node", "lookup">>,
  <<"rel_index_query_get_identifier", "REL_INDEX_QUERY", "node", "identifier">>,
  <<"rel_index_query_get_index_name", "REL_INDEX_QUERY", "node", "index_name">>,
  <<"rel_index_query_get_query", "REL_INDEX_QUERY", "node", "query">>,
  <<"rel_id_lookup_get_identifier", "REL_ID_LOOKUP", "node", "identifier">>,
  <<"rel_id_lookup_nids", "REL_ID_LOOKUP", "count", "ids">>,
  <<"rel_id_lookup_get_id", "REL_ID_LOOKUP", "item", "ids">>,
  <<"all_rels_scan_get_identifier", "ALL_RELS_SCAN", "node", "identifier">>,
  <<"match_is_optional", "MATCH", "bool", "optional">>,
  <<"match_get_pattern", "MATCH", "node", "pattern">>,
  <<"match_nhints", "MATCH", "count", "hints">>,
  <<"match_get_hint", "MATCH", "item", "hints">>,
  <<"match_get_predicate", "MATCH", "node", "predicate">>,
  <<"using_index_get_identifier", "USING_INDEX", "node", "identifier">>,
  <<"using_index_get_label", "USING_INDEX", "node", "label">>,
  <<"using_index_get_prop_name", "USING_INDEX", "node", "prop_name">>,
  <<"using_join_nidentifiers", "USING_JOIN", "count", "identifiers">>,
  <<"using_join_get_identifier", "USING_JOIN", "item", "identifiers">>,
  <<"using_scan_get_identifier", "USING_SCAN", "node", "identifier">>,
  <<"using_scan_get_label", "USING_SCAN", "node", "label">>,
  <<"merge_get_pattern_path", "MERGE", "node", "path">>,
  <<"merge_nactions", "MERGE", "count", "actions">>,
  <<"merge_get_action", "MERGE", "item", "actions">>,
  <<"on_match_nitems", "ON_MATCH", "count", "items">>,
  <<"on_match_get_item", "ON_MATCH", "item", "items">>,
  <<"on_create_nitems", "ON_CREATE", "count", "items">>,
  <<"on_create_get_item", "ON_CREATE", "item", "items">>,
  <<"create_is_unique", "CREATE", "bool", "unique">>,
  <<"create_get_pattern", "CREATE", "node", "pattern">>,
  <<"set_nitems", "SET", "count", "items">>,
  <<"set_get_item", "SET", "item", "items">>,
  <<"set_property_get_property", "SET_PROPERTY", "node", "property">>,
  <<"set_property_get_expression", "SET_PROPERTY", "node", "expression">>,
  <<"set_all_properties_get_identifier", "SET_ALL_PROPERTIES", "node", "identifier">>,
  <<"set_all_properties_get_expression", "SET_ALL_PROPERTIES", "node", "expression">>,
  <<"merge_properties_get_identifier", "MERGE_PROPERTIES", "node", "identifier">>,
  <<"merge_properties_get_expression", "MERGE_PROPERTIES", "node", "expression">>,
  <<"set_labels_get_identifier", "SET_LABELS", "node", "identifier">>,
  <<"set_labels_nlabels", "SET_LABELS", "count", "labels">>,
  <<"set_labels_get_label", "SET_LABELS", "item", "labels">>,
  <<"delete_has_detach", "DELETE", "bool", "detach">>,
  <<"delete_nexpressions", "DELETE", "count", "expressions">>,
  <<"delete_get_expression", "DELETE", "item", "expressions">>,
  <<"remove_nitems", "REMOVE", "count", "items">>,
  <<"remove_get_item", "REMOVE", "item", "items">>,
  <<"remove_labels_get_identifier", "REMOVE_LABELS", "node", "identifier">>,
  <<"remove_labels_nlabels", "REMOVE_LABELS", "count", "labels">>,
  <<"remove_labels_get_label", "REMOVE_LABELS", "item", "labels">>,
  <<"remove_property_get_property", "REMOVE_PROPERTY", "node", "property">>,
  <<"foreach_get_identifier", "FOREACH", "node", "identifier">>,
  <<"foreach_get_expression", "FOREACH", "node", "expression">>,
  <<"foreach_nclauses", "FOREACH", "count", "clauses">>,
  <<"foreach_get_clause", "FOREACH", "item", "clauses">>,
  <<"with_is_distinct", "WITH", "bool", "distinct">>,
  <<"with_has_include_existing", "WITH", "bool", "include_existing">>,
  <<"with_nprojections", "WITH", "count", "projections">>,
  <<"with_get_projection", "WITH", "item", "projections">>,
  <<"with_get_order_by", "WITH", "node", "order_by">>,
  <<"with_get_skip", "WITH", "node", "skip">>,
  <<"with_get_limit", "WITH", "node", "limit">>,
  <<"with_get_predicate", "WITH", "node", "predicate">>,
  <<"unwind_get_expression", "UNWIND", "node", "expression">>,
  <<"unwind_get_alias", "UNWIND", "node", "alias">>,
  <<"call_get_proc_name", "CALL", "node", "proc_name">>,
  <<"call_narguments", "CALL", "count", "arguments">>,
  <<"call_get_argument", "CALL", "item", "arguments">>,
  <<"call_nprojections", "CALL", "count", "projections">>,
  <<"call_get_projection", "CALL", "item", "projections">>,
  <<"call_get_predicate", "CALL", "node", "predicate">>,
  <<"return_is_distinct", "RETURN", "bool", "distinct">>,
  <<"return_has_include_existing", "RETURN", "bool", "include_existing">>,
  <<"return_nprojections", "RETURN", "count", "projections">>,
  <<"return_get_projection", "RETURN", "item", "projections">>,
  <<"return_get_order_by", "RETURN", "node", "order_by">>,
  <<"return_get_skip", "RETURN", "node", "skip">>,
  <<"return_get_limit", "RETURN", "node", "limit">>,
  <<"projection_get_expression", "PROJECTION", "node", "expression">>,
  <<"projection_get_alias", "PROJECTION", "node", "alias">>,
  <<"order_by_nitems", "ORDER_BY", "count", "items">>,
  <<"order_by_get_item", "ORDER_BY", "item", "items">>,
  <<"sort_item_get_expression", "SORT_ITEM", "node", "expression">>,
  <<"sort_item_is_ascending", "SORT_ITEM", "bool", "ascending">>,
  <<"union_has_all", "UNION", "bool", "all">>,
  <<"unary_operator_get_operator", "UNARY_OPERATOR", "op", "operator">>,
  <<"unary_operator_get_argument", "UNARY_OPERATOR", "node", "argument">>,
  <<"binary_operator_get_operator", "BINARY_OPERATOR", "op", "operator">>,
  <<"binary_operator_get_argument1", "BINARY_OPERATOR", "node", "argument1">>,
  <<"binary_operator_get_argument2", "BINARY_OPERATOR", "node", "argument2">>,
  <<"comparison_get_length", "COMPARISON", "count", "operators">>,
  <<"comparison_get_operator", "COMPARISON", "opitem", "operators">>,
  <<"comparison_get_argument", "COMPARISON", "item", "arguments">>,
  <<"apply_operator_get_func_name", "APPLY_OPERATOR", "node", "func_name">>,
  <<"apply_operator_get_distinct", "APPLY_OPERATOR", "bool", "distinct">>,
  <<"apply_operator_narguments", "APPLY_OPERATOR", "count", "arguments">>,
  <<"apply_operator_get_argument", "APPLY_OPERATOR", "item", "arguments">>,
  <<"apply_all_operator_get_func_name", "APPLY_ALL_OPERATOR", "node", "func_name">>,
  <<"apply_all_operator_get_distinct", "APPLY_ALL_OPERATOR", "bool", "distinct">>,
  <<"property_operator_get_expression", "PROPERTY_OPERATOR", "node", "expression">>,
  <<"property_operator_get_prop_name", "PROPERTY_OPERATOR", "node", "prop_name">>,
  <<"subscript_operator_get_expression", "SUBSCRIPT_OPERATOR", "node", "expression">>,
  <<"subscript_operator_get_subscript", "SUBSCRIPT_OPERATOR", "node", "subscript">>,
  <<"slice_operator_get_expression", "SLICE_OPERATOR", "node", "expression">>,
  <<"slice_operator_get_start", "SLICE_OPERATOR", "node", "start">>,
  <<"slice_operator_get_end", "SLICE_OPERATOR", "node", "end">>,
  <<"map_projection_get_expression", "MAP_PROJECTION", "node", "expression">>,
  <<"map_projection_nselectors", "MAP_PROJECTION", "count", "selectors">>,
  <<"map_projection_get_selector", "MAP_PROJECTION", "item", "selectors">>,
  <<"map_projection_literal_get_prop_name", "MAP_PROJECTION_LITERAL", "node", "prop_name">>,
  <<"map_projection_literal_get_expression", "MAP_PROJECTION_LITERAL", "node", "expression">>,
  <<"map_projection_property_get_prop_name", "MAP_PROJECTION_PROPERTY", "node", "prop_name">>,
  <<"map_projection_identifier_get_identifier", "MAP_PROJECTION_IDENTIFIER", "node", "identifier">>,
  <<"labels_operator_get_expression", "LABELS_OPERATOR", "node", "expression">>,
  <<"labels_operator_nlabels", "LABELS_OPERATOR", "count", "labels">>,
  <<"labels_operator_get_label", "LABELS_OPERATOR", "item", "labels">>,
  <<"list_comprehension_get_identifier", "LIST_COMPREHENSION", "node", "identifier">>,
  <<"list_comprehension_get_expression", "LIST_COMPREHENSION", "node", "expression">>,
  <<"list_comprehension_get_predicate", "LIST_COMPREHENSION", "node", "predicate">>,
  <<"list_comprehension_get_eval", "LIST_COMPREHENSION", "node", "eval">>,
  <<"pattern_comprehension_get_identifier", "PATTERN_COMPREHENSION", "node", "identifier">>,
  <<"pattern_comprehension_get_pattern", "PATTERN_COMPREHENSION", "node", "pattern">>,
  <<"pattern_comprehension_get_predicate", "PATTERN_COMPREHENSION", "node", "predicate">>,
  <<"pattern_comprehension_get_eval", "PATTERN_COMPREHENSION", "node", "eval">>,
  <<"reduce_get_accumulator", "REDUCE", "node", "accumulator">>,
  <<"reduce_get_init", "REDUCE", "node", "init">>,
  <<"reduce_get_identifier", "REDUCE", "node", "identifier">>,
  <<"reduce_get_expression", "REDUCE", "node", "expression">>,
  <<"reduce_get_eval", "REDUCE", "node", "eval">>,
  <<"case_get_expression", "CASE", "node", "expression">>,
  <<"case_nalternatives", "CASE", "count", "predicates">>,
  <<"case_get_predicate", "CASE", "item", "predicates">>,
  <<"case_get_value", "CASE", "item", "values">>,
  <<"case_get_default", "CASE", "node", "default">>,
  <<"collection_length", "COLLECTION", "count", "elements">>,
  <<"collection_get", "COLLECTION", "item", "elements">>,
  <<"map_nentries", "MAP", "count", "keys">>,
  <<"map_get_key", "MAP", "item", "keys">>,
  <<"map_get_value", "MAP", "item", "values">>,
  <<"identifier_get_name", "IDENTIFIER", "str", "name">>,
  <<"parameter_get_name", "PARAMETER", "str", "name">>,
  <<"string_get_value", "STRING", "str", "value">>,
  <<"integer_get_valuestr", "INTEGER", "str", "value">>,
  <<"float_get_valuestr", "FLOAT", "str", "value">>,
  <<"label_get_name", "LABEL", "str", "name">>,
  <<"reltype_get_name", "RELTYPE", "str", "name">>,
  <<"prop_name_get_value", "PROP_NAME", "str", "value">>,
  <<"function_name_get_value", "FUNCTION_NAME", "str", "value">>,
  <<"index_name_get_value", "INDEX_NAME", "str", "value">>,
  <<"proc_name_get_value", "PROC_NAME", "str", "value">>,
  <<"pattern_npaths", "PATTERN", "count", "paths">>,
  <<"pattern_get_path", "PATTERN", "item", "paths">>,
  <<"named_path_get_identifier", "NAMED_PATH", "node", "identifier">>,
  <<"named_path_get_path", "NAMED_PATH", "node", "path">>,
  <<"shortest_path_is_single", "SHORTEST_PATH", "bool", "single">>,
  <<"shortest_path_get_path", "SHORTEST_PATH", "node", "path">>,
  <<"pattern_path_nelements", "PATTERN_PATH", "count", "elements">>,
  <<"pattern_path_get_element", "PATTERN_PATH", "item", "elements">>,
  <<"node_pattern_get_identifier", "NODE_PATTERN", "node", "identifier">>,
  <<"node_pattern_nlabels", "NODE_PATTERN", "count", "labels">>,
  <<"node_pattern_get_label", "NODE_PATTERN", "item", "labels">>,
  <<"node_pattern_get_properties", "NODE_PATTERN", "node", "properties">>,
  <<"rel_pattern_get_direction", "REL_PATTERN", "dir", "direction">>,
  <<"rel_pattern_get_identifier", "REL_PATTERN", "node", "identifier">>,
  <<"rel_pattern_nreltypes", "REL_PATTERN", "count", "reltypes">>,
  <<"rel_pattern_get_reltype", "REL_PATTERN", "item", "reltypes">>,
  <<"rel_pattern_get_varlength", "REL_PATTERN", "node", "varlength">>,
  <<"rel_pattern_get_properties", "REL_PATTERN", "node", "properties">>,
  <<"range_get_start", "RANGE", "node", "start">>,
  <<"range_get_end", "RANGE", "node", "end">>,
  <<"command_get_name", "COMMAND", "node", "name">>,
  <<"command_narguments", "COMMAND", "count", "arguments">>,
  <<"command_get_argument", "COMMAND", "item", "arguments">>,
  <<"line_comment_get_value", "LINE_COMMENT", "str", "value">>,
  <<"block_comment_get_value", "BLOCK_COMMENT", "str", "value">>,
  <<"error_get_value", "ERROR", "str", "value">> >>
Indices == 0..5

Answers(i, a) ==
  LET fs == FactsOf(i)
      f == fs[CHOOSE k \in 1..Len(fs) : fs[k].n = a[4]].v
  IN IF ~T!InstanceOf(TypeOf(i - 1), a[2]) THEN <<"refused">>
     ELSE CASE a[3] = "count" -> <<"is", Len(f)>>
            [] a[3] \in {"item", "opitem"} -> <<"items", f>>
            [] OTHER -> <<"is", f>>

(* every fact can be asked for, and every accessor asks for a fact *)
FactNames(c) == UNION { CASE Ctors[c].ps[k].k = "pairs" -> {Ctors[c].ps[k].n, Ctors[c].ps[k].m}
                          [] Ctors[c].ps[k].k = "chain" -> {"operators", Ctors[c].ps[k].n}
                          [] OTHER -> {Ctors[c].ps[k].n} : k \in 1..Len(Ctors[c].ps) }
ASSUME Complete == \A c \in CtorNames : \A f \in FactNames(c) :
  \E k \in 1..Len(Accessors) : Accessors[k][4] = f /\ T!InstanceOf(Ctors[c].t, Accessors[k][2])
ASSUME Meaningful == \A k \in 1..Len(Accessors), c \in CtorNames :
  T!InstanceOf(Ctors[c].t, Accessors[k][2]) => Accessors[k][4] \in FactNames(c)

Design ==
  /\ ~Settled
  /\ LET i == First IN
     IF i = 1 THEN \E c \in CtorNames : \E sh \in {LowShape[c], HighShape[c]} \cup (IF Mode = "all" THEN AllShapes[c] ELSE {}) :
                     nodes' = Settle(i, c, sh, 0, Same)
     ELSE nodes' = Settle(i, Default(nodes[i].ts), LowShape[Default(nodes[i].ts)], 0, Same)
  /\ UNCHANGED <<fault, done, pick>>
Ask ==
  /\ Settled /\ ~done
  /\ Assert(Sound, "unsound design")
  /\ PrintT(ToJson([f |-> fault, nodes |-> [i \in 1..Len(nodes) |-> Report(i)],
                    acc |-> [k \in 1..Len(Accessors) |-> Answers(1, Accessors[k])]]))
  /\ done' = TRUE
  /\ UNCHANGED <<nodes, fault, pick>>

AccInit == Init /\ PrintT(ToJson([accessors |-> Accessors, types |-> T!Rows,
  supers |-> [t \in T!Types |-> SetToSeq(T!Supers[t])]]))
AccSpec == AccInit /\ [][Design \/ Ask]_vars
=============================================================================
