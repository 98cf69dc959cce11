-------------------------------- MODULE Kinds -------------------------------
(* What each node construction of the grammar yields: the type of the node   *)
(* and the facts that can be asked of it, in a fixed order.  A fact is       *)
(*   <<"n", name, k>>    the k-th argument, a node (or none)                 *)
(*   <<"b", name, k>>    the k-th argument, a boolean                        *)
(*   <<"s", name, k>>    the k-th argument, a direction                      *)
(*   <<"l", name>>       all collected nodes                                 *)
(*   <<"odd", name>>, <<"even", name>>  every other collected node           *)
(*   <<"pre", name>>, <<"post", name>>  the collected nodes before, and from,*)
(*                       the first projection                                *)
(*   <<"preopt", name>>, <<"postopt", name>>  the leading query options, and *)
(*                       the collected nodes after them                      *)
(*   <<"x", name>>       the accumulated text                                *)
(*   <<"xb", name>>      the text of the block                               *)
(*   <<"op", name>>      the operator matched last                           *)
(*   <<"ops", name>>     as many operators as there are gaps between nodes   *)
(*   <<"none", name>>    no node;  <<"nil", name>> no nodes                  *)
(*   <<"path", name, k>> the elements of the path that is the k-th argument  *)
EXTENDS Naturals, Sequences

n_(name, k) == <<"n", name, k>>
b_(name, k) == <<"b", name, k>>
l_(name) == <<"l", name>>
x_(name) == <<"x", name>>

ListComp(i, e, p, v) == << IF i = 0 THEN <<"none", "identifier">> ELSE n_("identifier", i),
  n_("expression", e),
  IF p = 0 THEN <<"none", "predicate">> ELSE n_("predicate", p),
  IF v = 0 THEN <<"none", "eval">> ELSE n_("eval", v) >>

K(t, facts) == [t |-> t, r |-> facts]

Kinds == [
  statement |-> K("statement", <<l_("options"), n_("body", 1)>>),
  cypher_option |-> K("CYPHER", <<n_("version", 1), l_("params")>>),
  cypher_option_param |-> K("cypher parameter", <<n_("name", 1), n_("value", 2)>>),
  explain_option |-> K("EXPLAIN", <<>>),
  profile_option |-> K("PROFILE", <<>>),
  create_index |-> K("CREATE INDEX", <<n_("label", 1), l_("prop_names")>>),
  drop_index |-> K("DROP INDEX", <<n_("label", 1), l_("prop_names")>>),
  create_node_prop_constraint |-> K("create node prop constraint",
    <<n_("identifier", 1), n_("label", 2), n_("expression", 3), b_("unique", 4)>>),
  drop_node_prop_constraint |-> K("drop node prop constraint",
    <<n_("identifier", 1), n_("label", 2), n_("expression", 3), b_("unique", 4)>>),
  create_rel_prop_constraint |-> K("create rel prop constraint",
    <<n_("identifier", 1), n_("reltype", 2), n_("expression", 3), b_("unique", 4)>>),
  drop_rel_prop_constraint |-> K("drop rel prop constraint",
    <<n_("identifier", 1), n_("reltype", 2), n_("expression", 3), b_("unique", 4)>>),
  query |-> K("query", <<<<"preopt", "options">>, <<"postopt", "clauses">>>>),
  using_periodic_commit |-> K("USING PERIODIC_COMMIT", <<n_("limit", 1)>>),
  load_csv |-> K("LOAD CSV", <<b_("with_headers", 1), n_("url", 2), n_("identifier", 3),
    n_("field_terminator", 4)>>),
  start_clause |-> K("START", <<l_("points"), n_("predicate", 1)>>),
  node_index_lookup |-> K("node index lookup",
    <<n_("identifier", 1), n_("index_name", 2), n_("prop_name", 3), n_("lookup", 4)>>),
  rel_index_lookup |-> K("rel index lookup",
    <<n_("identifier", 1), n_("index_name", 2), n_("prop_name", 3), n_("lookup", 4)>>),
  node_index_query |-> K("node index query",
    <<n_("identifier", 1), n_("index_name", 2), n_("query", 3)>>),
  rel_index_query |-> K("rel index query",
    <<n_("identifier", 1), n_("index_name", 2), n_("query", 3)>>),
  node_id_lookup |-> K("node id lookup", <<n_("identifier", 1), l_("ids")>>),
  rel_id_lookup |-> K("rel id lookup", <<n_("identifier", 1), l_("ids")>>),
  all_nodes_scan |-> K("all nodes scan", <<n_("identifier", 1)>>),
  all_rels_scan |-> K("all rels scan", <<n_("identifier", 1)>>),
  match_clause |-> K("MATCH", <<b_("optional", 1), n_("pattern", 2), l_("hints"),
    n_("predicate", 3)>>),
  using_index |-> K("USING INDEX", <<n_("identifier", 1), n_("label", 2), n_("prop_name", 3)>>),
  using_join |-> K("USING JOIN", <<l_("identifiers")>>),
  using_scan |-> K("USING SCAN", <<n_("identifier", 1), n_("label", 2)>>),
  merge_clause |-> K("MERGE", <<n_("path", 1), l_("actions")>>),
  on_match |-> K("ON MATCH", <<l_("items")>>),
  on_create |-> K("ON CREATE", <<l_("items")>>),
  create_clause |-> K("CREATE", <<b_("unique", 1), n_("pattern", 2)>>),
  set_clause |-> K("SET", <<l_("items")>>),
  set_property |-> K("set property", <<n_("property", 1), n_("expression", 2)>>),
  set_all_properties |-> K("set all properties", <<n_("identifier", 1), n_("expression", 2)>>),
  merge_properties |-> K("merge properties", <<n_("identifier", 1), n_("expression", 2)>>),
  set_labels |-> K("set labels", <<n_("identifier", 1), l_("labels")>>),
  delete |-> K("DELETE", <<b_("detach", 1), l_("expressions")>>),
  remove_clause |-> K("REMOVE", <<l_("items")>>),
  remove_property |-> K("remove property", <<n_("property", 1)>>),
  remove_labels |-> K("remove labels", <<n_("identifier", 1), l_("labels")>>),
  foreach_clause |-> K("FOREACH", <<n_("identifier", 1), n_("expression", 2), l_("clauses")>>),
  with_clause |-> K("WITH", <<b_("distinct", 1), b_("include_existing", 2), l_("projections"),
    n_("order_by", 3), n_("skip", 4), n_("limit", 5), n_("predicate", 6)>>),
  return_clause |-> K("RETURN", <<b_("distinct", 1), b_("include_existing", 2),
    l_("projections"), n_("order_by", 3), n_("skip", 4), n_("limit", 5)>>),
  projection |-> K("projection", <<n_("expression", 1), n_("alias", 2)>>),
  order_by |-> K("ORDER BY", <<l_("items")>>),
  sort_item |-> K("sort item", <<n_("expression", 1), b_("ascending", 2)>>),
  union_clause |-> K("UNION", <<b_("all", 1)>>),
  unwind_clause |-> K("UNWIND", <<n_("expression", 1), n_("alias", 2)>>),
  call_clause |-> K("CALL", <<n_("proc_name", 1), <<"pre", "arguments">>,
    <<"post", "projections">>, n_("predicate", 2)>>),
  unary_operator |-> K("unary operator", <<<<"op", "operator">>, n_("argument", 2)>>),
  binary_operator |-> K("binary operator",
    <<<<"op", "operator">>, n_("argument1", 2), n_("argument2", 3)>>),
  comparison_operator |-> K("comparison", <<<<"ops", "operators">>, l_("arguments")>>),
  property_operator |-> K("property", <<n_("expression", 1), n_("prop_name", 2)>>),
  subscript_operator |-> K("subscript", <<n_("expression", 1), n_("subscript", 2)>>),
  slice_operator |-> K("slice", <<n_("expression", 1), n_("start", 2), n_("end", 3)>>),
  labels_operator |-> K("has labels", <<n_("expression", 1), l_("labels")>>),
  map_projection |-> K("map projection", <<n_("expression", 1), l_("selectors")>>),
  map_projection_literal |-> K("literal projection",
    <<n_("prop_name", 1), n_("expression", 2)>>),
  map_projection_property |-> K("property projection", <<n_("prop_name", 1)>>),
  map_projection_identifier |-> K("identifier projection", <<n_("identifier", 1)>>),
  map_projection_all_properties |-> K("all properties projection", <<>>),
  list_comprehension |-> K("list comprehension", ListComp(1, 2, 3, 4)),
  filter |-> K("filter", ListComp(1, 2, 3, 0)),
  extract |-> K("extract", ListComp(1, 2, 0, 3)),
  all_predicate |-> K("all", ListComp(1, 2, 3, 0)),
  any_predicate |-> K("any", ListComp(1, 2, 3, 0)),
  single_predicate |-> K("single", ListComp(1, 2, 3, 0)),
  none_predicate |-> K("none", ListComp(1, 2, 3, 0)),
  reduce |-> K("reduce", <<n_("accumulator", 1), n_("init", 2), n_("identifier", 3),
    n_("expression", 4), n_("eval", 5)>>),
  pattern_comprehension |-> K("pattern comprehension",
    <<n_("identifier", 1), n_("pattern", 2), n_("predicate", 3), n_("eval", 4)>>),
  case_expression |-> K("case", <<n_("expression", 1), <<"odd", "predicates">>,
    <<"even", "values">>, n_("default", 2)>>),
  apply_operator |-> K("apply", <<n_("func_name", 1), b_("distinct", 2), l_("arguments")>>),
  apply_all_operator |-> K("apply all", <<n_("func_name", 1), b_("distinct", 2)>>),
  collection_literal |-> K("collection", <<l_("elements")>>),
  map_literal |-> K("map", <<<<"odd", "keys">>, <<"even", "values">>>>),
  pattern |-> K("pattern", <<l_("paths")>>),
  named_path |-> K("named path", <<n_("identifier", 1), n_("path", 2), <<"path", "elements", 2>>>>),
  shortest_path |-> K("shortestPath", <<b_("single", 1), n_("path", 2), <<"path", "elements", 2>>>>),
  pattern_path |-> K("pattern path", <<l_("elements")>>),
  node_pattern |-> K("node pattern", <<n_("identifier", 1), l_("labels"), n_("properties", 2)>>),
  rel_pattern |-> K("rel pattern", <<<<"s", "direction", 1>>, n_("identifier", 2),
    l_("reltypes"), n_("varlength", 3), n_("properties", 4)>>),
  simple_rel_pattern |-> K("rel pattern", <<<<"s", "direction", 1>>, <<"none", "identifier">>,
    <<"nil", "reltypes">>, <<"none", "varlength">>, <<"none", "properties">>>>),
  range |-> K("range", <<n_("start", 1), n_("end", 2)>>),
  command |-> K("command", <<n_("name", 1), l_("arguments")>>),
  strbuf_identifier |-> K("identifier", <<x_("name")>>),
  strbuf_parameter |-> K("parameter", <<x_("name")>>),
  strbuf_string |-> K("string", <<x_("value")>>),
  strbuf_integer |-> K("integer", <<x_("value")>>),
  strbuf_float |-> K("float", <<x_("value")>>),
  strbuf_label |-> K("label", <<x_("name")>>),
  strbuf_reltype |-> K("rel type", <<x_("name")>>),
  strbuf_prop_name |-> K("prop name", <<x_("value")>>),
  strbuf_function_name |-> K("function name", <<x_("value")>>),
  strbuf_index_name |-> K("index name", <<x_("value")>>),
  strbuf_proc_name |-> K("proc name", <<x_("value")>>),
  block_string |-> K("string", <<<<"xb", "value">>>>),
  line_comment |-> K("line_comment", <<<<"xb", "value">>>>),
  block_comment |-> K("block_comment", <<<<"xb", "value">>>>),
  skip |-> K("error", <<<<"xb", "value">>>>),
  true_literal |-> K("TRUE", <<>>),
  false_literal |-> K("FALSE", <<>>),
  null_literal |-> K("NULL", <<>>)
]
=============================================================================
