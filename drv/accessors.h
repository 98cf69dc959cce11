/* every accessor of the public interface and what it returns */
ACC(statement_noptions, count)
ACC(statement_get_option, item)
ACC(statement_get_body, node)
ACC(cypher_option_get_version, node)
ACC(cypher_option_nparams, count)
ACC(cypher_option_get_param, item)
ACC(cypher_option_param_get_name, node)
ACC(cypher_option_param_get_value, node)
ACC(create_node_props_index_get_label, node)
ACC(create_node_props_index_nprops, count)
ACC(create_node_props_index_get_prop_name, item)
ACC(drop_node_props_index_get_label, node)
ACC(drop_node_props_index_nprops, count)
ACC(drop_node_props_index_get_prop_name, item)
ACC(create_node_prop_constraint_get_identifier, node)
ACC(create_node_prop_constraint_get_label, node)
ACC(create_node_prop_constraint_get_expression, node)
ACC(create_node_prop_constraint_is_unique, bool)
ACC(drop_node_prop_constraint_get_identifier, node)
ACC(drop_node_prop_constraint_get_label, node)
ACC(drop_node_prop_constraint_get_expression, node)
ACC(drop_node_prop_constraint_is_unique, bool)
ACC(create_rel_prop_constraint_get_identifier, node)
ACC(create_rel_prop_constraint_get_reltype, node)
ACC(create_rel_prop_constraint_get_expression, node)
ACC(create_rel_prop_constraint_is_unique, bool)
ACC(drop_rel_prop_constraint_get_identifier, node)
ACC(drop_rel_prop_constraint_get_reltype, node)
ACC(drop_rel_prop_constraint_get_expression, node)
ACC(drop_rel_prop_constraint_is_unique, bool)
ACC(query_noptions, count)
ACC(query_get_option, item)
ACC(query_nclauses, count)
ACC(query_get_clause, item)
ACC(using_periodic_commit_get_limit, node)
ACC(load_csv_has_with_headers, bool)
ACC(load_csv_get_url, node)
ACC(load_csv_get_identifier, node)
ACC(load_csv_get_field_terminator, node)
ACC(start_npoints, count)
ACC(start_get_point, item)
ACC(start_get_predicate, node)
ACC(node_index_lookup_get_identifier, node)
ACC(node_index_lookup_get_index_name, node)
ACC(node_index_lookup_get_prop_name, node)
ACC(node_index_lookup_get_lookup, node)
ACC(node_index_query_get_identifier, node)
ACC(node_index_query_get_index_name, node)
ACC(node_index_query_get_query, node)
ACC(node_id_lookup_get_identifier, node)
ACC(node_id_lookup_nids, count)
ACC(node_id_lookup_get_id, item)
ACC(all_nodes_scan_get_identifier, node)
ACC(rel_index_lookup_get_identifier, node)
ACC(rel_index_lookup_get_index_name, node)
ACC(rel_index_lookup_get_prop_name, node)
ACC(rel_index_lookup_get_lookup, node)
ACC(rel_index_query_get_identifier, node)
ACC(rel_index_query_get_index_name, node)
ACC(rel_index_query_get_query, node)
ACC(rel_id_lookup_get_identifier, node)
ACC(rel_id_lookup_nids, count)
ACC(rel_id_lookup_get_id, item)
ACC(all_rels_scan_get_identifier, node)
ACC(match_is_optional, bool)
ACC(match_get_pattern, node)
ACC(match_nhints, count)
ACC(match_get_hint, item)
ACC(match_get_predicate, node)
ACC(using_index_get_identifier, node)
ACC(using_index_get_label, node)
ACC(using_index_get_prop_name, node)
ACC(using_join_nidentifiers, count)
ACC(using_join_get_identifier, item)
ACC(using_scan_get_identifier, node)
ACC(using_scan_get_label, node)
ACC(merge_get_pattern_path, node)
ACC(merge_nactions, count)
ACC(merge_get_action, item)
ACC(on_match_nitems, count)
ACC(on_match_get_item, item)
ACC(on_create_nitems, count)
ACC(on_create_get_item, item)
ACC(create_is_unique, bool)
ACC(create_get_pattern, node)
ACC(set_nitems, count)
ACC(set_get_item, item)
ACC(set_property_get_property, node)
ACC(set_property_get_expression, node)
ACC(set_all_properties_get_identifier, node)
ACC(set_all_properties_get_expression, node)
ACC(merge_properties_get_identifier, node)
ACC(merge_properties_get_expression, node)
ACC(set_labels_get_identifier, node)
ACC(set_labels_nlabels, count)
ACC(set_labels_get_label, item)
ACC(delete_has_detach, bool)
ACC(delete_nexpressions, count)
ACC(delete_get_expression, item)
ACC(remove_nitems, count)
ACC(remove_get_item, item)
ACC(remove_labels_get_identifier, node)
ACC(remove_labels_nlabels, count)
ACC(remove_labels_get_label, item)
ACC(remove_property_get_property, node)
ACC(foreach_get_identifier, node)
ACC(foreach_get_expression, node)
ACC(foreach_nclauses, count)
ACC(foreach_get_clause, item)
ACC(with_is_distinct, bool)
ACC(with_has_include_existing, bool)
ACC(with_nprojections, count)
ACC(with_get_projection, item)
ACC(with_get_order_by, node)
ACC(with_get_skip, node)
ACC(with_get_limit, node)
ACC(with_get_predicate, node)
ACC(unwind_get_expression, node)
ACC(unwind_get_alias, node)
ACC(call_get_proc_name, node)
ACC(call_narguments, count)
ACC(call_get_argument, item)
ACC(call_nprojections, count)
ACC(call_get_projection, item)
ACC(call_get_predicate, node)
ACC(return_is_distinct, bool)
ACC(return_has_include_existing, bool)
ACC(return_nprojections, count)
ACC(return_get_projection, item)
ACC(return_get_order_by, node)
ACC(return_get_skip, node)
ACC(return_get_limit, node)
ACC(projection_get_expression, node)
ACC(projection_get_alias, node)
ACC(order_by_nitems, count)
ACC(order_by_get_item, item)
ACC(sort_item_get_expression, node)
ACC(sort_item_is_ascending, bool)
ACC(union_has_all, bool)
ACC(unary_operator_get_operator, op)
ACC(unary_operator_get_argument, node)
ACC(binary_operator_get_operator, op)
ACC(binary_operator_get_argument1, node)
ACC(binary_operator_get_argument2, node)
ACC(comparison_get_length, count)
ACC(comparison_get_operator, opitem)
ACC(comparison_get_argument, item)
ACC(apply_operator_get_func_name, node)
ACC(apply_operator_get_distinct, bool)
ACC(apply_operator_narguments, count)
ACC(apply_operator_get_argument, item)
ACC(apply_all_operator_get_func_name, node)
ACC(apply_all_operator_get_distinct, bool)
ACC(property_operator_get_expression, node)
ACC(property_operator_get_prop_name, node)
ACC(subscript_operator_get_expression, node)
ACC(subscript_operator_get_subscript, node)
ACC(slice_operator_get_expression, node)
ACC(slice_operator_get_start, node)
ACC(slice_operator_get_end, node)
ACC(map_projection_get_expression, node)
ACC(map_projection_nselectors, count)
ACC(map_projection_get_selector, item)
ACC(map_projection_literal_get_prop_name, node)
ACC(map_projection_literal_get_expression, node)
ACC(map_projection_property_get_prop_name, node)
ACC(map_projection_identifier_get_identifier, node)
ACC(labels_operator_get_expression, node)
ACC(labels_operator_nlabels, count)
ACC(labels_operator_get_label, item)
ACC(list_comprehension_get_identifier, node)
ACC(list_comprehension_get_expression, node)
ACC(list_comprehension_get_predicate, node)
ACC(list_comprehension_get_eval, node)
ACC(pattern_comprehension_get_identifier, node)
ACC(pattern_comprehension_get_pattern, node)
ACC(pattern_comprehension_get_predicate, node)
ACC(pattern_comprehension_get_eval, node)
ACC(reduce_get_accumulator, node)
ACC(reduce_get_init, node)
ACC(reduce_get_identifier, node)
ACC(reduce_get_expression, node)
ACC(reduce_get_eval, node)
ACC(case_get_expression, node)
ACC(case_nalternatives, count)
ACC(case_get_predicate, item)
ACC(case_get_value, item)
ACC(case_get_default, node)
ACC(collection_length, count)
ACC(collection_get, item)
ACC(map_nentries, count)
ACC(map_get_key, item)
ACC(map_get_value, item)
ACC(identifier_get_name, str)
ACC(parameter_get_name, str)
ACC(string_get_value, str)
ACC(integer_get_valuestr, str)
ACC(float_get_valuestr, str)
ACC(label_get_name, str)
ACC(reltype_get_name, str)
ACC(prop_name_get_value, str)
ACC(function_name_get_value, str)
ACC(index_name_get_value, str)
ACC(proc_name_get_value, str)
ACC(pattern_npaths, count)
ACC(pattern_get_path, item)
ACC(named_path_get_identifier, node)
ACC(named_path_get_path, node)
ACC(shortest_path_is_single, bool)
ACC(shortest_path_get_path, node)
ACC(pattern_path_nelements, count)
ACC(pattern_path_get_element, item)
ACC(node_pattern_get_identifier, node)
ACC(node_pattern_nlabels, count)
ACC(node_pattern_get_label, item)
ACC(node_pattern_get_properties, node)
ACC(rel_pattern_get_direction, dir)
ACC(rel_pattern_get_identifier, node)
ACC(rel_pattern_nreltypes, count)
ACC(rel_pattern_get_reltype, item)
ACC(rel_pattern_get_varlength, node)
ACC(rel_pattern_get_properties, node)
ACC(range_get_start, node)
ACC(range_get_end, node)
ACC(command_get_name, node)
ACC(command_narguments, count)
ACC(command_get_argument, item)
ACC(line_comment_get_value, str)
ACC(block_comment_get_value, str)
ACC(error_get_value, str)
