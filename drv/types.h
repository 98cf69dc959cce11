/* every type constant of the public interface */
TYPE(STATEMENT)
TYPE(STATEMENT_OPTION)
TYPE(CYPHER_OPTION)
TYPE(CYPHER_OPTION_PARAM)
TYPE(EXPLAIN_OPTION)
TYPE(PROFILE_OPTION)
TYPE(SCHEMA_COMMAND)
TYPE(CREATE_NODE_PROPS_INDEX)
TYPE(DROP_NODE_PROPS_INDEX)
TYPE(CREATE_NODE_PROP_CONSTRAINT)
TYPE(DROP_NODE_PROP_CONSTRAINT)
TYPE(CREATE_REL_PROP_CONSTRAINT)
TYPE(DROP_REL_PROP_CONSTRAINT)
TYPE(QUERY)
TYPE(QUERY_OPTION)
TYPE(USING_PERIODIC_COMMIT)
TYPE(QUERY_CLAUSE)
TYPE(LOAD_CSV)
TYPE(START)
TYPE(START_POINT)
TYPE(NODE_INDEX_LOOKUP)
TYPE(NODE_INDEX_QUERY)
TYPE(NODE_ID_LOOKUP)
TYPE(ALL_NODES_SCAN)
TYPE(REL_INDEX_LOOKUP)
TYPE(REL_INDEX_QUERY)
TYPE(REL_ID_LOOKUP)
TYPE(ALL_RELS_SCAN)
TYPE(MATCH)
TYPE(MATCH_HINT)
TYPE(USING_INDEX)
TYPE(USING_JOIN)
TYPE(USING_SCAN)
TYPE(MERGE)
TYPE(MERGE_ACTION)
TYPE(ON_MATCH)
TYPE(ON_CREATE)
TYPE(CREATE)
TYPE(SET)
TYPE(SET_ITEM)
TYPE(SET_PROPERTY)
TYPE(SET_ALL_PROPERTIES)
TYPE(MERGE_PROPERTIES)
TYPE(SET_LABELS)
TYPE(DELETE)
TYPE(REMOVE)
TYPE(REMOVE_ITEM)
TYPE(REMOVE_LABELS)
TYPE(REMOVE_PROPERTY)
TYPE(FOREACH)
TYPE(WITH)
TYPE(UNWIND)
TYPE(CALL)
TYPE(RETURN)
TYPE(PROJECTION)
TYPE(ORDER_BY)
TYPE(SORT_ITEM)
TYPE(UNION)
TYPE(EXPRESSION)
TYPE(UNARY_OPERATOR)
TYPE(BINARY_OPERATOR)
TYPE(COMPARISON)
TYPE(APPLY_OPERATOR)
TYPE(APPLY_ALL_OPERATOR)
TYPE(PROPERTY_OPERATOR)
TYPE(SUBSCRIPT_OPERATOR)
TYPE(SLICE_OPERATOR)
TYPE(MAP_PROJECTION)
TYPE(MAP_PROJECTION_SELECTOR)
TYPE(MAP_PROJECTION_LITERAL)
TYPE(MAP_PROJECTION_PROPERTY)
TYPE(MAP_PROJECTION_IDENTIFIER)
TYPE(MAP_PROJECTION_ALL_PROPERTIES)
TYPE(LABELS_OPERATOR)
TYPE(LIST_COMPREHENSION)
TYPE(PATTERN_COMPREHENSION)
TYPE(CASE)
TYPE(FILTER)
TYPE(EXTRACT)
TYPE(REDUCE)
TYPE(ALL)
TYPE(ANY)
TYPE(SINGLE)
TYPE(NONE)
TYPE(COLLECTION)
TYPE(MAP)
TYPE(IDENTIFIER)
TYPE(PARAMETER)
TYPE(STRING)
TYPE(INTEGER)
TYPE(FLOAT)
TYPE(BOOLEAN)
TYPE(TRUE)
TYPE(FALSE)
TYPE(NULL)
TYPE(LABEL)
TYPE(RELTYPE)
TYPE(PROP_NAME)
TYPE(FUNCTION_NAME)
TYPE(INDEX_NAME)
TYPE(PROC_NAME)
TYPE(PATTERN)
TYPE(NAMED_PATH)
TYPE(SHORTEST_PATH)
TYPE(PATTERN_PATH)
TYPE(NODE_PATTERN)
TYPE(REL_PATTERN)
TYPE(RANGE)
TYPE(COMMAND)
TYPE(COMMENT)
TYPE(LINE_COMMENT)
TYPE(BLOCK_COMMENT)
TYPE(ERROR)
