/* Observation of parse output through the public interface, as JSON. */
#ifndef DUMP_H
#define DUMP_H
#ifndef PER
#define PER    /* or __thread, for a driver with several threads */
#endif
#include <cypher-parser.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef const cypher_astnode_t N;

/* node -> ordinal, for the nodes of one segment or result */
static PER N **map_node;
static PER long map_n, map_cap;
static PER long map_base;

static void map_reset(long base) { map_n = 0; map_base = base; }
static void map_add(N *n)
{
    if (map_n == map_cap) {
        map_cap = map_cap ? map_cap * 2 : 1024;
        map_node = realloc(map_node, map_cap * sizeof(N *));
        if (!map_node) abort();
    }
    map_node[map_n++] = n;
    for (unsigned i = 0; i < cypher_astnode_nchildren(n); ++i)
        map_add(cypher_astnode_get_child(n, i));
}
/* hash index */
static PER long *hidx; static PER long hcap;
static void map_index(void)
{
    hcap = 16; while (hcap < map_n * 3) hcap *= 2;
    hidx = realloc(hidx, hcap * sizeof(long));
    for (long i = 0; i < hcap; ++i) hidx[i] = -1;
    for (long i = 0; i < map_n; ++i) {
        unsigned long h = ((unsigned long)map_node[i] >> 4) * 11400714819323198485ul;
        long k = (long)(h & (unsigned long)(hcap - 1));
        while (hidx[k] >= 0) {
            if (map_node[hidx[k]] == map_node[i]) { printf("\"duplicate-node\":true,"); break; }
            k = (k + 1) & (hcap - 1);
        }
        if (hidx[k] < 0) hidx[k] = i;
    }
}
static long ord(N *n)
{
    if (n == NULL) return -1;
    unsigned long h = ((unsigned long)n >> 4) * 11400714819323198485ul;
    long k = (long)(h & (unsigned long)(hcap - 1));
    while (hidx[k] >= 0) {
        if (map_node[hidx[k]] == n) return map_base + hidx[k];
        k = (k + 1) & (hcap - 1);
    }
    return -2; /* a node that is not part of the tree */
}

static void jbytes(const char *s, size_t n)
{
    putchar('[');
    for (size_t i = 0; i < n; ++i)
        printf(i ? ",%u" : "%u", (unsigned)(unsigned char)s[i]);
    putchar(']');
}
static void jcstr(const char *s) { if (s) jbytes(s, strlen(s)); else printf("null"); }
static void jpos(struct cypher_input_position p)
{
    printf("[%zu,%u,%u]", p.offset, p.line, p.column);
}

static PER int first_fact;
static void sep(const char *name)
{
    printf("%s[\"%s\",", first_fact ? "" : ",", name);
    first_fact = 0;
}
static void fn(const char *name, N *n) { sep(name); printf("%ld]", ord(n)); }
static void fb(const char *name, bool b) { sep(name); printf("%s]", b ? "true" : "false"); }
static void fx(const char *name, const char *s) { sep(name); jcstr(s); putchar(']'); }

static const char *opname(const cypher_operator_t *op)
{
#define O(x) if (op == CYPHER_OP_##x) return #x;
    O(OR) O(XOR) O(AND) O(NOT) O(EQUAL) O(NEQUAL) O(LT) O(GT) O(LTE) O(GTE)
    O(PLUS) O(MINUS) O(MULT) O(DIV) O(MOD) O(POW) O(UNARY_PLUS) O(UNARY_MINUS)
    O(SUBSCRIPT) O(MAP_PROJECTION) O(REGEX) O(STARTS_WITH) O(ENDS_WITH)
    O(CONTAINS) O(IS_NULL) O(IS_NOT_NULL) O(PROPERTY) O(LABEL)
    if (op == CYPHER_OP_IN) return "IN_";
    return op ? "?" : "none";
#undef O
}
static const char *dirname_(enum cypher_rel_direction d)
{
    return d == CYPHER_REL_INBOUND ? "INBOUND" : d == CYPHER_REL_OUTBOUND ? "OUTBOUND" :
        d == CYPHER_REL_BIDIRECTIONAL ? "BIDIRECTIONAL" : "?";
}

#define FN(t, name, getter) fn(name, cypher_ast_##t##_##getter(n))
#define FB(t, name, getter) fb(name, cypher_ast_##t##_##getter(n))
#define FX(t, name, getter) fx(name, cypher_ast_##t##_##getter(n))
#define FL(t, name, len, get) do { \
    sep(name); putchar('['); \
    unsigned l_ = cypher_ast_##t##_##len(n); \
    for (unsigned i_ = 0; i_ < l_; ++i_) \
        printf(i_ ? ",%ld" : "%ld", ord(cypher_ast_##t##_##get(n, i_))); \
    printf("]]"); \
    if (cypher_ast_##t##_##get(n, l_) != NULL) printf(",[\"%s-past-end\",true]", name); \
    } while (0)

static void facts(N *n)
{
    cypher_astnode_type_t t = cypher_astnode_type(n);
    first_fact = 1;
#define T(X) else if (t == CYPHER_AST_##X)
    if (0) {}
    T(STATEMENT) { FL(statement, "options", noptions, get_option); FN(statement, "body", get_body); }
    T(CYPHER_OPTION) { FN(cypher_option, "version", get_version);
        FL(cypher_option, "params", nparams, get_param); }
    T(CYPHER_OPTION_PARAM) { FN(cypher_option_param, "name", get_name);
        FN(cypher_option_param, "value", get_value); }
    T(CREATE_NODE_PROPS_INDEX) { FN(create_node_props_index, "label", get_label);
        FL(create_node_props_index, "prop_names", nprops, get_prop_name); }
    T(DROP_NODE_PROPS_INDEX) { FN(drop_node_props_index, "label", get_label);
        FL(drop_node_props_index, "prop_names", nprops, get_prop_name); }
#define CONSTRAINT(x, second, gs) \
        FN(x, "identifier", get_identifier); FN(x, second, gs); \
        FN(x, "expression", get_expression); FB(x, "unique", is_unique);
    T(CREATE_NODE_PROP_CONSTRAINT) { CONSTRAINT(create_node_prop_constraint, "label", get_label) }
    T(DROP_NODE_PROP_CONSTRAINT) { CONSTRAINT(drop_node_prop_constraint, "label", get_label) }
    T(CREATE_REL_PROP_CONSTRAINT) { CONSTRAINT(create_rel_prop_constraint, "reltype", get_reltype) }
    T(DROP_REL_PROP_CONSTRAINT) { CONSTRAINT(drop_rel_prop_constraint, "reltype", get_reltype) }
    T(QUERY) { FL(query, "options", noptions, get_option); FL(query, "clauses", nclauses, get_clause); }
    T(USING_PERIODIC_COMMIT) { FN(using_periodic_commit, "limit", get_limit); }
    T(LOAD_CSV) { FB(load_csv, "with_headers", has_with_headers); FN(load_csv, "url", get_url);
        FN(load_csv, "identifier", get_identifier);
        FN(load_csv, "field_terminator", get_field_terminator); }
    T(START) { FL(start, "points", npoints, get_point); FN(start, "predicate", get_predicate); }
#define LOOKUP(x) FN(x, "identifier", get_identifier); FN(x, "index_name", get_index_name); \
        FN(x, "prop_name", get_prop_name); FN(x, "lookup", get_lookup);
#define IQUERY(x) FN(x, "identifier", get_identifier); FN(x, "index_name", get_index_name); \
        FN(x, "query", get_query);
    T(NODE_INDEX_LOOKUP) { LOOKUP(node_index_lookup) }
    T(REL_INDEX_LOOKUP) { LOOKUP(rel_index_lookup) }
    T(NODE_INDEX_QUERY) { IQUERY(node_index_query) }
    T(REL_INDEX_QUERY) { IQUERY(rel_index_query) }
    T(NODE_ID_LOOKUP) { FN(node_id_lookup, "identifier", get_identifier);
        FL(node_id_lookup, "ids", nids, get_id); }
    T(REL_ID_LOOKUP) { FN(rel_id_lookup, "identifier", get_identifier);
        FL(rel_id_lookup, "ids", nids, get_id); }
    T(ALL_NODES_SCAN) { FN(all_nodes_scan, "identifier", get_identifier); }
    T(ALL_RELS_SCAN) { FN(all_rels_scan, "identifier", get_identifier); }
    T(MATCH) { FB(match, "optional", is_optional); FN(match, "pattern", get_pattern);
        FL(match, "hints", nhints, get_hint); FN(match, "predicate", get_predicate); }
    T(USING_INDEX) { FN(using_index, "identifier", get_identifier);
        FN(using_index, "label", get_label); FN(using_index, "prop_name", get_prop_name); }
    T(USING_JOIN) { FL(using_join, "identifiers", nidentifiers, get_identifier); }
    T(USING_SCAN) { FN(using_scan, "identifier", get_identifier); FN(using_scan, "label", get_label); }
    T(MERGE) { FN(merge, "path", get_pattern_path); FL(merge, "actions", nactions, get_action); }
    T(ON_MATCH) { FL(on_match, "items", nitems, get_item); }
    T(ON_CREATE) { FL(on_create, "items", nitems, get_item); }
    T(CREATE) { FB(create, "unique", is_unique); FN(create, "pattern", get_pattern); }
    T(SET) { FL(set, "items", nitems, get_item); }
    T(SET_PROPERTY) { FN(set_property, "property", get_property);
        FN(set_property, "expression", get_expression); }
    T(SET_ALL_PROPERTIES) { FN(set_all_properties, "identifier", get_identifier);
        FN(set_all_properties, "expression", get_expression); }
    T(MERGE_PROPERTIES) { FN(merge_properties, "identifier", get_identifier);
        FN(merge_properties, "expression", get_expression); }
    T(SET_LABELS) { FN(set_labels, "identifier", get_identifier);
        FL(set_labels, "labels", nlabels, get_label); }
    T(DELETE) { FB(delete, "detach", has_detach); FL(delete, "expressions", nexpressions, get_expression); }
    T(REMOVE) { FL(remove, "items", nitems, get_item); }
    T(REMOVE_PROPERTY) { FN(remove_property, "property", get_property); }
    T(REMOVE_LABELS) { FN(remove_labels, "identifier", get_identifier);
        FL(remove_labels, "labels", nlabels, get_label); }
    T(FOREACH) { FN(foreach, "identifier", get_identifier); FN(foreach, "expression", get_expression);
        FL(foreach, "clauses", nclauses, get_clause); }
    T(WITH) { FB(with, "distinct", is_distinct); FB(with, "include_existing", has_include_existing);
        FL(with, "projections", nprojections, get_projection); FN(with, "order_by", get_order_by);
        FN(with, "skip", get_skip); FN(with, "limit", get_limit); FN(with, "predicate", get_predicate); }
    T(RETURN) { FB(return, "distinct", is_distinct);
        FB(return, "include_existing", has_include_existing);
        FL(return, "projections", nprojections, get_projection); FN(return, "order_by", get_order_by);
        FN(return, "skip", get_skip); FN(return, "limit", get_limit); }
    T(PROJECTION) { FN(projection, "expression", get_expression); FN(projection, "alias", get_alias); }
    T(ORDER_BY) { FL(order_by, "items", nitems, get_item); }
    T(SORT_ITEM) { FN(sort_item, "expression", get_expression); FB(sort_item, "ascending", is_ascending); }
    T(UNION) { FB(union, "all", has_all); }
    T(UNWIND) { FN(unwind, "expression", get_expression); FN(unwind, "alias", get_alias); }
    T(CALL) { FN(call, "proc_name", get_proc_name); FL(call, "arguments", narguments, get_argument);
        FL(call, "projections", nprojections, get_projection); FN(call, "predicate", get_predicate); }
    T(UNARY_OPERATOR) { sep("operator"); printf("\"%s\"]", opname(cypher_ast_unary_operator_get_operator(n)));
        FN(unary_operator, "argument", get_argument); }
    T(BINARY_OPERATOR) { sep("operator"); printf("\"%s\"]", opname(cypher_ast_binary_operator_get_operator(n)));
        FN(binary_operator, "argument1", get_argument1); FN(binary_operator, "argument2", get_argument2); }
    T(COMPARISON) {
        unsigned l = cypher_ast_comparison_get_length(n);
        sep("operators"); putchar('[');
        for (unsigned i = 0; i < l; ++i)
            printf("%s\"%s\"", i ? "," : "", opname(cypher_ast_comparison_get_operator(n, i)));
        printf("]]");
        sep("arguments"); putchar('[');
        for (unsigned i = 0; i <= l; ++i)
            printf("%s%ld", i ? "," : "", ord(cypher_ast_comparison_get_argument(n, i)));
        printf("]]");
        if (cypher_ast_comparison_get_operator(n, l) || cypher_ast_comparison_get_argument(n, l + 1))
            printf(",[\"past-end\",true]");
    }
    T(PROPERTY_OPERATOR) { FN(property_operator, "expression", get_expression);
        FN(property_operator, "prop_name", get_prop_name); }
    T(SUBSCRIPT_OPERATOR) { FN(subscript_operator, "expression", get_expression);
        FN(subscript_operator, "subscript", get_subscript); }
    T(SLICE_OPERATOR) { FN(slice_operator, "expression", get_expression);
        FN(slice_operator, "start", get_start); FN(slice_operator, "end", get_end); }
    T(LABELS_OPERATOR) { FN(labels_operator, "expression", get_expression);
        FL(labels_operator, "labels", nlabels, get_label); }
    T(MAP_PROJECTION) { FN(map_projection, "expression", get_expression);
        FL(map_projection, "selectors", nselectors, get_selector); }
    T(MAP_PROJECTION_LITERAL) { FN(map_projection_literal, "prop_name", get_prop_name);
        FN(map_projection_literal, "expression", get_expression); }
    T(MAP_PROJECTION_PROPERTY) { FN(map_projection_property, "prop_name", get_prop_name); }
    T(MAP_PROJECTION_IDENTIFIER) { FN(map_projection_identifier, "identifier", get_identifier); }
    else if (t == CYPHER_AST_REDUCE) { FN(reduce, "accumulator", get_accumulator); FN(reduce, "init", get_init);
        FN(reduce, "identifier", get_identifier); FN(reduce, "expression", get_expression);
        FN(reduce, "eval", get_eval); }
    T(PATTERN_COMPREHENSION) { FN(pattern_comprehension, "identifier", get_identifier);
        FN(pattern_comprehension, "pattern", get_pattern);
        FN(pattern_comprehension, "predicate", get_predicate); FN(pattern_comprehension, "eval", get_eval); }
    else if (cypher_astnode_instanceof(n, CYPHER_AST_LIST_COMPREHENSION)) {
        FN(list_comprehension, "identifier", get_identifier);
        FN(list_comprehension, "expression", get_expression);
        FN(list_comprehension, "predicate", get_predicate); FN(list_comprehension, "eval", get_eval); }
    T(CASE) { FN(case, "expression", get_expression);
        FL(case, "predicates", nalternatives, get_predicate);
        FL(case, "values", nalternatives, get_value); FN(case, "default", get_default); }
    T(APPLY_OPERATOR) { FN(apply_operator, "func_name", get_func_name);
        FB(apply_operator, "distinct", get_distinct);
        FL(apply_operator, "arguments", narguments, get_argument); }
    T(APPLY_ALL_OPERATOR) { FN(apply_all_operator, "func_name", get_func_name);
        FB(apply_all_operator, "distinct", get_distinct); }
    T(COLLECTION) { FL(collection, "elements", length, get); }
    T(MAP) { FL(map, "keys", nentries, get_key); FL(map, "values", nentries, get_value); }
    T(PATTERN) { FL(pattern, "paths", npaths, get_path); }
    T(NAMED_PATH) { FN(named_path, "identifier", get_identifier); FN(named_path, "path", get_path);
        FL(pattern_path, "elements", nelements, get_element); }
    T(SHORTEST_PATH) { FB(shortest_path, "single", is_single); FN(shortest_path, "path", get_path);
        FL(pattern_path, "elements", nelements, get_element); }
    T(PATTERN_PATH) { FL(pattern_path, "elements", nelements, get_element); }
    T(NODE_PATTERN) { FN(node_pattern, "identifier", get_identifier);
        FL(node_pattern, "labels", nlabels, get_label); FN(node_pattern, "properties", get_properties); }
    T(REL_PATTERN) { sep("direction"); printf("\"%s\"]", dirname_(cypher_ast_rel_pattern_get_direction(n)));
        FN(rel_pattern, "identifier", get_identifier); FL(rel_pattern, "reltypes", nreltypes, get_reltype);
        FN(rel_pattern, "varlength", get_varlength); FN(rel_pattern, "properties", get_properties); }
    T(RANGE) { FN(range, "start", get_start); FN(range, "end", get_end); }
    T(COMMAND) { FN(command, "name", get_name); FL(command, "arguments", narguments, get_argument); }
    T(IDENTIFIER) { FX(identifier, "name", get_name); }
    T(PARAMETER) { FX(parameter, "name", get_name); }
    T(STRING) { FX(string, "value", get_value); }
    T(INTEGER) { FX(integer, "value", get_valuestr); }
    T(FLOAT) { FX(float, "value", get_valuestr); }
    T(LABEL) { FX(label, "name", get_name); }
    T(RELTYPE) { FX(reltype, "name", get_name); }
    T(PROP_NAME) { FX(prop_name, "value", get_value); }
    T(FUNCTION_NAME) { FX(function_name, "value", get_value); }
    T(INDEX_NAME) { FX(index_name, "value", get_value); }
    T(PROC_NAME) { FX(proc_name, "value", get_value); }
    T(LINE_COMMENT) { FX(line_comment, "value", get_value); }
    T(BLOCK_COMMENT) { FX(block_comment, "value", get_value); }
    T(ERROR) { FX(error, "value", get_value); }
#undef T
}

static void jnode(N *n)
{
    struct cypher_input_range r = cypher_astnode_range(n);
    printf("{\"o\":%ld,\"t\":\"%s\",\"s\":", ord(n), cypher_astnode_typestr(cypher_astnode_type(n)));
    jpos(r.start); printf(",\"e\":"); jpos(r.end);
    printf(",\"ch\":[");
    unsigned nc = cypher_astnode_nchildren(n);
    for (unsigned i = 0; i < nc; ++i)
        printf(i ? ",%ld" : "%ld", ord(cypher_astnode_get_child(n, i)));
    printf("],\"r\":["); facts(n); printf("]");
    if (cypher_astnode_get_child(n, nc) != NULL) printf(",\"past-end\":true");
    printf("}");
}
static void jnodes(void)
{
    printf("\"nodes\":[");
    for (long i = 0; i < map_n; ++i) { if (i) putchar(','); jnode(map_node[i]); }
    printf("]");
}
static void jerror(const cypher_parse_error_t *e)
{
    printf("{\"at\":"); jpos(cypher_parse_error_position(e));
    printf(",\"msg\":"); jcstr(cypher_parse_error_message(e));
    printf(",\"ctx\":"); jcstr(cypher_parse_error_context(e));
    printf(",\"ctxoff\":%zu}", cypher_parse_error_context_offset(e));
}
#endif
