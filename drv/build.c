/* Makes trees with the constructors, as told, and reports what they are.
 *   job: id=N f=FAULT.PART prog=STEP|STEP|... acc=1
 *   step: number/constructor/PART/PART/.../CHILDREN
 *   part: WORDS=NODES, both separated by dots (-1 is no node)
 * Steps come in the order in which the nodes are made; the last is the root. */
#include "dump.h"
#include "wrap.h"
#include <cypher-parser.h>
#include <stdint.h>

#define MAXP 8
#define MAXN 512
typedef struct {
    char *w[64]; int nw;
    cypher_astnode_t *g[64]; int n;
} Part;
static Part part[MAXP]; static int nparts;
static cypher_astnode_t *kids[MAXN]; static unsigned nkids;
static cypher_astnode_t *node[MAXN];   /* by number, while not part of another */
static N *all[MAXN];
static struct cypher_input_range range;
static int nolist, noop;               /* part whose list, or operator, is withheld */

static cypher_astnode_t *P(int k) { return (k <= nparts && part[k-1].n) ? part[k-1].g[0] : NULL; }
static cypher_astnode_t **list(int k) { return nolist == k ? NULL : part[k-1].g; }
static bool B(int k) { return part[k-1].nw && part[k-1].w[0][0] == '1'; }
static enum cypher_rel_direction D(int k)
{
    char *s = part[k-1].w[0];
    return !strcmp(s, "INBOUND") ? CYPHER_REL_INBOUND : !strcmp(s, "OUTBOUND") ? CYPHER_REL_OUTBOUND : CYPHER_REL_BIDIRECTIONAL;
}
static const cypher_operator_t *opof(const char *s)
{
#define O(x) if (!strcmp(s, #x)) return CYPHER_OP_##x;
    O(OR) O(XOR) O(AND) O(NOT) O(EQUAL) O(NEQUAL) O(LT) O(GT) O(LTE) O(GTE)
    O(PLUS) O(MINUS) O(MULT) O(DIV) O(MOD) O(POW) O(UNARY_PLUS) O(UNARY_MINUS)
    O(SUBSCRIPT) O(MAP_PROJECTION) O(REGEX) O(STARTS_WITH) O(ENDS_WITH)
    O(CONTAINS) O(IS_NULL) O(IS_NOT_NULL) O(PROPERTY) O(LABEL)
    if (!strcmp(s, "IN_")) return CYPHER_OP_IN;
    abort();
#undef O
}
static const cypher_operator_t *O_(int k) { return noop == k ? NULL : opof(part[k-1].w[0]); }

#define L(k) list(k), (unsigned)part[(k)-1].n
#define CH kids, nkids, range

static cypher_astnode_t *make(const char *c)
{
#define M(name, ...) if (!strcmp(c, #name)) return cypher_ast_##name(__VA_ARGS__);
#define S(name) if (!strcmp(c, #name)) { \
        char buf[64]; int n = part[0].nw; \
        for (int i = 0; i < n; ++i) buf[i] = (char)atoi(part[0].w[i]); \
        buf[n] = 'Z';  /* more text than is named */ \
        cypher_astnode_t *r_ = cypher_ast_##name(buf, (size_t)n, range); \
        memset(buf, '?', sizeof(buf)); return r_; }
    M(statement, L(1), P(2), CH)
    M(cypher_option, P(1), L(2), CH)
    M(cypher_option_param, P(1), P(2), CH)
    M(explain_option, range)
    M(profile_option, range)
    M(create_node_props_index, P(1), L(2), CH)
    M(drop_node_props_index, P(1), L(2), CH)
    M(create_node_prop_constraint, P(1), P(2), P(3), B(4), CH)
    M(drop_node_prop_constraint, P(1), P(2), P(3), B(4), CH)
    M(create_rel_prop_constraint, P(1), P(2), P(3), B(4), CH)
    M(drop_rel_prop_constraint, P(1), P(2), P(3), B(4), CH)
    M(query, L(1), L(2), CH)
    M(using_periodic_commit, P(1), CH)
    M(load_csv, B(1), P(2), P(3), P(4), CH)
    M(start, L(1), P(2), CH)
    M(node_index_lookup, P(1), P(2), P(3), P(4), CH)
    M(rel_index_lookup, P(1), P(2), P(3), P(4), CH)
    M(node_index_query, P(1), P(2), P(3), CH)
    M(rel_index_query, P(1), P(2), P(3), CH)
    M(node_id_lookup, P(1), L(2), CH)
    M(rel_id_lookup, P(1), L(2), CH)
    M(all_nodes_scan, P(1), CH)
    M(all_rels_scan, P(1), CH)
    M(match, B(1), P(2), L(3), P(4), CH)
    M(using_index, P(1), P(2), P(3), CH)
    M(using_join, L(1), CH)
    M(using_scan, P(1), P(2), CH)
    M(merge, P(1), L(2), CH)
    M(on_match, L(1), CH)
    M(on_create, L(1), CH)
    M(create, B(1), P(2), CH)
    M(set, L(1), CH)
    M(set_property, P(1), P(2), CH)
    M(set_all_properties, P(1), P(2), CH)
    M(merge_properties, P(1), P(2), CH)
    M(set_labels, P(1), L(2), CH)
    M(delete, B(1), L(2), CH)
    M(remove, L(1), CH)
    M(remove_labels, P(1), L(2), CH)
    M(remove_property, P(1), CH)
    M(foreach, P(1), P(2), L(3), CH)
    M(with, B(1), B(2), L(3), P(4), P(5), P(6), P(7), CH)
    M(return, B(1), B(2), L(3), P(4), P(5), P(6), CH)
    M(projection, P(1), P(2), CH)
    M(order_by, L(1), CH)
    M(sort_item, P(1), B(2), CH)
    M(unwind, P(1), P(2), CH)
    M(call, P(1), L(2), L(3), P(4), CH)
    M(union, B(1), CH)
    M(unary_operator, O_(1), P(2), CH)
    M(binary_operator, O_(1), P(2), P(3), CH)
    if (!strcmp(c, "comparison")) {
        const cypher_operator_t *ops[64];
        for (int i = 0; i < part[0].nw; ++i) ops[i] = opof(part[0].w[i]);
        return cypher_ast_comparison((unsigned)part[0].nw, noop == 1 ? NULL : ops, list(1), CH);
    }
    M(apply_operator, P(1), B(2), L(3), CH)
    M(apply_all_operator, P(1), B(2), CH)
    M(property_operator, P(1), P(2), CH)
    M(subscript_operator, P(1), P(2), CH)
    M(slice_operator, P(1), P(2), P(3), CH)
    M(map_projection, P(1), L(2), CH)
    M(map_projection_literal, P(1), P(2), CH)
    M(map_projection_property, P(1), CH)
    M(map_projection_identifier, P(1), CH)
    M(map_projection_all_properties, CH)
    M(labels_operator, P(1), L(2), CH)
    M(list_comprehension, P(1), P(2), P(3), P(4), CH)
    M(filter, P(1), P(2), P(3), CH)
    M(extract, P(1), P(2), P(4), CH)
    M(reduce, P(1), P(2), P(3), P(4), P(5), CH)
    M(all, P(1), P(2), P(3), CH)
    M(any, P(1), P(2), P(3), CH)
    M(single, P(1), P(2), P(3), CH)
    M(none, P(1), P(2), P(3), CH)
    M(pattern_comprehension, P(1), P(2), P(3), P(4), CH)
    M(case, P(1), list(2), (unsigned)part[1].n / 2, P(3), CH)
    M(collection, L(1), CH)
    if (!strcmp(c, "map")) {
        cypher_astnode_t *keys[32], *values[32]; int n = part[0].n / 2;
        for (int i = 0; i < n; ++i) { keys[i] = part[0].g[2*i]; values[i] = part[0].g[2*i+1]; }
        return cypher_ast_map(nolist == 1 ? NULL : keys, nolist == 1 ? NULL : values, (unsigned)n, CH);
    }
    M(pair_map, list(1), (unsigned)part[0].n / 2, CH)
    S(identifier) S(parameter) S(string) S(integer) S(float)
    M(true, range) M(false, range) M(null, range)
    S(label) S(reltype) S(prop_name) S(function_name) S(index_name) S(proc_name)
    M(pattern, L(1), CH)
    M(named_path, P(1), P(2), CH)
    M(shortest_path, B(1), P(2), CH)
    M(pattern_path, L(1), CH)
    M(node_pattern, P(1), L(2), P(3), CH)
    M(rel_pattern, D(1), P(2), L(3), P(4), P(5), CH)
    M(range, P(1), P(2), CH)
    M(command, P(1), L(2), CH)
    S(line_comment) S(block_comment) S(error)
    fprintf(stderr, "no constructor %s\n", c); abort();
}

/* --- accessors --- */
static const unsigned idx[] = { 0, 1, 2, 3, 4, 5, 0x7fffffffu, 0x80000000u, 0xffffffffu };
static void told(const char *name) { printf(",\"%s\":[", name); errno = 0; }
static void end(int e) { printf(",%d]", e); }
/* through pointers, as the compiler takes accessors to be without effect on errno */
#define ASK(type, f) type (*volatile ask)(N *) = cypher_ast_##f; told(#f); type v = ask(n); int e = errno;
#define A_node(f) { ASK(N *, f) printf("%ld", ord(v)); end(e); }
#define A_count(f) { ASK(unsigned, f) printf("%u", v); end(e); }
#define A_bool(f) { ASK(bool, f) printf("%d", (int)v); end(e); }
#define A_str(f) { ASK(const char *, f) jcstr(v); end(e); }
#define A_op(f) { ASK(const cypher_operator_t *, f) printf("\"%s\"", opname(v)); end(e); }
#define A_dir(f) { ASK(enum cypher_rel_direction, f) printf("\"%s\"", dirname_(v)); end(e); }
#define ASKALL(type, f, show) type (*volatile ask)(N *, unsigned) = cypher_ast_##f; told(#f); int e = 0; putchar('['); \
    for (int i = 0; i < 9; ++i) { errno = 0; type v = ask(n, idx[i]); int ei = errno; \
        if (i == 0) e = ei; else if (ei != e) e = -1; if (i) putchar(','); show; } putchar(']'); end(e);
#define A_item(f) { ASKALL(N *, f, printf("%ld", ord(v))) }
#define A_opitem(f) { ASKALL(const cypher_operator_t *, f, printf("\"%s\"", opname(v))) }
static void accessors(N *n)
{
    printf(",\"acc\":{\"einval\":%d", EINVAL);
#define ACC(f, kind) A_##kind(f)
#include "accessors.h"
    printf("}");
}

/* --- types --- */
static const struct { const char *name; const cypher_astnode_type_t *t; } types[] = {
#define TYPE(x) { #x, &CYPHER_AST_##x },
#include "types.h"
};
static void typesof(N *n)
{
    printf(",\"of\":["); int first = 1;
    for (size_t i = 0; i < sizeof(types) / sizeof(types[0]); ++i)
        if (cypher_astnode_instanceof(n, *types[i].t)) { printf("%s\"%s\"", first ? "" : ",", types[i].name); first = 0; }
    printf("]");
    if (n) for (size_t i = 0; i < sizeof(types) / sizeof(types[0]); ++i)
        if (cypher_astnode_type(n) == *types[i].t) printf(",\"is\":\"%s\"", types[i].name);
}

static char *split(char **s, char c)
{
    char *a = *s; if (!a) return NULL;
    char *b = strchr(a, c);
    if (b) { *b = 0; *s = b + 1; } else *s = NULL;
    return a;
}
/* the nodes of a copy get the numbers of the nodes they are copies of */
static N *pair_[MAXN]; static int pairs_bad;
static void pair(N *a, N *b, int *numbers)
{
    long i = ord(a);
    if (i < 0) { pairs_bad = 1; return; }
    pair_[i] = b; numbers[i] = 1;
    unsigned n = cypher_astnode_nchildren(a);
    if (cypher_astnode_nchildren(b) != n) { pairs_bad = 1; return; }
    for (unsigned k = 0; k < n; ++k) pair(cypher_astnode_get_child(a, k), cypher_astnode_get_child(b, k), numbers);
}
static void use(N **nodes, const int *there, int n)
{
    static char none[MAXN][16];
    map_reset(0);
    while (map_cap < n) { map_cap = map_cap ? map_cap * 2 : 1024; map_node = realloc(map_node, map_cap * sizeof(N *)); }
    for (int i = 0; i < n; ++i) map_node[map_n++] = there[i] && nodes[i] ? nodes[i] : (N *)none[i];
    map_index();
}
static void show(N **nodes, const int *there, int n)
{
    printf("["); int first = 1;
    for (int i = 0; i < n; ++i) if (there[i]) { if (!first) putchar(','); first = 0; jnode(nodes[i]); }
    printf("]");
}
static char *rendered(N *n, size_t *len)
{
    char *b = NULL; FILE *f = open_memstream(&b, len);
    if (cypher_ast_fprint(n, f, 0, NULL, 0)) abort();
    fclose(f); return b;
}

/* what is seen when an operation is refused memory, for spec/Faults.tla */
static struct { char *t; long n, k; char what[64]; } tried[256]; static int ntried;
static void note(const char *t, const char *what, long k)
{
    int i;
    for (i = 0; i < ntried; ++i) if (!strcmp(tried[i].t, t)) { ++tried[i].n; return; }
    if (i == 256) abort();
    tried[i].t = strdup(t); tried[i].n = 1; tried[i].k = k; snprintf(tried[i].what, sizeof(tried[i].what), "%s", what); ++ntried;
}
static N *to_copy;
static cypher_astnode_t *attempt(const char *c) { return c ? make(c) : cypher_ast_clone(to_copy); }
static void drop(const char *c, cypher_astnode_t *n) { if (c) cypher_astnode_free(n); else cypher_ast_free(n); }
static void refusals(const char *c, int on)
{
    for (long k = 1; k < 10000; ++k) {
        char t[256]; size_t n = 0; long before = live;
        snprintf(plan, sizeof plan, "\nPLAN %s: allocation %ld%s refused\n", c ? c : "copy", k, on ? " and later" : "");
        for (int turn = 0; turn < 2; ++turn) {
            errno = 0; arm(turn ? 0 : k, on);
            cypher_astnode_t *r = attempt(c);
            int e = errno; armed = 0;
            n += (size_t)snprintf(t + n, sizeof t - n, "%s[\"T\"]%s,[\"E\",%d,%d,1]", n ? "," : "", refused ? ",[\"R\"]" : "", r ? 0 : -1, r ? 0 : e);
            if (r) { armed = 1; which = 0; drop(c, r); armed = 0; }
            n += (size_t)snprintf(t + n, sizeof t - n, ",[\"L\",%ld]", live - before);
            if (!turn && !refused) { note(t, c ? c : "copy", k); return; }
        }
        note(t, c ? c : "copy", k);
    }
}

int main(void)
{
    WATCH();
    char *line = NULL; size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0) {
        line[strcspn(line, "\n")] = 0;
        char *prog = strstr(line, " prog="), *acc = strstr(line, " acc="), *f = strstr(line, " f="), *ty = strstr(line, " types="), *fail = strstr(line, " fail=");
        int on = fail && fail[6] == 'f'; ntried = 0; snprintf(plan, sizeof plan, "\nPLAN none\n");
        long id = atol(line + 3);
        printf("{\"id\":%ld", id);
        if (ty) {   /* what is known without any node */
            printf(",\"names\":{");
            for (size_t i = 0; i < sizeof(types) / sizeof(types[0]); ++i) {
                printf("%s\"%s\":", i ? "," : "", types[i].name);
                const char *s = cypher_astnode_typestr(*types[i].t);
                if (s) printf("\"%s\"", s); else printf("null");
            }
            printf("},\"values\":[");
            for (size_t i = 0; i < sizeof(types) / sizeof(types[0]); ++i) printf("%s%d", i ? "," : "", (int)*types[i].t);
            printf("]");
#ifdef NDEBUG   /* values which are no type's: with assertions, asking is refused by ending the program */
            cypher_astnode_t *one = cypher_ast_integer("1", 1, (struct cypher_input_range){ 0 });
            printf(",\"stray\":[");
            for (int v = 0, k = 0; v < 256; ++v) {
                int known = 0;
                for (size_t i = 0; i < sizeof(types) / sizeof(types[0]); ++i) known |= (int)*types[i].t == v;
                if (known) continue;
                if (cypher_astnode_typestr((cypher_astnode_type_t)v) || cypher_astnode_instanceof(one, (cypher_astnode_type_t)v)) printf("%s%d", k++ ? "," : "", v);
            }
            printf("]");
            cypher_ast_free(one);
#endif
            typesof(NULL);
        }
        if (acc && acc[5] == 'n') { map_reset(0); map_index(); accessors(NULL); }
        if (prog) {
            memset(node, 0, sizeof(node)); memset(all, 0, sizeof(all));
            char fault[32] = ""; int fpart = 0;
            if (f) { sscanf(f + 3, "%31[a-z].%d", fault, &fpart); }
            if (acc) *acc = 0;
            if (f) *f = 0;
            if (fail) *fail = 0;
            int max = 0, root = -1, refused = 0;
            char *s = prog + 6, *st;
            printf(",\"refused\":[");
            while ((st = split(&s, '|'))) {
                int k = atoi(split(&st, '/')); char *c = split(&st, '/');
                if (k > max) max = k;
                nparts = 0; nkids = 0;
                char *p, *next = split(&st, '/');
                while (st) {    /* all but the last are parts */
                    p = next; next = split(&st, '/');
                    Part *q = &part[nparts++]; q->nw = q->n = 0;
                    char *w = split(&p, '='), *x;
                    if (*w) while ((x = split(&w, '.'))) q->w[q->nw++] = x;
                    if (p && *p) while ((x = split(&p, '.'))) { int i = atoi(x); q->g[q->n++] = i < 0 ? NULL : node[i]; }
                }
                p = next; char *x;
                if (p && *p) while ((x = split(&p, '.'))) kids[nkids++] = node[atoi(x)];
                range.start = (struct cypher_input_position){ .offset = 100u*k + 107, .line = k + 2u, .column = 2u*k + 3 };
                range.end = (struct cypher_input_position){ .offset = 100u*k + 150, .line = k + 3u, .column = 3 };
                nolist = k == 0 && !strcmp(fault, "nolist") ? fpart : 0;
                noop = k == 0 && !strcmp(fault, "noop") ? fpart : 0;
                unsigned nk = nkids; int ids[MAXN];
                for (unsigned i = 0; i < nk; ++i) for (int j = 0; j <= max; ++j) if (node[j] == kids[i]) ids[i] = j;
                if (fail && !*fault) refusals(c, on);
                errno = 0;
                cypher_astnode_t *r = make(c);
                int e = errno;
                root = k;
                if (!r) { printf("%s[%d,%d]", refused++ ? "," : "", k, e); continue; }
                all[k] = node[k] = r;
                for (unsigned i = 0; i < nk; ++i) node[ids[i]] = NULL;
                memset(kids, 0x5a, sizeof(kids));   /* the lists are the caller's */
                memset(part, 0x5a, sizeof(part));
            }
            printf("],\"einval\":%d", EINVAL);
            int there[MAXN] = {0};
            if (node[root] && root == 0) {
                int n = max + 1;
                int inall[MAXN]; for (int i = 0; i < n; ++i) inall[i] = all[i] != NULL;
                use(all, inall, n);
                memset(pair_, 0, sizeof(pair_)); pairs_bad = 0;
                if (fail) { to_copy = node[root]; refusals(NULL, on); }
                errno = 0;
                cypher_astnode_t *copy = cypher_ast_clone(node[root]);
                if (!copy) printf(",\"uncopied\":%d", errno);
                pair(node[root], copy ? copy : node[root], there);
                printf(",\"nodes\":"); show(all, there, n);
                size_t la, lb; char *a = rendered(node[root], &la);
                typesof(node[root]);
                if (acc) accessors(node[root]);
                char *again = rendered(node[root], &lb);
                if (la != lb || memcmp(a, again, la)) printf(",\"changed\":true");
                free(again);
                cypher_ast_free(node[root]); node[root] = NULL;
                if (copy) {
                    if (pairs_bad) printf(",\"misshapen\":true");
                    else {
                        use(pair_, there, n);
                        printf(",\"copy\":"); show(pair_, there, n);
                        char *b = rendered(copy, &lb);
                        if (la != lb || memcmp(a, b, la)) printf(",\"rendersas\":false");
                        free(b);
                    }
                    cypher_ast_free(copy);
                }
                free(a);
            }
            for (int i = 0; i <= max; ++i) if (node[i]) cypher_ast_free(node[i]);
        }
        if (fail) {
            printf(",\"tries\":[");
            for (int i = 0; i < ntried; ++i) { printf("%s[[%s],%ld,%ld,\"%s\"]", i ? "," : "", tried[i].t, tried[i].n, tried[i].k, tried[i].what); free(tried[i].t); }
            printf("]");
        }
        printf("}\n"); fflush(stdout);
    }
    free(line);
    return 0;
}
