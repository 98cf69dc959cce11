/* Replays behaviours of spec/Annotations.tla.  A job: id=.. s=C.1,T.0,A.1.0.2.1,...
 * Output: {"id":..,"steps":[[ret,val,[[ctx,handler,node,value],..]],..],"end":[[ctx,node,value],..]} */
#define _GNU_SOURCE
#include "dump.h"
#define NC 8
#define NT 8
#define NN 10
static cypher_ast_annotation_context_t *ctxs[NC];
static int hudata[NC][8];
static struct tree { int kind, n; cypher_astnode_t *ast; cypher_parse_result_t *res;
    cypher_parse_segment_t *seg; N *node[NN]; } trees[NT];
static char vals[64];
static char rel[1 << 16]; static size_t nrel;
static int bad;

static void index_tree(struct tree *t, N *n)
{
    if (t->n < NN) t->node[t->n] = n;
    t->n++;
    for (unsigned i = 0; i < cypher_astnode_nchildren(n); ++i) index_tree(t, cypher_astnode_get_child(n, i));
}
static long node_no(N *n)
{
    for (int t = 0; t < NT; ++t) for (int k = 0; k < trees[t].n && k < NN; ++k)
        if (trees[t].kind && trees[t].node[k] == n) return t * 10 + k;
    return -1;
}
static void told(int h, void *u, N *n, void *v)
{
    int c = (int)((int *)u - &hudata[0][0]) / 8, uh = (int)((int *)u - &hudata[0][0]) % 8;
    if (uh != h) bad = 1;
    /* the node is still a node */
    if (cypher_astnode_typestr(cypher_astnode_type(n)) == NULL) bad = 1;
    nrel += (size_t)snprintf(rel + nrel, sizeof rel - nrel, "%s[%d,%d,%ld,%ld]", nrel ? "," : "", c, h, node_no(n), (long)((char *)v - vals));
}
static void h1(void *u, N *n, void *v) { told(1, u, n, v); }
static void h2(void *u, N *n, void *v) { told(2, u, n, v); }

static int keep(void *u, cypher_parse_segment_t *s)
{
    cypher_parse_segment_retain(s); *(cypher_parse_segment_t **)u = s; return 0;
}
static const char *text = "RETURN 1;";
static void make_tree(int i)
{
    struct tree *t = &trees[i]; memset(t, 0, sizeof *t);
    struct cypher_input_range r = { { 1, 1, 0 }, { 1, 9, 8 } };
    if (i < 2) {
        cypher_astnode_t *c[2]; c[0] = cypher_ast_integer("1", 1, r); c[1] = cypher_ast_null(r);
        t->ast = cypher_ast_collection(c, 2, c, 2, r); t->kind = 1; index_tree(t, t->ast);
    } else if (i == 2) {
        t->res = cypher_parse(text, NULL, NULL, 0); t->kind = 2; index_tree(t, cypher_parse_result_get_root(t->res, 0));
    } else {
        if (cypher_parse_each(text, keep, &t->seg, NULL, NULL, 0)) bad = 1;
        t->kind = 3; index_tree(t, cypher_parse_segment_get_root(t->seg, 0));
    }
}
/* how: at once, or node by node from the root or from the last */
static void drop_tree(struct tree *t, int how)
{
    if (t->kind == 1 && !how) cypher_ast_free(t->ast);
    if (t->kind == 1 && how) for (int i = 0; i < t->n; ++i) cypher_astnode_free(t->node[how == 1 ? i : t->n - 1 - i]);
    if (t->kind == 2) cypher_parse_result_free(t->res);
    if (t->kind == 3) cypher_parse_segment_release(t->seg);
    t->kind = 0; t->n = 0;
}
static N *nd(int g) { return g == 99 ? NULL : trees[g / 10].node[g % 10]; }
static cypher_ast_annotation_context_t *cx(int c) { return c == 99 ? NULL : ctxs[c]; }
static void *vl(int v) { return v ? vals + v : NULL; }
static long vn(void *p) { return p ? (long)((char *)p - vals) : 0; }

static char line[1 << 16];
int main(void)
{
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        char *s = strstr(line, " s="), *sv; *s = 0; s += 3;
        printf("{\"id\":\"%s\",\"sizes\":[", line + 3);
        memset(trees, 0, sizeof trees); memset(ctxs, 0, sizeof ctxs); bad = 0;
        for (int i = 0; i < 4; ++i) { make_tree(i); printf(i ? ",%d" : "%d", trees[i].n); drop_tree(&trees[i], 0); }
        printf("],\"steps\":[");
        int first = 1;
        for (char *a = strtok_r(s, ",", &sv); a; a = strtok_r(NULL, ",", &sv)) {
            int g[4] = { 0, 0, 0, 0 }, ret = 0; long val = 0;
            sscanf(a + 1, ".%d.%d.%d.%d", g, g + 1, g + 2, g + 3);
            nrel = 0; rel[0] = 0; errno = 0;
            switch (a[0]) {
            case 'C': ctxs[g[0]] = cypher_ast_annotation_context(); ret = ctxs[g[0]] == NULL; break;
            case 'F': cypher_ast_annotation_context_free(ctxs[g[0]]); ctxs[g[0]] = NULL; break;
            case 'H': cypher_ast_annotation_context_set_release_handler(ctxs[g[0]], g[1] == 1 ? h1 : g[1] == 2 ? h2 : NULL,
                              &hudata[g[0]][g[1]]); break;
            case 'T': make_tree(g[0]); break;
            case 'K': { struct tree *f = &trees[g[0]], *t = &trees[g[1]]; memset(t, 0, sizeof *t);
                t->ast = cypher_ast_clone(f->node[0]); t->kind = 1; index_tree(t, t->ast); ret = t->ast == NULL; break; }
            case 'U': drop_tree(&trees[g[0]], g[1]); break;
            case 'A': { void *prev = vals + 63;
                int rc = cypher_astnode_attach_annotation(cx(g[0]), nd(g[1]), vl(g[2]), g[3] ? &prev : NULL);
                ret = rc == 0 ? 0 : rc == -1 && errno == EINVAL ? 1 : 2; val = rc == 0 && g[3] ? vn(prev) : 0; break; }
            case 'G': val = vn(cypher_astnode_get_annotation(cx(g[0]), nd(g[1]))); ret = val == 0 && errno == EINVAL; break;
            case 'R': val = vn(cypher_astnode_remove_annotation(cx(g[0]), nd(g[1]))); ret = val == 0 && errno == EINVAL; break;
            }
            printf("%s[%d,%ld,[%s]]", first ? "" : ",", ret, val, rel); first = 0;
        }
        printf("],\"end\":["); first = 1;
        for (int c = 0; c < NC; ++c) for (int t = 0; t < NT; ++t) for (int k = 0; k < trees[t].n; ++k) if (ctxs[c] && trees[t].kind) {
            long v = vn(cypher_astnode_get_annotation(ctxs[c], trees[t].node[k]));
            if (v) { printf("%s[%d,%d,%ld]", first ? "" : ",", c, t * 10 + k, v); first = 0; }
        }
        nrel = 0; rel[0] = 0;
        if (line[strlen(line) - 1] & 1) for (int t = 0; t < NT; ++t) { if (trees[t].kind) drop_tree(&trees[t], 0); }
        for (int c = 0; c < NC; ++c) { cypher_ast_annotation_context_free(ctxs[c]); ctxs[c] = NULL; }
        for (int t = 0; t < NT; ++t) if (trees[t].kind) drop_tree(&trees[t], 0);
        printf("],\"bad\":%d}\n", bad);
        fflush(stdout);
    }
    return 0;
}
