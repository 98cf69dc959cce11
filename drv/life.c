/* Replays behaviours of spec/SegmentLife.tla.  A job: id=.. s=R,P.0,T.1,N.0,...
 * Output: {"id":..,"steps":[[ret,"segments","copies","result"],..],"bad":".."}: one letter
 * for each thing: - never was, a there, d gone, m partly there. */
#define _GNU_SOURCE
#include "dump.h"
#include <sanitizer/asan_interface.h>
#define NS 3
#define NK 4
struct thing { bool was; void *p[4096]; int np; char *text; size_t len; cypher_parse_segment_t *seg;
    cypher_astnode_t *ast; cypher_parse_result_t *res; };
static struct thing segs[NS + 1], copies[NK], result;
static const char *texts[][2] = {
    { "RETURN 1 /*c*/;\n:help x\nRETURN ?;", "MATCH (n) RETURN n; ? ;" },
    { "MATCH (n:A {k: 'v'}) WHERE n.x = 1 RETURN n AS `m`;\n?? 5;\nCREATE (a)-[:R]->(b) // end", ":a 'b'\nUNWIND [1,2] AS x RETURN x;" },
    { "x; y z;\nFOREACH (i IN [1] | CREATE (n {a: i}))", "?" },
    { "/* a */ ; // b\n; /* c */ /* d */", "// only this\n" },
};
static char *input; static FILE *file; static const char **T;
static char *script; static const char *bad; static int nseg, first, answer;

static void add(struct thing *t, const void *p) { if (p && t->np < 4096) t->p[t->np++] = (void *)(size_t)p; }
static void nodes(struct thing *t, N *n)
{
    add(t, n);
    for (unsigned i = 0; i < cypher_astnode_nchildren(n); ++i) nodes(t, cypher_astnode_get_child(n, i));
}
static void err(struct thing *t, const cypher_parse_error_t *e)
{ add(t, e); add(t, cypher_parse_error_message(e)); add(t, cypher_parse_error_context(e)); }
static char *read_thing(struct thing *t, size_t *len)
{
    char *buf = NULL; FILE *o = stdout; fflush(stdout);
    stdout = open_memstream(&buf, len);
    map_reset(0);
    if (t->seg) {
        struct cypher_input_range r = cypher_parse_segment_get_range(t->seg);
        for (unsigned i = 0; i < cypher_parse_segment_nroots(t->seg); ++i) map_add(cypher_parse_segment_get_root(t->seg, i));
        map_index(); jpos(r.start); jpos(r.end);
        printf("%d %ld %u", cypher_parse_segment_is_eof(t->seg), ord(cypher_parse_segment_get_directive(t->seg)), cypher_parse_segment_nnodes(t->seg));
        for (unsigned i = 0; i < cypher_parse_segment_nerrors(t->seg); ++i) jerror(cypher_parse_segment_get_error(t->seg, i));
        cypher_parse_segment_fprint_ast(t->seg, stdout, 0, NULL, 0);
    } else if (t->res) {
        for (unsigned i = 0; i < cypher_parse_result_nroots(t->res); ++i) map_add(cypher_parse_result_get_root(t->res, i));
        map_index();
        printf("%d %u", cypher_parse_result_eof(t->res), cypher_parse_result_nnodes(t->res));
        for (unsigned i = 0; i < cypher_parse_result_ndirectives(t->res); ++i) printf(" %ld", ord(cypher_parse_result_get_directive(t->res, i)));
        for (unsigned i = 0; i < cypher_parse_result_nerrors(t->res); ++i) jerror(cypher_parse_result_get_error(t->res, i));
        cypher_parse_result_fprint_ast(t->res, stdout, 0, NULL, 0);
    } else { map_add(t->ast); map_index(); cypher_ast_fprint(t->ast, stdout, 0, NULL, 0); }
    jnodes();
    fclose(stdout); stdout = o;
    return buf;
}
static void found(struct thing *t)
{
    t->was = true; t->np = 0; free(t->text);
    if (t->seg) {
        add(t, t->seg);
        for (unsigned i = 0; i < cypher_parse_segment_nroots(t->seg); ++i) nodes(t, cypher_parse_segment_get_root(t->seg, i));
        for (unsigned i = 0; i < cypher_parse_segment_nerrors(t->seg); ++i) err(t, cypher_parse_segment_get_error(t->seg, i));
    } else if (t->res) {
        add(t, t->res);
        for (unsigned i = 0; i < cypher_parse_result_nroots(t->res); ++i) nodes(t, cypher_parse_result_get_root(t->res, i));
        for (unsigned i = 0; i < cypher_parse_result_nerrors(t->res); ++i) err(t, cypher_parse_result_get_error(t->res, i));
    } else nodes(t, t->ast);
    t->text = read_thing(t, &t->len);
}
static int same(struct thing *t)
{
    size_t l = 0; char *s = read_thing(t, &l);
    int r = l == t->len && !memcmp(s, t->text, l);
    free(s);
    return r;
}
static char state(struct thing *t)
{
    if (!t->was) return '-';
    int d = 0;
    for (int i = 0; i < t->np; ++i) d += __asan_address_is_poisoned(t->p[i]) != 0;
    return d == 0 ? 'a' : d == t->np ? 'd' : 'm';
}
static void report(int ret)
{
    char s[NS + 1] = { 0 }, c[NK + 1] = { 0 };
    for (int i = 0; i < NS; ++i) s[i] = state(&segs[i + 1]);
    for (int i = 0; i < NK; ++i) c[i] = state(&copies[i]);
    printf("%s[%d,\"%s\",\"%s\",\"%c\"]", first ? "" : ",", ret, s, c, state(&result)); first = 0;
}
static void copy(N *n, int s)
{
    free(copies[s].text);
    memset(&copies[s], 0, sizeof copies[s]);
    copies[s].ast = cypher_ast_clone(n);
    if (!copies[s].ast) { bad = "a copy could not be made"; return; }
    found(&copies[s]);
}
static int on(void *u, cypher_parse_segment_t *g);
static void parse(int src)
{
    input = strdup(T[0]); nseg = 0;
    cypher_parser_config_t *cfg = cypher_parser_new_config();
    int rc;
    answer = 0;
    if (src) { file = fmemopen(input, strlen(input), "r"); setvbuf(file, NULL, _IONBF, 0);
        rc = cypher_fparse_each(file, on, T, NULL, cfg, 0); }
    else rc = cypher_parse_each(input, on, T, NULL, cfg, 0);
    cypher_parser_config_free(cfg);
    if (rc != (answer < 0 ? answer : 0)) bad = "the parse returned something else";
    report(0);                                /* the last callback returned */
}
/* Does what the script says, until a callback is to return; gives what it is to return. */
static int act(void)
{
    char *a;
    while ((a = strsep(&script, ",")) != NULL) {
        int g[2] = { 0, 0 }, ret = 0;
        sscanf(a + 1, ".%d.%d", g, g + 1);
        switch (a[0]) {
        case 'P': parse(g[0]); continue;       /* its steps were reported */
        case 'N': return answer = g[0];
        case 'T': for (int k = 0; k < g[1]; ++k) cypher_parse_segment_retain(segs[g[0]].seg); break;
        case 'L': for (int k = 0; k < g[1]; ++k) cypher_parse_segment_release(segs[g[0]].seg); break;
        case 'D': ret = same(&segs[g[0]]); break;
        case 'K': copy(cypher_parse_segment_get_root(segs[g[0]].seg, 0), g[1]); break;
        case 'M': copy(cypher_parse_result_get_root(result.res, 0), g[0]); break;
        case 'X': ret = same(&copies[g[0]]); break;
        case 'Y': cypher_ast_free(copies[g[0]].ast); break;
        case 'R': { char *t = strdup(T[1]); result.res = cypher_parse(t, NULL, NULL, 0); free(t);
            if (!result.res) bad = "no result"; else found(&result); break; }
        case 'Q': ret = same(&result); break;
        case 'Z': cypher_parse_result_free(result.res); break;
        case 'I': if (file) fclose(file); file = NULL; memset(input, '#', strlen(input)); free(input); input = NULL; break;
        default: bad = "bad step"; return 1;
        }
        report(ret);
    }
    return 1;
}
static int on(void *u, cypher_parse_segment_t *g)
{
    if (u != (void *)T) bad = "not my data";
    if (++nseg > NS) { bad = "too many segments"; return 1; }
    segs[nseg].seg = g; found(&segs[nseg]);
    report(0);               /* the parse began, or the callback before returned 0 */
    return act();
}
static char line[1 << 16];
int main(void)
{
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        char *v = strstr(line, " v="), *s = strstr(line, " s="); *v = *s = 0;
        T = texts[atoi(v + 3)]; script = s + 3;
        printf("{\"id\":\"%s\",\"steps\":[", line + 3);
        memset(segs, 0, sizeof segs); memset(copies, 0, sizeof copies); memset(&result, 0, sizeof result);
        bad = NULL; first = 1; input = NULL; file = NULL;
        /* everything left is let go of by the steps the check adds */
        act();
        printf("],\"bad\":"); jcstr(bad ? bad : ""); printf("}\n"); fflush(stdout);
        for (int i = 0; i <= NS; ++i) free(segs[i].text);
        for (int i = 0; i < NK; ++i) free(copies[i].text);
        free(result.text);
        if (file) fclose(file);
        free(input);
    }
    return 0;
}
