/* Runs an operation again and again, refusing it its first, second, ... allocation (or that and
 * every later one), and records what is seen each time, for spec/Faults.tla.
 * A job: id=.. op=.. hex=.. [mode=once|from] [flags=] [from=k] [to=k] [step=n]
 * Output: {"id":..,"n":segments,"asked":..,"tried":..,"traces":[[events,count,first k],..]} */
#define _GNU_SOURCE
#include "dump.h"
#include "wrap.h"

static char line[1 << 22];
static unsigned char input[1 << 21]; static size_t ninput;
static char id[64], op[32], mode[16];
static uint_fast32_t flags;
static long kfrom, kto, kstep;

/* ---- digests of what is observed */
typedef unsigned long D;
static D mix(D h, const void *p, size_t n) { const unsigned char *c = p; while (n--) { h ^= *c++; h *= 1099511628211ul; } return h; }
static D mixs(D h, const char *s) { return s ? mix(h, s, strlen(s) + 1) : mix(h, "\1\2", 2); }
static D mixl(D h, long v) { return mix(h, &v, sizeof v); }
static D mixp(D h, struct cypher_input_position p) { return mixl(mixl(mixl(h, p.line), p.column), (long)p.offset); }
static D node_digest(D h, N *n)
{
    struct cypher_input_range r = cypher_astnode_range(n);
    h = mixs(h, cypher_astnode_typestr(cypher_astnode_type(n)));
    h = mixp(mixp(h, r.start), r.end);
    unsigned c = cypher_astnode_nchildren(n); h = mixl(h, c);
    for (unsigned i = 0; i < c; ++i) h = node_digest(h, cypher_astnode_get_child(n, i));
    return h;
}
static D error_digest(D h, const cypher_parse_error_t *e)
{
    h = mixp(h, cypher_parse_error_position(e));
    h = mixs(h, cypher_parse_error_message(e)); h = mixs(h, cypher_parse_error_context(e));
    return mixl(h, (long)cypher_parse_error_context_offset(e));
}
static D print_digest(D h, const cypher_parse_segment_t *s, const cypher_parse_result_t *r, N *a)
{
    char *b = NULL; size_t n = 0; FILE *m = open_memstream(&b, &n);
    int rc = s ? cypher_parse_segment_fprint_ast(s, m, 0, NULL, 0) : r ? cypher_parse_result_fprint_ast(r, m, 0, NULL, 0) : cypher_ast_fprint(a, m, 0, NULL, 0);
    fclose(m); h = mixl(mix(h, b, n), rc); __real_free(b);
    return h;
}
static D seg_digest(const cypher_parse_segment_t *s)
{
    D h = 14695981039346656037ul; struct cypher_input_range r = cypher_parse_segment_get_range(s);
    h = mixp(mixp(h, r.start), r.end);
    h = mixl(mixl(h, cypher_parse_segment_is_eof(s)), cypher_parse_segment_nnodes(s));
    unsigned n = cypher_parse_segment_nerrors(s); h = mixl(h, n);
    for (unsigned i = 0; i < n; ++i) h = error_digest(h, cypher_parse_segment_get_error(s, i));
    n = cypher_parse_segment_nroots(s); h = mixl(h, n);
    for (unsigned i = 0; i < n; ++i) h = node_digest(h, cypher_parse_segment_get_root(s, i));
    N *d = cypher_parse_segment_get_directive(s);
    return print_digest(d ? node_digest(h, d) : h, s, NULL, NULL);
}
static D result_digest(const cypher_parse_result_t *r)
{
    D h = 14695981039346656037ul; unsigned n;
    h = mixl(mixl(h, cypher_parse_result_eof(r)), cypher_parse_result_nnodes(r));
    n = cypher_parse_result_nerrors(r); h = mixl(h, n);
    for (unsigned i = 0; i < n; ++i) h = error_digest(h, cypher_parse_result_get_error(r, i));
    n = cypher_parse_result_nroots(r); h = mixl(h, n);
    for (unsigned i = 0; i < n; ++i) h = node_digest(h, cypher_parse_result_get_root(r, i));
    n = cypher_parse_result_ndirectives(r); h = mixl(h, n);
    for (unsigned i = 0; i < n; ++i) h = node_digest(h, cypher_parse_result_get_directive(r, i));
    return print_digest(h, NULL, r, NULL);
}

/* ---- the trace */
static char ev[1 << 16]; static size_t nev;
static int overflow;
static void e(const char *f, ...)
{
    va_list a; va_start(a, f);
    if (nev + 128 > sizeof ev) overflow = 1;
    else { if (nev) ev[nev++] = ','; nev += (size_t)vsnprintf(ev + nev, sizeof ev - nev, f, a); }
    va_end(a);
}
static long noted; /* refusals already in the trace */
static void note_refusal(void) { if (refused > noted) { noted = refused; e("[\"R\"]"); } }

#define MAXSEG 4096
static D base[MAXSEG]; static long nbase, nseen; static int basing;
static cypher_parse_segment_t *kept[MAXSEG]; static int keep;
static void see(D d)
{
    if (basing) { if (nbase < MAXSEG) base[nbase++] = d; }
    else e("[\"D\",%ld,%d]", nseen, nseen < nbase && base[nseen] == d);
    ++nseen;
}
static int on_segment(void *u, cypher_parse_segment_t *s)
{
    (void)u; int a = armed; armed = 0;
    note_refusal();
    if (keep && nseen < MAXSEG) { cypher_parse_segment_retain(s); kept[nseen] = s; }
    see(seg_digest(s));
    errno = 0; armed = a;
    return 0;
}
static int on_quick(void *u, const cypher_quick_parse_segment_t *s)
{
    (void)u; int a = armed; armed = 0;
    note_refusal();
    size_t n; const char *t = cypher_quick_parse_segment_get_text(s, &n);
    D h = mix(14695981039346656037ul, t, n); struct cypher_input_range r = cypher_quick_parse_segment_get_range(s);
    h = mixp(mixp(mixp(h, r.start), r.end), cypher_quick_parse_segment_get_next(s));
    h = mixl(mixl(mixl(h, cypher_quick_parse_segment_is_statement(s)), cypher_quick_parse_segment_is_command(s)), cypher_quick_parse_segment_is_eof(s));
    see(h);
    errno = 0; armed = a;
    return 0;
}

static cypher_parse_result_t *calm_result;  /* the tree the other operations work on */
static N *root0; static long nnodes; static N *nodes[4096];
static void collect(N *n)
{
    if (nnodes < 4096) nodes[nnodes++] = n;
    for (unsigned i = 0; i < cypher_astnode_nchildren(n); ++i) collect(cypher_astnode_get_child(n, i));
}
static FILE *stream(void) { return fmemopen(ninput ? input : (unsigned char *)" ", ninput ? ninput : 1, "r"); }
static void finish(int ok, int err, D d)
{
    note_refusal();
    if (ok && basing) { base[0] = d; nbase = 0; }
    if (basing) return;
    e("[\"E\",%d,%d,%d]", ok ? 0 : -1, ok ? 0 : err, ok ? base[0] == d : 1);
}

static void notes_step(cypher_ast_annotation_context_t *c, int *vals, long *held, long i, int v)
{
    /* v: 0 removes, else attaches */
    int rc, er = 0; errno = 0;
    if (v) rc = cypher_astnode_attach_annotation(c, nodes[i], &vals[v], NULL);
    else { rc = 0; if (cypher_astnode_remove_annotation(c, nodes[i])) rc = 0; }
    er = errno;
    armed = 0;
    note_refusal();
    if (!basing) e("[\"S\",%ld,%d,%d,%d]", i, v, rc, rc ? er : 0);
    if (!rc) held[i] = v;
    if (!basing) {
        char b[1024]; size_t n = 0;
        for (long j = 0; j < nnodes && n < 900; ++j) {
            int *p = cypher_astnode_get_annotation(c, nodes[j]);
            n += (size_t)sprintf(b + n, "%s%ld", j ? "," : "", p ? (long)(p - vals) : 0L);
        }
        e("[\"V\",[%s]]", b);
    }
    armed = 1;
}

/* one attempt; the library is armed on entry to it and disarmed on return */
static void attempt(long k, int on)
{
    long before = live;
    nseen = 0; noted = 0;
    if (!basing) e("[\"T\"]");
    if (!strcmp(op, "each") || !strcmp(op, "feach") || !strcmp(op, "keep")) {
        FILE *f = op[0] == 'f' ? stream() : NULL;
        keep = op[0] == 'k';
        errno = 0; arm(k, on);
        int rc = f ? cypher_fparse_each(f, on_segment, NULL, NULL, NULL, flags)
                   : cypher_uparse_each((char *)input, ninput, on_segment, NULL, NULL, NULL, flags);
        int er = errno; armed = 0;
        note_refusal();
        if (f) fclose(f);
        if (!basing) e("[\"E\",%d,%d,1]", rc, rc ? er : 0);
        if (keep) {
            long same = 0;
            for (long i = 0; i < nseen && i < MAXSEG; ++i) {
                if (i < nbase && seg_digest(kept[i]) == base[i]) ++same;
                armed = 1; which = 0; cypher_parse_segment_release(kept[i]); armed = 0;
            }
            if (!basing) e("[\"K\",%ld]", same);
        }
    } else if (!strcmp(op, "quick") || !strcmp(op, "fquick")) {
        FILE *f = op[0] == 'f' ? stream() : NULL;
        errno = 0; arm(k, on);
        int rc = f ? cypher_quick_fparse(f, on_quick, NULL, flags) : cypher_quick_uparse((char *)input, ninput, on_quick, NULL, flags);
        int er = errno; armed = 0;
        note_refusal();
        if (f) fclose(f);
        if (!basing) e("[\"E\",%d,%d,1]", rc, rc ? er : 0);
    } else if (!strcmp(op, "whole") || !strcmp(op, "fwhole")) {
        FILE *f = op[0] == 'f' ? stream() : NULL;
        errno = 0; arm(k, on);
        cypher_parse_result_t *r = f ? cypher_fparse(f, NULL, NULL, flags) : cypher_uparse((char *)input, ninput, NULL, NULL, flags);
        int er = errno; armed = 0;
        if (f) fclose(f);
        finish(r != NULL, er, r ? result_digest(r) : 0);
        if (r) { armed = 1; which = 0; cypher_parse_result_free(r); armed = 0; }
    } else if (!strcmp(op, "clone")) {
        errno = 0; arm(k, on);
        cypher_astnode_t *c = cypher_ast_clone(root0);
        int er = errno; armed = 0;
        finish(c != NULL, er, c ? print_digest(node_digest(7, c), NULL, NULL, c) : 0);
        if (c) { armed = 1; which = 0; cypher_ast_free(c); armed = 0; }
    } else if (!strcmp(op, "print") || !strcmp(op, "aprint")) {
        char *b = NULL; size_t n = 0; FILE *m = open_memstream(&b, &n);
        errno = 0; arm(k, on);
        int rc = op[0] == 'a' ? cypher_ast_fprint(root0, m, 0, NULL, 0) : cypher_parse_result_fprint_ast(calm_result, m, 0, NULL, 0);
        int er = errno; armed = 0;
        fclose(m);
        finish(rc == 0, er, rc == 0 ? mix(5, b, n) : 0);
        armed = 0; __real_free(b);
    } else if (!strcmp(op, "config")) {
        errno = 0; arm(k, on);
        cypher_parser_config_t *c = cypher_parser_new_config();
        int er = errno; armed = 0;
        finish(c != NULL, er, 0);
        if (c) { armed = 1; which = 0; cypher_parser_config_free(c); armed = 0; }
    } else if (!strcmp(op, "notes")) {
        static int vals[64]; static long held[4096];
        errno = 0; arm(k, on);
        cypher_ast_annotation_context_t *c = cypher_ast_annotation_context();
        int er = errno; armed = 0;
        finish(c != NULL, er, 0);
        if (c) {
            armed = 1;
            for (long i = 0; i < nnodes; ++i) notes_step(c, vals, held, i, 1 + (int)(i % 3));
            for (long i = 0; i < nnodes; i += 2) notes_step(c, vals, held, i, 4);
            for (long i = 0; i < nnodes; i += 3) notes_step(c, vals, held, i, 0);
            for (long i = nnodes - 1; i >= 0; --i) notes_step(c, vals, held, i, 5);
            which = 0; cypher_ast_annotation_context_free(c); armed = 0;
        }
    } else abort();
    if (!basing) e("[\"L\",%ld]", live - before);
}

struct seen { char *t; long n, k; };
static struct seen seen[4096]; static long nseenr;

static void run(void)
{
    nseenr = 0; overflow = 0; nbase = 0;
    calm_result = NULL; root0 = NULL; nnodes = 0; armed = 0;
    int needs = !strcmp(op, "clone") || !strcmp(op, "print") || !strcmp(op, "aprint") || !strcmp(op, "notes");
    if (needs) {
        calm_result = cypher_uparse((char *)input, ninput, NULL, NULL, flags);
        if (!calm_result || !cypher_parse_result_nroots(calm_result)) { printf("{\"id\":\"%s\",\"skip\":true}\n", id); fflush(stdout); if (calm_result) cypher_parse_result_free(calm_result); return; }
        root0 = cypher_parse_result_get_root(calm_result, 0);
        if (!strcmp(op, "notes")) { for (unsigned i = 0; i < cypher_parse_result_nroots(calm_result); ++i) collect(cypher_parse_result_get_root(calm_result, i)); if (nnodes > 12) nnodes = 12; }
    }
    snprintf(plan, sizeof plan, "\nPLAN job %s: nothing refused\n", id);
    basing = 1; attempt(0, 0); basing = 0;
    long n = nbase, total = asked, tried = 0;
    for (long k = kfrom ? kfrom : 1; ; k += kstep ? kstep : 1) {
        if (kto && k > kto) break;
        snprintf(plan, sizeof plan, "\nPLAN job %s: allocation %ld%s refused\n", id, k, mode[0] == 'f' ? " and later" : "");
        nev = 0;
        attempt(k, mode[0] == 'f');
        long r = refused;
        if (r) {
            snprintf(plan, sizeof plan, "\nPLAN job %s: again, after allocation %ld was refused\n", id, k);
            attempt(0, 0);
        }
        ++tried;
        ev[nev] = 0;
        long i;
        for (i = 0; i < nseenr; ++i) if (!strcmp(seen[i].t, ev)) { ++seen[i].n; break; }
        if (i == nseenr) {
            if (nseenr == 4096) { overflow = 1; break; }
            seen[nseenr].t = strdup(ev); seen[nseenr].n = 1; seen[nseenr++].k = k;
        }
        if (!r) break;
    }
    printf("{\"id\":\"%s\",\"n\":%ld,\"nodes\":%ld,\"asked\":%ld,\"tried\":%ld,\"overflow\":%d,\"traces\":[", id, n, nnodes, total, tried, overflow);
    for (long i = 0; i < nseenr; ++i) { printf("%s[[%s],%ld,%ld]", i ? "," : "", seen[i].t, seen[i].n, seen[i].k); free(seen[i].t); }
    printf("]}\n"); fflush(stdout);
    if (calm_result) cypher_parse_result_free(calm_result);
}

static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
int main(void)
{
    WATCH();
    while (fgets(line, sizeof line, stdin)) {
        ninput = 0; flags = 0; kfrom = kto = kstep = 0; strcpy(mode, "once"); strcpy(op, "each");
        for (char *w = strtok(line, " \n"); w; w = strtok(NULL, " \n")) {
            char *v = strchr(w, '=');
            if (!v) continue;
            *v++ = 0;
            if (!strcmp(w, "id")) snprintf(id, sizeof id, "%s", v);
            else if (!strcmp(w, "op")) snprintf(op, sizeof op, "%s", v);
            else if (!strcmp(w, "mode")) snprintf(mode, sizeof mode, "%s", v);
            else if (!strcmp(w, "hex")) for (; v[0] && v[1]; v += 2) input[ninput++] = (unsigned char)(hexv(v[0]) * 16 + hexv(v[1]));
            else if (!strcmp(w, "flags")) flags = (uint_fast32_t)atoi(v);
            else if (!strcmp(w, "from")) kfrom = atol(v);
            else if (!strcmp(w, "to")) kto = atol(v);
            else if (!strcmp(w, "step")) kstep = atol(v);
        }
        run();
    }
    return 0;
}
