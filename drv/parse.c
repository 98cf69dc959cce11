/* Parses the jobs given on stdin and reports what the public interface shows.
 *
 * A job is one line of key=value words:
 *   id=..  hex=..(input)  api=each|result|quick  src=str|file  chunks=n,n,..
 *   flags=n ord=n off=n line=n col=n  color=0|1|2  render=w,w,..  cb=k:v  last=0|1
 *   cfg=0|1 (pass a configuration)  retain=1  lean=1 (no node table)
 *   rooms=n,n,.. (also renders to where there is only so much room)
 *   clone=1 (nodes are those of copies, which outlive the segments)
 * chunks are the sizes in which a stream hands out its input (the last repeats);
 * cb makes the k-th callback return v.
 */
#define _GNU_SOURCE
#include "dump.h"

#ifndef PAUSE   /* what a driver of several sessions does at a read or after a segment */
#define PAUSE(kind, k) ((void)0)
#endif
#define LINE_MAX_ (1 << 24)
static char *line;

struct job {
    char id[128]; const char *api, *src;
    size_t n; unsigned flags; long ord; struct cypher_input_position pos;
    int color, cfg, last, retain, lean, clone;
    long chunks[64]; int nchunks; int renders[16]; int nrenders; int rooms[64]; int nrooms; long cbk; int cbv;
    int has_cb, failat; unsigned char *input;
};
static PER struct job J;

struct stream { size_t at; int turn; long reads; size_t handed; };
static PER struct stream ST;
static ssize_t st_read(void *c, char *buf, size_t size)
{
    struct stream *s = c;
    PAUSE("read", s->reads);
    long k = J.nchunks ? J.chunks[s->turn < J.nchunks ? s->turn : J.nchunks - 1] : (long)size;
    s->turn++; s->reads++;
    if (J.failat >= 0 && s->at >= (size_t)J.failat) { errno = EIO; return -1; }
    size_t left = J.n - s->at;
    if (J.failat >= 0 && left > (size_t)J.failat - s->at) left = (size_t)J.failat - s->at;
    if ((size_t)k > size) k = (long)size;
    if ((size_t)k > left) k = (long)left;
    memcpy(buf, J.input + s->at, (size_t)k);
    s->at += (size_t)k;
    return k;
}
static FILE *open_stream(void)
{
    cookie_io_functions_t f = { .read = st_read };
    memset(&ST, 0, sizeof ST);
    return fopencookie(&ST, "r", f);
}

static const struct cypher_parser_colorization marks = {
    .normal = { "<n>", "</n>" }, .error = { "<e>", "</e>" },
    .error_token = { "<t>", "</t>" }, .error_message = { "<m>", "</m>" },
    .ast_ordinal = { "<o>", "</o>" }, .ast_range = { "<r>", "</r>" },
    .ast_indent = { "<i>", "</i>" }, .ast_type = { "<y>", "</y>" },
    .ast_desc = { "<d>", "</d>" } };
static const struct cypher_parser_colorization *color(void)
{
    return J.color == 1 ? cypher_parser_ansi_colorization : J.color == 2 ? &marks :
        cypher_parser_no_colorization;
}
/* for rendering, where no scheme means no colours */
static const struct cypher_parser_colorization *paint(void) { return !J.color && J.n % 2 ? NULL : color(); }

/* renders to something with room for so many bytes only, or (when negative) that refuses the so-manieth write */
struct sink { size_t room, n, refuse; char *at; };
static ssize_t sink_write(void *c, const char *b, size_t n)
{
    struct sink *s = c;
    size_t k = n < s->room - s->n ? n : s->room - s->n;
    if (s->refuse && !--s->refuse) k = n / 2;
    memcpy(s->at + s->n, b, k); s->n += k;
    if (k < n) errno = ENOSPC;
    return (ssize_t)k;
}
static void small_rooms(cypher_parse_segment_t *g, cypher_parse_result_t *r)
{
    printf(",\"rooms\":[");
    for (int i = 0; i < J.nrooms; ++i)
        for (int w = 0; w < J.nrenders; ++w) {
            struct sink s = { .room = J.rooms[i] < 0 ? 1 << 16 : (size_t)J.rooms[i], .refuse = J.rooms[i] < 0 ? (size_t)-J.rooms[i] : 0 };
            s.at = malloc(s.room + 1);
            FILE *f = fopencookie(&s, "w", (cookie_io_functions_t){ .write = sink_write });
            setvbuf(f, NULL, _IONBF, 0);
            errno = 0;
            int rc = g ? cypher_parse_segment_fprint_ast(g, f, (unsigned)J.renders[w], paint(), 0)
                       : cypher_parse_result_fprint_ast(r, f, (unsigned)J.renders[w], paint(), 0);
            int e = errno;
            fclose(f);
            printf("%s[%d,%d,%d,%d,", i || w ? "," : "", J.rooms[i], J.renders[w], rc, rc ? e : 0); jbytes(s.at, s.n); putchar(']');
            free(s.at);
        }
    putchar(']');
}
static PER long nsegs, base;
static PER cypher_parse_segment_t *kept[4096]; static PER long nkept; static PER long kept_base[4096];

static PER cypher_astnode_t *copies[65536]; static PER long ncopies;
static char *ast_text(N *n, int width, size_t *len)
{
    char *buf = NULL; FILE *m = open_memstream(&buf, len);
    int rc = cypher_ast_fprint(n, m, (unsigned)width, paint(), 0);
    if (rc) fprintf(m, "rc=%d", rc);
    fclose(m);
    return buf;
}
static char *nodes_text(size_t *len)
{
    char *buf = NULL; FILE *o = stdout; fflush(stdout);
    stdout = open_memstream(&buf, len);
    map_index(); jnodes();
    fclose(stdout); stdout = o;
    return buf;
}
/* copies of the roots, dumped before and after their originals are gone */
struct copied { long at, n, base; char *text; size_t len; };
static PER struct copied cps[4096]; static PER long ncps;
static void dump_copies(const cypher_parse_segment_t *g, long b)
{
    struct copied *c = &cps[ncps++];
    c->at = ncopies; c->base = b;
    unsigned nroots = cypher_parse_segment_nroots(g);
    bool same = true;
    for (unsigned i = 0; i < nroots; ++i) {
        N *r = cypher_parse_segment_get_root(g, i);
        cypher_astnode_t *k = cypher_ast_clone(r);
        if (!k) { printf(",\"clone-failed\":%d", errno); continue; }
        copies[ncopies++] = k;
        for (int w = -1; w < J.nrenders; ++w) {
            size_t l1 = 0, l2 = 0; char *t1 = ast_text(r, w < 0 ? 0 : J.renders[w], &l1), *t2 = ast_text(k, w < 0 ? 0 : J.renders[w], &l2);
            if (l1 != l2 || memcmp(t1, t2, l1)) same = false;
            free(t1); free(t2);
        }
    }
    c->n = ncopies - c->at;
    map_reset(b);
    for (long i = 0; i < c->n; ++i) map_add(copies[c->at + i]);
    c->text = nodes_text(&c->len);
    printf(",%s,\"clone-renders-same\":%s", c->text, same ? "true" : "false");
}
static void check_copies(void)
{
    bool same = true;
    for (long k = 0; k < ncps; ++k) {
        struct copied *c = &cps[k];
        map_reset(c->base);
        for (long i = 0; i < c->n; ++i) map_add(copies[c->at + i]);
        size_t l = 0; char *t = nodes_text(&l);
        if (l != c->len || memcmp(t, c->text, l)) same = false;
        free(t); free(c->text);
        /* the copy may be freed whole, or node by node */
        if (k & 1) for (long i = map_n - 1; i >= 0; --i) cypher_astnode_free((cypher_astnode_t *)(size_t)map_node[i]);
        else for (long i = 0; i < c->n; ++i) cypher_ast_free(copies[c->at + i]);
    }
    printf(",\"clones-outlive\":%s", same ? "true" : "false");
    ncps = ncopies = 0;
}

static void dump_segment(const cypher_parse_segment_t *g, long b)
{
    struct cypher_input_range r = cypher_parse_segment_get_range(g);
    unsigned nroots = cypher_parse_segment_nroots(g), nerr = cypher_parse_segment_nerrors(g);
    map_reset(b);
    for (unsigned i = 0; i < nroots; ++i) map_add(cypher_parse_segment_get_root(g, i));
    printf("{\"h\":%zu,", ST.at); map_index();
    printf("\"start\":"); jpos(r.start); printf(",\"end\":"); jpos(r.end);
    printf(",\"eof\":%s,\"directive\":%ld,\"nnodes\":%u,\"roots\":[",
            cypher_parse_segment_is_eof(g) ? "true" : "false",
            ord(cypher_parse_segment_get_directive(g)), cypher_parse_segment_nnodes(g));
    for (unsigned i = 0; i < nroots; ++i)
        printf(i ? ",%ld" : "%ld", ord(cypher_parse_segment_get_root(g, i)));
    printf("],\"errors\":[");
    for (unsigned i = 0; i < nerr; ++i) {
        if (i) putchar(',');
        jerror(cypher_parse_segment_get_error(g, i));
    }
    printf("]");
    if (cypher_parse_segment_get_root(g, nroots) || cypher_parse_segment_get_error(g, nerr))
        printf(",\"past-end\":true");
    if (J.clone) dump_copies(g, b);
    else if (!J.lean) { putchar(','); jnodes(); }
    for (int i = 0; i < J.nrenders; ++i) {
        char *buf = NULL; size_t len = 0; FILE *m = open_memstream(&buf, &len);
        int rc = cypher_parse_segment_fprint_ast(g, m, (unsigned)J.renders[i], paint(), 0);
        fclose(m);
        printf(",\"render%d\":", J.renders[i]);
        if (rc) printf("\"rc=%d\"", rc); else jbytes(buf, len);
        free(buf);
    }
    if (J.nrooms) small_rooms(g, NULL);
    printf("}");
}
static int on_segment(void *u, cypher_parse_segment_t *g)
{
    (void)u;
    if (J.retain && nkept < 4096) {
        cypher_parse_segment_retain(g); kept[nkept] = g; kept_base[nkept++] = base;
    } else {
        if (nsegs) putchar(',');
        dump_segment(g, base);
    }
    base += cypher_parse_segment_nnodes(g);
    long k = nsegs++;
    PAUSE("seg", k);
    return (J.has_cb && k == J.cbk) ? J.cbv : 0;
}
static int on_quick(void *u, const cypher_quick_parse_segment_t *g)
{
    (void)u;
    size_t n = 0; const char *t = cypher_quick_parse_segment_get_text(g, &n);
    struct cypher_input_range r = cypher_quick_parse_segment_get_range(g);
    if (nsegs) putchar(',');
    printf("{\"kind\":\"%s\",\"start\":", cypher_quick_parse_segment_is_statement(g) ?
            (cypher_quick_parse_segment_is_command(g) ? "both" : "statement") :
            cypher_quick_parse_segment_is_command(g) ? "command" : "neither");
    jpos(r.start); printf(",\"end\":"); jpos(r.end);
    printf(",\"next\":"); jpos(cypher_quick_parse_segment_get_next(g));
    printf(",\"eof\":%s,\"text\":", cypher_quick_parse_segment_is_eof(g) ? "true" : "false");
    jbytes(t, n); printf(",\"h\":%zu", ST.at);
    printf("}");
    long k = nsegs++;
    PAUSE("seg", k);
    return (J.has_cb && k == J.cbk) ? J.cbv : 0;
}

static PER cypher_parser_config_t **given;   /* the configuration to use instead */
static cypher_parser_config_t *(*common)(void);     /* gives the configuration that is used by several */
static cypher_parser_config_t *make_config(void)
{
    cypher_parser_config_t *cfg = cypher_parser_new_config(); if (!cfg) abort();
    cypher_parser_config_set_initial_position(cfg, J.pos);
    cypher_parser_config_set_initial_ordinal(cfg, (unsigned)J.ord);
    if (J.color) cypher_parser_config_set_error_colorization(cfg, color());
    return cfg;
}
static void run(void)
{
    memset(&ST, 0, sizeof ST);
    printf("{\"id\":\"%s\",", J.id);
    FILE *f = NULL;
    int isfile = !strcmp(J.src, "file");
    /* an exact-size copy, so that reading past the end is caught */
    char *copy = NULL;
    if (isfile) { f = open_stream(); if (!f) abort(); }
    else { copy = malloc(J.n ? J.n : 1); memcpy(copy, J.input, J.n); }
    /* some of those that can be are given as strings that end with a NUL */
    int isz = !isfile && J.n % 4 == 3 && !memchr(J.input, 0, J.n);
    if (isz) { copy = realloc(copy, J.n + 1); copy[J.n] = 0; }
    cypher_parser_config_t *own = NULL, *cfg = given ? *given : NULL;
    if (J.cfg && !given) {
        if (common) cfg = common();
        else own = cfg = make_config();
    }
    struct cypher_input_position last = { .line = 4242, .column = 4242, .offset = 4242 };
    nsegs = 0; nkept = 0; base = J.cfg ? J.ord : 0;
    int rc = 0; errno = 0;
    if (!strcmp(J.api, "each")) {
        printf("\"segs\":[");
        rc = isfile ? cypher_fparse_each(f, on_segment, NULL, J.last ? &last : NULL, cfg, J.flags)
                    : isz ? cypher_parse_each(copy, on_segment, NULL, J.last ? &last : NULL, cfg, J.flags)
                    : cypher_uparse_each(copy, J.n, on_segment, NULL, J.last ? &last : NULL, cfg, J.flags);
        int e = errno;
        if (J.retain) {
            free(copy); copy = NULL;
            if (f) { fclose(f); f = NULL; }
            cypher_parser_config_free(given ? *given : own);
            if (given) *given = NULL;
            cfg = own = NULL;
            for (long i = 0; i < nkept; ++i) {
                if (i) putchar(',');
                dump_segment(kept[i], kept_base[i]);
                cypher_parse_segment_release(kept[i]);
            }
        }
        printf("],\"rc\":%d,\"errno\":%d,\"calls\":%ld", rc, rc ? e : 0, nsegs);
        if (J.clone) check_copies();
    } else if (!strcmp(J.api, "quick")) {
        printf("\"segs\":[");
        rc = isfile ? cypher_quick_fparse(f, on_quick, NULL, J.flags)
                    : isz ? cypher_quick_parse(copy, on_quick, NULL, J.flags)
                    : cypher_quick_uparse(copy, J.n, on_quick, NULL, J.flags);
        int e = errno;
        printf("],\"rc\":%d,\"errno\":%d,\"calls\":%ld", rc, rc ? e : 0, nsegs);
    } else {
        cypher_parse_result_t *r = isfile ?
            cypher_fparse(f, J.last ? &last : NULL, cfg, J.flags) :
            isz ? cypher_parse(copy, J.last ? &last : NULL, cfg, J.flags) :
            cypher_uparse(copy, J.n, J.last ? &last : NULL, cfg, J.flags);
        int e = errno;
        free(copy); copy = NULL;
        cypher_parser_config_free(own); own = NULL;
        if (!r) printf("\"result\":null,\"errno\":%d", e);
        else {
            printf("\"result\":{");
            unsigned nr = cypher_parse_result_nroots(r), nd = cypher_parse_result_ndirectives(r),
                     ne = cypher_parse_result_nerrors(r);
            map_reset(base);
            for (unsigned i = 0; i < nr; ++i) map_add(cypher_parse_result_get_root(r, i));
            map_index();
            printf("\"eof\":%s,\"nnodes\":%u,\"roots\":[",
                    cypher_parse_result_eof(r) ? "true" : "false", cypher_parse_result_nnodes(r));
            for (unsigned i = 0; i < nr; ++i)
                printf(i ? ",%ld" : "%ld", ord(cypher_parse_result_get_root(r, i)));
            printf("],\"directives\":[");
            for (unsigned i = 0; i < nd; ++i)
                printf(i ? ",%ld" : "%ld", ord(cypher_parse_result_get_directive(r, i)));
            printf("],\"errors\":[");
            for (unsigned i = 0; i < ne; ++i) {
                if (i) putchar(',');
                jerror(cypher_parse_result_get_error(r, i));
            }
            printf("]");
            if (cypher_parse_result_get_root(r, nr) || cypher_parse_result_get_directive(r, nd) ||
                cypher_parse_result_get_error(r, ne)) printf(",\"past-end\":true");
            if (!J.lean) { putchar(','); jnodes(); }
            for (int i = 0; i < J.nrenders; ++i) {
                char *buf = NULL; size_t len = 0; FILE *m = open_memstream(&buf, &len);
                int rr = cypher_parse_result_fprint_ast(r, m, (unsigned)J.renders[i], paint(), 0);
                fclose(m);
                printf(",\"render%d\":", J.renders[i]);
                if (rr) printf("\"rc=%d\"", rr); else jbytes(buf, len);
                free(buf);
            }
            if (J.nrooms) small_rooms(NULL, r);
            printf("}");
            cypher_parse_result_free(r);
        }
    }
    if (J.last) { printf(",\"last\":"); jpos(last); }
    if (isfile) {
        printf(",\"handed\":%zu", ST.at);
        if (f) {
            /* what the stream still holds afterwards */
            long left = 0; int c; J.nchunks = 0; J.failat = -1;
            while ((c = fgetc(f)) != EOF) ++left;
            printf(",\"left\":%ld", left);
        }
    }
    printf("}");
    if (!given) { putchar('\n'); fflush(stdout); }
    if (f) fclose(f);
    free(copy);
    cypher_parser_config_free(own);
}

static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

static void parse_job(char *text)
{
    char *tok = NULL;
    memset(&J, 0, sizeof J);
    J.api = "each"; J.src = "str"; J.pos.line = 1; J.pos.column = 1; J.failat = -1;
    for (char *w = strtok_r(text, " \n", &tok); w; w = strtok_r(NULL, " \n", &tok)) {
        char *v = strchr(w, '=');
        if (!v) continue;
        *v++ = 0;
        if (!strcmp(w, "id")) snprintf(J.id, sizeof J.id, "%s", v);
        else if (!strcmp(w, "hex")) {
            J.input = (unsigned char *)v;   /* in place */
            for (J.n = 0; v[0] && v[1]; v += 2) J.input[J.n++] = (unsigned char)(hexv(v[0]) * 16 + hexv(v[1]));
        }
        else if (!strcmp(w, "api")) J.api = v;
        else if (!strcmp(w, "src")) J.src = v;
        else if (!strcmp(w, "flags")) J.flags = (unsigned)atoi(v);
        else if (!strcmp(w, "ord")) J.ord = atol(v);
        else if (!strcmp(w, "off")) J.pos.offset = strtoul(v, NULL, 10);
        else if (!strcmp(w, "line")) J.pos.line = (unsigned)strtoul(v, NULL, 10);
        else if (!strcmp(w, "col")) J.pos.column = (unsigned)strtoul(v, NULL, 10);
        else if (!strcmp(w, "color")) J.color = atoi(v);
        else if (!strcmp(w, "cfg")) J.cfg = atoi(v);
        else if (!strcmp(w, "last")) J.last = atoi(v);
        else if (!strcmp(w, "retain")) J.retain = atoi(v);
        else if (!strcmp(w, "clone")) J.clone = atoi(v);
        else if (!strcmp(w, "lean")) J.lean = atoi(v);
        else if (!strcmp(w, "failat")) J.failat = atoi(v);
        else if (!strcmp(w, "cb")) { J.has_cb = 1; J.cbk = atol(v); J.cbv = atoi(strchr(v, ':') + 1); }
        else if (!strcmp(w, "chunks"))
            for (char *p = v; p && *p && J.nchunks < 64; p = strchr(p, ','), p = p ? p + 1 : p) J.chunks[J.nchunks++] = atol(p);
        else if (!strcmp(w, "rooms"))
            for (char *p = v; p && *p && J.nrooms < 64; p = strchr(p, ','), p = p ? p + 1 : p) J.rooms[J.nrooms++] = atoi(p);
        else if (!strcmp(w, "render"))
            for (char *p = v; p && *p && J.nrenders < 16; p = strchr(p, ','), p = p ? p + 1 : p) J.renders[J.nrenders++] = atoi(p);
    }
}

#ifndef NO_MAIN
int main(void)
{
    line = malloc(LINE_MAX_);
    while (fgets(line, LINE_MAX_, stdin)) { parse_job(line); run(); }
    free(line);
    free(map_node); free(hidx);
    return 0;
}
#endif
