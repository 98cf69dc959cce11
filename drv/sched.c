/* Runs several parsing sessions at once, in an order prescribed or at will.
 *
 * A line: mode=each|one|free sched=0,1,1,.. reps=n share=0|1 (the configurations) | job | job ...   (jobs as for parse)
 *   each  a thread for each session, of which one moves at a time: the next named in sched
 *   one   one thread; sessions begin inside the pauses of others, when sched says so
 *   free  a thread for each session, all at once, each repeating its job
 * sched is begun again when used up. Prints the pauses in order and each session's
 * report: {"ev":[[session,kind,k],..],"outs":[..]}. In free mode the reports of a
 * session must be the same every time ("steady").
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#define PER __thread
static __thread FILE *out_;
#undef stdout
#define stdout out_
#define printf(...) fprintf(out_, __VA_ARGS__)
#undef putchar
#define putchar(c) putc(c, out_)
static void pause_(const char *kind, long k);
#define PAUSE(kind, k) pause_(kind, k)
#define NO_MAIN
#include "parse.c"

#define MAXS 8
struct session { char *text, *out; size_t len; sem_t go; int begun, done, steady; };
static struct session SS[MAXS]; static int ns;
static enum { EACH, ONE, FREE } mode;
static int sched[512], nsched, at_, reps;
static FILE *ev; static int nev;
static sem_t back;
static pthread_barrier_t start;
static __thread int me;

static void event(int s, const char *kind, long k)
{
    fprintf(ev, "%s[%d,\"%s\",%ld]", nev++ ? "," : "", s + 1, kind, k + 1);
}
static void session(int s)
{
    struct session *x = &SS[s];
    FILE *o = out_;
    int was = me;
    me = s;
    out_ = open_memstream(&x->out, &x->len);
    parse_job(x->text);
    run();
    fclose(out_);
    out_ = o; me = was;
}
/* configurations that sessions share: one for each that is asked for */
static struct { struct job j; cypher_parser_config_t *c; } shared[MAXS]; static int nshared;
static pthread_mutex_t sharing = PTHREAD_MUTEX_INITIALIZER;
static cypher_parser_config_t *share(void)
{
    int i = 0;
    pthread_mutex_lock(&sharing);
    while (i < nshared && (shared[i].j.ord != J.ord || shared[i].j.color != J.color || memcmp(&shared[i].j.pos, &J.pos, sizeof J.pos))) ++i;
    if (i == nshared) { shared[i].j = J; shared[i].c = make_config(); ++nshared; }
    pthread_mutex_unlock(&sharing);
    return shared[i].c;
}
static int left(void) { int n = 0; for (int i = 0; i < ns; ++i) n += !SS[i].done; return n; }
static int next_(void) { int s = nsched ? sched[at_ % nsched] : 0; ++at_; return s; }

static void begin(int s);
static void pause_(const char *kind, long k)
{
    if (mode == FREE) return;
    event(me, kind, k);
    if (mode == EACH) { sem_post(&back); while (sem_wait(&SS[me].go)) ; return; }
    for (int spent = 0; spent <= nsched; ++spent) {
        int s = next_();
        if (s == me) return;
        if (s < ns && !SS[s].begun) begin(s);    /* one that is below or has ended cannot move */
    }
}
static void begin(int s)
{
    struct job j = J; struct stream st = ST; long n = nsegs, b = base;
    SS[s].begun = 1;
    session(s);
    SS[s].done = 1;
    event(s, "end", 0);
    J = j; ST = st; nsegs = n; base = b;
}
static void *thread(void *p)
{
    int s = (int)((struct session *)p - SS);
    if (mode == EACH) {
        while (sem_wait(&SS[s].go)) ;
        session(s);
        SS[s].done = 1; event(s, "end", 0);
        free(map_node); free(hidx);
        sem_post(&back);
        return NULL;
    }
    pthread_barrier_wait(&start);
    char *text = strdup(SS[s].text), *first = NULL; size_t len = 0;
    SS[s].steady = 1;
    for (int i = 0; i < reps; ++i) {
        strcpy(SS[s].text, text);
        session(s);
        if (!first) { first = SS[s].out; len = SS[s].len; continue; }
        if (len != SS[s].len || memcmp(first, SS[s].out, len)) { SS[s].steady = 0; free(first); first = SS[s].out; len = SS[s].len; break; }
        free(SS[s].out);
    }
    SS[s].out = first; SS[s].len = len;
    free(text); free(map_node); free(hidx);
    return NULL;
}

static void all(void)
{
    pthread_t t[MAXS];
    if (mode == ONE) {
        while (left()) {
            int s = next_();
            if (s < ns && !SS[s].begun) begin(s);
        }
        return;
    }
    if (mode == FREE) pthread_barrier_init(&start, NULL, (unsigned)ns);
    sem_init(&back, 0, 0);
    for (int i = 0; i < ns; ++i) {
        sem_init(&SS[i].go, 0, 0);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 64u << 20);
        if (pthread_create(&t[i], &a, thread, &SS[i])) abort();
        pthread_attr_destroy(&a);
    }
    if (mode == EACH)
        while (left()) {
            int s = next_();
            if (s >= ns || SS[s].done) continue;
            sem_post(&SS[s].go);
            while (sem_wait(&back)) ;
        }
    for (int i = 0; i < ns; ++i) pthread_join(t[i], NULL);
    if (mode == FREE) pthread_barrier_destroy(&start);
}

int main(void)
{
    char *text = malloc(LINE_MAX_);
#undef stdout
    out_ = stdout;
    FILE *o = stdout;
    while (fgets(text, LINE_MAX_, stdin)) {
        char *tok = NULL, *id = NULL;
        memset(SS, 0, sizeof SS);
        ns = nsched = at_ = nev = 0; mode = EACH; reps = 1; common = NULL;
        char *head = strtok_r(text, "|\n", &tok);
        for (char *j; ns < MAXS && (j = strtok_r(NULL, "|\n", &tok)) != NULL; ) SS[ns++].text = j;
        tok = NULL;
        for (char *w = strtok_r(head, " ", &tok); w; w = strtok_r(NULL, " ", &tok)) {
            char *v = strchr(w, '=');
            if (!v) continue;
            *v++ = 0;
            if (!strcmp(w, "id")) id = v;
            else if (!strcmp(w, "mode")) mode = !strcmp(v, "one") ? ONE : !strcmp(v, "free") ? FREE : EACH;
            else if (!strcmp(w, "share")) common = atoi(v) ? share : NULL;
            else if (!strcmp(w, "reps")) reps = atoi(v);
            else if (!strcmp(w, "sched"))
                for (char *p = v; p && *p && nsched < 512; p = strchr(p, ','), p = p ? p + 1 : p) sched[nsched++] = atoi(p);
        }
        char *evs = NULL; size_t evn = 0;
        ev = open_memstream(&evs, &evn);
        all();
        while (nshared) cypher_parser_config_free(shared[--nshared].c);
        fclose(ev);
        fprintf(o, "{\"id\":\"%s\",\"ev\":[%s],\"steady\":[", id ? id : "", evs);
        free(evs);
        for (int i = 0; i < ns; ++i) fprintf(o, i ? ",%d" : "%d", SS[i].steady);
        fprintf(o, "],\"outs\":[");
        for (int i = 0; i < ns; ++i) {
            if (SS[i].out && SS[i].len && SS[i].out[SS[i].len - 1] == '\n') SS[i].out[SS[i].len - 1] = 0;
            fprintf(o, "%s%s", i ? "," : "", SS[i].out ? SS[i].out : "null");
            free(SS[i].out);
        }
        fprintf(o, "]}\n"); fflush(o);
    }
    free(text); free(map_node); free(hidx);
    return 0;
}
