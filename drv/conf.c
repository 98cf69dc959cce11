/* The life of configurations: does what the script says and reports every parse.
 *   id=..  t=hex,hex,..(documents)  s=step,step,..   (see ConfigLife.tla; a step is a letter and numbers) */
#define NO_MAIN
#include "parse.c"

static char big[1 << 22];
int main(void)
{
    while (fgets(big, sizeof big, stdin)) {
        big[strcspn(big, "\n")] = 0;
        char *t = strstr(big, " t="), *s = strstr(big, " s=");
        *t = *s = 0; t += 3; s += 3;
        unsigned char *doc[64]; size_t len[64]; int nd = 0;
        for (char *d; (d = strsep(&t, ",")) != NULL; ++nd) {
            doc[nd] = (unsigned char *)d; len[nd] = 0;
            for (; d[0] && d[1]; d += 2) doc[nd][len[nd]++] = (unsigned char)(hexv(d[0]) * 16 + hexv(d[1]));
        }
        cypher_parser_config_t *conf[8] = { 0 };
        long ord[8] = { 0 };
        printf("{\"id\":\"%s\",\"steps\":[", big + 3);
        int first = 1;
        for (char *a; (a = strsep(&s, ",")) != NULL; ) {
            long g[5] = { 0 };
            sscanf(a + 1, ".%ld.%ld.%ld.%ld.%ld", g, g + 1, g + 2, g + 3, g + 4);
            cypher_parser_config_t **c = &conf[g[0]];
            struct cypher_input_position at = { .line = (unsigned)g[2], .column = (unsigned)g[3], .offset = (size_t)g[1] };
            switch (a[0]) {
            case 'N': *c = cypher_parser_new_config(); if (!*c) abort(); ord[g[0]] = 0; break;
            case 'F': cypher_parser_config_free(*c); *c = NULL; break;
            case 'P': cypher_parser_config_set_initial_position(*c, at); break;
            case 'O': cypher_parser_config_set_initial_ordinal(*c, (unsigned)g[1]); ord[g[0]] = g[1]; break;
            case 'G': cypher_parser_config_set_initial_position(*c, at);
                      cypher_parser_config_set_initial_ordinal(*c, (unsigned)g[4]); ord[g[0]] = g[4]; break;
            case 'C': J.color = (int)g[1]; cypher_parser_config_set_error_colorization(*c, color()); break;
            case 'U':
                memset(&J, 0, sizeof J);
                J.failat = -1; J.last = 1; J.nrenders = 1; J.cfg = 1; J.ord = ord[g[0]];
                J.api = g[2] == 1 ? "result" : "each"; J.src = g[2] == 2 ? "file" : "str"; J.retain = g[2] == 3;
                J.input = doc[g[1] - 1]; J.n = len[g[1] - 1];
                given = c;
                if (!first) putchar(',');
                first = 0;
                run();
                break;
            default: abort();
            }
        }
        printf("]}\n"); fflush(stdout);
        for (int i = 0; i < 8; ++i) cypher_parser_config_free(conf[i]);
    }
    free(map_node); free(hidx);
    return 0;
}
