#include "nx.h"
#include <ctype.h>
const char *nx_rule(void) { return "boolean words in random letter case, their prefixes, extensions and one-character edits, and random texts up to 40 characters, given to bool options (handler, =value, token, positional, environment), boolean maps and flags by environment, compared with the documented sets; non-trivial: text at edit distance at most 1 from a word"; }
static const char *T[] = {"1", "true", "yes", "y", "on", "0x1", "0b1"}, *F[] = {"0", "false", "no", "n", "off", "0x0", "0b0"};
static int ref(const char *s) {
    for (int i = 0; i < 7; i++) { if (!strcasecmp(s, T[i])) return 1; if (!strcasecmp(s, F[i])) return 0; }
    return -1;
}
static char *word(void) {
    const char *b = nx_chance(1, 2) ? T[nx_below(7)] : F[nx_below(7)];
    char *w = nx_dup(b); size_t n = strlen(w);
    for (size_t i = 0; i < n; i++) if (nx_chance(1, 3)) w[i] = (char)toupper((unsigned char)w[i]);
    switch (nx_below(9)) {
        case 0: w[n - 1] = 0; nx_mark(); return w;
        case 1: nx_mark(); return nx_fmt("%s%s", w, nx_word("1etfo ", 1, 1));
        case 2: nx_mark(); return nx_fmt("%s%s", nx_word("1tf0 ", 1, 1), w);
        case 3: nx_mark(); w[nx_below(n)] = "tfyno01xb\xc1\xe9 "[nx_below(12)]; return w;
        case 6: nx_mark(); w[nx_below(n)] ^= (char)(1 << nx_below(8)); return w;
        case 4: return nx_word("tfyno01xb", 0, nx_chance(1, 4) ? 40 : 6);
        case 5: return nx_fmt("%s%s", w, nx_word(nx_chance(1, 2) ? "a" : " ", 1, 300));
        default: nx_mark(); return w;
    }
}
void nx_case(void) {
    nx_mute();
    char *t = word(); int want = ref(t), way = (int)nx_below(8); nx_notestr("text ", t); nx_note(" way %d", way);
    argus_option_t o = OPTION_BOOL('b', "bool");
    if (way == 4) o = POSITIONAL_BOOL("bool");
    if (way == 6) o = OPTION_FLAG('b', "bool");
    if (way == 5 || way == 6) o.env_name = "NX_P07";
    if (way == 7) o = OPTION_MAP_BOOL('b', "bool");
    bool init = nx_chance(1, 2); if (way != 7) o.value.as_bool = init;
    argus_option_t tab[2] = {o, nx_end()}; argus_t a = argus_init_no_validate(tab, "prog", "1");
    char *av[3] = {"prog", NULL, NULL}; int ac = 2, st;
    if (way == 0 || way == 1) { st = tab[0].handler(&a, &tab[0], t); }
    else {
        if (way == 2) av[1] = nx_fmt("--bool=%s", t);
        if (way == 3) { av[1] = "-b"; av[2] = t; ac = 3; }
        if (way == 4) { av[1] = "--"; av[2] = t; ac = 3; }
        if (way == 5 || way == 6) { if (!*t) return; setenv("NX_P07", t, 1); ac = 1; }
        if (way == 7) { if (strchr(t, ',')) return; av[1] = nx_fmt("--bool=k=%s", t); }
        st = argus_parse(&a, ac, av);
        unsetenv("NX_P07");
    }
    if (want < 0) {
        NX_CHECK(st != ARGUS_SUCCESS && a.error_code == st, "not a boolean word, but status %d", st);
        if (way != 7) NX_CHECK(tab[0].value.as_bool == init, "rejected text changed the value");
    } else {
        NX_CHECK(st == ARGUS_SUCCESS, "boolean word rejected with %d", st);
        bool got = way == 7 ? argus_map_get(&a, "bool", "k").as_bool : tab[0].value.as_bool;
        NX_CHECK(got == want, "read as %d", got);
    }
    argus_free(&a);
    if (nx_chance(1, 8)) {
        argus_option_t ft[2] = {OPTION_FLAG('f', "flag"), nx_end()}; argus_t b = argus_init_no_validate(ft, "prog", "1");
        char *fv[2] = {"prog", nx_chance(1, 2) ? "-f" : "--flag"};
        NX_CHECK(argus_parse(&b, 2, fv) == ARGUS_SUCCESS && argus_get(&b, "flag").as_bool, "a flag on the command line is true");
        argus_free(&b);
    }
}
