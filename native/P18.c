#include "nx.h"
const char *nx_rule(void) { return "programs with scalar options, arrays, variadic positionals and maps of every element type filled by parsing; random sequences of reads by index and key (also of unknown options, wrong kinds, indices at and far beyond the end, absent keys, parts of keys), of iterator steps and resets, before and after the context is freed; compared with a copy of the collections; the options must stay as they were; non-trivial: an element was read"; }
enum { STR, INT, AI, AS, AF, MI, MS, MF, MB, NK };
static argus_option_t mk(int k) {
    switch (k) {
    case STR: { argus_option_t o = OPTION_STRING('z', "n"); return o; } case INT: { argus_option_t o = OPTION_INT('z', "n"); return o; }
    case AI: { argus_option_t o = OPTION_ARRAY_INT('z', "n"); return o; } case AS: { argus_option_t o = OPTION_ARRAY_STRING('z', "n"); return o; } case AF: { argus_option_t o = OPTION_ARRAY_FLOAT('z', "n"); return o; }
    case MI: { argus_option_t o = OPTION_MAP_INT('z', "n"); return o; } case MS: { argus_option_t o = OPTION_MAP_STRING('z', "n"); return o; } case MF: { argus_option_t o = OPTION_MAP_FLOAT('z', "n"); return o; }
    default: { argus_option_t o = OPTION_MAP_BOOL('z', "n"); return o; }
    }
}
static bool isarr(int k) { return k >= AI && k <= AF; } static bool ismap(int k) { return k >= MI; }
static bool same(int k, argus_value_t v, argus_value_t w) {
    if (k == MB) return v.as_bool == w.as_bool; if (k == AF || k == MF) return v.as_float == w.as_float; if (k == AI || k == MI) return v.as_int64 == w.as_int64; return v.raw == w.raw;
}
void nx_case(void) {
    nx_mute(); size_t n = 1 + nx_below(5); argus_option_t *t = nx_mem((n + 2) * sizeof *t); int kd[8]; char **av = nx_mem(64 * sizeof *av); int ac = 0; av[ac++] = nx_dup("prog"); size_t nk = n;
    for (size_t i = 0; i < n; i++) {
        int k = kd[i] = (int)nx_below(NK); t[i] = mk(k); t[i].sname = 0; t[i].name = t[i].lname = nx_fmt("o%zu", i); nx_note("%d", k); if (nx_chance(1, 5)) continue;
        if (k == AI && nx_chance(1, 300)) { av[ac++] = nx_fmt("--o%zu=0-%d", i, nx_range(65530, 70000)); nx_note("'%s' ", av[ac - 1]); continue; }
        if (k == MI && nx_chance(1, 60)) { char *b = nx_dup("k=1"); int e = nx_range(250, 300); for (int j = 0; j < e; j++) b = nx_fmt("%s,k%d=%d", b, j, j); av[ac++] = nx_fmt("--o%zu=%s", i, b); nx_note("'k=1,k0=0,...k%d' ", e - 1); continue; }
        size_t m = isarr(k) || ismap(k) ? 1 + nx_below(nx_chance(1, 4) ? 40 : 6) : 1; char *v = "";
        for (size_t j = 0; j < m; j++) { const char *e = k == INT || k == AI || k == MI ? nx_fmt("%d", nx_range(-9, 99)) : k == AF || k == MF ? nx_fmt("%d.25", nx_range(0, 9)) : k == MB ? (nx_chance(1, 2) ? "yes" : "no") : nx_word("abc", 1, 3); v = ismap(k) ? nx_fmt("%s%s%s=%s", v, j ? "," : "", nx_name("ab", 1, 5), e) : nx_fmt("%s%s%s", v, j ? "," : "", e); }
        if (k == INT) { for (char *c = v; *c; c++) if (*c == '-') *c = '1'; } if (k == AI) for (char *c = v; *c; c++) if (*c == '-') *c = '1';
        av[ac++] = nx_fmt("--o%zu=%s", i, v); nx_note("'%s' ", v);
    }
    if (nx_chance(1, 2)) { argus_option_t p = POSITIONAL_MANY_STRING("n", FLAGS(FLAG_OPTIONAL)), pi = POSITIONAL_MANY_INT("n", FLAGS(FLAG_OPTIONAL)), pf = POSITIONAL_MANY_FLOAT("n", FLAGS(FLAG_OPTIONAL)); int pk = nx_range(0, 2); t[n] = pk == 0 ? p : pk == 1 ? pi : pf; t[n].name = "rest"; kd[n] = pk == 0 ? AS : pk == 1 ? AI : AF; nk = n + 1; size_t m = nx_below(5); for (size_t j = 0; j < m; j++) av[ac++] = pk == 0 ? nx_word("xyz", 1, 3) : nx_fmt("%d", nx_range(0, 500)); }
    t[nk] = nx_end(); argus_t a = argus_init_no_validate(t, "prog", "1"); int st = argus_parse(&a, ac, av); NX_CHECK(st == ARGUS_SUCCESS, "status %d", st);
    int rounds = nx_chance(1, 4) ? 2 : 1;
    for (int r = 0; r < rounds; r++) {
        if (r) { argus_free(&a); nx_note("freed "); for (size_t i = 0; i < nk; i++) if (isarr(kd[i]) || ismap(kd[i])) NX_CHECK(argus_count(&a, t[i].name) == 0, "a freed collection is not empty"); }
        argus_option_t *copy = nx_mem((nk + 1) * sizeof *copy); memcpy(copy, t, (nk + 1) * sizeof *copy); void *data[8] = {0}; size_t sz[8];
        for (size_t i = 0; i < nk; i++) { sz[i] = t[i].value_count * (isarr(kd[i]) ? sizeof(argus_value_t) : ismap(kd[i]) ? sizeof(argus_pair_t) : 0); data[i] = nx_mem(sz[i] + 1); if (sz[i]) memcpy(data[i], t[i].value.as_ptr, sz[i]); }
        for (int q = 0; q < 20; q++) {
            size_t i = nx_below(nk + 1); const char *nm = i < nk ? t[i].name : nx_chance(1, 4) ? NULL : "nope"; int k = i < nk ? kd[i] : -1; size_t cnt = i < nk ? t[i].value_count : 0; a.error_code = 55;
            argus_value_t *A = i < nk ? data[i] : NULL; argus_pair_t *M = i < nk ? data[i] : NULL;
            switch (nx_below(5)) {
            case 0: { size_t x = nx_chance(1, 6) ? (size_t)nx_rand() : nx_below(cnt + 2); nx_note("get %s[%zu] ", nm ? nm : "NULL", x); argus_value_t v = argus_array_get(&a, nm, x);
                int want = i >= nk ? ARGUS_ERROR_NO_VALUE : !isarr(k) ? ARGUS_ERROR_INVALID_TYPE : x >= cnt ? ARGUS_ERROR_INVALID_INDEX : ARGUS_SUCCESS; NX_CHECK(a.error_code == want, "error %d, want %d", a.error_code, want);
                if (want) NX_CHECK(v.raw == 0, "a value with an error"); else { nx_mark(); NX_CHECK(same(k, v, A[x]), "wrong element"); } break; }
            case 1: { char *key = cnt && ismap(k) && nx_chance(2, 3) ? nx_dup(M[nx_below(cnt)].key) : nx_name("ab", 0, 5); if (nx_chance(1, 6) && *key) key[strlen(key) - 1] = 0; if (nx_chance(1, 20)) key = NULL; nx_notestr("map ", key); argus_value_t v = argus_map_get(&a, nm, key); size_t x = 0; if (ismap(k) && key) while (x < cnt && strcmp(M[x].key, key)) x++; else x = cnt;
                int want = i >= nk ? ARGUS_ERROR_NO_VALUE : !ismap(k) ? ARGUS_ERROR_INVALID_TYPE : x >= cnt ? ARGUS_ERROR_INVALID_KEY : ARGUS_SUCCESS; NX_CHECK(a.error_code == want, "map: error %d, want %d", a.error_code, want);
                if (want) NX_CHECK(v.raw == 0, "a map value with an error"); else { nx_mark(); NX_CHECK(same(k, v, M[x].value), "wrong map value"); } break; }
            case 2: { nx_note("iterate %s ", nm ? nm : "NULL"); argus_array_it_t it = argus_array_it(&a, nm); size_t m = isarr(k) ? cnt : 0, x = 0; int resets = 2;
                for (;;) { if (resets && nx_chance(1, 8)) { argus_array_reset(&it); x = 0; resets--; } bool more = argus_array_next(&it); if (!more) { NX_CHECK(x == m, "array iteration ended after %zu of %zu", x, m); NX_CHECK(!argus_array_next(&it), "ended iteration goes on"); break; } NX_CHECK(x < m, "more elements than stored"); NX_CHECK(same(k, it.value, A[x]), "iteration: wrong element"); nx_mark(); x++; } break; }
            case 3: { nx_note("iterate map %s ", nm ? nm : "NULL"); argus_map_it_t it = argus_map_it(&a, nm); size_t m = ismap(k) ? cnt : 0, x = 0; int resets = 2;
                for (;;) { if (resets && nx_chance(1, 8)) { argus_map_reset(&it); x = 0; resets--; } bool more = argus_map_next(&it); if (!more) { NX_CHECK(x == m, "map iteration ended after %zu of %zu", x, m); NX_CHECK(!argus_map_next(&it), "ended iteration goes on"); break; } NX_CHECK(x < m, "more entries than stored"); NX_CHECK(it.key == M[x].key && same(k, it.value, M[x].value), "iteration: wrong entry"); nx_mark(); x++; } break; }
            default: { argus_value_t v = argus_get(&a, nm); if (i >= nk) NX_CHECK(v.raw == 0 && a.error_code == ARGUS_ERROR_NO_VALUE, "unknown option: error %d", a.error_code); else NX_CHECK(v.raw == t[i].value.raw && a.error_code == ARGUS_SUCCESS, "argus_get"); NX_CHECK(argus_count(&a, nm) == cnt, "count"); NX_CHECK(argus_is_set(&a, nm) == (i < nk && t[i].is_set), "is_set"); }
            }
        }
        NX_CHECK(!memcmp(copy, t, (nk + 1) * sizeof *copy), "reading changed an option"); for (size_t i = 0; i < nk; i++) if (sz[i]) NX_CHECK(!memcmp(data[i], t[i].value.as_ptr, sz[i]), "reading changed an element");
    }
    argus_array_it_t *nul = NULL; argus_map_it_t *nul2 = NULL; NX_CHECK(!argus_array_next(nul) && !argus_map_next(nul2), "no iterator"); argus_array_reset(nul); argus_map_reset(nul2);
    argus_free(&a);
}
