//@ src display/help/help_formatter.c
//@ drop get_default_helper_config get_base_type_name get_collection_format format_collection_hint is_short_hint has_single_validator get_smart_hint get_env_var_name_for_display print_wrapped_text print_option_name append_default_info append_validator_info append_env_info append_flag_info build_option_description print_option_description
//@ desc append_to_description (with safe_strcpy, safe_strcat): a fresh text, the two joined, and the old one released; the old one unchanged when there is nothing to add or memory runs out
//@ enforce append_to_description
//@ trust malloc: a fresh block of the size asked for, or NULL; strlen, strcpy, strcat, memcpy: ISO C
#include "p27.h"
char *G_d, *G_s, *G_b; size_t g_dl, g_sl, g_k, g_bl, g_nb; char g_kc; int g_al, g_fr, g_txt; _Bool g_mf;
size_t vx_len(const char *s) { if (s == G_b) { VX_ASSERT(g_al && g_txt, "length of a text"); return g_bl; } VX_ASSERT(!g_fr || s != G_d, "not of a released text"); VX_ASSERT(s == G_d || s == G_s, "length of a known text"); return s == G_d ? g_dl : g_sl; }
static void put(char *d, const char *s, size_t n) { /* n bytes of a text (its end included) into the block */
    VX_ASSERT(g_al && __CPROVER_same_object(d, G_b), "into the new block"); VX_ASSERT(__CPROVER_same_object(s, G_d) || __CPROVER_same_object(s, G_s), "from the texts"); VX_ASSERT(!(g_fr && __CPROVER_same_object(s, G_d)), "before it is released");
    size_t o = __CPROVER_POINTER_OFFSET(d), f = __CPROVER_POINTER_OFFSET(s), l = __CPROVER_same_object(s, G_d) ? g_dl : g_sl; VX_ASSERT(f <= l + 1 && n <= l + 1 - f, "inside the text"); VX_ASSERT(o <= g_nb && n <= g_nb - o, "inside the block");
    if (g_k >= o && g_k - o < n) G_b[g_k] = s[g_k - o]; if (n == l + 1 - f) { G_b[o + n - 1] = 0; g_bl = o + n - 1; g_txt = 1; }
}
char *vx_cpy(char *d, const char *s) { put(d, s, vx_len(s) + 1); return d; }
char *vx_cat(char *d, const char *s) { VX_ASSERT(d == G_b, "after the text so far"); put(d + vx_len(d), s, vx_len(s) + 1); return d; }
void *vx_mem(void *d, const void *s, size_t n) { put(d, s, n); return d; }
void *vx_alloc(size_t n) { VX_ASSERT(!g_al && n == g_nb, "one block with room for both and the end"); g_al = 1; return g_mf ? 0 : G_b; }
void vx_free(void *p) { if (p) { VX_ASSERT(p == G_d && !g_fr, "releases the old text once"); g_fr = 1; } }
#define malloc vx_alloc
#define free vx_free
#define strlen vx_len
#define strcpy vx_cpy
#define strcat vx_cat
#define memcpy vx_mem
static char *append_to_description(char *description, const char *suffix)
__CPROVER_assigns(g_al, g_fr, g_bl, g_txt; G_b != 0: __CPROVER_object_whole(G_b));
#include "src0.c"
void harness(void) {
    g_dl = nondet_size(); g_sl = nondet_size(); VX_ASSUME(g_dl < 0x3fffffff && g_sl < 0x3fffffff); g_nb = g_dl + g_sl + 1; char D[g_dl + 1], S[g_sl + 1], B[g_nb]; VX_ASSUME(D[g_dl] == 0 && S[g_sl] == 0); VX_ASSUME(g_sl == 0 || S[0] != 0); G_d = D; G_s = S; G_b = B; g_k = nondet_size(); VX_ASSUME(g_k < g_dl + g_sl); g_kc = g_k < g_dl ? D[g_k] : S[g_k - g_dl]; g_al = g_fr = g_txt = 0; g_mf = nondet_bool();
    _Bool none = nondet_bool(); char *r = append_to_description(D, none ? 0 : &S[0]);
    if (none || g_sl == 0) { VX_ASSERT(r == G_d && !g_fr && !g_al, "nothing to add"); VX_REACH("nothing"); }
    else if (g_mf) { VX_ASSERT(r == G_d && !g_fr, "memory ran out: the text as it was"); VX_REACH("memory ran out"); }
    else { VX_ASSERT(r == G_b && g_fr && r[g_k] == g_kc && r[g_dl + g_sl] == 0, "both joined and ended, the old one released"); VX_REACH("joined"); }
}
