//@ src display/help/help_formatter.c
//@ drop get_default_helper_config get_base_type_name get_collection_format format_collection_hint is_short_hint has_single_validator get_smart_hint get_env_var_name_for_display print_option_name append_to_description append_default_info append_validator_info append_env_info append_flag_info build_option_description print_option_description
//@ desc print_wrapped_text: prints every character in order, breaking lines greedily at spaces, with the right indentation after each break; no line is wider than the room, no break without need, always ends
//@ enforce print_wrapped_text
//@ fn print_wrapped_text 2
//@ loop 0
//@ assigns g_pos; g_ls; g_ind
//@ hyp at({l:size_t#2})
//@ inv {l:size_t#0} == g_m && {l:size_t#1} == g_pos && {l:size_t#1} == g_ls && {l:size_t#2} == g_pos && {l:size_t#2} <= g_m && {l:size_t#3} <= {l:size_t#1} && {l:size_t#4} == g_w && g_ind == 0
//@ dec g_m - {l:size_t#2}
//@ loop 1
//@ hyp at({l:size_t#2})
//@ inv {l:size_t#1} == g_ls && {l:size_t#1} <= {l:size_t#2} && {l:size_t#2} <= g_m && {l:size_t#2} - {l:size_t#1} <= g_w && ({l:size_t#3} <= {l:size_t#1} || ({l:size_t#3} < {l:size_t#2} && G_t[{l:size_t#3}] == ' '))
//@ inv IMPLIES(g_q >= g_ls && g_q < {l:size_t#2}, G_t[g_q] != '\n') && IMPLIES(g_q > g_ls && g_q > {l:size_t#3} && g_q < {l:size_t#2}, G_t[g_q] != ' ')
//@ dec g_m - {l:size_t#2}
//@ trust the printing functions print what they are given; strlen is the length; indentation below 2^30
#include "p22.h"
#include "src0.c"
void harness(void) {
    size_t m = nondet_size(); VX_ASSUME(m < 0x3fffffff); char t[m + 1]; VX_ASSUME(t[m] == 0); G_t = t; g_m = m; g_q = nondet_size(); VX_ASSUME(g_q < m || m == 0); VX_ASSUME(m == 0 || t[0] != 0); if (m == 0) g_q = 0;
    g_in = nondet_size(); size_t lw = nondet_size(); VX_ASSUME(g_in < 0x3fffffff); g_w = lw > g_in + 2 ? lw - g_in - 2 : 1; g_pos = g_ls = 0; g_ind = 0;
    if (nondet_bool()) { print_wrapped_text(0, g_in, lw); VX_ASSERT(g_pos == 0 && g_ls == 0, "no text prints nothing"); VX_REACH("no text"); }
    else { print_wrapped_text(t, g_in, lw); VX_ASSERT(g_pos == m && g_ind == 0, "everything was printed"); if (m == 0) VX_REACH("empty"); else if (g_ls == 0) VX_REACH("one line"); else VX_REACH("several lines"); }
}
