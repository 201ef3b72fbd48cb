//@ src display/help/help_formatter.c
//@ drop get_default_helper_config get_base_type_name get_collection_format format_collection_hint is_short_hint has_single_validator get_smart_hint print_wrapped_text print_option_name append_to_description append_default_info append_validator_info append_env_info append_flag_info build_option_description print_option_description
//@ desc get_env_var_name_for_display: the name that is really read (the contract of get_env_var_name, P16): the explicit name, with the prefix and an underscore before it unless it starts with them already or the prefix is disabled; else for an automatic variable the prefixed option name in upper case with - turned into _; else none (names up to 127 characters, every character)
//@ enforce get_env_var_name_for_display
//@ fn get_env_var_name_for_display 1
//@ loop 0 ptr
//@ assigns __CPROVER_object_whole(G_buf); g_at
//@ hyp at(__CPROVER_POINTER_OFFSET({i})), ({i} = G_buf + g_at)
//@ inv __CPROVER_same_object({i}, G_buf) && __CPROVER_POINTER_OFFSET({i}) <= g_len
//@ inv (g_j >= __CPROVER_POINTER_OFFSET({i})) ? (G_buf[g_j] == g_oj) : (G_buf[g_j] == up(g_oj))
//@ inv G_buf[g_len] == 0
//@ dec g_len - __CPROVER_POINTER_OFFSET({i})
//@ trust snprintf for the formats %s, %s%s and %s_%s: writes exactly the text (ISO C); toupper: the letters a-z to A-Z, everything else unchanged (C locale)
//@ trust strlen, strncmp: ISO C
#define NAME get_env_var_name_for_display
#define NAME_CONST const
#include "argus/internal/help.h"
#include "../P16/p16_name.h"
