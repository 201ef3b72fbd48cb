#!/usr/bin/env python3
"""Writes properties.jsonl (the property list as data)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, HI, C, PR, F = 'inputs', 'histories', 'configurations', 'programs', 'fault_sequences'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
         'observe_at': list(observe), 'hook_needed': hook}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

S = 'source/'
prop('P01', 'A name denotes the first exactly matching definition',
     'Looking up a long name, a short character or a reference name in a table of definitions yields the first definition whose name is exactly equal to it (only command-line options answer to long and short names) and nothing when there is none. The n-th positional argument belongs to the n-th positional definition, and a variadic positional receives every argument from its place on.',
     [C, I], 'every option table of any size and every name, character and position',
     'The lookup tests use a handful of tables with at most a few entries; the claim is about every table and every name.',
     [S+'utils/option_lookup.c', S+'core/parsing/option_handle_positional.c'],
     [('find_option_by_lname / _sname / _name / find_positional', S+'utils/option_lookup.c'), ('handle_positional', S+'core/parsing/option_handle_positional.c')],
     observe=['return value of the lookups', 'which option is set after argus_parse'])
prop('P02', 'A long option gets exactly its own value, or a precise error',
     'For a token --NAME or --NAME=VALUE, NAME of any length is compared as a whole with the declared long names. An option that takes a value gets exactly the text after the first =, or else exactly the next token (which is then consumed); without either the result is a missing-value error, an undeclared name is an invalid-argument error, and a flag consumes nothing further.',
     [I, C], 'every token text and length, every argument vector position, every table',
     'Tests cover a few short names and values; truncation, the empty value, a value with = in it and the last position are single points of an unbounded space.',
     [S+'core/parsing/option_handle_long.c', S+'utils/option_lookup.c', 'includes/argus/internal/cross_platform.h'],
     [('handle_long_option', S+'core/parsing/option_handle_long.c'), ('safe_strndup', 'includes/argus/internal/cross_platform.h')],
     observe=['value handed to the handler', 'index of the last consumed token', 'status and error_code'])
prop('P03', 'A cluster of short options is read left to right, value last',
     'A token -abc applies the flags a, b, c in that order; the first option in it that takes a value gets the rest of the token or, when nothing is left, exactly the next token, and ends the cluster. An undeclared character, a missing value or a failing option stops the cluster with that error, after the options before it were applied and before any later one.',
     [I, C], 'every cluster of any length over any option table',
     'Tests use clusters of two or three characters; order, stopping and value splitting must hold for every cluster and position.',
     [S+'core/parsing/option_handle_short.c', S+'utils/option_lookup.c'],
     [('handle_short_option', S+'core/parsing/option_handle_short.c')],
     observe=['sequence of applied options and values', 'index of the last consumed token', 'status'])
prop('P04', 'Every token is interpreted once, in order, by its form',
     'Parsing goes through the arguments from left to right, treats --X as a long option, -X as a short cluster, a word as a subcommand or else the next positional, and never skips or re-reads a token that was not consumed as a value. After -- every further token, whatever it looks like, is positional; a token - followed by a digit (or by a dot and a digit) is a positional exactly when the next positional expects a number. The first error ends parsing and is the result.',
     [I, HI], 'argument vectors of every length and content',
     'Only a few dozen vectors are tested; the dispatch rule quantifies over every sequence of tokens.',
     [S+'core/parsing/parse_args.c', S+'utils/strings.c'],
     [('parse_args', S+'core/parsing/parse_args.c'), ('starts_with', S+'utils/strings.c')],
     observe=['sequence of handled tokens', 'status'])
prop('P05', 'Subcommand selection: exact name, else unique prefix, else ambiguity',
     'A word selects the subcommand with exactly that name wherever it stands in the table; otherwise the only subcommand it is a non-empty prefix of; if it is a prefix of several, parsing fails with an ambiguity error; if of none, it is not a subcommand. A selected subcommand becomes the active one, the remaining tokens are interpreted with its own options, and nesting deeper than the supported maximum is an error, never a memory overrun.',
     [I, C], 'every table of subcommands in every order, every word, every nesting depth',
     'The outcome depends on the relative order and shared prefixes of names; tests try two or three layouts.',
     [S+'core/parsing/parse_args.c', S+'core/parsing/option_handle_subcommand.c'],
     [('find_subcommand', S+'core/parsing/parse_args.c'), ('handle_subcommand', S+'core/parsing/option_handle_subcommand.c')],
     state=[('subcommand_stack / subcommand_depth', 'selected subcommands, outermost first', 'includes/argus/types.h')],
     observe=['selected subcommand', 'status', 'active path'])
prop('P06', 'Numeric values are stored exactly or rejected',
     'A text accepted for an integer option is a complete decimal integer (leading blanks and a sign allowed) in the 64-bit range and is stored as exactly that value; for a float option it is a complete number as the C library reads it and is stored with double precision. Any other text (empty, trailing characters, out-of-range integer) is rejected with an error and the previous value of the option is left as it was; a string option stores exactly the given text.',
     [I], 'every text',
     'Unit tests convert two integers and two floats; the property is about every text.',
     [S+'callbacks/handlers/int_handler.c', S+'callbacks/handlers/float_handler.c', S+'callbacks/handlers/string_handler.c', S+'callbacks/handlers/variadic_int_handler.c', S+'callbacks/handlers/variadic_float_handler.c'],
     [('int_handler', S+'callbacks/handlers/int_handler.c'), ('float_handler', S+'callbacks/handlers/float_handler.c'), ('string_handler', S+'callbacks/handlers/string_handler.c')],
     observe=['stored value', 'status'])
prop('P07', 'Boolean words: the documented sets and nothing else',
     'A boolean text is true exactly for 1, true, yes, y, on, 0x1, 0b1 and false exactly for 0, false, no, n, off, 0x0, 0b0, in any letter case; every other text, of any length, is rejected and changes nothing. The same holds for each value of a boolean map and for a flag given by an environment variable, while a flag on the command line is always true.',
     [I], 'every text of every length',
     'Tests try a few words; rejection quantifies over every other text, including long ones.',
     [S+'callbacks/handlers/bool_handler.c', S+'callbacks/handlers/map_bool_handler.c', S+'callbacks/handlers/flag_handler.c'],
     [('string_to_bool / bool_handler', S+'callbacks/handlers/bool_handler.c'), ('string_to_bool / set_kv_pair', S+'callbacks/handlers/map_bool_handler.c'), ('flag_handler', S+'callbacks/handlers/flag_handler.c')],
     observe=['stored value', 'status'])
prop('P08', 'A range restriction accepts exactly the values inside the range',
     'With a range [min, max] an integer or float option is accepted if and only if its whole stored value lies between min and max inclusive (for a float between the doubles nearest to them); a range with min greater than max accepts nothing. Rejection reports an invalid-range error and the check changes no option.',
     [I, C], 'all 2^64 integer values, all doubles (infinities and NaN included) and all pairs of bounds',
     'Tests sample a few small integers; values that differ only in their high half or sit on a bound are not among them.',
     [S+'callbacks/validators/range_validator.c'],
     [('range_validator', S+'callbacks/validators/range_validator.c')],
     observe=['validator status', 'error_code'])
prop('P09', 'Length, count and choice restrictions accept exactly what they list',
     'A length restriction accepts a text exactly when its length is within the bounds, a count restriction a collection exactly when its number of elements is within the bounds, and a choice restriction exactly the listed strings, integers or floats, for any number of choices. Inconsistent or negative bounds accept nothing, an absent text is rejected, and no check changes the option.',
     [I, C], 'every value, every bound, every list of choices of any length',
     'Tests use one list and one pair of bounds per validator.',
     [S+'callbacks/validators/length_validator.c', S+'callbacks/validators/count_validator.c', S+'callbacks/validators/choices_validator.c'],
     [('length_validator', S+'callbacks/validators/length_validator.c'), ('count_validator', S+'callbacks/validators/count_validator.c'), ('choices_*_validator', S+'callbacks/validators/choices_validator.c')],
     observe=['validator status', 'error_code'])
prop('P10', 'Pre-checks, then the value, then the set mark, then exit',
     'Applying an option runs its pre-checks in declared order on the given text, then its handler exactly once, and only after all of them succeeded marks the option as set and asks for program exit if the option is an exit option. The first failing pre-check or the handler\'s failure is the result, nothing after it runs and the option is not marked; post-checks do not run at this point.',
     [C, I], 'every list of checks of any length and every combination of their outcomes',
     'Tests exercise at most two checks; ordering and stopping must hold for every list and outcome.',
     [S+'core/parsing/execute_callbacks.c'],
     [('execute_callbacks', S+'core/parsing/execute_callbacks.c')],
     observe=['order of callback calls', 'set mark, count', 'status'])
prop('P11', 'A successful parse respects required, requires, conflicts, exclusive',
     'When parsing succeeds, at every active level (the program and each selected subcommand) every required option and positional is set, no set option has an unset option it requires or a set option it conflicts with, at most one option of each exclusive group is set, and every post-check of every set option accepted it. Conversely a parse whose values all pass is rejected after reading the arguments only when one of these rules is broken, with the error of that rule.',
     [C, I], 'every option table, every combination of set options, every nesting of subcommands',
     'Tests check one rule at a time on small tables; combinations, positions and deeper levels are not covered.',
     [S+'core/parsing/post_parse_validation.c'],
     [('post_parse_validation, validate_options_set', S+'core/parsing/post_parse_validation.c'), ('validate_required / validate_conflicts / call_validators', S+'core/parsing/post_parse_validation.c')],
     observe=['status of argus_parse', 'error_code'])
prop('P12', 'Arrays hold every given element, expanded, in order',
     'After any sequence of occurrences an array or variadic argument without ordering flags holds exactly the elements given, in the order given: each comma-separated part of an array occurrence and each variadic argument is one element, a part A-B or A:B of an integer array stands for every integer from the smaller to the larger bound, and numbers are stored exactly. A part that is not a number (or range) is rejected for numeric arrays, growth never loses or overwrites an element, and previously stored elements stay.',
     [I, HI], 'every text, every sequence of occurrences, every number of elements',
     'Tests stay below a few dozen elements and a handful of ranges; growth boundaries, bounds at the type limits and malformed parts are not reached.',
     [S+'callbacks/handlers/array_int_handler.c', S+'callbacks/handlers/array_string_handler.c', S+'callbacks/handlers/array_float_handler.c', S+'callbacks/handlers/variadic_int_handler.c', S+'callbacks/handlers/variadic_string_handler.c', S+'callbacks/handlers/variadic_float_handler.c', S+'utils/multi_values.c'],
     [('parse_int_range / add_range_values / array_int_handler', S+'callbacks/handlers/array_int_handler.c'), ('adjust_array_size', S+'utils/multi_values.c')],
     state=[('value.as_array / value_count / value_capacity', 'stored elements, their number, allocated slots', 'includes/argus/types.h')],
     observe=['argus_array_get / argus_count', 'status'])
prop('P13', 'Sorted and unique flags order and deduplicate without loss',
     'With the sorted flag the elements of an array come out in non-decreasing order and are a permutation of the given ones; with the unique flag no two remaining elements are equal (floating-point values closer than 1e-7 count as equal), every given value remains represented, and the first occurrence keeps its place among the rest. Without these flags, and for map values without the map flags, nothing is reordered or removed.',
     [I, C], 'arrays and maps of every size and content, every combination of flags',
     'Tests use arrays of about five small values.',
     [S+'utils/multi_values.c'],
     [('apply_array_flags / sort_* / make_*_unique', S+'utils/multi_values.c'), ('apply_map_flags / make_map_values_unique / compare_*', S+'utils/multi_values.c')],
     observe=['element order and count after parsing'])
prop('P14', 'A map holds each key once, with the last value given for it',
     'After any sequence of KEY=VALUE parts a map contains each given key exactly once (the text before the first =), in order of first appearance, with the last valid value given for it (the text after the first =, converted exactly). A part without = or with an invalid value is rejected and changes neither the entries nor their number, and growth never loses or overwrites an entry.',
     [I, HI], 'every sequence of parts, every number of entries',
     'Tests use up to three keys; updates at any index and beyond the first growth are not reached.',
     [S+'callbacks/handlers/map_string_handler.c', S+'callbacks/handlers/map_int_handler.c', S+'callbacks/handlers/map_float_handler.c', S+'callbacks/handlers/map_bool_handler.c', S+'utils/multi_values.c'],
     [('set_kv_pair', S+'callbacks/handlers/map_*_handler.c'), ('map_find_key / adjust_map_size', S+'utils/multi_values.c')],
     state=[('value.as_map / value_count / value_capacity', 'stored pairs', 'includes/argus/types.h')],
     observe=['argus_map_get / argus_count / iteration', 'status'])
prop('P15', 'Owned memory is released exactly once, on success and on failure',
     'Every block the library allocates for option values is released exactly once by freeing the context, for every active level, or by the failing parse itself; memory that belongs to the caller (arguments, defaults) is never released. Freeing twice, or reading a collection after it was freed, is harmless: the collection is empty.',
     [I, HI, F], 'every sequence of accepted and rejected values, every collection size, repeated frees',
     'Tests do not observe leaks or double frees at all.',
     [S+'utils/value_utils.c', S+'api/argus_free.c', S+'api/argus_parse.c', S+'callbacks/handlers/map_string_handler.c', S+'callbacks/handlers/array_string_handler.c', S+'callbacks/handlers/variadic_string_handler.c', S+'utils/multi_values.c'],
     [('free_option_value', S+'utils/value_utils.c'), ('argus_free', S+'api/argus_free.c'), ('free_*_handler', S+'callbacks/handlers/')],
     state=[('is_allocated', 'the option owns its value', 'includes/argus/types.h')],
     observe=['allocator calls'])
prop('P16', 'Environment variables: right name, right precedence',
     'An option is filled from the variable named by its declaration: the explicit name, with the program prefix and an underscore put before it unless it already starts with that prefix or the prefix is disabled, or the automatic name, which is the prefixed option name in upper case with - turned into _ (names up to 127 characters). The command line wins over the environment and the environment over the default, except that an override option always takes the environment; options of inactive subcommands, groups and options without a variable are untouched, and the value goes through the same checks as on the command line.',
     [I, C], 'every prefix, name and flag combination, every environment, every active level',
     'Tests cover a few names and one precedence case each.',
     [S+'core/parsing/load_env_vars.c'],
     [('get_env_var_name / load_env / load_env_vars', S+'core/parsing/load_env_vars.c')],
     observe=['name looked up in the environment', 'option value after parsing'])
prop('P17', 'A path denotes the innermost, root or fully named option, or nothing',
     'A plain name denotes the option of that name at the innermost active level that has one, .NAME the one of the program itself, and CMD.SUB.NAME the one of the subcommand reached by exactly the active subcommands CMD, SUB; a path that names a command which is not active at that depth, only a part of a command name, or more commands than are active, denotes nothing.',
     [I, C, HI], 'every path text, every nesting depth, every active stack',
     'Tests use depth two and well-formed paths.',
     [S+'utils/option_lookup.c'],
     [('find_option_by_active_path / find_from_relative_path / get_active_options', S+'utils/option_lookup.c')],
     observe=['argus_get / argus_is_set by path'])
prop('P18', 'Reading values is total: right element or a precise error, never junk',
     'Reading an array element returns exactly the stored element when the option is an array or variadic and the index is below the count, and otherwise a zero value with the error for unknown option, wrong type or bad index; reading a map key likewise returns the value stored under exactly that key or a precise error. Iterating yields every element exactly once in stored order and then ends, a reset starts again, and reading never changes an option.',
     [I, HI], 'every index, key, collection size and sequence of reads',
     'Tests read a few elements of small collections.',
     [S+'api/argus_value_access.c'],
     [('argus_get / argus_array_get / argus_map_get / argus_count / argus_is_set', S+'api/argus_value_access.c'), ('argus_array_next / argus_map_next', S+'api/argus_value_access.c')],
     observe=['returned value, error_code'])
prop('P19', 'Parsing runs its phases in order and reports the first failure',
     'Parsing interprets the arguments without the program name, then loads the environment, then checks the dependency rules, each only if everything before succeeded; the result and the recorded error code are both those of the first failing phase, or success. When it fails all option memory has been released, and when an exit option was used the program ends with status 0 after the memory was released.',
     [I, HI], 'every combination of phase outcomes, every depth of active subcommands',
     'Each test reaches one phase outcome; the cleanup and the recorded code are rarely observed.',
     [S+'api/argus_parse.c'],
     [('argus_parse', S+'api/argus_parse.c')],
     observe=['return value, error_code, exit status'])
prop('P20', 'Definition checks accept exactly well-formed option tables',
     'Checking a table of definitions, including the tables of nested subcommands (at most 8 deep), succeeds exactly when every rule holds: placement (an option named help in each table; no option after a subcommand; no positional in a table with subcommands; no required positional after an optional one; at most one variadic positional, with no other positional after it and no optional one beside it), naming (every definition but a group has a non-empty name; short names are not space or hyphen and not used twice; long names are not empty, do not start with a hyphen, contain no space or dot and are not the long name or the name of a later definition) and completeness (options: short or long name, help, handler, required and conflicting names that exist and do not overlap; positionals: help, handler, only positional flags, no dependencies, not required with a default; subcommands: help, a table, no handler, dependencies, default, checks or foreign flags; groups: no flag but exclusive; a flag option has no default and any other default passes its own checks). A broken rule anywhere is reported, whatever follows it, and makes the check fail.',
     [C, PR], 'every option table of any size and nesting',
     'Tests break one rule in one position; an error must not be lost whatever else the table contains.',
     [S+'core/validation/validate_structure.c', S+'core/validation/validate_arguments.c', S+'core/validation/validate_containers.c'],
     [('validate_placement / validate_naming / validate_type_format / validate_structure', S+'core/validation/validate_structure.c'), ('validate_option / validate_positional', S+'core/validation/validate_arguments.c'), ('validate_subcommand / validate_group', S+'core/validation/validate_containers.c')],
     observe=['validation status', 'diagnostics on stderr'])
prop('P21', 'Help and usage list every visible definition exactly once, in order',
     'The help shows every option that is not hidden exactly once, under its group or under the general section, every positional and every visible subcommand exactly once in their sections, each in order of definition, and never a hidden one. The usage line names the program, the active subcommands in order and every positional, in brackets when optional and with ... when variadic, and ends with COMMAND exactly when there are subcommands.',
     [C, HI], 'every table of any size, every grouping, every active stack',
     'Tests compare the help of two or three fixed programs.',
     [S+'display/help/help_organizer.c', S+'display/help/help_renderer.c', S+'display/usage_display.c', S+'display/help_display.c'],
     [('organize_options / add_option_to_list / find_or_create_group', S+'display/help/help_organizer.c'), ('print_help_sections', S+'display/help/help_renderer.c'), ('display_usage', S+'display/usage_display.c')],
     observe=['printed help and usage'])
prop('P22', 'Wrapping help text loses and changes nothing and always ends',
     'For every text, indentation and line width, wrapping ends and prints every character of the text in order, except that a space at which a line is broken is replaced by the line break; after each break with more text to come the indentation follows. No line carries more text than the width leaves room for, and a line is broken only where the text goes on beyond that: at the last space that fits, inside a word only when there is none.',
     [I, C], 'every text of any length, all indentations and widths',
     'No test looks at wrapping at unusual widths, long words or line ends.',
     [S+'display/help/help_formatter.c'],
     [('print_wrapped_text', S+'display/help/help_formatter.c'), ('putnchar', S+'utils/strings.c')],
     observe=['printed text'])
prop('P23', 'Splitting a list yields exactly its non-empty parts',
     'Splitting a text at a set of separator characters yields exactly the maximal separator-free parts, in order, each complete and unchanged, and nothing else; the source is not modified. If memory runs out at any point the result is a failure and everything allocated for it has been released.',
     [I, F], 'every text and separator set, every failing allocation',
     'Tests split a few texts and never fail an allocation.',
     [S+'utils/strings.c', 'includes/argus/internal/cross_platform.h'],
     [('split / count_words / word_len / skip_charset / free_split', S+'utils/strings.c'), ('safe_strndup', 'includes/argus/internal/cross_platform.h')],
     observe=['returned parts', 'allocator calls'])
prop('P24', 'Stream capture always gives the stream back and leaks no descriptor',
     'Redirecting a standard stream, reading what was captured and restoring it leaves the stream exactly as it was and every other stream untouched, in any order of calls; reading returns all bytes captured so far (no more than the pipe holds, and while memory lasts), in order. When any system call on the way to a redirection fails the stream is left as it was, an error is returned and every descriptor opened on the way is closed; redirecting twice is refused and restoring an unredirected stream does nothing.',
     [HI, F], 'every sequence of redirect, read, restore and cleanup calls on the three streams (open when captured), every failing system call',
     'No test makes a system call fail or interleaves streams.',
     [S+'utils/stream.c'],
     [('stream_redirect / stream_read / stream_restore / stream_cleanup_all', S+'utils/stream.c')],
     state=[('streams[]', 'active redirections and their descriptors', S+'utils/stream.c')],
     observe=['descriptor table', 'captured text', 'return codes'])
prop('P25', 'Running the program runs exactly the deepest selected command',
     'Executing after a parse calls the action of the most deeply selected subcommand exactly once with the caller\'s data and returns its result. Without a selected subcommand, or when that subcommand has no action, no action runs and the respective error is returned; asking whether a command was selected agrees with this.',
     [HI, I], 'every active stack and every result of the action',
     'Tests execute one or two commands.',
     [S+'api/argus_exec.c'],
     [('argus_exec / argus_has_command', S+'api/argus_exec.c')],
     observe=['action calls and return value'])
prop('P26', 'A pattern restriction accepts exactly what the pattern engine accepts',
     'A text is accepted exactly when the pattern compiles and the engine reports a match of that pattern on that text; no match is an invalid-value error, a missing pattern is rejected, a pattern that does not compile or an engine failure is rejected with its own error. Whatever the outcome, everything obtained from the engine is released exactly once.',
     [I, F], 'every outcome of the pattern engine',
     'Tests use two patterns; compile failures and engine errors are not reached and releases are not observed.',
     [S+'callbacks/validators/regex_validator.c'],
     [('regex_validator', S+'callbacks/validators/regex_validator.c')],
     observe=['validator status, error_code', 'engine calls'])
prop('P27', 'An option\'s description states its restrictions, default, variable, marks',
     'The description of an option or positional starts with its help text and then states every restriction with a text form that its value hint does not already show, the default of a single-valued option, the environment variable that would really be read for it, and each of its exit, required, deprecated and experimental marks, each exactly once (the variable may share a closing parenthesis); when memory runs out it is still made of whole parts. The value hint is the declared hint, or the text form of the only restriction if that is short, or the name of the type of its elements. The text form of a built-in restriction names its two bounds, every choice in order (a floating-point one to twelve digits), or the hint of a pattern, else a pattern of up to 15 characters itself.',
     [C, F], 'every option definition, with each piece of text up to 100 characters (hints up to 50)',
     'Tests look at a few hints; combinations of marks, restrictions and variables are not compared.',
     [S+'display/help/help_formatter.c', S+'core/parsing/load_env_vars.c', S+'callbacks/validators/range_validator.c', S+'callbacks/validators/length_validator.c', S+'callbacks/validators/count_validator.c', S+'callbacks/validators/choices_validator.c', S+'callbacks/validators/regex_validator.c'],
     [('build_option_description / append_*_info', S+'display/help/help_formatter.c'), ('get_smart_hint', S+'display/help/help_formatter.c'), ('get_env_var_name_for_display', S+'display/help/help_formatter.c'), ('format_choices_validator', S+'callbacks/validators/choices_validator.c'), ('format_regex_validator', S+'callbacks/validators/regex_validator.c')],
     observe=['description text'])
prop('P28', 'Command lists name every runnable command once, by its full path',
     'Without a selected command the list names, each once, every top-level command that has an action and every second-level command that has one (program, command, subcommand names; commands without runnable subcommands first, then each family in table order); when the selected command has no action the list names every command below it, at any depth, once, by its path from that command. Every line carries the path, its own help text at the description column, and nothing else is listed; the closing hint names the program and the selected commands in order, and the version text is the program name, the version and the description, each when set.',
     [C, F], 'every command tree, with paths up to 500 characters',
     'Tests print the list of one or two small trees and look for single words.',
     [S+'display/command_display.c', S+'display/version_display.c', S+'callbacks/handlers/version_handler.c'],
     [('display_all_commands / display_available_subcommands', S+'display/command_display.c'), ('print_subcommand_paths / print_command_families', S+'display/command_display.c'), ('display_version', S+'display/version_display.c')],
     observe=['printed text'])
prop('P29', 'A declaration macro defines exactly what it is given',
     'A definition written with the declaration macros (OPTION_*, POSITIONAL_*, GROUP_*, SUBCOMMAND, HELP_OPTION, VERSION_OPTION with DEFAULT, VALIDATOR and the V_ restrictions, REQUIRE, CONFLICT, FLAGS, ENV_VAR, ACTION and the rest) has exactly the stated kind, names, texts, type, flags, variable, action and table, the handler of that type and, for owned elements, their release. Its lists of restrictions, required and conflicting names are those given, in order and complete for any number; a stated default of the type of the option (integer, floating-point, boolean or text) is what the option holds and reads as until it is given; a positional is required unless its flags say otherwise, and the ready-made help and version options end the program after printing.',
     [C, I], 'every argument of the macros, lists of any length',
     'Tests declare a few dozen fixed options; no test looks at every field of every macro or at long lists, and none reads a fractional default.',
     ['includes/argus/options.h', 'includes/argus/types.h', 'includes/argus/regex.h'],
     [('OPTION_* / POSITIONAL_* / DEFAULT', 'includes/argus/options.h'), ('V_RANGE / V_CHOICE_* / REQUIRE / CONFLICT', 'includes/argus/options.h'), ('MAKE_REGEX', 'includes/argus/regex.h')],
     observe=['option fields', 'accessor results'])
out = os.path.join(H, 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
