#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["argus_parse", "argus_get", "argus_is_set", "argus_count"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PARSE = "source/core/parsing/"
prop("C01", "Every command-line word is routed exactly once by the documented grammar",
 "Scanning left to right, every word is consumed exactly once as an option, as the value of the option before it, as a subcommand or as the next positional; a valued option takes its attached text (after '=' or after its letter) or else the next word whatever that word looks like, letters behind one dash are separate short options, and every word after '--' is a positional. A word such as -5 or -.5 is a positional when the next positional is numeric, and a lone '-' is an ordinary positional. A word that fits nothing, a missing value, or a value given with '=' to an option that takes none makes the parse fail with an invalid-argument or missing-value error, and nothing after the first such word has any effect.",
 ["inputs", "programs"], "all word sequences over a colliding alphabet up to a length bound, for several option tables (flags, valued options, numeric / variadic / optional positionals, subcommands, help)",
 "Tests try a few dozen fixed argument vectors; the grammar is a claim about every sequence (e.g. a second '--', '-' alone, a negative number before a variadic positional, a cluster ending in a valued option at the end of line).",
 [PARSE+"parse_args.c", PARSE+"option_handle_long.c", PARSE+"option_handle_short.c", PARSE+"option_handle_positional.c", PARSE+"execute_callbacks.c", "source/utils/option_lookup.c"],
 [("word classification loop", PARSE+"parse_args.c:parse_args"), ("cluster walk", PARSE+"option_handle_short.c"), ("'=' / next word value", PARSE+"option_handle_long.c"), ("positional slot selection", "source/utils/option_lookup.c:find_positional")])
prop("C02", "All spellings of the same option assignment are equivalent",
 "For every option table and value, '--name value', '--name=value', '-n value' and '-nvalue' give the same outcome (same success or error, same values, counts and set states), and '-abc' gives the same outcome as '-a -b -c' with a value attached to or following the last letter. Moving an option occurrence (with its value) before or after a positional or before or after an occurrence of a different option does not change the outcome of a successful parse.",
 ["inputs", "programs"], "all assignments of spellings to every sequence of option occurrences up to a bound, and all reorderings of them, over tables with every value type",
 "Tests pick one spelling per case; equivalence is a relation between all of them, for all value texts (empty, leading dash, containing '=').",
 [PARSE+"option_handle_long.c", PARSE+"option_handle_short.c", PARSE+"parse_args.c"],
 [("long form value split at first '='", PARSE+"option_handle_long.c"), ("short form attached value", PARSE+"option_handle_short.c")])
prop("C03", "Commands resolve by exact name or unique prefix; exec runs exactly that action",
 "At every nesting level a non-option word selects the subcommand with exactly that name, else the only subcommand of which it is a non-empty case-sensitive prefix, fails as ambiguous when there are several, and is a positional when there is none; all later words belong to the selected subcommand. Executing runs exactly the action of the deepest selected subcommand, once, with the caller's data, and returns its result; with no subcommand selected it reports 'no command', and with no action on it an invalid-handler error, running nothing. Nesting deeper than the supported depth of 8 is refused with a stack-overflow error.",
 ["inputs", "programs"], "all command paths, prefixes, near-misses and word sequences over trees of subcommands whose names are prefixes of one another, in every sibling order, to a depth beyond the limit",
 "Tests try one tree and about twenty words; the claim is about every name set and order (e.g. an exact name that is a prefix of an earlier sibling) and every depth.",
 [PARSE+"parse_args.c", PARSE+"option_handle_subcommand.c", "source/api/argus_exec.c", "source/display/command_display.c"],
 [("find_subcommand", PARSE+"parse_args.c"), ("subcommand stack push", PARSE+"option_handle_subcommand.c"), ("argus_exec", "source/api/argus_exec.c")],
 [("subcommand_stack/subcommand_depth", "chain of selected subcommands", "includes/argus/types.h")], ["argus_parse", "argus_exec", "argus_has_command"])
prop("C04", "Option paths resolve along the active command chain only",
 "A plain name resolves to the deepest selected level that defines it, searching outwards to the root; '.name' resolves at the root only; 'cmd.name' or 'cmd.sub.name' resolves only when those components are exactly the leading selected subcommands, at that level. Group headings are never resolved. Every other path, including paths into subcommands that were not selected, misspelt or abbreviated components and surplus components, is reported as absent (not set, count 0, no-value error).",
 ["inputs", "programs"], "all paths of up to four components over the names and non-names of command trees that reuse names at several levels, for every active command chain",
 "Tests look up a few existing paths; the claim includes every wrong path and every shadowing combination.",
 ["source/utils/option_lookup.c", "source/api/argus_value_access.c"],
 [("find_option_by_active_path", "source/utils/option_lookup.c"), ("accessors", "source/api/argus_value_access.c")], None, ["argus_get", "argus_is_set", "argus_count", "argus_array_get", "argus_map_get"])
prop("C05", "Scalar values are converted exactly or rejected",
 "For integer, float, boolean and string options and positionals, whether given on the command line or by an environment variable, a successful parse stores exactly the value the text denotes: decimal 64-bit integers, double-precision floats, the documented true and false spellings in any letter case, strings byte for byte. Text that is not such a value (empty, trailing garbage, out of range) makes the parse fail; it is never stored as some other value.",
 ["inputs"], "all value texts up to a length bound over an alphabet of digits, signs, dots, exponents and letters, plus boundary literals, for each scalar type, spelling and source",
 "Tests convert a handful of texts; the claim is about all texts, in particular malformed ones.",
 ["source/callbacks/handlers/int_handler.c", "source/callbacks/handlers/float_handler.c", "source/callbacks/handlers/bool_handler.c", "source/callbacks/handlers/string_handler.c"],
 [("int_handler", "source/callbacks/handlers/int_handler.c"), ("float_handler", "source/callbacks/handlers/float_handler.c"), ("string_to_bool", "source/callbacks/handlers/bool_handler.c")])
prop("C06", "Arrays hold exactly the given elements, with integer ranges expanded",
 "Without ordering flags, an array option or multi-value positional holds, in order, the concatenation over its occurrences of the comma-separated elements (empty elements skipped), integer elements a-b or a:b standing for every integer between the two ends inclusive, lowest first. Any malformed element makes the whole parse fail. The count, indexed access and iteration all agree with that list, whatever its length.",
 ["inputs", "histories"], "all sequences of occurrences over an alphabet of element lists and all element texts up to a length bound, plus counts crossing every storage growth step",
 "Tests check a few lists; growth boundaries, negative and reversed ranges, empty elements and repeated occurrences combine in ways no sample covers.",
 ["source/callbacks/handlers/array_int_handler.c", "source/callbacks/handlers/array_float_handler.c", "source/callbacks/handlers/array_string_handler.c", "source/callbacks/handlers/variadic_int_handler.c", "source/callbacks/handlers/variadic_float_handler.c", "source/callbacks/handlers/variadic_string_handler.c", "source/utils/multi_values.c", "source/utils/strings.c"],
 [("range parsing", "source/callbacks/handlers/array_int_handler.c:parse_int_range"), ("growth", "source/utils/multi_values.c:adjust_array_size"), ("split", "source/utils/strings.c:split")], None,
 ["argus_array_get", "argus_array_it", "argus_count", "argus_get"])
prop("C07", "Sorted and unique arrays are exactly the sorted / duplicate-free list",
 "With the sorted flag an array or multi-value positional holds the given elements in ascending order (numeric order, byte order for strings); with the unique flag it holds one copy of each distinct element, keeping the first when not sorted; with both, the sorted duplicate-free list. This holds however the elements are spread over occurrences, ranges and the environment.",
 ["inputs", "histories"], "all element sequences up to a length bound over small alphabets with duplicates and extremes, split over occurrences in every way, for every element type and flag combination",
 "Tests sort a few lists; the claim is over all permutations, duplicates and splits.",
 ["source/utils/multi_values.c"], [("apply_array_flags", "source/utils/multi_values.c"), ("comparators", "source/utils/multi_values.c")], None, ["argus_array_get", "argus_array_it", "argus_count"])
prop("C08", "Maps hold exactly the last value given for every key",
 "A map option holds one entry per distinct key given, with the last value given for it, in order of first appearance; a pair is split at its first '=', pairs are separated by commas (empty pairs skipped), and values are converted as strictly as scalars of that type. A pair without '=' or with an unconvertible value makes the whole parse fail. Lookup by key, iteration and count all agree with that mapping.",
 ["inputs", "histories"], "all sequences of pairs over colliding keys and good and bad values, split over occurrences in every way, for every value type, and sizes crossing storage growth",
 "Tests build a few maps; replacement, growth and error interleavings need every sequence.",
 ["source/callbacks/handlers/map_string_handler.c", "source/callbacks/handlers/map_int_handler.c", "source/callbacks/handlers/map_float_handler.c", "source/callbacks/handlers/map_bool_handler.c", "source/utils/multi_values.c"],
 [("set_kv_pair", "source/callbacks/handlers/map_*_handler.c"), ("map_find_key, adjust_map_size", "source/utils/multi_values.c")], None, ["argus_map_get", "argus_map_it", "argus_count"])
prop("C09", "Map ordering and uniqueness flags hold",
 "With the sorted-key flag a map iterates in ascending byte order of keys, with the sorted-value flag (and no sorted-key flag) in ascending order of values, and with the unique-value flag no two entries have equal values, the entry stored first being kept. The flags never change the value of a remaining key, add a key, or drop an entry whose value was not a duplicate, however pairs are spread over occurrences.",
 ["inputs", "histories"], "all pair sequences up to a bound over small keys and values with duplicates, split over occurrences in every way, for every value type and every flag combination",
 "Tests check one list per flag; interactions of replacement, uniqueness and re-sorting across occurrences need every sequence.",
 ["source/utils/multi_values.c"], [("apply_map_flags", "source/utils/multi_values.c"), ("make_map_values_unique", "source/utils/multi_values.c")], None, ["argus_map_it", "argus_map_get", "argus_count"])
prop("C10", "Requirements, conflicts and exclusivity are enforced exactly",
 "When the words themselves are valid, the parse succeeds if and only if, at the root and at every selected subcommand level, every required option and positional is present, no provided option lacks an option it requires or coexists with an option it conflicts with, and no exclusive group has two provided members; otherwise it fails with the code of a constraint that is violated. Values from the environment count as provided, defaults do not trigger a constraint, and levels that were not selected impose nothing.",
 ["inputs", "programs"], "all subsets of provided options (by command line, environment or default) for all constraint graphs up to a bound, at the root and in nested subcommands",
 "Tests try single violations; 'if and only if' over every subset and graph, at every level, is not sampled.",
 [PARSE+"post_parse_validation.c"], [("validate_options_set", PARSE+"post_parse_validation.c"), ("level loop", PARSE+"post_parse_validation.c:post_parse_validation")], None, ["argus_parse"])
prop("C11", "Declared validators decide acceptance exactly",
 "A parse that provides an option succeeds only if every validator declared on it accepts: numeric ranges inclusive of both ends for integers and floats, string length in bytes inclusive, number of collection elements, choices of strings, integers and floats, regular expressions, and custom callbacks; and it is never refused by a validator whose condition holds. Callbacks declared to run before conversion see each raw value text of each occurrence, and a refusal leaves the conversion unrun; those declared to run after conversion run once per parse on the final value. Several validators run in declaration order, and the first refusal is the parse's result.",
 ["inputs", "programs"], "all values around every bound, all validator lists up to a bound with all accept/refuse answers, for every validated type, on the command line, positionals and environment",
 "Tests exercise one validator at a time on a few values.",
 ["source/callbacks/validators/range_validator.c", "source/callbacks/validators/length_validator.c", "source/callbacks/validators/count_validator.c", "source/callbacks/validators/choices_validator.c", "source/callbacks/validators/regex_validator.c", PARSE+"execute_callbacks.c", PARSE+"post_parse_validation.c"],
 [("pre validators", PARSE+"execute_callbacks.c"), ("post validators", PARSE+"post_parse_validation.c:call_validators"), ("built-in validators", "source/callbacks/validators/")], None, ["argus_parse", "validator callback invocations"])
prop("C12", "Command line beats environment beats default; override flips the first two",
 "Each option's final value comes from the command line if given there, else from its environment variable if that is set, else from its default; with the override flag the environment variable wins over the command line, replacing it entirely also for collections. Boolean options and flags accept the documented true and false spellings, a flag whose variable is false staying off, and an unconvertible environment value makes the parse fail. Options of the root and of selected subcommands are loaded; variables of unselected subcommands have no effect.",
 ["inputs", "configurations"], "all combinations of command-line presence, environment presence and text, default, override flag, value type and level",
 "Tests set a few variables on a few options; precedence is a claim over the whole product.",
 [PARSE+"load_env_vars.c"], [("load_env", PARSE+"load_env_vars.c")], None, ["argus_parse", "argus_get"])
prop("C13", "Environment variable names follow the documented rule, and help shows them",
 "An option with an explicit variable name reads exactly that name with the program's prefix and one underscore in front (unless it already starts with the prefix, or prefixing is disabled for it); an option with automatic naming reads the upper-cased prefix, one underscore and its upper-cased name with dashes as underscores (the name alone without a prefix or when prefixing is disabled for it); no other variable influences any option. The name shown in help for an option is exactly the name that is read.",
 ["configurations", "inputs"], "all combinations of prefix (absent, empty, with and without trailing underscore), explicit or automatic name, no-prefix flag and option name, against every candidate variable name",
 "Tests check a few names; that no other candidate is read, and that help agrees, is not sampled.",
 [PARSE+"load_env_vars.c", "source/display/help/help_formatter.c"], [("env_var_name", PARSE+"load_env_vars.c"), ("append_env_info", "source/display/help/help_formatter.c")], None, ["argus_parse", "argus_print_help"])
prop("C14", "No input can corrupt memory, hang or leak",
 "For every valid option table, argument vector and environment, parsing, every accessor and iterator, help, usage and version output, execution and freeing (also twice, also after a failed parse) terminate without out-of-bounds access, use of freed or uninitialised memory, or undefined behaviour. Once the context has been freed, whether the parse succeeded, failed at any point or ended by help, no memory allocated on its behalf remains.",
 ["inputs", "histories"], "all argument vectors over alphabets of good, duplicate and malformed values for every value type, followed by all short histories of public API calls",
 "Tests are not run under a sanitizer, and error paths after partial collection building are the ones no sample reaches.",
 ["source/api/argus_parse.c", "source/api/argus_free.c", "source/api/argus_value_access.c", "source/utils/value_utils.c", "source/utils/multi_values.c", "source/callbacks/handlers/", "source/display/"],
 [("free_option_value", "source/utils/value_utils.c"), ("free handlers", "source/callbacks/handlers/"), ("argus_free", "source/api/argus_free.c")],
 [("is_allocated/value_count/value_capacity", "ownership and size of collection storage", "includes/argus/types.h")], ["sanitizer reports", "allocation accounting", "all public calls"])
prop("C15", "A failing allocation never corrupts, crashes or passes for success",
 "If any single memory allocation during parsing fails, or every allocation from some point on fails, the parse either still produces exactly the result it would have produced or returns an error; it never crashes, leaks, or reports success with missing or different data. Accessors and freeing afterwards remain safe.",
 ["fault_sequences", "inputs"], "every allocation index of every parse in an input corpus, failing once and failing from there on",
 "Tests never fail an allocation.",
 ["source/utils/multi_values.c", "source/callbacks/handlers/", "source/utils/strings.c"], [("adjust_array_size/adjust_map_size", "source/utils/multi_values.c"), ("split", "source/utils/strings.c")], None, ["argus_parse", "argus_free"])
prop("C16", "Accessors and iterators agree with each other and report precise errors",
 "For every option and active command chain, plain access, count, set state, indexed access, key lookup and iteration describe the same data: iteration yields exactly count elements, in index order, equal to indexed access and key lookup, again after a reset, and any number of iterators are independent. Indexed access beyond the end, lookup of an absent key, use on the wrong kind of option and use of an unknown path return a zero value with the invalid-index, invalid-key, invalid-type and no-value error respectively, and a successful access clears the error.",
 ["histories", "inputs"], "all sequences of accessor and iterator operations up to a length bound over options of every kind in several parsed states",
 "Tests call each accessor once or twice in a fixed order.",
 ["source/api/argus_value_access.c"], [("accessors and iterators", "source/api/argus_value_access.c")], None, ["argus_get", "argus_array_get", "argus_map_get", "argus_array_it", "argus_map_it", "argus_array_next", "argus_map_next", "argus_array_reset", "argus_map_reset", "error_code"])
prop("C17", "Help and version stop the program successfully, and only they do",
 "When an exit option such as help or version is reached before any error, at any level and in any spelling, its output for the active command goes to standard output and the program exits with status 0, whatever words follow and whatever is missing, and without running later options. When an error comes first, or when no exit option was given, parsing never terminates the program. Help shown inside a subcommand describes that subcommand and its full command chain.",
 ["inputs"], "all word sequences up to a bound mixing exit options, commands, other options, positionals, '--' and errors",
 "Tests check --help alone; its interaction with every prefix and suffix of words is not sampled.",
 ["source/api/argus_parse.c", PARSE+"execute_callbacks.c", "source/callbacks/handlers/help_handler.c", "source/callbacks/handlers/version_handler.c"],
 [("should-exit status", PARSE+"execute_callbacks.c"), ("exit", "source/api/argus_parse.c")], None, ["argus_parse", "exit status", "standard output"])
prop("C18", "Failures are reported consistently: status, error code, message, stderr",
 "Every failing parse returns a non-zero error status, stores that same status as the context's error code, and writes exactly one non-empty diagnostic to standard error that starts with the program name; when a word of the command line is at fault, a suggestion naming the program, the commands selected so far and --help follows; every successful parse returns zero, stores zero and writes nothing to standard output or standard error. Every error status has its own specific human-readable description.",
 ["inputs"], "all word sequences and environments of every other check's grammar, constraint, value and environment spaces, and every error code",
 "Tests compare individual status codes; agreement of the three channels over all failures is not checked.",
 ["source/api/argus_parse.c", "source/core/error.c", "includes/argus/errors.h"], [("ARGUS_PARSING_ERROR", "includes/argus/errors.h"), ("argus_strerror", "source/core/error.c"), ("error_code assignment", "source/api/argus_parse.c")], None, ["argus_parse", "error_code", "argus_strerror", "standard error"])
prop("C19", "Definition validation rejects exactly the malformed tables",
 "In debug builds initialisation accepts an option table if and only if it obeys the documented rules: help option present, names non-empty, well-formed and unique, help text and handlers present, flags legal for the kind of entry, dependencies that exist and do not contradict, defaults that pass their validators and are not on flags or required positionals, required positionals before optional ones, at most one multi-value positional and that one last, options before subcommands, no required positional next to subcommands, nesting within the limit. Rejection reports every offence to standard error and exits with failure; acceptance is silent; the same rules apply at every nesting level.",
 ["programs", "configurations"], "all tables of up to three or four entries built from a catalogue of entry shapes, all single rule violations applied to valid tables at every level, all pairs of them",
 "Tests validate single hand-written tables; 'exactly' quantifies over all tables.",
 ["source/core/validation/validate_structure.c", "source/core/validation/validate_arguments.c", "source/core/validation/validate_containers.c", "source/api/argus_init.c"],
 [("validate_placement / naming / type_format", "source/core/validation/validate_structure.c"), ("validate_option / positional", "source/core/validation/validate_arguments.c")], None, ["argus_init with ARGUS_DEBUG", "exit status", "standard error"])
prop("C20", "Help lists every visible entry exactly once, in its section, with its facts",
 "For every option table the help of a level lists each visible option, positional and subcommand of that level exactly once and no hidden one, options under their group's heading or the general section, in definition order. Each entry shows its short and long names, its value placeholder, its complete help text, and, when present, its default value, validator summary, environment variable and required, exit, deprecated or experimental marks.",
 ["programs", "configurations"], "all tables up to a bound over a catalogue of entry kinds, groupings, visibility, defaults of every type, validators, environment names and mark combinations",
 "Tests grep a few strings in one help text.",
 ["source/display/help/help_organizer.c", "source/display/help/help_renderer.c", "source/display/help/help_formatter.c"], [("organize_options", "source/display/help/help_organizer.c"), ("build_option_description", "source/display/help/help_formatter.c")], None, ["argus_print_help"])
prop("C21", "Help layout never loses text, loops or overflows for any widths and texts",
 "For every combination of line width, description column, indent and hint settings and every help text, printing help terminates and the description of an entry, with line breaks and indentation removed, is exactly its text, in order, with nothing lost, repeated or reordered. When the configured line width leaves room for text after the description column, every description line starts at that column, fits within the line width, and is broken only at a space, at an explicit newline, or, when the line has no space to break at, inside a word.",
 ["configurations", "inputs"], "all texts up to a length bound over {letter, space, newline} for all small widths, columns and indents, including degenerate ones",
 "Tests print help with the default layout.",
 ["source/display/help/help_formatter.c", "source/display/help/help_renderer.c"], [("print_wrapped_text", "source/display/help/help_formatter.c")], None, ["argus_print_help"])
prop("C22", "Parsing is a function of its inputs: no interference between contexts",
 "The outcome of a parse depends only on its option table, argument vector, environment and settings: it is the same whatever other contexts were initialised, parsed, printed or freed before or in between, in any interleaving. Parsing never modifies the argument vector, its strings, the environment or option definitions, and read-only operations (access, iteration, help, usage, version output) never change what later operations observe.",
 ["histories", "schedules"], "all interleavings of the operations of two contexts over separate tables, and all short operation sequences before a probe parse",
 "Tests use one context at a time.",
 ["source/api/", PARSE, "source/display/", "source/core/validation/validate_structure.c"], [("state lives in context and table only", "includes/argus/types.h")],
 [("static buffers", "name buffers reused between calls", "source/core/parsing/load_env_vars.c, source/display/help/help_formatter.c")], ["all public calls"])
prop("C23", "Usage line and command listings describe the command tree exactly",
 "The usage line of a level consists of the program name, the selected command chain, the options marker, every positional in order with required, optional and multi-value ones distinguished, and a command placeholder if and only if the level has subcommands. When no command was given, the printed listing names every executable command of the first two levels with its full path and description exactly once and nothing else; for a selected command without action it names every subcommand below it exactly once, by its path from that command.",
 ["programs", "inputs"], "all command trees up to a bound in width and depth with all placements of actions, and all positional signatures up to a bound",
 "Tests check a fixed tree's output for a few substrings.",
 ["source/display/usage_display.c", "source/display/command_display.c", "source/api/argus_exec.c"], [("display_usage", "source/display/usage_display.c"), ("display_all_commands / display_available_subcommands", "source/display/command_display.c")], None, ["argus_print_usage", "argus_exec", "standard output"])

prop("C24", "Predefined patterns accept exactly the format they are named for",
 "Each predefined pattern used as an option's regular-expression validator accepts exactly the texts of its documented format and nothing before, after or instead of it: IPv4 and IPv6 addresses, fully qualified domain names, URLs of any protocol and HTTP(S) URLs (no blanks), port numbers 1-65535, basic and RFC-style e-mail addresses, ISO dates and date-times with fields in range, user names of 3-20 characters, passwords of 8 or more characters with a letter and a digit, version-4 UUIDs, absolute Unix paths, file names with an extension, semantic versions, positive, negative, decimal and 0x-hexadecimal numbers.",
 ["inputs"], "all texts up to a length over an alphabet per pattern, all one-character edits with any byte and two-character edits of canonical texts, all field values and lengths around the documented limits",
 "No test checks most of these patterns; a pattern is a claim about every text, and a missing anchor or a wrong alternative shows only on texts nobody tried.",
 ["includes/argus/regex.h", "source/callbacks/validators/regex_validator.c"], [("ARGUS_RE_* patterns", "includes/argus/regex.h"), ("regex_validator", "source/callbacks/validators/regex_validator.c")], None, ["argus_parse"])
prop("C25", "Custom handlers run once per occurrence and their values are freed once",
 "For an option or positional with an application-defined handler, the handler runs exactly once per occurrence, in command-line order, with exactly the raw value text (none for a flag) and after its pre-conversion validators accepted, and once with the variable's text when the environment supplies the value; a repeated occurrence finds the value stored before. A non-zero result ends the parse at once with that status, and no later handler runs. Access returns exactly what the handler stored last. A value marked as allocated is released exactly once, by the option's free handler or else with free(): when the environment replaces it, when the parse fails or when the context is freed; a value not marked is never released.",
 ["inputs", "programs", "histories"], "all sequences of occurrences up to a bound mixed with other words and environment values, over tables of custom options, flags and positionals at several command levels, every handler behaviour and every refusal point",
 "Tests use the built-in handlers; ownership and call order are claims about every sequence of stores, refusals and replacements.",
 [PARSE+"execute_callbacks.c", PARSE+"load_env_vars.c", "source/utils/value_utils.c", "source/api/argus_free.c", "source/api/argus_parse.c"],
 [("execute_callbacks", PARSE+"execute_callbacks.c"), ("free_option_value", "source/utils/value_utils.c"), ("replacement by the environment", PARSE+"load_env_vars.c")], [("value/is_allocated", "value stored by the handler and whether Argus releases it", "includes/argus/types.h")], ["handler and free-handler calls", "argus_parse", "argus_get"])
prop("C26", "Diagnostics name what is wrong",
 "The diagnostic of a failing parse names in full what is at fault. For a word: the unknown option as the user spelled it (without an attached value), the option that lacks its value or was given one although it takes none, the word that no positional or command takes, or the ambiguous command word together with at least two of the commands it abbreviates. For a value from the command line or the environment: the text, list element, or key and value that cannot be converted (for a flag's variable, also the option's name); the refused integer or text, the text's length or the collection's count, with the limits or choices it violates; the text a pattern refused with the pattern's hint. For a constraint: the missing required option or positional; the missing dependency and the option that needs it; both conflicting options; the exclusive group and two of its members that were given. A refused value precedes its limits and the lower limit the upper, a key its value, a missing dependency the option that needs it. When several constraints are violated, any one of them may be reported.",
 ["inputs", "programs"], "all word sequences up to a bound over tables covering every kind of failure, every short text for every option type and route, every combination of relations and of provided options over five options, extreme limits and values of every validator, names and words of every length to 300",
 "Tests compare a few fixed error codes and never the text a user has to act on; truncation, swapped arguments and stale or wrong names show only for particular inputs.",
 ["includes/argus/errors.h", PARSE+"option_handle_long.c", PARSE+"option_handle_short.c", PARSE+"option_handle_positional.c", PARSE+"option_handle_subcommand.c", PARSE+"parse_args.c", PARSE+"post_parse_validation.c", PARSE+"load_env_vars.c", "source/callbacks/validators/range_validator.c", "source/callbacks/validators/choices_validator.c"],
 [("ARGUS_PARSING_ERROR", "includes/argus/errors.h"), ("relations, groups and required entries", PARSE+"post_parse_validation.c"), ("conversion messages", "source/callbacks/handlers/int_handler.c")], None, ["argus_parse", "standard error"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
