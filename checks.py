"""One entry per claimed property: sources, case counts, evidence rule."""
CHECKS = {
    "C01": dict(srcs=["rt.cpp", "c01.cpp"], link=("-static-libstdc++", "-Wl," + ",".join("--wrap=" + f for f in ["iconv_open", "iconv", "memcpy", "memmove", "memset", "memchr", "memcmp", "bcmp", "strlen", "__asan_memcpy", "__asan_memmove", "__asan_memset"])), quick=30000, thorough=1500000, level="exploration", runner="fuzz_then_replay",
                fuzz_runs={"quick": 25000, "thorough": 3000000},
                rule="each case: one hostile byte stream loaded and every loaded message looked up; distinct = different work profile (edges executed, messages, errors, warnings)",
                must_observe=["loads_with_messages", "loads_with_reported_errors", "unsupported_charset_exceptions", "large_inputs", "growth_compared", "large_line_numbers", "very_long_lines", "other_catalog_names"]),
    "C02": dict(srcs=["rt.cpp", "c02.cpp"], quick=40000, thorough=2000000, level="exploration",
                rule="each case: a random message list written by a layout randomiser, loaded and compared exactly; non-trivial = at least one stored message, distinct by catalog bytes",
                must_observe=["messages_compared", "layout_crlf", "layout_no_final_newline", "stream_byte_by_byte"]),
    "C03": dict(srcs=["rt.cpp", "c03.cpp"], quick=60000, thorough=3000000, level="exploration",
                rule="each case: a catalog of well-formed and damaged entries separated by blank lines; distinct by catalog bytes",
                must_observe=["damaged_entries", "good_entries_after_damage", "errors_reported", "clean_catalogs"]),
    "C04": dict(srcs=["rt.cpp", "c04.cpp"], quick=60000, thorough=3000000, level="exploration",
                rule="each case: a catalog encoded by the tables in one charset, loaded into a dictionary of another; distinct by (source, target, catalog hash modulo 64)",
                must_observe=["strings_compared", "invalid_strings", "unsupported_pairs", "default_charset", "big5_catalogs"]),
    "C05": dict(srcs=["rt.cpp", "c05.cpp"], quick=40000, thorough=2000000, level="exploration",
                rule="each case: a history of charset selections and conversions on one converter; distinct by history",
                must_observe=["conversions", "invalid_texts", "expanding_conversions", "unsupported_selections", "table_conversions"]),
    "C06": dict(srcs=["rt.cpp", "c06.cpp"], quick=20000, thorough=1000000, level="exploration",
                rule="each case: a header text (supported rule with white space, mutated rule, or sequence of catalogs with rules) evaluated for hundreds of counts; distinct by header text",
                must_observe=["supported_rules", "mutants_rejected", "rules_in_headers", "conflicting_rules", "unknown_rules", "counts_evaluated"]),
    "C07": dict(srcs=["rt.cpp", "c07.cpp"], quick=60000, thorough=3000000, level="exploration",
                rule="each case: a history of additions and lookups on one dictionary over a tiny (or large) set of keys; distinct by history",
                must_observe=["additions", "lookups", "overwritten"]),
    "C08": dict(srcs=["rt.cpp", "c08.cpp"], quick=8000, thorough=400000, level="exploration",
                rule="each case: a catalog with one of the supported rules (or none) and stored, empty and missing forms, looked up for 73 counts per message; distinct by catalog bytes",
                must_observe=["stored_forms", "empty_forms", "missing_forms", "with_context", "without_rule"]),
    "C09": dict(srcs=["rt.cpp", "c09.cpp"], quick=20000, thorough=1000000, level="exploration",
                rule="each case: a chain of dictionaries, or a manager over base and regional catalogs of one of the 241 known languages; distinct by contents",
                must_observe=["answered_by_fallback", "own_wins", "chains", "chains_changed", "fallbacks_replaced", "regional_languages"]),
    "C10": dict(srcs=["rt.cpp", "c07.cpp"], cflags=("-DVF_C10",), quick=50000, thorough=2500000, level="exploration",
                rule="each case: a history of additions and catalog loads on one dictionary, enumerated repeatedly; distinct by history",
                must_observe=["enumerations", "messages_enumerated", "catalog_loads"]),
    "C11": dict(srcs=["rt.cpp", "c11.cpp"], quick=4000, thorough=150000, level="exploration",
                rule="each case: a history of reconfigurations and requests on one manager; non-trivial = reconfigured at least once after dictionaries were handed out, distinct by history",
                must_observe=["nonempty_dictionaries", "repeated_requests", "held_dictionaries_rechecked", "histories_reconfigured_after_use", "requests_without_language"]),
    "C12": dict(srcs=["rt.cpp", "c12.cpp"], quick=10000, thorough=500000, level="exploration",
                rule="each case: a history of path edits over directories with overlapping catalogs of one of the 241 known languages; non-trivial = some message was in several directories of the path, distinct by history",
                must_observe=["messages_in_several_directories", "additions_with_precedence", "directories_added_again", "directories_removed", "dictionaries_compared"]),
    "C13": dict(srcs=["rt.cpp", "c13.cpp"], quick=12000, thorough=600000, level="exploration",
                rule="each case: one to four directories of up to a dozen marked files and one requested language; distinct by listing and language",
                must_observe=["directories_with_match", "directories_without_match", "inexact_matches", "file_names_converted"]),
    "C14": dict(srcs=["rt.cpp", "c13.cpp"], cflags=("-DVF_C14",), quick=6000, thorough=300000, level="exploration",
                rule="each case: one to four directories of up to a dozen marked files, listed, and every listed language loaded; distinct by listing",
                must_observe=["languages_listed", "listed_languages_loaded", "lists_after_removal"]),
    "C15": dict(srcs=["rt.cpp", "c15.cpp"], quick=8000, thorough=300000, level="fault_enumeration",
                rule="each case: a set of faults (every single fault and every pair of a three-directory world, then random sets) and a series of requests under and after the faults; distinct by fault set and request mode",
                must_observe=["single_faults_enumerated", "fault_pairs_enumerated", "random_fault_sets", "exceptions_reported", "failures_reported", "complete_after_exception", "fallback_lookups",
                              "fired_open_null", "fired_open_throw", "fired_open_failed_stream", "fired_read_throw", "unsupported_charsets_opened"]),
    "C16": dict(srcs=["rt.cpp", "c16.cpp"], quick=60000, thorough=5000000, level="exploration",
                rule="each case: a known language, an alias in many spellings, or a generated name resolved by every route; distinct by name",
                must_observe=["known_languages", "aliases_resolved", "resolved_to_another_variant", "undefined", "names_with_nul"]),
    "C17": dict(srcs=["rt.cpp", "c16.cpp"], cflags=("-DVF_C17",), quick=2000, thorough=40000, shards=4, level="exploration",
                rule="each case: one language against every known language and the undefined one (the first pass covers all pairs); distinct by language, scores and order of comparison",
                must_observe=["pairs_of_one_code", "containers_compared", "country_equal_modifier_equal", "country_equal_modifier_unspecified", "country_equal_modifier_different",
                              "country_unspecified_modifier_equal", "country_unspecified_modifier_unspecified", "country_different_modifier_equal", "country_different_modifier_unspecified"]),
    "C18": dict(srcs=["rt.cpp", "c18.cpp"], quick=5000, thorough=150000, level="exploration",
                rule="each case: one program of operations run with all callbacks installed, pedantic on and off, and under at least five other callback configurations; distinct by program",
                must_observe=["conflicts", "missed_lookups", "clean_lookups", "unstored_forms", "clean_catalogs", "suspicious_catalogs", "suspicious_headers", "pedantic_warnings", "pedantic_off",
                              "malformed_entries", "unopenable_catalogs", "configurations", "exchanges_compared", "default_messages", "arbitrary_catalogs", "big_dictionaries", "same_text_again"]),
    "C19": dict(srcs=["rt.cpp", "c19.cpp"], san="tsan", link=("-pthread",), cflags=("-pthread",), libcov=False, quick=2000, thorough=60000, shards=400, timeout=100, stop_after=3, hang_is_violation=True, level="exploration",
                rule="each case: two to eight threads running random programs; the first case of each process is the first use of the library there; distinct by program shape and observed order of operations",
                must_observe=["first_use_in_process", "thread_results_compared", "with_shared_dictionary", "with_default_callbacks", "context_switches"]),
    "C20": dict(srcs=["rt.cpp", "c20.cpp"], link=("-Wl,--wrap=iconv_open,--wrap=iconv,--wrap=iconv_close,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=strdup,--wrap=strndup",), quick=8000, thorough=400000, level="exploration",
                rule="each case: one history of managers, converters, dictionaries and loads with faults and refused converters, run twice (the second time everything it takes is counted); non-trivial = used a converter or a manager, distinct by history",
                must_observe=["descriptors_opened_and_closed", "conversions_on_open_descriptors", "openings_refused", "openings_made_to_fail", "blocks_taken", "requests", "exceptions", "loads", "reconfigurations", "managers_over_real_files", "histories_with_new_names"]),
    "C21": dict(srcs=["rt.cpp", "c21.cpp"], link=("-Wl,--wrap=iconv_open",), runner="with_locales", quick=1200, thorough=60000, level="exploration",
                rule="each case: one program run in the C locale, under every built C locale and C++ global locale, and with the locale changing between operations; distinct by program",
                must_observe=["runs_compared", "runs_under_global_cpp_locales", "runs_with_changing_locales", "op_name", "op_rule", "op_load", "op_manager", "op_request", "op_convert", "op_dictionary"]),
    "C22": dict(srcs=["rt.cpp", "c22.cpp"], quick=10000, thorough=500000, level="exploration",
                rule="each case: catalogs with fuzzy marks in up to three directories and a history of policy changes and requests on one manager; distinct by contents and history",
                must_observe=["requests_with_policy_on", "requests_with_policy_off", "requests_where_the_policy_matters", "other_entries_kept_with_policy_off", "policy_changes", "fuzzy_singular", "fuzzy_plural",
                              "fuzzy_with_context", "fuzzy_plural_with_context", "fuzzy_headers", "obsolete_entries", "detached_flags", "second_managers"]),
    "C23": dict(srcs=["rt.cpp", "c23.cpp"], quick=1500, thorough=100000, level="exploration",
                rule="each case: one to three real directories of files, links, directories and unreadable entries, listed, read, changed and compared with an in-memory twin; distinct by contents",
                must_observe=["entries_listed", "files_read", "directories_inside", "dangling_links", "link_loops", "links", "read_errors", "missing_directories_reported", "missing_files_reported", "unreadable_files_reported",
                              "dictionaries_compared_with_twin", "nonempty_dictionaries", "unreadable_catalogs_reported", "changed_directories", "missing_directories_on_path"]),
    "C24": dict(srcs=["rt.cpp", "c24.cpp"], quick=3000, thorough=150000, level="exploration",
                rule="each case: two to six actors with objects of their own, created, stepped and destroyed in an interleaved order in a process that has run all earlier cases, each compared step by step with the same actor alone in a new process; distinct by interleaved history",
                must_observe=["results_compared", "switches_between_actors", "op_add", "op_convert", "op_list", "op_load", "op_name", "op_new", "op_reconfigure", "op_request", "op_rule"]),
    "C25": dict(srcs=["rt.cpp", "c25.cpp"], quick=4000, thorough=200000, level="exploration",
                rule="each case: one program run without nesting and with inner operations nested at random in its callbacks, visitors, file systems and streams; distinct by program and nesting",
                must_observe=["inner_results_compared", "outer_results_compared", "outer_dictionary_read", "outer_dictionary_enumerated_again", "nested_twice", "nested_in_directory_listing", "nested_in_opening", "nested_in_stream", "nested_in_visitor",
                              "nested_in_error_callback", "nested_in_warning_callback", "nested_in_info_callback"]),
}

import notes as _n
for _k, (_t, _l) in _n.T.items():
    if _k not in CHECKS: continue
    CHECKS[_k]["technique"], CHECKS[_k]["note"] = _t, _l
