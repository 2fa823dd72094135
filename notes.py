"""technique / level_note / assumptions of each check, merged into CHECKS."""
T = {
 "C01": ("ASan+UBSan+checked containers with a logical work budget over generated hostile catalogs, plus a libFuzzer campaign judged by the same monitor",
         "Every execution is watched by AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++'s checked containers; work is counted in executed library edges and bounded by a fixed multiple of the input size. Assurance is limited to the streams generated."),
 "C02": ("sanitizers plus an exact oracle monitor: generated message lists rendered in random layouts are loaded and compared with the list",
         "The oracle is the generator's own message list, never the library. Assurance is limited to the layouts and contents generated."),
 "C03": ("sanitizers plus a monitor of loaded messages and error-log events over catalogs with injected malformed entries",
         "The generator knows which entries are well formed and where each malformed entry lies; malformed shapes are limited to a fixed list of kinds with random contents."),
 "C04": ("sanitizers plus an oracle monitor over catalogs encoded from independent conversion tables",
         "Expected strings come from conversion tables produced once by Python's codecs, not by iconv; charsets whose glibc and Python tables differ are excluded or restricted to the common part."),
 "C05": ("sanitizers plus a history monitor comparing each conversion with a fresh converter, conversion tables and an independent iconv call",
         "Histories of selections and conversions on one converter; texts up to a few thousand bytes."),
 "C06": ("sanitizers plus a differential monitor against an independent evaluator of the header's C expression",
         "Counts are dense up to about a thousand and sampled beyond; unrecognised rules come from mutations of the supported ones."),
 "C07": ("sanitizers plus an online reference-model monitor of every addition and lookup",
         "Each lookup is compared with a map-based model; histories are random over deliberately colliding keys."),
 "C08": ("sanitizers plus an end-to-end oracle monitor over catalogs with each supported plural rule",
         "Expected form index comes from an independent expression evaluator."),
 "C09": ("sanitizers plus an oracle monitor over fallback chains and over managers for every known language",
         "Chains up to a few dictionaries; every known regional language is visited."),
 "C10": ("sanitizers plus a monitor of visited messages (exactly once, exact contents) against a reference model",
         "Enumeration is compared with a map-based model after random histories."),
 "C11": ("sanitizers plus an online twin monitor: after every step of a history the dictionaries handed out are compared with those of a new manager of the same configuration and with their own earlier state",
         "The twin is the library itself in a fresh state (what a fresh manager must return is decided by C02-C10, C12, C13); object identity and contents of held dictionaries are re-checked after every operation."),
 "C12": ("sanitizers plus an oracle monitor: expected union by priority computed from the generator's catalogs and a model of the path",
         "The model of the search path and the union is independent of the library; every known language is visited."),
 "C13": ("sanitizers plus an oracle monitor over marked catalogs: which file contributed is read off the loaded messages and compared with an independent scoring of all listed names",
         "Between files of equal score either is accepted; the listing order is permuted."),
 "C14": ("sanitizers plus an oracle monitor comparing listed languages with an independent resolution of the file names and loading every listed language",
         "File name resolution is re-implemented in the harness from the statement."),
 "C15": ("fault injection at the file system interface with a monitor of results, exceptions and error-log events; every single fault and every pair of a small world enumerated, larger sets random",
         "Faults: listing throws, opening throws / returns null / returns a failed stream, reading throws or ends with a bad stream after any byte, undecodable charsets. A stream that ends early without any error indication is not detectable and not claimed."),
 "C16": ("sanitizers plus an oracle monitor: an independent splitter and best-match search over a copy of the language table decides every name",
         "All known languages and aliases in many spellings, plus generated strings; where several known languages match equally well, any of them is accepted."),
 "C17": ("sanitizers plus a monitor of algebraic laws (symmetry, range, ranking, equality/ordering/hash agreement) over all pairs of known languages and sampled triples",
         "All pairs of the 241 known languages and the undefined one are visited in the quick tier."),
 "C18": ("sanitizers plus a trace monitor over log callbacks and over redirected descriptors 1 and 2, and a comparison of all results across callback configurations",
         "Severity and count of messages are judged for events whose class the statement fixes; texts are never judged."),
 "C19": ("ThreadSanitizer over random multi-threaded programs with injected delays, in many processes so that first use is raced, plus comparison of each thread's results with a sequential run",
         "Happens-before detection on the executions seen; the order of operations actually observed is recorded. glibc's converter modules are loaded beforehand because the sanitizer cannot see its locks."),
 "C20": ("allocation, descriptor, stream and file accounting around complete histories with injected failures (operator new/delete and iconv_open/iconv/iconv_close intercepted), under AddressSanitizer",
         "Each history runs twice and the second run must be balanced exactly. Failing allocations are not injected (see DESIGN.md)."),
 "C21": ("differential monitor: the same program under nine compiled C locales, C++ global locales and changing locales must give the results of the C locale",
         "Locales are compiled with localedef; the empty target charset and transliteration, which the C library itself makes depend on the locale, are refused by an interceptor."),
 "C22": ("sanitizers plus an oracle monitor: expected messages computed from the generator's fuzzy marks and the policy over histories of policy changes",
         "The expected contents come from the generator's own list of entries."),
 "C23": ("sanitizers plus a monitor over real scratch directories: listings and bytes compared with what was written, managers compared with an in-memory twin, open descriptors counted",
         "Regular files, directories, links, dangling links, loops, unreadable and failing files; missing permissions are tested by dropping the effective user where possible."),
 "C24": ("sanitizers plus a differential monitor: every result of an interleaved actor is compared with the same actor run alone in a pristine process",
         "The comparison is with the library itself in a process that has done nothing else; wrong results that do not depend on other objects are decided by the other properties. Actors use in-memory file systems."),
 "C25": ("sanitizers, a detector of blocked cases and a differential monitor: outer and inner operations nested in callbacks, visitors, file systems and streams are compared with the same operations un-nested",
         "Nesting is at most two deep; callbacks that throw and requests to the same manager from its own file system are not claimed."),
}
