#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run by hand; its output is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, level="model_checking", technique=None, note=None, na=None, spec=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, level=level, technique=technique, note=note, na=na, spec=spec))


TR = "TLA+ model checked with TLC; TLC behaviours and seeded histories replayed on the real library, recorded traces validated against the spec by TLC"

prop("C01", "Vectors behave as sequences over every call history",
     "After any sequence of in-contract vector calls (create, push, insert, set, pop, remove, find, clear, reserve, resize, shrink, duplicate, apply; generic or typed, any element size, with or without an allocator) the elements, length, emptiness and every returned value or index are those of an abstract sequence given the same operations; stable removal keeps the order, fast removal moves the last element into the gap, and popping an empty vector changes nothing and yields NULL (0 for the typed forms). "
     "Capacity never falls below the length and changes only as asked (reserve adds n, resize sets it to n, shrink sets it to the length) or when an insertion does not fit. "
     "A call affects only the vector it is applied to, and a duplicate is independent of its original.",
     ["histories", "inputs", "configurations"], "every history of calls on any number of live vectors, every element size and type, with and without allocator",
     "test_vec runs one fixed history on a few ints; growth boundaries, element widths, typed variants and interleavings of several containers are unreachable by sampling a few cases",
     ["src/vita/container/vec.c", "src/vita/container/common.c", "inc/vita/container/vec.h"],
     [("growth and element shifting", "vt_vec_push_front/insert/remove/reserve/resize in src/vita/container/vec.c"), ("indexed access", "vt_array_get/vt_array_set in src/vita/container/common.c")],
     spec="Vec.tla, VecMC.tla, VecTrace.tla")
prop("C02", "Pointer lists behave as sequences over every call history",
     "After any sequence of in-contract pointer-list calls (create, push, insert, set, pop, remove by index or by element, find, clear, reserve, resize, shrink, duplicate, apply; with or without an allocator) the stored pointers, length, emptiness and every returned pointer or index are those of an abstract sequence given the same operations; removing an element removes its first occurrence only, and a pop on an empty list changes nothing and yields NULL. "
     "Capacity never falls below the length and changes only as asked (reserve adds n, resize sets it to n, shrink sets it to the length) or when an insertion does not fit. "
     "A call affects only the list it is applied to, and a duplicate is independent of its original.",
     ["histories", "inputs", "configurations"], "every history of calls on any number of live lists, with and without allocator",
     "test_plist runs one fixed history on two strings",
     ["src/vita/container/plist.c", "inc/vita/container/plist.h"],
     [("growth and pointer shifting", "vt_plist_push_front/insert/remove/remove_element/reserve/resize in src/vita/container/plist.c")],
     spec="Vec.tla, VecMC.tla, VecTrace.tla")
prop("C03", "Editing keeps a string's content, length, terminator and capacity consistent",
     "After any sequence of in-contract string edits (create, duplicate, take ownership, set, set_at, set_c, append, insert, their n-character and formatted forms, insert before/after a substring, remove, clear, reserve, resize, shrink, validate length) the text equals what the same edits give on an abstract character sequence, the reported length equals the number of characters up to the zero terminator, and capacity is at least the length. "
     "Capacity only changes when asked (reserve adds n, resize sets n and truncates, shrink sets the length) or when the new text does not fit; characters of the source beyond the requested count are never copied. "
     "Other strings, including duplicates, are unaffected.",
     ["histories", "inputs", "configurations"], "every history of edits on any number of strings, every text, with and without allocator",
     "test_str runs a single fixed scenario per function; buffer boundaries (exactly full, one short), long formatted output and chains of edits are not reached",
     ["src/vita/container/str.c", "inc/vita/container/str.h"],
     [("growth before writing", "vt_str_append_n/insert/insert_n in src/vita/container/str.c"), ("formatted output", "vt_str_vfmt_set/vt_str_vfmt_append in src/vita/container/str.c")],
     spec="StrOps.tla, Str.tla, StrMC.tla, StrTrace.tla")
prop("C04", "Search, replace, remove and strip transform exactly what they name",
     "For every text and pattern: find/index return the first occurrence (or NULL/-1), counting counts non-overlapping occurrences, remove/replace first, last and all act on exactly those occurrences (first; last of the left-to-right non-overlapping ones; all, where removing all repeats until no occurrence remains) and leave every other character in place, removing or replacing characters from a set touches exactly the characters in it with the documented correspondence, stripping removes exactly the leading and trailing run of whitespace, punctuation or given characters, and prefix, suffix, equality, numeric and case operations agree with their definitions. "
     "Texts that are empty or consist only of the pattern are handled like any other; a pattern that does not occur leaves the text unchanged; the result is always properly terminated with a matching length.",
     ["inputs", "histories"], "every text, pattern and character set, including overlapping, adjacent, boundary and absent occurrences",
     "test_str samples one text per function, with patterns in the middle of the text",
     ["src/vita/container/str.c"], [("substring scanning", "vt_str_find/can_find/remove_first/remove_last/remove_all/replace* in src/vita/container/str.c"), ("trimming", "vt_str_strip/strip_punct/strip_c in src/vita/container/str.c")],
     spec="StrOps.tla, Str.tla, StrMC.tla, StrTrace.tla")
prop("C05", "Splitting, joining and popping parts lose and invent nothing",
     "Splitting a text by a separator yields, in order, exactly the non-empty pieces between separators (NULL when the separator does not occur), reusing and first clearing a given list; joining appends the parts in order with the separator between consecutive parts; popping the first/last part returns the text before the first / after the last separator and removes it together with that separator, leaving both strings alone when the separator is absent or the part is empty; splitting between two marks returns the text between the left mark and the next right mark. "
     "Results are well-formed strings, and inputs that are not documented to change do not change.",
     ["inputs", "histories"], "every text, separator (any length, including repeated, leading and trailing separators) and part list, result object given or allocated",
     "test_str splits three fixed texts",
     ["src/vita/container/str.c"], [("split loop", "vt_str_split in src/vita/container/str.c"), ("join/pop", "vt_str_join/join_n/pop_get_first/pop_get_last/split_between in src/vita/container/str.c")],
     spec="StrOps.tla, Str.tla, StrMC.tla, StrTrace.tla")
prop("C06", "Calls outside a function's contract are refused, never carried out",
     "A call on a vector, list, string, span or allocator that breaks its documented contract - an index at or past the length, a size of zero or one that no memory can hold, a NULL container, value, callback or text, an invalid removal strategy, text longer than the space it is assigned to - terminates the process with a failing status at that call and never returns, reads or writes outside the container, or corrupts other data. "
     "Calls within the contract are never refused.",
     ["histories", "inputs"], "every reachable container state and every out-of-contract argument, in builds with checks enabled",
     "a refused call ends the process, so the test programs contain none",
     ["src/vita/container/vec.c", "src/vita/container/plist.c", "src/vita/container/str.c", "src/vita/container/common.c", "src/vita/container/span.c", "src/vita/allocator/mallocator.c", "src/vita/util/debug.c", "src/vita/core/core.c"],
     [("argument checks", "VT_DEBUG_ASSERT / VT_ENFORCE at the top of each public function"), ("termination", "vt_debug_assert in src/vita/util/debug.c")],
     spec="Vec.tla, Str.tla, Misc.tla (Refuse actions)")
prop("C07", "The allocator's accounting is exact and everything it owns is released",
     "Over any history of allocate, reallocate and free calls, directly or through containers that use the allocator, the statistics equal the true ledger: numbers of allocations, reallocations and frees, bytes currently allocated and bytes freed; blocks are zero-filled when new, distinct while live, and keep their contents up to the smaller size across reallocation. "
     "Destroying a container returns exactly the memory it obtained, and destroying the allocator releases every block still registered with it, however many there are.",
     ["histories", "configurations"], "every history of allocator calls and container operations",
     "test_mallocator performs four calls",
     ["src/vita/allocator/mallocator.c", "inc/vita/allocator/mallocator.h", "src/vita/container/vec.c", "src/vita/container/plist.c", "src/vita/container/str.c", "src/vita/container/common.c"],
     [("object list", "vt_mallocator_obj_list_add/remove/resize in src/vita/allocator/mallocator.c"), ("statistics", "vt_mallocator_alloc/realloc/free in src/vita/allocator/mallocator.c")],
     spec="Alloc.tla, AllocMC.tla, AllocTrace.tla")
prop("C08", "Iteration visits every element exactly once, in order, then rewinds",
     "Starting from a rewound slider, sliding from the front (back) over a vector, list or string returns the elements in order (in reverse order), each exactly once, then NULL, after which the slider is rewound and the next pass starts over; an explicit reset rewinds at any point, and an empty container yields NULL at once. "
     "Applying a function visits indices 0..len-1 in order, once each, passing the stored element and its index. The counting loops visit every index of their range once: upwards from the first below the last, downwards from the last above the first, or upwards by the given step.",
     ["histories", "inputs"], "every interleaving of forward and backward slides, resets and other operations on every container kind and size",
     "the tests iterate one container forward and print it",
     ["src/vita/container/common.c", "src/vita/container/plist.c", "src/vita/container/vec.c", "src/vita/container/str.c"],
     [("slider", "vt_array_slide_front/back/reset in src/vita/container/common.c, vt_plist_slide_* in src/vita/container/plist.c"), ("apply", "vt_vec_apply, vt_plist_apply, vt_str_apply")],
     spec="Vec.tla, Str.tla")
prop("C09", "Spans alias exactly their range and index maps are bijections",
     "A span over [from, to) of an array exposes exactly those elements: reading index i gives element from+i of the underlying array, writing it changes that element and nothing else, for every element type and size, and creation never copies or allocates. "
     "2-D and 3-D index conversions are mutually inverse, in range and distinct for distinct coordinates, row-major with depth slowest, for every extent.",
     ["inputs", "histories"], "every base array, range, element type and sequence of reads and writes; every row/column/depth extent",
     "test_span reads a single range of ints; the index functions are checked at one point",
     ["src/vita/container/span.c", "src/vita/container/common.c", "inc/vita/container/span.h"],
     [("range view", "vt_span_from/from_to/get/set in src/vita/container/span.c"), ("index maps", "vt_index_* in src/vita/container/common.c")],
     spec="Span.tla, SpanMC.tla, SpanTrace.tla")
prop("C10", "Path text functions compute the documented path for every input",
     "For every path text: building joins the given parts with single path separators in order, basename is the last component (a trailing separator belongs to it; a path without separators leaves the given string as it is), pop removes the last component together with its separator (or just a trailing separator) and leaves a path without separators alone, validation turns every backslash into a slash and changes nothing else, and tilde expansion replaces only a leading ~ by the home directory, and the current directory and the program's own location are reported as the system knows them. "
     "No function reads or writes outside the text it is given.",
     ["inputs"], "every path text, including empty, relative, absolute, single-component and trailing-separator paths, result object given or allocated",
     "test_path checks one path per function and does not even run to completion outside the author's machine",
     ["src/vita/system/path.c"], [("scanning from the end", "vt_path_basename, vt_path_pop in src/vita/system/path.c"), ("joining", "vt_path_build, vt_path_build_n")],
     spec="Path.tla, PathTrace.tla")
prop("C11", "Filesystem operations do to the tree exactly what they report",
     "Over any history of exists/is_dir/is_file/size queries, mkdir, mkdir with parents, rmdir, recursive rmdir, remove, rename and (recursive) listing, the resulting directory tree is the one the same operations give on an abstract tree, a result of true means the requested state was reached and false means it was not, and listings return every entry (optionally without dot files), each once, with its path in the recursive form (links are listed, not entered); no memory or descriptor is left behind. "
     "Nothing outside the named subtree is created, changed or removed - in particular recursive removal never follows a symbolic link out of the tree.",
     ["histories", "fault_sequences"], "every history of operations over every small directory tree, including failing system calls, non-empty directories, files in place of directories and symbolic links",
     "test_path exercises one create/remove cycle and is not among the stable tests",
     ["src/vita/system/path.c"], [("recursion", "vt_path_dir_list_recurse, vt_path_rmdir_recurse, vt_path_mkdir_parents in src/vita/system/path.c")],
     spec="FsTree.tla, FsTreeMC.tla, FsTreeTrace.tla")
prop("C12", "Files hold exactly what the write history says, and reads return it",
     "After any history of write, append, line, binary and formatted write calls a file's bytes are exactly the concatenation the calls describe (write truncates, append extends, the line forms add one newline), whatever the sizes. "
     "Reading returns exactly the bytes on disk (all of them, or NULL if the file cannot be opened), reading into a buffer never writes past the given length, and a call reports success only if its data reached the file.",
     ["histories", "inputs", "fault_sequences"], "every history of calls on several files, every content including empty files, embedded zero bytes and sizes around buffer boundaries, and devices that fail",
     "test_fileio writes and reads back one short text",
     ["src/vita/system/fileio.c"], [("write modes", "vt_file_writefc in src/vita/system/fileio.c"), ("reading", "vt_file_read/readb/read_to_buffer")],
     spec="FileIO.tla, FileIOMC.tla, FileIOTrace.tla")
prop("C13", "Argument parsing assigns exactly what the command line says",
     "For every option table and argument vector, each occurrence of an option (long or short form, as opt=value, opt value, or a bare flag) stores that value converted to the option's type into that option's variable and no other, later occurrences override earlier ones, and unnamed options keep their defaults. "
     "Parsing returns success only if every argument was recognised, an error at the first unrecognised argument (with earlier assignments kept) or for an invalid option table, and help-wanted exactly when the sole argument asks for help.",
     ["inputs", "configurations"], "every option table over all value types and every argument vector, with and without allocator and with pre-set or unset string variables",
     "test_argopt parses one command line",
     ["src/vita/util/argopt.c", "src/vita/core/conv.c"], [("matching loop", "vt_argopt_parse in src/vita/util/argopt.c"), ("typed assignment", "vt_argopt_assign_value")],
     spec="ArgOpt.tla, ArgOptMC.tla, ArgOptTrace.tla")
prop("C14", "Number-text conversion is exact for every value",
     "Converting any integer of any width to text gives its decimal representation, and converting decimal digits to a number gives the value they denote when it fits the type; the two are inverse for all non-negative values, and text that is not a number yields 0. "
     "Number-to-text conversion never writes more than the buffer holds: a buffer too small for the text and its terminator is refused, a buffer of exactly the needed size is accepted.",
     ["inputs"], "every value of every integer type, every text, every buffer length",
     "test_conv converts one value per type",
     ["src/vita/core/conv.c", "src/vita/container/str.c"], [("instantiations", "VT_INSTANTIATE_CONV_FROM_STR / VT_INSTANTIATE_CONV_TO_STR in src/vita/core/conv.c"), ("numeric test", "vt_str_is_numeric")],
     spec="Conv.tla, ConvTrace.tla")
prop("C15", "Calendar facts and date arithmetic follow the Gregorian calendar",
     "For every date from year 1 on, leap years, days in month and year, day of week (Monday=1..Sunday=7) and day of year (from 1) are those of the Gregorian calendar; conversion to and from epoch seconds is inverse and follows the local time zone, summer time included; creation clamps out-of-range fields to the nearest valid value. "
     "Adding a delta field by field gives the normalised date, and differences in seconds, minutes, hours and days are the exact differences truncated toward zero, as is the broken-down difference (apart from the recorded rounding finding).",
     ["inputs"], "every date and time in the supported range, every delta, every pair of dates",
     "test_datetime checks a handful of dates, none of them in a century year",
     ["src/vita/time/datetime.c"], [("leap rule", "vt_datetime_is_leap_year in src/vita/time/datetime.c"), ("arithmetic", "vt_datetime_op, vt_datetime_diff*"), ("struct conversion", "vt_datetime_tm_to_vdt / vdt_to_tm")],
     spec="Calendar.tla, CalendarMC.tla, CalendarTrace.tla")
prop("C16", "Date texts round-trip and malformed date texts are rejected",
     "Formatting a date (four-digit year) in the plain, ISO, extended ISO and pretty forms gives exactly the documented layout, always terminated inside the given buffer, and parsing a text produced by the plain and ISO forms gives back the same date and time. "
     "A text is accepted as valid exactly when it has the documented layout - digits and separators in every position and nothing missing - and parsing any other text is refused.",
     ["inputs"], "every date, every text (truncated, wrong separators, letters for digits, too long) and every buffer length",
     "test_datetime parses three well-formed texts",
     ["src/vita/time/datetime.c"], [("layout test", "vt_datetime_is_valid_fmt in src/vita/time/datetime.c"), ("formatting", "vt_datetime_to_text_fmt, vt_datetime_to_text_pretty"), ("parsing", "vt_datetime_from_text_fmt")],
     spec="DateText.tla, DateTextTrace.tla")
prop("C17", "Log and debug output goes where configured and fatal levels always end the run",
     "Over any history of redirections and log calls, each message whose condition failed is written once, complete and in call order, to the file given at the call, else the file configured for its level, else standard error; messages whose condition holds produce nothing, earlier content of log files is kept, and debug output follows its own redirection and on/off switch. A redirection takes the file name (of any length the system can open) as it is at the call: the caller may reuse or free it afterwards. "
     "A fatal or failed-assert message (and a failed enforcing check) always ends the process with a failing status, even when its output cannot be written; other levels and plain checks never do.",
     ["histories", "fault_sequences"], "every history of redirections, switches and messages over all levels, files that can and cannot be opened",
     "test_log and test_debug print one message per level and nobody reads the output",
     ["src/vita/util/log.c", "src/vita/util/debug.c"], [("routing", "vt_log in src/vita/util/log.c, vt_debug_assert/vt_debug_printf in src/vita/util/debug.c"), ("configuration", "vt_log_redirect_level_output, vt_log_redirect_all_output, vt_debug_redirect_output")],
     spec="Log.tla, LogMC.tla, LogTrace.tla")
prop("C18", "Sockets deliver bytes in order and report every outcome truthfully",
     "Over any history of connect, accept, send, receive and close, the bytes received on a stream are the bytes sent, in order, without loss or invention, and a datagram arrives whole with its sender's address; a send or receive reports the number of bytes moved, 0 at end of stream or when a timed receive finds nothing in time, and a negative status on failure. "
     "Startup failures return their specific error status and leave no descriptor open; closing releases the descriptor.",
     ["histories", "fault_sequences"], "every history of calls on a server and its clients over TCP and UDP loopback, including failing calls",
     "there is no socket test",
     ["src/vita/network/sockets.c"], [("startup", "vt_socket_startup_server/startup_client in src/vita/network/sockets.c"), ("transfer", "vt_socket_send*/receive*")],
     spec="Sock.tla, SockMC.tla, SockTrace.tla")
prop("C19", "Memory, comparison and integer helpers are exact for every argument",
     "Copy, move (including overlapping regions), fill, compare and swap helpers affect exactly the bytes named, for every size including zero; min, max and clamp agree with the order of their type at every value including the extremes; palindrome, gcd and lcm give the mathematical answer for every pair whose result is representable, with gcd non-negative and gcd(a,0)=|a|. "
     "Status names map one-to-one to status codes, and an unknown code has no name.",
     ["inputs"], "every value of every type, every region and size",
     "test_core and test_math try one or two values per function",
     ["src/vita/core/core.c", "src/vita/algorithm/comparison.c", "src/vita/math/math.c"], [("memory helpers", "vt_mem*, vt_gswap, vt_pswap in src/vita/core/core.c"), ("comparison instantiations", "src/vita/algorithm/comparison.c"), ("integer math", "vt_math_gcd/lcm/is_palindrome in src/vita/math/math.c")],
     spec="Arith.tla, ArithMC.tla, ArithTrace.tla")
prop("C20", "A static string is a pure view: never grown, resized or freed",
     "A static string made from a text reports that text's length, has no free space, and all read-only operations give the same answers as on an equal owned string; destroying it releases nothing and leaves the text usable. "
     "Any operation that would have to grow, reserve, resize or shrink it is refused, leaving the underlying text unchanged, and read-only operations never modify or allocate.",
     ["histories", "inputs"], "every text and every history of read-only operations followed by any growing operation",
     "test_str makes one static string and reads its length",
     ["src/vita/container/str.c"], [("view flag", "vt_str_create_static, is_view checks in vt_str_reserve/resize/shrink/destroy in src/vita/container/str.c")],
     spec="Str.tla (view slots)")
prop("C21", "Running out of memory at any allocation ends the run cleanly",
     "If the underlying memory request fails at any point of any history of container, string, allocator, path, file or argument-parsing calls, the process terminates at that call with a failing status and a message; it never continues with a missing block, returns a broken object, crashes on a NULL pointer or touches released memory.",
     ["fault_sequences", "histories"], "every allocation point of every explored history, failing one at a time",
     "no test makes an allocation fail",
     ["src/vita/core/core.c", "src/vita/allocator/mallocator.c"], [("checked allocation", "vt_malloc/vt_calloc/vt_realloc in src/vita/core/core.c")],
     level="fault_enumeration", spec="Vec.tla, Str.tla, Alloc.tla (Refuse under fault)")
prop("C22", "Random draws stay in range and float helpers are what they document",
     "Whatever the seed and the number of earlier draws: vt_math_random_f32(bound) in [0, bound), vt_math_random_f32_uniform(l, u) in [l, u), and vt_math_random_f32_normal(mu, std) is mu plus std times a finite standard value, falling on both sides of mu. vt_math_map_to carries the source range onto the target range proportionally, ends onto ends, up to float rounding. vt_math_sqrt_carmack and vt_math_isqrt_carmack are within one part in a million of the true root and inverse root for every positive normal float (the root of 0 is 0). vt_math_is_close(l, r, rtol) is exactly |l - r| < rtol, with the float epsilon in place of a negative rtol.",
     ["inputs", "histories"], "every bound, every float argument and every reachable generator state, compared with exact rational arithmetic",
     "test_math draws a few numbers and compares two roots",
     ["src/vita/math/math.c"], [("random", "vt_math_random* in src/vita/math/math.c"), ("approximation", "vt_math_sqrt_carmack, vt_math_isqrt_carmack, vt_math_map_to, vt_math_is_close in src/vita/math/math.c")],
     spec="Approx.tla, Big.tla")

import sys
sys.path.insert(0, V)
from vc import props as PR
lines, checks, nas = [], [], []
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]:
        a["state"] = p["state"]
    if p["observe"]:
        a["observe_at"] = p["observe"]
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"].strip(),
                             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}))
    if p["na"] or p["id"] not in PR.PROPS:
        nas.append({"property": p["id"], "reason": p["na"] or "check under construction"})
        continue
    r = PR.PROPS[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                   "technique": r.get("technique") or TR, "level": r["level"],
                   "level_note": r.get("note") or f"specification {p['spec']}: explored exhaustively by TLC within small constants (properties and laws as invariants); the implementation is bound by replaying TLC behaviours and seeded histories and validating every recorded call against the specification, so the guarantee for the code is over the explored histories, not a proof"})
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": nas,
           "notes": "No hooks in /repo: the checks compile /repo/src with the harnesses in harness/ (ASan+UBSan, malloc family wrapped at link time). Repairs are the fix: commits in /repo, listed in known_findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(nas), "not applicable")
