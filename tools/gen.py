#!/usr/bin/env python3
"""gen.py: writes properties.jsonl, MANIFEST.json and checks.json from the table below (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
QUICK_LARGE = ("C05", "C06", "C10", "C11", "C12", "C13", "C15")  # cheap: the quick tier explores the larger bounds too


def prop(id, title, statement, over, qtext, why, files, mech, observe, level, technique, rule, quick, thorough, note, binding=None, assumptions=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe,
                  level=level, technique=technique, rule=rule, quick=quick, thorough=thorough, note=note, binding=binding,
                  assumptions=list(assumptions)))


BFS = "explicit-state BFS + exhaustive operation-sequence enumeration on the real code against a lock-step reference model"
ENUM = "exhaustive bounded enumeration of inputs and environment answers on the real code against a reference model"
FAULT = "exhaustive enumeration of fault points on the real code"
TRUST = ("Trusted: the reference model in the harness, gcc AddressSanitizer for memory faults, the objcopy symbol seams. "
         "Nothing is claimed beyond the stated bounds.")

prop("C01", "A vector behaves as an ideal sequence",
     "After every history of in-contract operations a vector's length, elements, order and first-match search results are those of the ideal sequence with that history, for every element size, with default or custom allocation, and its typed accessors agree with the generic ones for every value. "
     "Its capacity is never below its length, is always backed by memory it owns, grows by exactly the amount reserved and equals the length after shrinking a non-empty vector. "
     "A duplicate is equal to and independent of its original.",
     ["inputs", "histories", "configurations"],
     "every operation history, element size, initial capacity and allocator choice (push/insert/set/remove stable or fast/pop/clear/shrink/reserve/resize/dup, typed and untyped)",
     "The repository's tests run one history per container type with a handful of elements and one element size; reallocation boundaries, shrink/resize followed by growth, and last-byte comparisons are not reached.",
     ["src/vita/container/vec.c", "src/vita/container/common.c", "inc/vita/container/vec.h"],
     [("growth before write, element moves scaled by the element size", "vec.c push/insert/remove/reserve/resize"), ("length/capacity bookkeeping", "common.c")],
     ["element reads, length, capacity, search results"], "model_checking", BFS,
     "a case is one operation history on a fresh vector; non-trivial when its final (capacity, contents) pair was not seen before in this run (outcome = hash of capacity and contents)",
     "BFS to closure: 9 element sizes x 3 initial capacities x 2 allocators, lengths <=4/5, capacity <=10; every sequence of <=4 ops; every length 1..139 x positions; 3,000-element grow/drain; every (length, slack) pair to 200; every element size <=40 x length <=48 and created size x reserved room <=48; element counts and sizes around 2^8..2^16 to 70,001; vectors of more than 2^32 elements and bytes (lazily backed, skipped where memory is short); every 8/16-bit typed value, all bit-boundary 32/64-bit values",
     "lengths <=6/7, capacity <=14, all sequences of <=5 ops, lengths <=519, 20,000-element histories",
     "Exhaustive within the bounds; element values from a 3-letter alphabet that differ in first/last byte. " + TRUST)

prop("C02", "A pointer list behaves as an ideal sequence of pointers",
     "After every history of in-contract operations a pointer list's length, stored pointers, order and first-match search results are those of the ideal pointer sequence with that history, with default or custom allocation; it never reads or frees what the pointers refer to. "
     "Its capacity is never below its length, is always backed by memory it owns, grows by exactly the amount reserved and equals the length after shrinking a non-empty list. "
     "Removing by value removes exactly the first match and is a no-op when there is none; a duplicate is equal to and independent of its original.",
     ["inputs", "histories", "configurations"],
     "every operation history over create/push/insert/set/get/remove/remove_element/pop/clear/shrink/reserve/resize/dup with default or custom allocator",
     "Tests run one fixed history; growth boundaries, duplicates of the searched pointer and fast removal of the last element are not reached.",
     ["src/vita/container/plist.c", "src/vita/container/common.c"],
     [("growth before write, pointer moves, swap-with-last removal", "plist.c")], ["pointer reads, length, capacity, search results"], "model_checking", BFS,
     "a case is one operation history on a fresh list; non-trivial when its final (capacity, contents) pair is new in this run",
     "BFS to closure: 3 initial capacities x 2 allocators, lengths <=5, capacity <=10, 3 distinct (never dereferenceable) pointers; every sequence of <=4 ops; every length 1..139 x positions; every (length, slack) pair to 200; every created size x reserved room <=48; lengths to 70,001 and beyond 2^29 and 2^32 (lazily backed)",
     "lengths <=7, capacity <=14, all sequences of <=5 ops, lengths <=519", "Exhaustive within the bounds. " + TRUST)

prop("C03", "String editing matches the ideal byte string",
     "After every history of in-contract creating, setting, appending, inserting, formatting, removing, resizing, shrinking and duplicating, a string's bytes and length are those of the ideal string with that history. "
     "It is always terminated exactly at its length, its capacity is never below its length and is always backed by memory it owns; reserving adds exactly the amount asked for and shrinking a non-empty string makes capacity equal length. "
     "A string may be set to a part of itself. A duplicate is independent of its original, and bytes above 127 are preserved.",
     ["inputs", "histories", "configurations"],
     "every history of editing operations, every position, every length across the formatting-buffer and reallocation boundaries, with default or custom allocator",
     "Tests run one fixed history over a few literals; empty strings, positions 0/len, the 1024-byte formatting boundary and capacity-exact growth are not reached.",
     ["src/vita/container/str.c", "src/vita/container/common.c"],
     [("grow, move tail, copy, terminate", "str.c set/append/insert/remove/resize/shrink"), ("two-step formatted insertion through a temporary", "str.c insertf/appendf")],
     ["characters, length, capacity"], "model_checking", BFS,
     "a case is one operation history on a fresh string; non-trivial when its final (capacity, bytes) pair is new in this run",
     "BFS: lengths <=4, capacity <=8, 2-letter alphabet, argument strings of length 0..2, 2 allocators; all sequences of <=3 ops; every length 0..300 and around 1024/2048/4096 for set/append/insert/remove/format at every position class; setting to every part of itself; every length <50 x position x amount; arguments and bases to 70,001 bytes; every byte value; a text of more than 2^32 bytes; formats that cannot be formatted",
     "lengths <=5, capacity <=10, all sequences of <=4 ops; every length 0..1100 and 2000..2100", "Exhaustive within the bounds. " + TRUST)

prop("C04", "Substring search, replacement and removal are exact",
     "For every text and non-empty pattern, finding reports the first occurrence, counting reports the number of non-overlapping occurrences scanned left to right, and prefix, suffix and character index queries agree with plain string semantics. "
     "Replacing or removing the first, last, all or a set of characters, and inserting before or after a substring, change exactly the occurrences they name, leave every other byte as it was, and change nothing when there is no occurrence; removing all repeats until no occurrence is left. "
     "The resulting string always stays well formed.",
     ["inputs", "configurations"], "every text, pattern and replacement (overlapping, adjacent, at either end, longer or shorter than what they replace)",
     "Tests use a few literals; overlapping self-similar patterns, matches ending the text and replacements containing the pattern are not reached.",
     ["src/vita/container/str.c"], [("scan loops over the text with in-place removal/insertion", "str.c find/can_find/replace*/remove*/insert_before/after")],
     ["resulting text, returned positions and counts"], "model_checking", ENUM,
     "a case is one (operation, text, pattern, replacement); outcome = hash of operation, result text and return value",
     "all texts of length 0..6 over {a,b} and 0..4 over {a,b,c}, all patterns of length 1..3, all replacements of length 0..3; every text length 1..200 with the match at every position; matches planted in texts and patterns of boundary lengths to 70,001; spread, adjacent and many matches (up to 66,001 in one text); prefix and suffix lengths <=44 x patterns <=16; character sets of every size to 254; every byte value",
     "texts to length 9 over {a,b} and 6 over {a,b,c}, patterns and replacements to length 4", "Exhaustive within the bounds. " + TRUST)

prop("C05", "Splitting, joining and popping pieces lose nothing",
     "Splitting a text by a separator yields exactly its maximal separator-free non-empty pieces in order, and joining a list inserts the separator exactly between consecutive items, so that splitting a join of separator-free non-empty pieces returns them. "
     "Extracting the part between two delimiters returns the text after the first left delimiter up to the next right delimiter, or nothing without side effects when either is missing. "
     "Popping the first or last piece returns that piece and leaves exactly the rest.",
     ["inputs", "configurations"], "every text, separator (1..3 characters), delimiter pair and list of pieces, with and without a caller-provided destination",
     "Tests use one or two literals; texts ending in or consisting of separators, multi-character separators that overlap, and empty parts are not reached.",
     ["src/vita/container/str.c"], [("separator scan and piece copy", "str.c split/split_between/join/join_n/pop_get_first/pop_get_last")], ["returned pieces, remaining text"], "model_checking", ENUM,
     "a case is one (operation, text, separator(s), destination kind); outcome = hash of the result",
     "all texts of length 1..12 over {a,','} and 1..7 over {a,b,','}, separators of length 1..3; all piece lists of <=4 items; all delimiter pairs of length 1..2; separators of length 3..5; lists of up to 400 pieces; piece lengths <=44 x separators <=12, delimiters <=7; texts of boundary lengths to 70,001; every byte value", "texts to length 14 / 8, lists to 900 pieces", "Exhaustive within the bounds. " + TRUST)

prop("C06", "Stripping, case mapping, classification and equality are exact",
     "Stripping whitespace, punctuation or a given character set removes exactly the leading and trailing members of that class and nothing else, also when the whole string consists of them. "
     "Upper and lower casing change exactly the letters, the numeric test accepts exactly strings of digits and dots, and string equality, prefix-length equality and prefix/suffix tests agree with byte comparison.",
     ["inputs"], "every string over an alphabet with one member of every relevant character class, and every single byte value",
     "Tests use a few literals; all-strippable strings, one-character strings and bytes above 127 are not reached.",
     ["src/vita/container/str.c"], [("two-ended scan then move", "str.c strip/strip_punct/strip_c"), ("per-character classification", "str.c to_uppercase/to_lowercase/is_numeric/equals*")], ["resulting text, verdicts"], "model_checking", ENUM,
     "a case is one (operation, string[, argument]); outcome = hash of the result",
     "all strings of length 0..6 over an 8-class alphabet and 7..9 over {space,a,.}, all 1-byte and 2-byte strings over all 255 bytes, all strings <=6 over {a,b,c} x all strip sets of <=3, all pairs of strings of length <=6 for equality, an odd character at every position to 72, every length to 1200",
     "strings to length 7 over the 8 classes, lengths to 3000", "Exhaustive within the bounds, C locale. " + TRUST)

prop("C07", "Iterators visit every element exactly once, in order",
     "Sliding a vector, string or pointer list from the front visits its elements once each in order and from the back once each in reverse order, then reports the end once and starts over; a reset starts over at any point, and the position survives unrelated reads. "
     "Applying a function visits every element once in order with its index. Iterating an empty container reports the end at once.",
     ["inputs", "histories"], "every interleaving of front/back slides, resets and reads, with lengths changing between passes",
     "Tests slide one container once from the front; the back direction, restarts, resets mid-way and changes of length between passes are not reached.",
     ["src/vita/container/common.c", "src/vita/container/vec.c", "src/vita/container/plist.c", "src/vita/container/str.c"],
     [("cursor kept in the container, reset at the end", "common.c slide_front/slide_back/slide_reset")], ["addresses/elements returned by the iterator"], "model_checking", BFS,
     "a case is one sequence of slide/reset/read/mutate operations; outcome = hash of the sequence of visited indices",
     "BFS closure over container lengths <=4 (vector, string, list x cursor positions); all sequences of <=5 over front/back/reset/read/apply/push/pop/clear/reserve+shrink; complete front/back/apply passes for every length 0..299", "sequences to length 7; lengths to 2100", "Exhaustive within the bounds. Mixing directions mid-pass is checked as a position counter that both directions share. " + TRUST)

prop("C08", "Every allocation has exactly one owner",
     "Every object the library creates is released completely by its destroy operation: no history of in-contract operations leaks, frees twice or touches memory after it was released. "
     "An object created with an allocator obtains, grows and returns all of its own memory through that allocator only, and an object created without one never touches an allocator; pieces and duplicates stored in a destination or list that has an allocator come from that allocator, and duplicates use the allocator they are given.",
     ["histories", "configurations"], "every operation of every module, in every sequence up to the bound, with default or custom allocator and with or without caller-provided destinations",
     "Tests destroy what they create but never count; leaks on rarely taken branches and allocations that bypass the custom allocator are invisible to them.",
     ["src/vita/container/*.c", "src/vita/allocator/mallocator.c", "src/vita/system/*.c", "src/vita/util/argopt.c"],
     [("alloctr ? allocator : libc at every allocation site", "vec.c/str.c/plist.c/common.c")], ["allocation events, live allocations after destroy"], "model_checking",
     "exhaustive enumeration of operation sequences over a catalogue of all allocating operations, with an instrumented allocator as oracle",
     "a case is one sequence of catalogue operations on one object configuration; outcome = hash of its allocation event trace",
     "catalogue of ~50 string, 19 vector, 19 list and 34 other (path, file, split, argument, log) operations: every string sequence of <=3 from a rich text and <=2 from empty/exact-capacity, every vector/list sequence of <=4, every pair of the others; each with no allocator, the accounting allocator and a recording custom allocator; every constructor x owner combination", "one longer each",
     "Exhaustive within the bounds. " + TRUST)

prop("C09", "The accounting allocator's books always balance",
     "After every history of allocations, reallocations and frees the accounting allocator's totals equal the sums of what was requested and returned, its list of live blocks is exactly the set of blocks not yet freed, and every fresh block is zero-initialised, and every block is usable for its full size and keeps its contents across reallocation. "
     "Destroying the allocator releases every remaining block and itself, whatever was done before.",
     ["histories"], "every history of alloc/realloc (grow, shrink, same size)/free including frees in any order and blocks it does not know",
     "The test makes a dozen calls in one order; list growth, removal from the middle and reallocation that moves or shrinks blocks are not reached.",
     ["src/vita/allocator/mallocator.c"], [("live-block list with swap removal and doubling growth", "mallocator.c"), ("statistics updated at each call", "mallocator.c")], ["statistics, live list, block contents"], "model_checking", BFS,
     "a case is one history; non-trivial when (multiset of live sizes, totals) is new",
     "all sequences of <=5 ops, BFS over <=6 allocations; every number of live blocks 0..79 freed from every position; every size 1..600; reallocation between all pairs of sizes to 320; statistics report; destroy after every one; up to 70,001 live blocks; blocks and totals beyond 2^32 bytes", "sequences of <=7; 600 blocks; sizes to 3000",
     "Exhaustive within the bounds. " + TRUST)

prop("C10", "Out-of-contract calls stop the program before any damage",
     "In checked builds a call that breaks a documented precondition (null object or argument, index or range outside the container, zero size, invalid strategy, oversized needle, too small a buffer) ends the program with a failure status before any byte of any object is changed or any memory outside it is accessed. "
     "The same call with arguments at the edge of the contract succeeds.",
     ["inputs", "histories"], "every public operation with a stated precondition x every state shape x every argument on either side of the boundary",
     "Tests never pass an invalid argument, since the program would end.",
     ["src/vita/container/*.c", "src/vita/util/debug.c", "src/vita/core/core.c"], [("precondition checks at function entry that terminate", "VT_DEBUG_ASSERT / VT_ENFORCE / assert")], ["process outcome, object bytes before/after"], "model_checking",
     "exhaustive enumeration of precondition violations (operation x state x boundary arguments) on the real code under a termination seam",
     "a case is one (operation, state, arguments) outside or exactly at the edge of the contract; outcome = hash of operation, arguments and whether it stopped",
     "~450 operation/argument classes x lengths 0..40 x exact/spare capacity x 2 allocators, indices len-1..len+3, 2^33, SIZE_MAX, SIZE_MAX/2, /4+1, /8+1", "lengths 0..100", "Only preconditions the code or its documentation states are checked; element counts whose byte size overflows size_t are not enumerated; release (NDEBUG) builds are outside. " + TRUST)

prop("C11", "Views and spans never own, never grow, always alias",
     "A span shows exactly the requested window of the memory it was made from: its length is the window's, reads see and writes change exactly the corresponding element for every element type, and nothing outside the window is touched. "
     "A string view shows its text without copying it, answers every read-only question as an owned string would, and operations that would make it grow or release it never allocate, free or write past the viewed text.",
     ["inputs", "configurations"], "every buffer length, window, element size, index and value; every text and read-only or growing operation on a view",
     "The span test uses one int array; sub-windows at offset 0, element sizes other than 4 and growth of views are not reached.",
     ["src/vita/container/span.c", "src/vita/container/str.c"], [("non-owning array header with view flag", "span.c, str.c create_static"), ("growth guard for views", "str.c reserve/resize/shrink")], ["viewed memory, allocation events"], "model_checking", ENUM,
     "a case is one (buffer, window, operation); outcome = hash of the window and resulting memory",
     "buffers of 1..40 elements x all windows x all indices x 9 element sizes, typed accessors with all 8/16-bit and all bit-boundary wider values; views over all texts of length <=7 over {a,b,space,1} x every read-only or growing operation; spans and views of boundary lengths to 200,003 elements, and spans beyond 2^32 elements and bytes", "texts to 8, lengths to 3000", "Exhaustive within the bounds. " + TRUST)

prop("C12", "Allocation failure stops the program cleanly",
     "If any memory request of any library operation fails, the operation does not return: the program ends with a failure status without accessing invalid memory, and without having corrupted data that existed before. "
     "No operation ever continues with a missing block.",
     ["fault_sequences", "histories"], "every operation x every allocation request it makes, each failing in turn",
     "Tests never see an allocation fail.",
     ["src/vita/core/core.c", "src/vita/allocator/mallocator.c", "src/vita/container/*.c", "src/vita/util/argopt.c"], [("allocation wrappers that report and exit", "core.c vt_malloc/vt_calloc/vt_realloc; mallocator.c")], ["process outcome at each failing request"], "fault_enumeration", FAULT + " (every allocation request of every operation sequence fails in turn)",
     "a case is one (operation sequence, index of the failing request); non-trivial when the fault fired; outcome = hash of operation and request index",
     "creation and every catalogue operation of all modules: string sequences of <=3, vector/list sequences of <=3, pairs of the other operations; default and accounting allocator; every request index of the last operation", "the same bounds", "Exhaustive within the bounds; requests of 2 GiB and more always fail. " + TRUST)

prop("C13", "Number/text conversion is exact and bounded",
     "For every value of every integer type, converting it to text gives its exact decimal form, and reading decimal digits back gives the same value; floating-point values print with six decimals exactly as the C library does and read back to the nearest value. "
     "Integers read the digits before the first dot. Text that is not purely digits and dots reads as zero, and a destination buffer is never written past the text and its terminator; a buffer too small is refused.",
     ["inputs"], "every value of 8 and 16-bit types, every bit-boundary and digit-count-boundary value of wider types; every short text; every buffer size",
     "Tests convert one or two values per type.",
     ["src/vita/core/conv.c"], [("length measured first, buffer size enforced", "conv.c to_str"), ("numeric check before parsing", "conv.c from_str")], ["produced text, parsed value, bytes past the buffer"], "model_checking", ENUM,
     "a case is one (type, value, buffer size) or (type, text); outcome = hash of type and result",
     "all 2^8 and 2^16 values, ~600 boundary values per wider type, buffer sizes from 1 to needed+3; every 32-bit value with stride 4099; all texts of length 0..6 over {0,1,9,.,-,+,space,a}, 6..9 over {0,5,.}, every single byte", "texts to length 7 / 11", "Exhaustive within the bounds. Signs are rejected by the parser by design, so negative values only print; texts beyond the range of an integer type are not constrained. " + TRUST)

prop("C14", "Command lines parse to exactly what was asked for",
     "For every argument vector, each recognised option (long or short; value attached with '=' or given as the next argument; or bare) sets exactly its own destination (the first in the table, where options share a name) to the value's meaning in its type, later occurrences win, and destinations of options not given keep their value. "
     "An unrecognised option or a malformed option table is reported as an error, a lone help request as help, anything else as success. Values of any length are stored completely and terminated, whether or not the destination already holds one.",
     ["inputs", "histories"], "every argument vector up to the bound over every option form and value shape, every option type and destination state",
     "The test parses one command line.",
     ["src/vita/util/argopt.c"], [("token matching and value splitting", "argopt.c parse"), ("typed assignment", "argopt.c assign")], ["destinations, return status"], "model_checking",
     "exhaustive enumeration of argument vectors on the real parser against a reference parser",
     "a case is one argument vector; outcome = hash of status and destinations",
     "all argument vectors of <=4 tokens over a 24-token alphabet; 14 option types x ~310 values x forms x prior destination states; value lengths 0..300; malformed tables; help forms; tables of up to 4,100 options; all two-row tables over 3 names (shared names included) x 14 command lines; names, values and command lines of boundary lengths to 65,537; every byte beside dash, digit and letter; undashed names", "all vectors of <=5 tokens; lengths to 1100", "Exhaustive within the bounds. " + TRUST)

prop("C15", "Calendar facts match the Gregorian calendar",
     "For every date the leap-year test, days in month, days in year, day of the week and day of the year are those of the proleptic Gregorian calendar, before and after 1970 and in any time zone, and creating a datetime fills in the derived fields and limits each given field to its documented range. "
     "Out-of-range years and months are replaced as documented.",
     ["inputs", "configurations"], "every day of the supported years x representative times x time zones with and without daylight saving",
     "Tests check a few dates in 2023 in UTC; century years, dates before 1970 and zones with daylight saving are not reached.",
     ["src/vita/time/datetime.c"], [("leap-year rule and month table", "datetime.c is_leap_year/find_days_in_month"), ("normalisation through local time", "datetime.c find_week_day/find_year_day")], ["derived fields"], "model_checking", ENUM,
     "a case is one (date, time, zone) and query; outcome = hash of query and answer",
     "every day of 1..9999 at 2 times in UTC and every day of 1800..2200 at 6 times in 9 zones; leap/month/year facts for years -50..32767 (0 excluded); products of in- and out-of-range field values for creation", "every day of 1583..2600 at 6 times in 9 zones", "Exhaustive within the bounds; oracle is days-from-civil arithmetic independent of libc. " + TRUST)

prop("C16", "Datetime text round-trips and is validated",
     "Writing any datetime as plain, compact ISO or extended ISO text gives exactly the zero-padded documented form, and reading that text back gives the same date and time with correct day of week and of year; the pretty text is weekday, month, day, time and year on one line, without a line end. "
     "A text is accepted as valid exactly when every position of the format holds a digit or the required separator; reading an invalid text ends the program instead of inventing a date, and nothing is ever read past the end of a short text or written past the given buffer.",
     ["inputs"], "every date and time field value, every single-character corruption and truncation of a valid text, every buffer size from the documented minimum",
     "Tests round-trip one timestamp.",
     ["src/vita/time/datetime.c"], [("format-driven printing and scanning", "datetime.c to_text*/from_text*"), ("position-wise validation", "datetime.c is_valid_text*")], ["text, parsed fields, verdict"], "model_checking", ENUM,
     "a case is one (format, datetime) or (format, text); outcome = hash of format and result",
     "every day of 1..9999 (formats in rotation, all three on month ends), 9 zones x every day of 1990..2044, every second of 2024-02-29; every single-byte substitution, truncation, insertion, deletion and two-position substitution (14 bytes) of 5 texts x 3 formats; buffers 1..600 and powers of two to 70001; pretty text of every day of the years 1..999 and of thousands of years beyond; every year 0..9999; the clock text in 10 zones", "all three formats on every day", "Exhaustive within the bounds. Text after a complete timestamp is tolerated and not constrained. " + TRUST)

prop("C17", "Datetime arithmetic is consistent with elapsed seconds",
     "Converting a datetime to seconds and back is the identity in every zone for every existing, unambiguous local time, and seconds agree with the calendar. "
     "Adding a delta gives the same result as normalising the field sums on the calendar, differences in seconds, minutes, hours and days are the exact elapsed time truncated toward zero and change sign when the operands are swapped, an invalid year counting as 1900, and the broken-down difference adds up to the elapsed seconds.",
     ["inputs", "configurations"], "every pair and delta from boundary-rich sets, across month ends, leap days, century years, the epoch and zone transitions",
     "Tests add one delta and take one difference.",
     ["src/vita/time/datetime.c"], [("normalising conversion through local time", "datetime.c to_secs/from_secs/op"), ("integer division of the difference", "datetime.c diff_*")], ["seconds, resulting fields"], "model_checking", ENUM,
     "a case is one (zone, datetime[, datetime or delta]); outcome = hash of operation and result",
     "every day of 1902..2037 x 6 times in 10 zones (zones with daylight saving from 1971), every half hour of 2022-2025 and 1969-70; 48 base dates x ~9000 delta combinations + single-field sweeps; differences: all base pairs, +-4000 s each, all multiples of 675 s to 194 days", "every half hour of 1970..2037; wider deltas", "Exhaustive within the bounds. The broken-down difference is asserted exactly where single precision is exact (multiples of 675 s); elsewhere within 2 s + |d|/2^20 s; that rounding is a known finding. " + TRUST)

prop("C18", "Files hold exactly what was written and appended",
     "After every history of writes, appends, line writes and formatted writes, in text or binary mode, a file holds exactly the concatenation the history calls for (a write replaces, an append extends, a line variant adds one newline), and reading it returns exactly those bytes, terminated, including for empty files and any byte value. "
     "Reading into a buffer fills at most the given size and touches nothing beyond it; reading a missing or unreadable path, or one whose size or data the system refuses to give, fails without side effects, and no file handle stays open.",
     ["inputs", "histories"], "every history of write/append/read operations over two files up to the bound, every content length",
     "Tests write and read one short text; empty files, large contents, mode combinations and buffer limits are not reached.",
     ["src/vita/system/fileio.c", "src/vita/system/path.c"], [("open mode selection and newline handling", "fileio.c writefc/writef/writefln"), ("size, allocate, read whole", "fileio.c read/readb/read_to_buffer")], ["file bytes, returned text, open handles"], "model_checking", BFS,
     "a case is one history; non-trivial when the resulting (file1, file2) contents are new",
     "all histories of <=3 operations on one file (10 operations x 4 contents) and <=2 on two files (18 operations); every content length 0..600 and stdio/page boundaries; every buffer size x file size 0..170; reads whose data ends or fails at every byte and whose size query fails or is wrong; every short literal format", "histories of <=4 / <=3", "Exhaustive within the bounds, on a real directory. " + TRUST)

prop("C19", "A write that did not reach the file is reported as failed",
     "Whenever the text cannot be produced or the system refuses any part of the data of a write or append (at opening, at any byte while writing, or when the file is finally closed), the operation reports failure; whenever it reports success the file holds all of the data. "
     "The file handle is released either way.",
     ["fault_sequences", "inputs"], "every write operation x every content length x every byte position at which the medium becomes full, plus failures at open and close",
     "Tests never see a full or failing medium.",
     ["src/vita/system/fileio.c"], [("result of writing and closing is checked", "fileio.c writef/writefln/writefc")], ["returned status, bytes in the file, open handles"], "fault_enumeration", FAULT + " (medium full at every byte, close failure, open failure)",
     "a case is one (operation, content length, failing byte or call); non-trivial when the fault fired; outcome = hash of operation, limit and status",
     "18 write operations x contents of 13 lengths (0..9000) x medium full after every k bytes (all k for lengths <=1025, boundaries beyond), 6 stream buffer sizes, each single refused transfer, close failure, open failure, /dev/full, no descriptors left", "every k for every length", "Exhaustive within the bounds; the medium is a file-size limit on a real file and a stream whose close fails. " + TRUST)

prop("C20", "Path strings are built, split and normalised exactly",
     "Building a path joins its segments with exactly one separator between consecutive segments; the base name is the part after the last separator that does not end the path; popping removes exactly the last component or a trailing separator and leaves a path without separators alone. "
     "A leading tilde, and only a leading one, expands to the home directory; validation changes exactly the foreign separators; the current directory and the executable's location are reported in full and terminated.",
     ["inputs", "configurations"], "every path string over segments and separators, every home directory, with and without a caller-provided destination",
     "Tests use one literal per function.",
     ["src/vita/system/path.c"], [("separator scans", "path.c basename/pop/validate"), ("join with separator", "path.c build/build_n"), ("home substitution", "path.c expand_tilda")], ["resulting text"], "model_checking", ENUM,
     "a case is one (operation, path, environment); outcome = hash of operation and result",
     "all paths of length 0..7 over {a,/,~} and 0..6 over {a,.,/,backslash}; all segment lists of <=4; 7 home directories incl. unset and empty; path lengths to 300, segment length pairs to 63; executable locations of every length class to 4096 and current directories to 4000 bytes", "paths to length 9", "Exhaustive within the bounds. " + TRUST)

prop("C21", "Directory operations change exactly the tree they name",
     "After every history of making, removing, renaming and listing, the file system is what the ideal tree model predicts and every status tells the truth: existence, kind and size queries agree with the tree, making parents creates every missing level, listings contain every entry once (hidden ones only when asked for), and a recursive listing reaches every descendant (a directory that cannot be opened hides its own contents only); a made directory has the permissions rwxrwxr-x less the process's mask, and an operation that the system refuses outright changes nothing. "
     "Recursive removal deletes the directory and everything below it and nothing else: symbolic links are removed, never followed.",
     ["inputs", "histories", "configurations"], "every tree up to the bound (files, directories, hidden entries, links to files, to directories, outside the tree, and dangling) x every operation and target, and histories of them",
     "The path test depends on the author's home directory and cannot run elsewhere; no test has links or failures.",
     ["src/vita/system/path.c"], [("directory walk", "path.c dir_list/dir_list_recurse"), ("contents-first removal", "path.c rmdir_recurse"), ("component-wise creation", "path.c mkdir_parents")], ["scratch file system before/after, status"], "model_checking", BFS,
     "a case is one (tree, operation, target) or history; non-trivial when the resulting (tree, status) is new",
     "all trees with <=2 entries over 7 kinds, 3 entries over {file, dir, link to dir}, 4 entries over {file, dir}, x all operations x all targets; all histories of <=3 over 20 operations from 3 trees; each removal/creation refused by the system in turn; every operation refused outright with 11 error codes; every subset of directories impossible to open; fifos, sockets, empty files; directories of up to 66,001 entries, trees up to 513 levels deep, paths to 4,095 bytes; names over {., a, space} of <=4 bytes and every byte value, names of every length 1..255; file sizes 0..5,000 and around 2^7..2^40", "one more entry; histories of <=4", "Exhaustive within the bounds, on a real scratch directory with a twin tree as oracle; a trailing separator on a link to a directory is not constrained; destructive calls are confined to it by a seam that suppresses and reports any other target. " + TRUST)

prop("C22", "Messages go to the right place and fatality is honoured",
     "Every log message is appended, complete with time, level, expression, source position and text, to exactly the destination in force for its level (an explicit file, else the level's redirection, else standard error), nothing else is written, and earlier content is kept. "
     "Fatal and failed-assertion messages end the program with a failure status after writing, even if the destination cannot be opened; other levels, and assertions that hold, return. Debug output obeys its redirection and its off switch without weakening the checks, and standard error stays usable.",
     ["inputs", "histories", "configurations"], "every level x expression value x destination x redirection history x destination that can or cannot be opened",
     "Tests log to a file once and inspect nothing.",
     ["src/vita/util/log.c", "src/vita/util/debug.c"], [("per-level destination table", "log.c"), ("exit after writing for fatal levels", "log.c, debug.c")], ["file contents, process outcome"], "model_checking",
     "exhaustive enumeration of redirection histories and log calls on the real code against a destination model",
     "a case is one history of redirections and messages; outcome = hash of all destination contents",
     "all histories of <=3 redirections (7 selectors x 5 targets) followed by every level, expression value and explicit target; all interleavings of <=5 redirections and messages; all debug sequences of <=4; message lengths 0..1400 and around powers of two up to 70,001; every field of the head at lengths 1..300 and up to 9,000; line numbers at the edges of 7- to 64-bit types at every level and destination; 70,001 messages in a row of each kind; destinations that come and go; every convenience macro", "histories of <=4, interleavings of <=6, debug sequences of <=5", "Exhaustive within the bounds. " + TRUST)

prop("C23", "Comparison and arithmetic helpers are exact",
     "For every pair or triple of values of every numeric type minimum, maximum and clamping return the value ordinary comparison selects. "
     "The palindrome test, greatest common divisor and least common multiple are exact (zero included), range mapping sends the ends of one range to the ends of the other and is linear between, closeness is a strict tolerance test whose automatic tolerance is the single-precision epsilon, and the fast square roots are within one part in a million of the true ones.",
     ["inputs"], "every value tuple of 8-bit types, every bit-boundary tuple of wider types, every number up to the bound",
     "Tests check a few values each.",
     ["src/vita/algorithm/comparison.c", "src/vita/math/math.c"], [("one comparison per function", "comparison.c"), ("Euclid, digit reversal, linear map, bit-trick roots", "math.c")], ["returned values"], "model_checking", ENUM,
     "a case is one (function, argument tuple); outcome = hash of function and result",
     "all 8-bit pairs and bound-ordered triples, ~40 boundary values^3 per wider type; palindromes 0..2,000,000 plus constructed 7..20-digit ones and their one-digit corruptions; gcd/lcm for all pairs 0..400, negatives to 60, all pairs of 300 boundary values; roots for every normal exponent x 131,072 mantissas", "all 16-bit pairs; palindromes to 20,000,000; gcd to 1500; the roots of every positive normal float", "Exhaustive within the bounds. " + TRUST)

prop("C24", "Socket operations report exactly what the system answered",
     "For every combination of system answers (success, partial transfer, error, time-out, hang-up) a socket operation reports success with the transferred size, or the failure of the step that failed, and performs no later step. "
     "Addresses, ports, data and lengths reach the system unchanged and received data and peer addresses reach the caller unchanged; a timed receive never touches the data when nothing is ready. "
     "A start-up that fails leaves no descriptor open and one that succeeds leaves exactly one.",
     ["fault_sequences", "inputs", "histories"], "every vector of answers of the underlying calls for each operation; every port and size; real loopback conversations",
     "The socket tests need two interactive processes and are not run.",
     ["src/vita/network/sockets.c"], [("status mapping after each call", "sockets.c"), ("close on failed start-up", "sockets.c startup_server/startup_client")], ["returned status, calls made, descriptors open"], "model_checking",
     "exhaustive enumeration of system-call answers (every step of every operation) on the real code, plus real loopback conversations",
     "a case is one (operation, arguments, answer vector); outcome = hash of calls made and status",
     "every answer vector over {ok, 5 errors, 0, partial} for all 14 operations, TCP and UDP, 6 descriptor values; all 65,536 ports; 6,561 addresses; poll results x 9 event sets x 5 time-outs; all start-up/accept/close histories of <=5; every buffer length to 5,000 and boundary lengths to SSIZE_MAX; loopback TCP/UDP exchanges of every size 1..64 and boundary sizes", "histories of <=6; sizes to 2,000", "Exhaustive within the bounds. Errors are -1 answers; poll reporting only hang-up/error counts as nothing ready, as the code does. " + TRUST)

prop("C25", "Random numbers stay in range, reproducible from the clock",
     "Whatever the clock says when the generator is first used, every number drawn lies in the documented range: integers in 15 bits, bounded floats within [0, bound), uniform floats between their bounds, normal deviates finite. "
     "The sequence depends on nothing but that first clock reading, differs between clock readings, uses all of its range and advances on every draw; normal deviates scale with mean and deviation and spread accordingly.",
     ["inputs", "histories"], "every clock reading in the bound x every draw index up to the bound, every bound value class",
     "Tests print a few numbers without checking them.",
     ["src/vita/math/math.c"], [("linear congruential step seeded once from the clock", "math.c random_u64"), ("absolute sine scaled into range", "math.c random_f32*")], ["drawn numbers"], "model_checking",
     "exhaustive exploration of generator states (every seed in the bound, every draw up to the depth) with the clock as a seam",
     "a case is one (seed, draw sequence); outcome = hash of the drawn numbers",
     "~3,500 seeds at every scale x 256 draws (each in a process of its own), all orders of draw kinds of length 4 from 8 seeds, 41 parameter classes x 40,000 draws, scaling from 256 seeds, runs of millions of draws of each kind", "~50,000 seeds x 1,024 draws; orders of length 6; 400,000 draws", "Exhaustive over the stated seeds and depths; statistical quality is not claimed. " + TRUST)

prop("C26", "Index mappings and memory primitives are exact",
     "Row/column(/depth) to linear index mappings are mutually inverse bijections for every shape, in row-major order. "
     "Swapping exchanges exactly the two objects' bytes for every size, copying and moving (also overlapping) transfer exactly the given bytes and nothing for zero, filling sets exactly the given bytes, comparison is true exactly for equal non-empty ranges, requested memory is usable for its full size (zeroed where promised, kept across reallocation), and every status code has its own name while unknown codes have none.",
     ["inputs"], "every shape and index up to the bound; every size, offset and overlap",
     "Tests check one or two shapes and one swap.",
     ["src/vita/container/common.c", "src/vita/core/core.c"], [("row-major arithmetic", "common.c index functions"), ("byte copies", "core.c")], ["indices, bytes"], "model_checking", ENUM,
     "a case is one (function, arguments); outcome = hash of function and result",
     "all 2-D shapes to 60x60 and 3-D shapes to 16x16x16 with all indices, large shapes up to 2^64 elements at their corners; all moves of <=40 bytes between offsets 0..40; swap/copy/fill/compare for sizes 0..200 (every bit flip) and boundary sizes to 1,000,000, ranges beyond 2^32 bytes; all status codes; iteration macros", "shapes to 120 / 26, moves to 96, sizes to 600", "Exhaustive within the bounds. " + TRUST)

prop("C27", "Reports print exactly what they were given",
     "The help listing prints the header if one is given, then one line per option in table order with its short name and long name right-aligned to the longest (at least -h and --help) and its description, then the line for help itself, then the footer if one is given; every text is printed as it is, whatever characters it contains and however long it is, and printing changes neither the table nor any destination. "
     "The allocator report shows under each label exactly the figure it names, the total being what is held plus what was freed. "
     "The parser names the first argument it does not recognise in one line, reports a malformed table on standard error and prints nothing otherwise; version texts agree with their numbers.",
     ["inputs"], "every option table, header, footer and set of figures up to the bound",
     "Tests print one table and one report and check neither.",
     ["src/vita/util/argopt.c", "src/vita/allocator/mallocator.c", "src/vita/core/compiler.c", "src/vita/core/version.c"], [("column widths over all options", "argopt.c vt_argopt_print_help"), ("figures and labels", "mallocator.c vt_mallocator_print_stats")], ["standard output and standard error"], "model_checking", ENUM,
     "a case is one report; outcome = hash of the printed text",
     "all option tables of <=3 rows over 6 long x 4 short names (descriptions rotating, all of them for one row) with all header/footer classes; tables of up to 70,001 rows; each text of every length 0..140 and up to 70,001; all 8^5 combinations of figures; diagnostics for all prefixes x unrecognised arguments x suffixes", "tables of <=4 rows, 12^5 figures, lengths to 600", "Exhaustive within the bounds. " + TRUST)


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    have = [p for p in P if os.path.exists(V + "/harness/%s.cpp" % p["id"].lower())]
    checks = {p["id"]: {"sources": [p["id"].lower() + ".cpp"], "level": p["level"], "rule": p["rule"], "bounds_quick": p["quick"],
                        "bounds_thorough": p["thorough"], "assumptions": p["assumptions"], **({"binding": p["binding"]} if p["binding"] else {}),
                        **({"quick_large": True} if p["id"] in QUICK_LARGE else {})} for p in have}
    json.dump(checks, open(V + "/checks.json", "w"), indent=1)
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
           "checks": [{"property": p["id"], "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "model checking: " + p["technique"], "level": p["level"],
                       "level_note": p["note"] + " Quick bounds: " + p["quick"]} for p in have],
           "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p not in have],
           "notes": "No hooks in /repo: seams are applied to the compiled objects (objcopy --redefine-syms). See DESIGN.md and known_findings.txt."}
    json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(P), "properties,", len(have), "checks")


main()
