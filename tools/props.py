#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (statement of every property)."""
import json, os, sys

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Hash table behaves as a finite map",
 "For every sequence of insert, delete and retrieve calls, with every hash and comparison function, a hash table answers exactly as a finite map: a retrieve returns the datum of the one live insertion of an equal key (NULL if there is none), insert of a present key returns 1 and changes nothing (the old key and datum stay), delete returns 0 exactly when the key was present, and the entry count is the number of live keys. "
 "This holds across every internal growth of the table and however keys collide, and tables never affect one another. "
 "The table never becomes overfull: after any insert, entries <= size/2 + 1.",
 ["histories", "inputs", "configurations"],
 "all operation histories; all key alphabets, hash functions (constant, colliding, string, pointer) and table sizes",
 "tests/hashtest inserts integer keys in a few fixed orders; delete-from-chain, move-to-front followed by delete/growth and colliding keys appear in a handful of combinations only.",
 ["maa/hash.c", "maa/prime.c"],
 [("hsh_insert: uniqueness scan and growth before the load exceeds one half", "maa/hash.c"),
  ("hsh_delete: unlink from the overflow chain", "maa/hash.c"),
  ("hsh_retrieve: self-organising move to front", "maa/hash.c")],
 [("table.buckets", "overflow chains", "maa/hash.c"), ("table.entries", "live entries", "maa/hash.c")],
 ["hsh_insert", "hsh_delete", "hsh_retrieve", "hsh_get_stats", "hsh_iterate"])

prop("C02", "Iteration visits every entry once and protects the table",
 "A complete iteration over a hash table or set (position loop or callback iteration) yields every live entry exactly once with its own key and datum and nothing else, and stops early with a non-zero result exactly when the callback returns non-zero. "
 "From the first position of a non-empty table until the loop has run past the last entry (or the iteration was ended explicitly), and for as long as readonly is set, insert, delete and destroy are refused by a fatal internal error while lookups stay correct and do not disturb the iteration; set_iterate protects its set in the same way during callbacks and restores the previous state, early stop included; afterwards the table is writable again. "
 "A callback given to hsh_iterate may look up or delete the entry it is called for without making the iteration skip or repeat any other entry.",
 ["histories", "inputs"],
 "all tables reachable by short histories; every loop style, every stopping point, every operation attempted at every point of the loop",
 "Tests run complete loops over a few fixed tables and never attempt a mutation, a lookup or an early exit inside one.",
 ["maa/hash.c", "maa/set.c", "maa/maa.h"],
 [("hsh_init_position/hsh_next_position readonly flag", "maa/hash.c"),
  ("set_iterate saves and restores readonly", "maa/set.c"),
  ("hsh_iterate saves next before the callback", "maa/hash.c")],
 [("table.readonly", "no mutation and no self-organisation while set", "maa/hash.c, maa/set.c")],
 ["HSH_ITERATE", "HSH_ITERATE_KEYS", "SET_ITERATE", "hsh_iterate", "hsh_iterate_arg", "set_iterate", "set_iterate_arg", "hsh_readonly", "set_readonly"])

prop("C03", "Set behaves as a finite set",
 "For every sequence of insert, delete and member calls, with every hash and comparison function, a set answers exactly as a finite set: member is 1 exactly for elements inserted and not deleted since, insert returns 1 (and keeps the stored element) exactly when an equal element is present, delete returns 0 exactly when it was present, and the count is the number of live elements. "
 "This holds across every internal growth and collision pattern, and sets never affect one another.",
 ["histories", "inputs", "configurations"],
 "all operation histories over colliding and non-colliding element alphabets",
 "tests/settest exercises two fixed populations; deletion inside overflow chains, self-organisation followed by growth and duplicate insertion are sampled once.",
 ["maa/set.c", "maa/prime.c"],
 [("set_insert/set_delete/set_member", "maa/set.c")],
 [("set.buckets", "overflow chains", "maa/set.c")],
 ["set_insert", "set_delete", "set_member", "set_count", "set_iterate"])

prop("C04", "Set algebra is exact",
 "Union, intersection and difference return a new set holding exactly the mathematical result, equality is true exactly for sets with the same elements, and set_add/set_del turn the first operand into the union/difference and return it; each result is an independent ordinary set with the operands' hash and compare functions. "
 "All other operands are left unchanged in content and writability, and every operation is also correct when both operands are the same set. "
 "Operands with different hash or comparison functions are refused with a fatal error.",
 ["inputs", "histories"],
 "all pairs of small operand sets built by every history, all aliasing patterns, operands of any size and readonly state",
 "settest computes each operation on one pair of integer ranges, never on aliased, empty or readonly operands.",
 ["maa/set.c"],
 [("set_add, set_del, set_union, set_inter, set_diff, set_equal", "maa/set.c")],
 [("set.readonly", "saved and restored around member tests", "maa/set.c")],
 ["set_union", "set_inter", "set_diff", "set_equal", "set_add", "set_del"])

prop("C05", "List behaves as a sequence",
 "For every sequence of append, push, pop, nth_set, truncate and truncate_position calls, a list answers exactly as a sequence: top, pop, nth_get (1-based, NULL out of range), member, length, both iterators, init/last/next/nth/get/set positions all agree with it; truncate(n) keeps exactly the first n elements (all, if there are no more) and truncate_position(p) keeps exactly the elements up to and including p (none, if p is NULL). "
 "Lists are independent of one another although they share storage; the storage of removed elements is used again, so that memory does not grow while the contents do not; and setting a non-existing element is refused with a fatal error.",
 ["histories", "inputs"],
 "all operation histories on one and on several concurrently live lists",
 "listtest runs append/push/pop on fixed lengths and never truncates a list to more than one element nor mixes lists.",
 ["maa/list.c", "maa/memory.c"],
 [("head/tail/count maintenance", "maa/list.c"), ("shared object allocator", "maa/list.c, maa/memory.c")],
 [("list.head/tail/count", "sequence and its length", "maa/list.c"), ("mem", "allocator shared by all lists", "maa/list.c")],
 ["lst_*"])

prop("C06", "Stack is LIFO",
 "For every sequence of push, pop, top and isempty calls, pop returns and removes the most recently pushed datum not popped yet (NULL when there is none), top returns it without removing it, and isempty is non-zero exactly when there is none; NULL data are ordinary elements. "
 "Stacks are independent of one another, at any depth.",
 ["histories"],
 "all operation histories on several stacks",
 "stacktest pushes and pops fixed runs only.",
 ["maa/stack.c"], [("stk_push/stk_pop linked cells", "maa/stack.c")],
 [("stack.data", "top cell", "maa/stack.c")], ["stk_push", "stk_pop", "stk_top", "stk_isempty"])

prop("C07", "Skip list is an ordered map for every coin toss",
 "For every sequence of insert, delete and find calls and every outcome of the random level choices, a skip list answers exactly as an ordered map from keys to data under the caller's compare and key functions; insertion of a present key and deletion of an absent key are refused with a fatal internal error. "
 "Iteration calls the function on the data in strictly increasing key order, each datum present throughout the iteration exactly once, whatever insertions and deletions the callback performs, and stops with the callback's value as soon as that is non-zero. "
 "Lists are independent of one another, and what deletion or destruction gives back is used again.",
 ["histories", "inputs", "schedules"],
 "all operation histories and all random-bit streams consumed by level selection",
 "sltest runs one random stream of one process; the shape of the towers is sampled, not enumerated.",
 ["maa/sl.c"],
 [("_sl_locate update vector; level growth one step at a time; level shrink in sl_delete", "maa/sl.c"),
  ("sl_iterate snapshot", "maa/sl.c")],
 [("list.level/forward", "towers", "maa/sl.c")],
 ["sl_insert", "sl_delete", "sl_find", "sl_iterate", "sl_iterate_arg"])

prop("C08", "String pools intern: one stable pointer per string",
 "In one pool, find (and grow+finish, which is equivalent to one find of the concatenation; and findn, equivalent to find of the first n bytes) returns the same pointer for equal strings and different pointers for different strings, for as long as the pool lives; the pointed-to bytes are a NUL-terminated copy that never changes, whatever else the pool does. "
 "exists is true exactly for interned strings, copy and copyn return private terminated copies that are not interned, unique returns a string with the prefix that was not interned before, and iteration yields each interned string exactly once and leaves the pool usable even when stopped early. "
 "A pool that is being walked (or was made read only) still finds what it has, refuses a new string or its destruction as a fatal error, and grows on afterwards. Pools are independent, and the global pool behaves like any other whichever global function is called first, before the first use and after being destroyed.",
 ["histories", "inputs"],
 "all operation histories over alphabets containing the empty string, prefixes of one another, colliding and long strings",
 "stringtest interns a list of integers once; grow/finish duplicates, first use through exists/copyn/unique, and early stop never occur.",
 ["maa/string.c", "maa/memory.c", "maa/hash.c"],
 [("hash keyed by pool-owned copies", "maa/string.c"), ("mem_grow/mem_finish", "maa/memory.c")],
 [("poolInfo", "strings and their index", "maa/string.c"), ("global", "lazily created pool", "maa/string.c")],
 ["str_pool_*", "str_*"])

prop("C09", "Memory managers never overlap or alter what they handed out",
 "Every string handed out by a string manager (copy, counted copy, or one or more grow calls and finish) is the NUL-terminated sequence of the bytes given and stays intact until the manager is destroyed, and a counted copy reads no more than the counted bytes. "
 "Every object handed out by an object manager is a block of at least the requested size that shares no byte with any other live object of any manager and keeps its contents until it is freed; get_empty returns it zeroed, and a freed object is reused before new memory is taken.",
 ["histories", "inputs"],
 "all histories of both managers with all interleavings of allocation, freeing and growth, all string lengths",
 "memstrtest and memobjtest allocate and release in one fixed order and check totals only.",
 ["maa/memory.c", "maa/stack.c"],
 [("free list and allocation stack", "maa/memory.c"), ("growing_size", "maa/memory.c")],
 [("stringInfo.growing_size", "bytes of the string being grown", "maa/memory.c"), ("objectInfo.stack", "free objects", "maa/memory.c")],
 ["mem_*"])

prop("C10", "Argument tokenisation follows the quoting rules for every string",
 "arg_argify splits every string exactly as a shell-like reference does: unquoted white space (space, tab, newline, carriage return, vertical tab) separates words, single and double quotes group, outside quotes a backslash takes the next character literally, quoted and unquoted pieces that touch join into one word, quoted empty pieces produce words, and an unterminated quote or trailing backslash ends the last word as it stands; ARG_NO_ESCAPE and ARG_NO_QUOTE make backslash respectively quotes ordinary characters. "
 "All bytes of the words come out unchanged, whatever the length of the string, and no byte beyond its terminator is read. "
 "Results are independent of previously tokenised strings.",
 ["inputs", "configurations"],
 "all strings (over the character classes of the grammar, and all byte values) under all four quoting styles",
 "argtest tokenises about a dozen strings.",
 ["maa/arg.c", "maa/arggram.txt", "maa/arggram2c"],
 [("table-driven automaton in arg_argify and its generated tables", "maa/arg.c, maa/arggram.txt")],
 [("transition table", "state x character class -> action", "maa/arggram.txt")],
 ["arg_argify", "arg_count", "arg_get"])

prop("C11", "Argument lists hold exactly what was added",
 "For every sequence of add, addn, grow and finish calls, the list holds exactly the added words in order: count is their number, get(i) the i-th word, a word built by grow calls and finish is their concatenation, and the argument vector has the same words followed by a NULL, however many words there are. "
 "An index outside the list is refused with a fatal error, and lists are independent of one another.",
 ["histories", "inputs"],
 "all operation histories, including ones that grow the vector several times and read it in between",
 "argtest builds lists only through arg_argify on short strings and never crosses a vector growth.",
 ["maa/arg.c", "maa/memory.c"],
 [("arg_add growth of argv", "maa/arg.c"), ("arg_grow/arg_finish over mem_grow", "maa/arg.c")],
 [("Arg.argv/argc/argm", "vector and its capacity", "maa/arg.c")],
 ["arg_add", "arg_addn", "arg_grow", "arg_finish", "arg_get", "arg_count", "arg_get_vector"])

prop("C12", "Base-26 and base-64 codecs round-trip",
 "For every 32-bit value, decoding the encoding yields the value, the encoding is the minimal most-significant-digit-first string over the codec's own alphabet (a single zero digit for 0), and distinct values encode differently; this holds whatever values were encoded or decoded before. "
 "Decoding ignores leading zero digits, buffer decoding of base 64 uses exactly the given number of characters, and a character outside the alphabet is refused with a fatal error.",
 ["inputs", "histories"],
 "all 2^32 values (quick: all values up to a bound plus all neighbourhoods of digit boundaries), all short digit strings, all pairs of consecutive calls over a boundary alphabet",
 "basetest prints a few dozen values and checks round trips for values far below 2^31.",
 ["maa/base26.c", "maa/base64.c"],
 [("cached previous result in the encoders", "maa/base26.c, maa/base64.c"), ("decoder digit tables", "maa/base26.c, maa/base64.c")],
 [("static result/previous", "cache of the last encoding", "maa/base26.c, maa/base64.c")],
 ["b26_encode", "b26_decode", "b64_encode", "b64_decode", "b64_decode_buf"])

prop("C13", "Bit operations act on exactly one bit of the word",
 "For every bit number from 0 to the width of unsigned long minus one and every word, set makes exactly that bit 1, clear makes exactly that bit 0, test is non-zero exactly when it is 1, and count is the number of 1 bits; no other bit and no neighbouring word changes.",
 ["inputs", "histories"],
 "all bit numbers and all words of low/high structure (all words with up to four bits set or cleared, all 16-bit patterns at all positions), all short histories",
 "bittest covers bits 0-31 of one word.",
 ["maa/bit.c"], [("bit_set/bit_clr/bit_tst/bit_cnt", "maa/bit.c")], [], ["bit_set", "bit_clr", "bit_tst", "bit_cnt"])

prop("C14", "Primality and next-prime are exact",
 "prm_is_prime is non-zero exactly for the prime numbers, for every 32-bit value, independently of earlier queries. "
 "prm_next_prime returns the smallest odd prime that is at least its argument, for every argument from 0 up to the largest 32-bit prime.",
 ["inputs", "histories"],
 "all 32-bit values (quick: all below 2^22, windows around all squares of primes and the top of the range; thorough: all 2^32)",
 "primetest compares a table of small primes only.",
 ["maa/prime.c"], [("trial division with incremental squares", "maa/prime.c")], [], ["prm_is_prime", "prm_next_prime"])

prop("C15", "Soundex codes are those of the classical algorithm",
 "For every string, both soundex functions yield the classical four-character code: the first letter in upper case, then the digit classes of the following letters with runs of the same class (also that of the first letter) collapsed to one digit, letters without a class separating runs, non-letters ignored, padded with zeros to exactly four characters and terminated; letter case never matters. "
 "A string without letters gives the documented fixed code, and both functions always agree, writing exactly five bytes.",
 ["inputs"],
 "all strings up to a bounded length over class representatives, all byte values",
 "No test calls soundex.",
 ["maa/text.c"], [("txt_soundex2 state machine", "maa/text.c")], [("static buffer of txt_soundex", "result", "maa/text.c")],
 ["txt_soundex", "txt_soundex2"])

prop("C16", "Debug and user flag registries select exactly the named flags",
 "After any sequence of registrations and settings, a flag tests true exactly if it was set last and not unset since, in each of the four independent groups: a name or +name sets that flag, -name unsets it, all sets and none clears every bit of every group, and dbg_set_flag/dbg_unset_flag act on the flag's own bits only. "
 "Unknown or malformed names, empty registrations, flags of more than one bit, and registration of an already registered flag are refused with a fatal error, and the list and name lookup report exactly the registered names. "
 "The two registries never influence each other, and destroying one returns it to its initial state.",
 ["histories", "inputs"],
 "all 120 flags of the four groups, all pairs of flags, all short histories of set/unset/test/list/destroy in both registries",
 "debugtest registers three flags of one group and checks a fixed script.",
 ["maa/debug.c", "maa/flags.c"],
 [("group decoding by the two top bits", "maa/debug.c, maa/flags.c"), ("name table", "maa/debug.c, maa/flags.c")],
 [("setFlags[4], usedFlags[4]", "current and registered bits of each group", "maa/debug.c, maa/flags.c")],
 ["dbg_*", "flg_*"])

prop("C17", "Timers report the elapsed time since start for every clock",
 "For every reading of the clocks, stopping a started timer records exactly the real, user and system time (of the process and its waited-for children) that passed since it was last started, with microsecond resolution, in place of what it recorded before; reset makes the recorded times zero; get and print return the recorded values without changing them. "
 "Timers with different names are independent, a name is recognised by its contents, and using an unknown name is a fatal error for stop, reset, get and print.",
 ["histories", "inputs", "schedules"],
 "all start/stop/reset/get histories on two timers under all small clock increments, including microsecond wrap-around",
 "No test reads a timer value; real clocks cannot be controlled by a unit test.",
 ["maa/timer.c"], [("tim_start/tim_stop/DIFFTIME", "maa/timer.c")], [("timer entry", "start stamps and accumulated times", "maa/timer.c")],
 ["tim_start", "tim_stop", "tim_reset", "tim_get_real", "tim_get_user", "tim_get_system"])

prop("C18", "Child processes are wired and reaped exactly as requested",
 "For every legal flag combination, an opened child has exactly the requested ends on its descriptors 0-2 (created pipe, caller's descriptor, the null device, or standard error joined to standard output), runs the tokenised command, and holds no end of any pipe to another child, so that closing one child's input always reaches it as end of file - also when the caller has closed some of its own descriptors 0-2; illegal combinations are refused. "
 "Closing or waiting returns the child's exit status exactly (0-255, 128+signal when killed, 0 after SIGPIPE or when the status was already collected), however many children are live and in whatever order they end, also when the wait is interrupted; a command that cannot be run never returns into the caller's code. "
 "The parent keeps only the descriptors it was given, the callback runs in the child only, and shutdown ends and reaps every child still open but signals no process that was reaped before.",
 ["configurations", "schedules", "histories", "fault_sequences"],
 "all flag combinations, all orders of opening, ending, closing and waiting of up to three children, all exit statuses and fatal signals",
 "prtest runs a handful of pipelines with fixed flags and in fixed order.",
 ["maa/pr.c"],
 [("pr_open2 pipe creation, child side dup2 and closing of tracked descriptors", "maa/pr.c"), ("descriptor->pid table", "maa/pr.c"), ("_pr_status decoding", "maa/pr.c")],
 [("_pr_objects", "pid of each open descriptor", "maa/pr.c")],
 ["pr_open", "pr_open2", "pr_close", "pr_close_nowait", "pr_wait", "pr_spawn", "_pr_shutdown"])

prop("C19", "Filtering through a child transfers every byte",
 "For every way the kernel may split, delay or interrupt the transfers and whatever the child does in between, pr_readwrite writes the whole input exactly once and in order, closes the child's input when it is used up (at once if it is empty), returns all output in order with its exact length, and terminates whenever the child terminates its output. "
 "Output that fits the buffer exactly is returned in full; output larger than the buffer is refused with a fatal error and never truncated silently or written past the buffer; a transfer error, or a child that stops reading or ends its output before it took the whole input, ends in a fatal error and is never reported as success. "
 "pr_filter returns the child's output length and leaves no descriptor or process behind; a child that ends with a failing status is reported by a warning on stderr, a successful one by nothing.",
 ["schedules", "inputs", "fault_sequences"],
 "all schedules of a simulated kernel and child (short reads and writes, would-block, interrupts, early close) over small inputs and outputs; real children for data up to several pipe capacities",
 "prtest filters one text through cat; the kernel's answers cannot be chosen by a unit test.",
 ["maa/pr.c"], [("select loop of pr_readwrite", "maa/pr.c")], [("inPt/outPt, count", "transfer progress", "maa/pr.c")],
 ["pr_readwrite", "pr_filter"])

prop("C20", "Every log message reaches every open sink whole and once",
 "Every message logged reaches each open destination (file, stream, syslog) completely and exactly once, and none that is closed, in the order of the calls: in a file or an ordinary stream as one line, preceded by time, host, ident, process and (for errors) routine unless the preamble is switched off; messages longer than the internal buffer are cut at its size and never overrun it. "
 "A short or interrupted write is continued until the message is complete. "
 "Standard output and error as log streams receive the bare message. "
 "A file destination whose name contains a time format is switched to the file of the current time when a message is logged at a different time, and reopening or closing a destination affects that destination only. An open destination keeps its own copies of names and idents: it goes on working after the library is shut down, after its string pool is destroyed and after the caller has reused the strings passed.",
 ["histories", "fault_sequences", "inputs"],
 "all histories of opening, closing and logging over three sinks, all short-write/interrupt answers, all clock steps, all message lengths around the buffer size",
 "logtest writes a few lines to one stream and one file.",
 ["maa/log.c"], [("log_error_va/log_info_va formatting and dispatch", "maa/log.c"), ("log rotation by strftime name", "maa/log.c")],
 [("logFd, logUserStream, logSyslog", "open sinks", "maa/log.c")],
 ["log_file", "log_stream", "log_syslog", "log_option", "log_info", "log_error", "log_close"])

prop("C21", "Error reports are complete and end the program as documented",
 "err_warning returns; err_fatal and err_fatal_errno end the program normally (exit handlers run, open streams are flushed) with exit status 1 and err_internal ends it by abort, from any state of the program. "
 "Each first flushes standard output, then writes exactly one report with program name, routine and the formatted message (and the error text of the errno at the time of the call) to standard error, and logs the same report to every open log destination. "
 "The program name is the last component of what was set, or absent if none was set; a null routine means no routine.",
 ["inputs", "configurations", "histories"],
 "all combinations of report function, routine (NULL/empty/set), program name form, message length, errno, buffered output and open log sinks",
 "errtest calls each function once.",
 ["maa/error.c", "maa/log.c"], [("err_* functions", "maa/error.c")], [("_err_programName", "set name", "maa/error.c")],
 ["err_set_program_name", "err_program_name", "err_fatal", "err_fatal_errno", "err_warning", "err_internal"])

prop("C22", "Running out of memory is always a clean fatal error",
 "If any single allocation of any operation of the library fails, the operation ends the program through the out-of-memory fatal error; it never crashes, corrupts memory or returns as if it had succeeded. "
 "The allocation wrappers otherwise return memory of the requested size (xcalloc zeroed, xrealloc keeping the old contents, xstrdup an equal private copy), and xfree(NULL) is refused as a fatal error.",
 ["fault_sequences", "histories"],
 "every allocation of every covered operation fails once, from every covered state",
 "No test injects an allocation failure.",
 ["maa/xmalloc.c", "maa/stack.c", "maa/hash.c", "maa/set.c", "maa/list.c", "maa/sl.c", "maa/memory.c", "maa/string.c", "maa/arg.c", "maa/source.c"],
 [("xmalloc family checks", "maa/xmalloc.c")], [], ["xmalloc", "xcalloc", "xrealloc", "xstrdup", "xfree"])

prop("C23", "Destroying or shutting down releases everything and starts afresh",
 "After every history of use, destroying an object releases all memory it took, and shutting the library down (with the user's own objects destroyed) releases all memory the library took, without touching released memory. "
 "Every module can then be used again and behaves as on first use, for every subset and order of modules used before and any number of such cycles.",
 ["histories", "configurations"],
 "all histories of one operation group per module, all subsets and pairs of modules, repeated init/use/shutdown cycles",
 "Tests call maa_shutdown at most once, at exit, and never count what is left.",
 ["maa/maa.c", "maa/hash.c", "maa/set.c", "maa/list.c", "maa/sl.c", "maa/memory.c", "maa/string.c", "maa/arg.c", "maa/pr.c", "maa/timer.c", "maa/debug.c", "maa/flags.c", "maa/parse-concrete.c", "maa/source.c"],
 [("maa_shutdown and the modules' destroy functions", "maa/maa.c")], [("module static state", "lazily created pools and tables", "all modules")],
 ["maa_init", "maa_shutdown", "*_destroy"])

prop("C24", "Source positions name the right file, line, column and text",
 "For every sequence of file, line, advance and cpp-line events, a token obtained from the source manager reports for good the file name, line number, column offset and length current when it was taken and the text of its source line, however many lines follow. "
 "Messages, errors and carets printed for a token show exactly that position, text and the message, parser errors with the concrete form in place of each registered symbol, whatever their length. "
 "Creating the manager again after destroying it behaves as the first time.",
 ["histories", "inputs"],
 "all short event histories, line tables across every growth, all symbol arrangements in parser messages",
 "No test uses the source manager.",
 ["maa/source.c", "maa/parse-concrete.c"], [("src_line/src_new_line/src_cpp_line/src_get", "maa/source.c"), ("symbol replacement in _src_print_yyerror", "maa/source.c")],
 [("Info", "current file, line, offset and line table", "maa/source.c")], ["src_*", "prs_*"])

prop("C25", "Invalid handles are caught before any damage",
 "Passing NULL, a destroyed object whose memory still shows that, or an object of another kind where a hash table, set, list, skip list, argument list, string manager or object manager is expected ends the program through the library's fatal internal error before anything else happens. "
 "It never returns, never crashes by a memory fault and never alters the foreign object (list append and skip list iteration, which accept NULL and do nothing, excepted). NULL as a key of a table or set with the default functions or as a string to be interned, and a skip list without compare or key function, are refused in the same way.",
 ["inputs", "configurations"],
 "every function taking such a handle x every kind of wrong handle",
 "No test passes a wrong handle.",
 ["maa/hash.c", "maa/set.c", "maa/list.c", "maa/sl.c", "maa/arg.c", "maa/memory.c"],
 [("magic number checks", "all container modules")], [("magic", "type tag of each object", "maa/maa.h")], ["all handle-taking functions"])

prop("C26", "Statistics and printed reports agree with the history",
 "After every history, the statistics of hash tables, sets, string pools, memory managers and the source manager report exactly the numbers the history determines (live entries, retrievals, failed retrievals, strings and bytes, objects created, in use and reused), are consistent with each other, and obtaining or printing them changes nothing. "
 "The printed forms show the same numbers, the dumps of lists, skip lists and hash keys show exactly the live entries (ordered structures in order), the total allocated for lists grows by a fixed amount per element and never shrinks, and shutting the library down prints the report (version, string statistics, timers) exactly when the .memory or .time flag asks for it.",
 ["histories"],
 "all short operation histories with statistics taken at every point",
 "Tests print statistics for fixed histories; several fields are never compared.",
 ["maa/hash.c", "maa/set.c", "maa/string.c", "maa/memory.c", "maa/source.c"],
 [("*_get_stats, *_print_stats", "container modules")], [], ["hsh_get_stats", "set_get_stats", "str_pool_get_stats", "mem_get_string_stats", "mem_get_object_stats", "src_get_stats"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
