MC = "model_checking"
STATELESS = "stateless bounded model checking of the real code (every case within the bound executed and compared with a reference model)"
TRUST = ["gcc and AddressSanitizer", "the reference model in the harness"]
PLAN = {}
def plan(pid, harness, bounds, technique=STATELESS, assumptions=(), **kw):
    PLAN[pid] = dict(harness=harness, level=MC, bounds=bounds, technique=technique, assumptions=TRUST + list(assumptions), **kw)

plan("P22", [("h_strman", "asan"), ("h_strlist", "asan")], "all histories of registration (protected or not), lookup, mark and collection over a small alphabet up to the depth in the harness, plus bulk growth of the table; every string list of up to 3 (thorough 4) lines over 9 strings, with and without final newline, and of up to 1000 strings, given to the compiler with 5 scripts.")
plan("P23", [("h_containers", "asan")], "all operation sequences up to the harness depth on arrays, dictionaries and sets with reference sequences, maps and sets, with element-destruction counting.")
plan("P01", [("h_expr", "fast")], "every expression tree with up to 3 binary operators (4 in thorough) out of all 18, in every shape, with unary operators on every node for up to 2, over all value types and leaf kinds.")
plan("P02", [("h_flow", "fast")], "every program of up to 4 (thorough 5) control statements (if, if-else, while, for, return, in braced and single-statement form, nested to depth 4) at top level and in a function, for every sequence of up to 6 branch decisions with every kind of true and false value, in 3 layouts; else-if chains up to 8; loop nests up to 4.")
plan("P03", [("h_scope", "fast")], "every program of up to 5 (thorough 6) declarations, assignments, blocks, loops, lambdas and calls over 4 names, at top level, in a block and in a function; every sequence of 4 (5) method rebindings and calls; recursion with up to 6 parameters, 3 locals, depth 4.")
plan("P04", [("h_tables", "asan"), ("h_tables", "fast")], "every history of up to 3 stores/removals over 15 colliding, negative, float and string keys and up to 4 (thorough 6) over 5 colliding keys, in literal, dot and index syntax, each followed by size, foreach, map, filter, reduce, clone and reads; every sequence of 3 (4) aliasing/clone/store steps over 3 variables and 4 (5) over 2; every modification by the callback of each iteration function over every subset of 5 keys; tables up to 300 entries.")
plan("P05", [("h_gc", "asan"), ("h_gc", "fast")], "every sequence of 2 of 26 operations (strings, tables, cycles, closures, iteration callbacks, stigmergies, listeners, broadcasts, swarms, neighbors, copies, conflict managers, host calls, files, message deliveries) and every sequence of 3 with a middle operation of 8 (fast build: every sequence of 3), run without collection, with a collection at every instruction and with natural collections; every single operation with a collection at each single instruction and at each close pair of instructions (thorough: also every sequence of 2 and 3); 180 repetitions of every operation and pair of operations, and 26 garbage-producing loops of 3000 rounds, for memory growth.", "stateless bounded model checking of the real VM: exhaustive placement of collections by interposing the collector")
plan("P06", [("h_errors", "asan"), ("h_errors", "fast")], "every operator on every pair of the 7 value types, every table read/write/call form on every type, every library function with 0 to 3 (thorough 4) arguments of every type and 4 and 5 arguments, every swarm set operation; in 20 contexts (top level, function, if/else/while/for bodies, callbacks of every table, neighbor, stigmergy and file iteration function and swarm.exec, method, nested lambda, host call).", "stateless bounded model checking of the real compiler and VM against a table of signatures", ["the signature table is the documented interface of the library functions"])
plan("P08", [("h_host", "asan"), ("h_host", "fast")], "every call tree of up to 3 calls (4 and, thorough, 5 with tied attributes) in every shape, each call one of: script function, host function, script method, host method, called by name, from the stack or through a variable, with up to 6 arguments of every type, returning nothing, a value or an argument, from host stacks of 0 to 2 other values; the same with one call failing on entry or after its nested calls; every impossible call with up to 4 stack elements and arguments; up to 40 arguments; host/script recursion to depth 200.")
plan("P09", [("h_serial", "asan"), ("h_serial", "fast")], "all 8/16-bit integers, all 32-bit integers and floats whose low bits have at most 2 bits set or cleared under every high byte / exponent (thorough: all 2^32 of each); all strings up to length 4 over 7 bytes and lengths up to 65535; every table with up to 4 (thorough 5) entries in total, nested to depth 5, over 6 keys and 5 leaf values; tables of every size to 255 and nesting to 64; each with every truncation and end to end between two VMs.", "stateless bounded model checking of the real encoder/decoder against a reference decoder", ["NaN, strings over 65535 bytes and tables over 255 entries are outside the format's documented limits"])
plan("P10", [("h_malformed", "asan"), ("h_malformed", "fast")], "all messages up to 2 (thorough 3) bytes, all messages of 5 (6) bytes over 8 byte values, all continuations of 5 (6) bytes over 9 values of 6 message prefixes; every truncation, every single-byte substitution (all 256 values), every pair of substitutions (9 values), drop and doubling in each of 74 valid messages; pairs of truncated messages; nested and oversized counts up to 64 KiB; each followed by good messages of the same and other senders.", "stateless bounded model checking of the real message processing against a reference grammar", ["messages up to 64 KiB (nesting within one message bounds the recursion)"])
plan("P11", [("h_queue", "asan"), ("h_queue", "fast")], "every sequence of 4 (thorough 5) of 18 operations (broadcasts, stigmergy puts, nil puts and gets, joins, leaves, host steps, extractions, receptions of newer, conflicting and querying messages), every sequence of 5 (6) of 11 stigmergy operations and of 6 (7) of 8 swarm operations at several distances from the periodic list; up to 300 pending messages of every kind, including tables modified after they were sent.", "explicit-state model of the queue, every trace replayed on the real code in lockstep")
plan("P13", [("h_vstig", "asan"), ("h_vstig", "fast")], "every history of 4 (thorough 5) of 17 operations (put, nil put, get, create again, foreach that writes, extraction, reception of a newer version) over two stigmergies and four keys, observed through get, size, foreach and the announced messages; every history of 3 puts and removals over 13 integer, float and string keys and of 2 (3) with values of all types; up to 60 entries per kind.", "explicit-state model of the store, every trace replayed on the real code in lockstep", ["fewer than 65535 writes of one entry (versions are 16-bit)"])
plan("P12", [("h_inmsg", "asan"), ("h_inmsg", "fast")], "every sequence of 6 (thorough 7) of: a broadcast or a put from one of 2 senders, or a processing step; 5 (6) with 4 senders; 4 (5) with 6 message kinds and 3 senders; 6 (7) broadcasts of 5 senders; up to 400 senders and 200 messages each in two arrival orders; the host's buffer is destroyed after each enqueue.")
BFS = "explicit-state exploration of a reference model of the group; every transition replayed on real VMs in lockstep, and normal delivery run on the real VMs from every state"
plan("P14", [("h_replica", "fast")], "all reachable states of: 2 robots with up to 4 writes, 2 deletions, 1 read, 1 lost and 1 duplicated message, 1 or 2 entries; 3 robots in a line (every identifier in the middle) with up to 2 writes, 1 deletion, 1 loss, and 1 read to depth 9-10 (thorough 13); 3 robots in a triangle with 2 writes or a write and a deletion; every interleaving of operations, host flushes and deliveries in any order; channels of up to 6 messages; 10 rounds of normal delivery (after losses preceded by one read per robot) from every state.", BFS, ["fewer than 65535 writes of one entry (versions are 16-bit)"])
plan("P15", [("h_conflict", "asan"), ("h_conflict", "fast")], "9 conflict managers (none, by robot, by value, merging, keeping local, invalid results, failing, writing) times 4 conflict-lost callbacks (none, tracing, writing, failing): all reachable states (depth 9, thorough 11, for the ones that write, fail or do not resolve) of 2 robots with 2 writes, a deletion, a read, a loss and a duplication, and of 3 robots in a line with 2 writes.", BFS)
plan("P19", [("h_listen", "asan"), ("h_listen", "fast")], "every history of 4 (thorough 5) of 23 operations: register one of 7 kinds of listener (passive, broadcasting, ignoring, replacing itself or the other topic's listener, writing a stigmergy, all at once) on either topic, ignore, broadcast, receive or queue messages of several senders; 5 operations with passive listeners; up to 320 topics exchanged between two robots.", "explicit-state model of the listener table, every trace replayed on the real code in lockstep")
plan("P16", [("h_swarm", "asan"), ("h_swarm", "fast")], "every history of 3 (thorough 4) of 28 operations (create, join, leave, select, others, union, intersection, difference with aliased operands, host steps, extraction) on 3 swarms; every pair of consecutive set operations on 4 swarms from every membership; every nesting of up to 3 (4) swarm.exec with membership changes inside, direct or through functions; up to 500 swarms.", "explicit-state model of swarm membership, every trace replayed on the real code in lockstep")
plan("P17", [("h_members", "asan"), ("h_members", "fast")], "every sequence of 3 of 17 events (list, join, leave and truncated messages of two robots, idle periods of 1 and 48 to 51 steps) and of 4 (thorough 5) of 11 events, one message per step or batched; refreshing at every interval from 1 to 54 steps; up to 400 neighbors; two real robots with every history of 3 (4) swarm operations, every loss pattern and every phase of the announcement period.", "explicit-state model of the membership table, every trace replayed on the real code; two-robot runs enumerate every loss pattern and phase")
plan("P18", [("h_neighbors", "asan"), ("h_neighbors", "fast")], "every pair of neighborhoods over a universe of 4 robots in two consecutive steps with every chain of 2 of 6 derivations (filter, map, kin, nonkin) in 5 swarm contexts; every membership of the neighbors with chains of 2 (thorough 3); every chain of 3 derivations; a callback failing at every visit; nested iteration; up to 1500 neighbors.", "explicit-state reference of the neighborhood, every bounded history of reports and derivations executed on the real code and compared")
plan("P24", [("h_strings", "asan"), ("h_strings", "fast")], "every string of length up to 4 (thorough 6) over 3 characters with every pair of positions from -3 to 7 and at the integer limits; every search of patterns up to 4 in strings up to 7 (9); every split of strings up to 6 (8) over every delimiter set; every integer and float conversion of strings up to 5 (6) characters; integers within 20000 (200000) and around every power of 2 and 10 to string and back; every byte value; every combination of argument types and counts.", "bounded exhaustive enumeration of all inputs of the real functions against reference implementations")
plan("P25", [("h_math", "asan"), ("h_math", "fast")], "every math function on 36 boundary integers and about 870 (thorough 3000) floats including denormals, infinities and NaN, against extended precision within 4 units in the last place; every pair of 145 (330) numbers for atan, min and max; every combination of argument types and counts; 1500 (20000) draws for every pair of 15 integer and 11 float bounds; 8 seeds re-seeded from 15 positions across generator refills; every interleaving of 8 (10) draws of two VMs at three generator positions.", "bounded exhaustive enumeration of arguments, and of the interleavings of draws and re-seedings, on the real code against a reference", ["math.abs of the smallest integer and rounding of floats beyond the integer range are not claimed"])
plan("P28", [("h_io", "asan"), ("h_io", "fast")], "every history of 4 (thorough 5) of 10 operations (three writes, size, iteration, iteration closing the file, nested iteration, close, two reopenings) from every of 6 modes and 9 initial contents; two files with every pair of modes and 2 (3) operations; copying, failing callbacks, up to 300 lines, files that cannot be opened.", "explicit-state model of files and positions, every bounded history executed on the real code and the file system", ["switching from writing to reading an update stream without an intervening fsize is outside the C library contract and not explored"])
plan("P26", [("h_isolation", "asan"), ("h_isolation", "fast")], "every interleaving of the 7 slices (creation, main program, steps, message reception, emission, destruction) of every pair of 6 programs and a compilation; every interleaving of 3 actors with 4 slices for 1 (thorough 6) triples; every schedule with two preemptions within the first 70 (260) instructions of every pair of 5 programs; up to 41 VMs.", "stateless model checking: every interleaving of slices within the bound executed on the real code, per-VM traces compared with the solo trace")
plan("P20", [("h_asm", "asan"), ("h_asm", "fast")], "every program of up to 5 (thorough 6) lines over 3 labels (each defined up to twice), plain instructions and four kinds of reference; every program of up to 4 (5) lines with every assignment of source positions; every instruction with boundary operands (all float exponents); every image size up to 600 (20000) with each kind of item at the growth boundary; every string constant of up to 3 (4) characters over 12; up to 512 (4096) labels; every truncation and single-byte change of 4 images; every debug map of up to 3 entries over 6 offsets and 10 positions, written and read back, and every truncation of a debug file.", "bounded exhaustive enumeration of assembly programs on the real assembler, disassembler and debug maps against a reference encoder")
plan("P07", [("h_bytecode", "asan"), ("h_bytecode", "fast")], "every sequence of 2 of 78 instructions with ordinary and out-of-range operands in 4 contexts (empty and loaded stack, inside a function, inside a lambda), of 3 inside a function (thorough: in all), of 3 and 4 (5) of 20 instructions; every instruction on every triple of 9 kinds of value; each step compared with a reference interpreter (state, error code, position, stacks, locals, globals); every image of up to 4 bytes for 5 string counts, every truncation of 4 compiled programs and every change of one byte (all opcodes and boundary values; thorough all 256 values and pairs) under AddressSanitizer.", "stateless bounded model checking: every instruction sequence executed on the real VM in lockstep with a reference interpreter; exhaustive short and mutated images under a memory checker")
plan("P21", [("h_compile", "asan"), ("h_compile", "fast")], "every sequence of up to 4 (thorough 5) of 32 tokens; every continuation by each of 43 tokens of every viable prefix of up to 7 (8) tokens over two alphabets of 15 and 16; every part, every single-token deletion, insertion, replacement and exchange (thorough: every pair) of 60 sample programs in several layouts, and every ordered pair of them; every text of up to 4 (5) characters over 21 and of 2 over all bytes; every single-character change of two program texts; nesting to 500 and up to 2000 statements.", "bounded exhaustive enumeration of source texts on the real compiler against a reference lexer and recogniser (verdict and position of the diagnostic), accepted ones assembled and loaded")
plan("P27", [("h_lex", "asan"), ("h_lex", "fast")], "every text of up to 4 (thorough 5) characters over 25, of up to 7 (8) over 7, and of 2 over all bytes; every pair and triple of 69 tokens with 9 separators; every string literal of up to 4 (5) characters over 10 in both quotes and every number literal of up to 5 (7) characters run through compiler and VM; every inclusion graph of 2 files with up to 3 items and 3 files with 2 (3), including cycles, symbolic links and other spellings; every include directive of up to 4 (5) parts; every include path of up to 3 of 6 fields with the file in every subset of 4 places; inclusion chains to 15, long literals.", "bounded exhaustive enumeration of texts, inclusion graphs and search paths on the real lexer (and compiler, for literals) against a reference lexer")
plan("P29", [("h_debug", "asan"), ("h_debug", "fast")], "7 programs (loops, calls, recursion, methods, failing ones): every set of up to 3 breakpoints among the executed instructions, all and none; every history of 4 (thorough 5) of 11 debugger commands (set, remove, clear, continue, manual steps); 5 kinds of call through the debugger over 0 to 2 other values with every pair of breakpoints.", "stateless bounded model checking: every bounded breakpoint set and command history executed on the real debugger and compared with the instruction sequence of the undisturbed run", ["breakpoints inside callbacks that a host function runs are not claimed"])
plan("P30", [("h_lib", "asan"), ("h_lib", "fast")], "table.sort on every sequence of up to 6 (thorough 7) elements over 3 to 5 values with 7 comparators and up to 120 elements; minimum and maximum values and keys of every table of up to 5 (6) entries; every swap; shuffles of up to 9 elements with 1000 (20000) seeds; every vector operation on a grid of 8 coordinates of both types; every history of 4 (5) of 11 arrow operations on two sequences; every history of 5 (6) of collecting, resetting and receiving over two topics and two senders.", "bounded exhaustive enumeration of inputs and histories of the real script libraries on the real VM against references", ["comparators that themselves sort are not claimed"])
plan("P31", [("h_tools", "asan"), ("h_tools", "fast")], "bzzparse, bzzasm and bzzdeasm on every combination of 8 inputs and 5 outputs (new, overwritten, missing directory, directory, full device) per argument, and with the file-size limit at every byte of the outputs of 5 programs; bzzrun on 5 programs with and without debug information and --trace, unreadable images and every truncation; bzzc with every subset of its options in both forms over 8 script names, failing writes, and every include path of 3 directories.", "exhaustive fault injection: every combination of argument states and a failing write at every byte, executed on the real programs", ["exit status of a usage message and of bzzdeasm without debug information is not claimed"])
plan("P32", [("h_types", "asan"), ("h_types", "fast")], "30 values of all seven types in each of 12 query and conversion functions with 0 to 3 arguments; int() of every float with an exponent below 31 whose mantissa has at most two bits set or cleared (thorough: also every 257th mantissa), float() of every integer within 4000 (200000) and within 200 of every power of two, compared with the representation itself; 12 functions sent by broadcast or stigmergy, bare or in nested tables, directly or relayed by a third robot, used in 4 ways once or twice, with and without collections in between.", "bounded exhaustive enumeration of values and of send/relay/use histories between real VMs against the local function", ["functions with enclosing local variables keep them only on their own robot and are not claimed when sent", "int() of floats beyond the integer range is not claimed"])
