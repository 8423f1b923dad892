#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as code only so that the long lines stay readable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":["src/buzz/"+f if not f.startswith("src/") else f for f in files],"mechanism":mech}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Compiled expressions evaluate as the language defines",
  "For every expression built from the language's operators, literals, variables and parentheses, compiling and running it yields the value that the documented precedence (parentheses; unary minus and bitwise not; bitwise and/or; shifts; power, right-associative; modulo; * and /; + and -; one comparison; and/or; not), left associativity and operand typing define. Integer operands give integer results, a float operand gives a float result, power always gives a float, comparisons and logic give 1 or 0, only nil and integer 0 are false, and equality never holds between nil and a non-nil value. Operands are evaluated exactly once, left to right, including both operands of and/or; modulo by a positive divisor lies in [0, divisor).",
  ["programs","inputs"],"all expression trees up to a size bound over all operators and operand types, in every parenthesisation the grammar allows",
  "The expression scripts check a handful of operator combinations and only that the run ends; precedence or typing slips show only for particular operator pairs, nesting and operand types.",
  ["buzzparser.c","buzzvm.c","buzztype.c","buzzasm.c"],["recursive-descent expression grammar emitting stack code","binary arithmetic, logic, shift and comparison instructions","ordering between objects"],
  observe=["value passed to a host function by the compiled script"])
p("P02","Control flow executes exactly the statements the source prescribes",
  "For every nesting of if/else, for and while, in blocks or single-statement form, with early returns inside functions, the sequence of observable effects of the compiled script is the one the source prescribes: the condition is evaluated before each iteration, the for update after each body, exactly one branch of each if is taken, and statements after a return do not run. Execution of a complete script ends in the done state with an empty stack.",
  ["programs"],"all statement structures up to a nesting and length bound with all condition outcomes",
  "testif/testfor/testwhile run one shape each; label allocation and jump targets go wrong only for particular nestings.",
  ["buzzparser.c","buzzasm.c","buzzvm.c"],["label allocation and jump emission","label substitution in the assembler","jump instructions"],
  observe=["ordered calls to a host trace function","final VM state and stack depth"])
p("P03","Functions, closures, locals and self follow lexical scope",
  "Every function call binds its arguments to its parameters in order, gives each activation its own locals, and returns the returned value or nil; a variable declared inside a block or function is invisible outside it and never disturbs a same-named global. A lambda sees the values its enclosing function's variables had when it was created, independently of other instances, and self is the table a function was last stored into or is called through, or nil for a plain function.",
  ["programs"],"all programs up to a bound over calls, recursion, nested lambdas, captured variables, blocks with locals, and method calls",
  "testclosure.bzz covers one nested-call pattern; slot assignment and activation-record mistakes need a specific mix of blocks, captures and calls.",
  ["buzzparser.c","buzzvm.c","buzztype.c"],["symbol tables with slot positions","activation record cloning at closure creation and call","self insertion on method calls and table stores"],
  observe=["values passed to a host trace function"])
p("P04","Tables are exact maps from keys to values",
  "After any history of stores, nil stores, reads, and size/foreach/map/filter/reduce/clone operations, a table holds exactly one entry per distinct key (integers, floats and strings; numerically equal numbers are one key, a string never equals a number) with the last non-nil value stored, reads of absent keys give nil, and size equals the number of entries. Iteration visits each entry the table had when it started exactly once, whatever the callback stores or removes; map/filter/reduce/clone never modify their argument and produce exactly the images, matching entries, fold and an independent copy, and tables are shared by reference.",
  ["histories","inputs"],"all operation sequences up to a depth over keys of all types, plus tables of every size up to several times the bucket count",
  "testtable.bzz exercises a few fixed keys; collisions, deletions in the middle of a chain and key-type mixes need specific histories.",
  ["buzzvm.c","buzztype.c","buzzdict.c"],["table put/get with nil deletion","hash and comparison of keys","host-implemented iteration functions"],
  observe=["script-visible reads, size and iteration"])
p("P05","Garbage collection is invisible to scripts and reclaims garbage",
  "At whatever instruction garbage collection runs, the script's observable results are identical to those of a run without collection, and no object or string still reachable from globals, stacks, locals, closures' captured variables, virtual stigmergies, listeners, swarm or neighbor data or pending outgoing messages is freed. Unreachable objects, including cycles, and unprotected strings are eventually reclaimed, so a program with bounded live data runs in bounded heap.",
  ["schedules","programs"],"every placement of collections along the instruction sequence (every single point, and all points) of programs covering each root kind",
  "Collection triggers only after hundreds of allocations, which no test script reaches at an interesting point.",
  ["buzzheap.c","buzzstrman.c","buzzvm.c"],["mark from all roots then sweep","string marking and pruning"],
  observe=["trace with collection at point k versus no collection, under a memory checker","heap object count over repeated work"])
p("P06","Script errors are contained and located",
  "Every failing operation in a script - wrong operand or key type, calling a non-function, wrong argument type to a library function, division by zero, undefined symbols used as values - stops that VM in the error state with the matching error code, a non-empty message, and the source position of the failing statement, and never crashes, hangs or corrupts the host process. A VM in error executes nothing further, and errors in one call leave the VM destroyable.",
  ["programs","inputs"],"all operators and library functions applied to all combinations of argument types and counts up to a bound, at top level and inside functions and callbacks",
  "No test triggers a runtime error at all; each operation has its own type checks.",
  ["buzzvm.c","buzzstring.c","buzzmath.c","buzzswarm.c","buzzneighbors.c","buzzvstig.c","buzzio.c","buzzdebug.c"],["type and stack assertions","error state with message","debug offset to source mapping"],
  observe=["VM state, error code, message, reported line","process survival under a memory checker"])
p("P07","No bytecode image can crash the virtual machine",
  "Loading and stepping any byte string as bytecode - truncated, with operands out of range, popping an empty stack, jumping anywhere - either executes or stops with an error state; it never reads or writes outside the image or VM memory. Valid instruction sequences have exactly the documented stack effect.",
  ["inputs","programs"],"all instruction sequences up to a length bound with boundary operands, and every truncation of compiled programs",
  "Tests run only bytecode produced by the compiler.",
  ["buzzvm.c"],["bytecode loading","program counter checks","stack-size assertions"],
  observe=["VM state after each step, under a memory checker"])
p("P08","Host calls into scripts are balanced and faithful",
  "When the host calls a script function or closure with n arguments, by name or from the stack, the function receives exactly those arguments in order, with the self a script call of that function would give it, and on success the VM is ready again with the arguments consumed and exactly one result pushed on an otherwise unchanged stack, whether the callee is scripted or native. Host functions called from a script see their arguments in order and their returned value is the call's value, at any nesting of host-to-script and script-to-host calls; calling a missing function reports an error without side effects.",
  ["histories","programs"],"all nestings up to a depth of host and script calls with 0..n arguments, returning a value or nothing",
  "The tests never call a script function from the host.",
  ["buzzvm.c"],["closure call protocol","activation stacks","argument and self placement"],
  observe=["arguments seen, stack depth before/after, VM state"])
p("P09","Serialization round-trips every value",
  "Any value made of nil, integers, floats, strings (up to 65535 bytes) and nested tables (up to 255 entries each) that one robot serializes is reconstructed by the receiver as an equal value, consuming exactly the bytes produced, independent of the receiver's own string identifiers. Integers are encoded in network order, so the bytes are a function of the value alone.",
  ["inputs"],"all 8/16-bit values and boundary 32-bit integers, all exponents with boundary mantissas for floats, strings of all lengths up to a bound, and all table shapes up to a bound",
  "No test serializes anything.",
  ["buzzmsg.c","buzztype.c"],["big-endian primitive encoders","recursive object encoder"],
  observe=["decoded value and next position"])
p("P10","Malformed messages never harm a robot",
  "Feeding any byte string as a received message never crashes the process, never puts the VM into an error state (unless a script callback run for a well-formed message itself fails), and never hangs; a message that is truncated or carries an impossible field is dropped leaving the robot's stigmergies, swarm knowledge and listener-visible state unchanged, and the remaining messages of the step are still processed.",
  ["inputs","fault_sequences"],"all byte strings up to a small length, all truncations and all single-byte corruptions of every message kind",
  "Tests never process an incoming message.",
  ["buzzvm.c","buzzmsg.c","buzztype.c","buzzvstig.c","buzzswarm.c"],["per-type message decoding","bounds-checked primitive decoders"],
  observe=["VM state, script-visible data before and after"])
p("P11","The outgoing queue neither loses, reorders nor duplicates messages",
  "Messages produced by a robot leave through the outgoing queue in a fixed priority of kinds (broadcast, swarm list, stigmergy put, stigmergy query, swarm join, swarm leave) and in production order within a kind, the queue size counts exactly the pending messages, and what is extracted is the exact encoding of what was produced. Coalescing only drops information that a retained message supersedes: for each stigmergy entry the most recent version produced survives, and for swarm membership the retained messages have the same net effect as the full sequence.",
  ["histories"],"all sequences up to a depth of broadcasts, stigmergy puts/queries, swarm joins/leaves/lists interleaved with extraction",
  "Tests never inspect the queue.",
  ["buzzoutmsg.c","buzzvm.c"],["per-kind queues with supersession rules"],
  observe=["sequence of extracted payloads"])
p("P12","Every received message is processed exactly once, for its sender",
  "Each message queued from a neighbor before a processing step is handled exactly once during that step, is attributed to the robot that sent it, and is never handled again later, for every number of senders and messages per sender. Messages of one sender are handled in the order they were queued, and the queue owns the payload it is given until it is processed.",
  ["histories","configurations"],"all assignments of messages to senders and enqueue orders up to a bound, over several steps",
  "Tests never enqueue incoming messages.",
  ["buzzinmsg.c","buzzvm.c"],["incoming queue keyed by sender"],
  observe=["listener invocations per step"])
p("P13","A stigmergy behaves as a local key-value store",
  "On one robot, for every history of put/get/size/foreach and nil puts over several stigmergies, get returns the last value put in that stigmergy under that key or nil, size is the number of live entries, foreach visits each live entry exactly once with its key, value and writer, stigmergies with different identifiers never interfere, and re-creating an identifier starts it empty. Every put announces the entry with a version that increases on each overwrite, every get announces the version it has, and pending announcements of one entry coalesce into the newest.",
  ["histories"],"all operation sequences up to a depth over keys and values of all serializable types and several stigmergies",
  "teststigmergy.bzz runs a single fixed sequence whose result is not compared.",
  ["buzzvstig.c","buzzvm.c"],["entry map per identifier with version and writer"],
  observe=["script results, outgoing messages"])
p("P14","Stigmergy replicas converge to the newest write",
  "In a connected group of robots that created the same stigmergy and exchange their outgoing messages under any delivery order, duplication, delay and transient loss, once all pending messages are delivered (after a loss: once each robot has read the entry again) every robot holds the same value, writer and version of each entry: the one with the highest version, ties going to a non-nil value over a nil one and then to the highest robot identifier. No robot ever replaces an entry with an older version, values never appear that nobody wrote, and a get on a robot that missed an update obtains it from its neighbors.",
  ["schedules","histories","fault_sequences"],"all interleavings of puts, gets and message deliveries/losses/duplications for small groups and topologies",
  "Needs several robots and all delivery orders; tests run a single robot with no messages.",
  ["buzzvstig.c","buzzvm.c","buzzoutmsg.c","buzzinmsg.c"],["timestamp comparison, rebroadcast on update, query answering"],
  state=[("entry","value, version, writer")],observe=["per-robot entry after each delivery and at quiescence"])
p("P15","Write conflicts resolve identically everywhere and notify the loser",
  "When two robots write the same entry with the same version, every robot settles on the same winner: the one the registered conflict function returns, or by default a non-nil value over nil and then the higher robot identifier; the conflict function is called with the key, the local and the received version, and the conflict-lost callback runs with the key and the lost version exactly when a robot's own write is replaced by another robot's write of the same version. Running these callbacks leaves the stack balanced; one that fails puts its VM in the error state.",
  ["schedules","programs"],"all conflict pairs over robots, value types (including nil), message kinds and orders, with default and custom handlers",
  "Conflicts need two robots and simultaneous writes.",
  ["buzzvstig.c","buzzvm.c"],["conflict and conflict-lost callbacks"],
  observe=["callback arguments, winner on each robot, stack depth"])
p("P16","Swarm membership and set operations are exact",
  "For every history of swarm creation, join, leave, select and set operations, membership tests answer according to the operations performed, creating a swarm again keeps the membership, and every change is announced to neighbors; union, intersection, difference and others denote exactly the corresponding sets of robots; and executing a function in a swarm runs it iff the robot is a member, giving the function's value (nil otherwise). Within nested executions the swarm identifier (and, by position, those of the enclosing executions) is the innermost one and is restored on return; operations on an unknown swarm are a swarm error.",
  ["histories"],"all operation sequences up to a depth over several swarms",
  "testswarm.bzz runs one fixed sequence with unverified output.",
  ["buzzswarm.c","buzzvm.c"],["membership flags per swarm","swarm stack"],
  observe=["script-visible membership, executed branches, swarm id"])
p("P17","Knowledge of neighbors' swarms is current and expires",
  "A robot regards a neighbor as member of exactly the swarms given by the neighbor's last membership list as amended by its later join and leave messages; information not refreshed for 50 processing steps is forgotten at the next one and refreshed information never is. A robot that is in any swarm history announces its full membership every 10 steps, so every neighbor in range learns it within one period whatever messages were lost before.",
  ["histories","schedules","fault_sequences"],"all sequences of list/join/leave messages and idle steps around the expiry and announcement boundaries, for several neighbors, and all loss patterns",
  "Needs two robots and tens of steps.",
  ["buzzswarm.c","buzzvm.c","buzzoutmsg.c"],["membership table with ages","periodic list broadcast"],
  observe=["kin/nonkin partitions, outgoing list messages"])
p("P18","Neighbor queries reflect exactly the current neighborhood",
  "After the host reports the neighbors of a step, count, get, foreach, map, reduce and filter see exactly the reported robots with their distance, azimuth and elevation and nothing from earlier steps, and within a swarm execution kin and nonkin partition them by membership of the current swarm (outside of one, all are kin). Derived neighbor structures are snapshots with the same operations and do not alter the original.",
  ["histories","configurations"],"all neighborhoods up to a size over two steps, all memberships, all chains of operations up to a depth",
  "testneighbors.bzz runs without any neighbor.",
  ["buzzneighbors.c","buzzswarm.c","buzzvm.c"],["neighbor table rebuilt each step","filtering by membership"],
  observe=["script-visible results"])
p("P19","Broadcast values reach listeners on their topic only",
  "A value broadcast on a topic reaches, in the step its message is processed, exactly the listener currently registered for that topic on each receiving robot, once per message, with the topic, an equal value and the sender's identifier; after ignore or with no listener it is discarded. Registering again replaces the listener, and a listener may itself broadcast, listen, ignore, and write stigmergies without disturbing delivery of the other messages.",
  ["histories","schedules"],"all sequences up to a depth of listen/ignore/broadcast/deliver over several topics, senders and value types, with listeners that act",
  "Tests never deliver a broadcast.",
  ["buzzneighbors.c","buzzvm.c"],["listener map by topic","broadcast message handling"],
  observe=["listener invocations"])
p("P20","Assembly, disassembly and debug information are faithful",
  "Every label reference resolves to the position of the instruction the label precedes, a program with an undefined or doubly defined label is refused, assembling a program yields exactly the listed instructions, operands and strings, and disassembling it yields the same instructions and operands back. Debug information written to a file and read back maps every instruction to the same source file, line and column, and a source position maps to its first instruction.",
  ["programs","inputs"],"all instruction kinds with boundary operands, all label layouts up to a bound and programs around buffer-growth sizes",
  "Tests only check that assembling succeeds.",
  ["buzzasm.c","buzzdebug.c","buzzasm_main.c","buzzdeasm_main.c"],["two-pass assembler with growing buffer","offset/source maps"],
  observe=["bytecode, listing, maps"])
p("P21","The compiler accepts or rejects every source text cleanly",
  "For every source text the compiler terminates with either a diagnostic that names the file and position and a failure status, or a success whose output assembles and loads; it never crashes, hangs or reads outside its input. The texts accepted are exactly the programs of the language's grammar and declaration rules; a text with a syntax error is never silently accepted with part of the program dropped, and the diagnostic is at the first token that cannot continue a program.",
  ["inputs","programs"],"all token sequences up to a length bound, all short character strings, and all truncations of sample programs",
  "Test scripts are all valid.",
  ["buzzparser.c","buzzlex.c","buzzasm.c","buzzparse.c"],["recursive-descent parser with error propagation","hand-written lexer"],
  observe=["return status, diagnostics, assembler result"])
p("P22","String identifiers are unique, stable and reclaimed safely",
  "At any time, equal string contents have one identifier and different contents different identifiers, a lookup by identifier returns exactly the registered contents, protected strings keep their identifier forever, and unprotected strings survive collection iff marked in use. This holds for every history of registration, protection, lookup and collection. The distinct lines of a string list given to the compiler get the first identifiers, in order, whatever the script, whose behaviour the list does not change.",
  ["histories"],"all operation sequences up to a depth over a small alphabet of strings, and bulk histories crossing growth sizes",
  "testbuzzstrman runs one sequence.",
  ["buzzstrman.c","buzzparser.c","buzzasm.c","buzzvm.c"],["two-way string/identifier maps with protection and marks"],
  observe=["identifiers and contents"])
p("P23","The container library implements sequences, maps and sets",
  "After any history of operations, the dynamic array equals the mathematical sequence, the dictionary the finite map and the set the finite set that the history denotes, as observed through every accessor, iteration, search, sort, clone and comparison, including growth and shrinking. Element destruction callbacks run exactly once for each element that leaves the container and never for one that stays.",
  ["histories"],"all operation sequences up to a depth with small key universes including hash collisions, and monotone histories across growth thresholds",
  "The three unit tests execute one fixed scenario each.",
  ["buzzdarray.c","buzzdict.c","buzzset.c"],["reallocating array","bucketed hash map","binary search tree"],
  observe=["accessors, iteration order, destroy-callback log, memory checker"])
p("P24","String functions compute the documented results",
  "Length, substring (from a start position up to and excluding an end position, nil if they do not lie in order within the string), concatenation, conversion to and from numbers, and the library's character access, search and split functions return, for every string and index, the documented result, and conversions of numbers to strings and back preserve integers exactly. Out-of-range or negative positions never reach memory outside the string.",
  ["inputs"],"all strings up to a length over a small alphabet with all index pairs including negative and past the end",
  "teststring.bzz checks a few literals and no output is compared.",
  ["buzzstring.c","src/include/string.bzz"],["native string functions","script-level string library"],
  observe=["returned values"])
p("P25","Math functions and random numbers stay within their contract",
  "Every math function returns the documented value and type for every numeric argument, with min and max returning one of their arguments. With the same seed a VM always produces the same random sequence, independent of other VMs in the process, integer and float draws stay within the requested bounds, and re-seeding restarts the sequence, which is the one of the standard 32-bit Mersenne Twister.",
  ["inputs","histories"],"all argument type combinations over boundary values, all small integer ranges, long draw sequences across generator refills",
  "testmath.bzz prints values without comparing them.",
  ["buzzmath.c","buzzvm.c"],["math wrappers","per-VM Mersenne Twister"],
  observe=["returned values"])
p("P26","Virtual machines in one process are independent",
  "Any number of VMs created, stepped, fed messages and destroyed in any interleaving in one process by one thread behave each exactly as if it were alone, and destroying one never affects another.",
  ["schedules"],"all interleavings of the execution slices of several VMs including creation and destruction",
  "Tests use one VM per process.",
  ["buzzvm.c","buzzheap.c","buzzstrman.c","buzzmath.c"],["all state hangs off the VM handle"],
  observe=["per-VM trace versus solo trace"])
p("P27","Lexical structure: literals, comments and inclusion",
  "Source text splits into tokens by longest match regardless of surrounding whitespace and comments, number literals denote their decimal value, string literals denote their characters with escapes decoded in either quote style, and each token carries its true file, line and column. An included file is read in place of the include line exactly where it appears, a file already being read is not entered again, and lookup uses the working directory and then the directories of the include path in order. A malformed token or include is reported at its position and never taken as the end of the text.",
  ["inputs","programs"],"all character sequences up to a bound for literals and escapes, all token adjacencies, and all include graphs up to a bound",
  "testbuzzlex prints tokens without comparing them and no test checks positions.",
  ["buzzlex.c"],["hand-written scanner with a file stack"],
  observe=["token stream","compiled literals"])
p("P28","File functions read and write exactly what the script asked",
  "A file opened in each mode, written, measured, iterated line by line and closed through the file functions contains exactly the concatenation of the lines written (each write appends its arguments and a newline) under that mode's truncation or append rule, its size is that length, and line iteration delivers each line exactly once in order. Failing to open yields nil and leaves the script running; operations on a closed file are a type error.",
  ["histories","inputs"],"all sequences up to a depth of open/write/size/iterate/close over modes and initial contents",
  "testio.bzz only checks that a run ends.",
  ["buzzio.c"],["file handle wrapped in a table with native methods"],
  observe=["file contents on disk, callback arguments, results"])
p("P29","The debugger stops exactly at breakpoints and does not disturb the run",
  "With any set of breakpoints on instructions, running and continuing under the debugger stops before each execution of a marked instruction in program order and nowhere else, and continuing from a stop moves past it. The run as a whole executes the same instructions, makes the same host calls and ends with the same state, stack and error as without a debugger, also when a function is called through the debugger. Setting, removing and clearing breakpoints take effect at once, setting one twice is setting it once, and a run that ended or failed stays ended or failed.",
  ["histories","programs"],"all sets of up to three breakpoints per program and all command histories up to a depth",
  "No test uses breakpoints.",
  ["buzzdebug.c"],["breakpoint list consulted around each VM step"],
  observe=["sequence of executed instructions, host calls and final state versus an undisturbed run"])
p("P30","Script libraries for tables, vectors, arrows and collection keep their contract",
  "table.sort leaves the same elements in an order its comparison function accepts, in place; min, max and their key forms return an extreme value or its key; swap exchanges two entries and shuffle permutes the entries without losing any and can produce every order. Vector functions return the mathematical result without changing their operands unless documented to. An arrow sequence runs its functions once each in the order they were chained, each time it is run. neighbors.collect keeps for its topic the last value received from each robot until reset, and reset drops only that topic.",
  ["inputs","histories"],"all small tables under several comparison functions, all vector pairs on a grid, all chains and collection histories up to a depth",
  "The scripts are never checked for results.",
  ["src/include/table.bzz","src/include/vec2.bzz","src/include/arrows.bzz","src/include/neighbors.bzz"],["script-level libraries running on the VM"],
  observe=["returned values, table contents, host calls"])
p("P31","Command-line tools succeed exactly when they did their work",
  "bzzparse, bzzasm, bzzdeasm and bzzc end with exit status 0 exactly when every output file has been written completely; an input that is missing or invalid, an output that cannot be opened or a write that fails at any byte gives a message and a nonzero status, never a crash, an endless loop or a claim of success. bzzc produces what running the two stages by hand produces, under the names asked for or derived from the script's name whatever characters it contains, and leaves no temporary file behind. bzzrun exits with 0 exactly when the script ran to its end, prints what it logged, and otherwise reports where it failed.",
  ["fault points","inputs"],"all combinations of argument states, and a failing write at every byte of every output",
  "Tests run the tools on good inputs only.",
  ["buzzparse.c","buzzasm_main.c","buzzdeasm_main.c","buzzrun.c","src/utility/bzzc.in","buzzparser.c","buzzdebug.c"],["small mains around the library","shell driver"],
  observe=["exit status, stdout, stderr, files left"])
p("P32","Type queries, conversions and functions as data are faithful",
  "For every value, type() names its type, exactly one of isnil, isint, isfloat, isstring, istable, isclosure and isuserdata is 1 and the others 0, and querying, converting or cloning never changes the argument; int() truncates a float within the integer range toward zero, float() gives the nearest float, integers up to 2^24 survive both, and a wrong number or type of arguments is an error. A function of the program without enclosing local variables that is sent by broadcast or stigmergy, alone or inside tables, directly or relayed, does on any robot running the same program what that robot's own function does, with self only once it is stored in a table there.",
  ["inputs","histories"],"all values of the enumerated set with all argument counts; all send, relay and use histories within the bound",
  "Tests convert a few numbers and send one function once.",
  ["buzztype.c","buzzvm.c","buzzheap.c"],["type functions","closure serialization"],
  observe=["results of script calls on each robot"])
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
with open("properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
