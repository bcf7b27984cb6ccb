LN = "Bounded: every value of every symbolic input and every path within the bounds stated in DESIGN.md/evidence is decided by Z3; nothing is claimed outside them. Trusted: clang's C-to-IR lowering, the vfsym engine and its libc models, Z3."
T = "The unit tests run a handful of fixed values; this quantifies over "
prop("C01","Dynamic array behaves as a sequence",
 "For every history of pushes, pops, insertions, removals, sets, clones and searches, a dynamic array holds exactly the elements, in the order, that the same history applied to an abstract sequence would give. Clones are independent, and no operation with legal arguments touches memory outside the container.",
 ["inputs","histories"],"all operation histories up to the bound, with arbitrary 32-bit element values and arbitrary legal positions",
 T+"all histories crossing the grow/shrink boundaries with arbitrary positions.",
 [B+"buzzdarray.c",B+"buzzdarray.h"],[dict(name="capacity doubling/halving and element shifting",where=B+"buzzdarray.c")],LN)
prop("C02","Dictionary behaves as a finite map",
 "For every history of insertions, overwrites, removals, lookups and iterations, a dictionary answers exactly as an abstract finite map from keys to values, whatever keys collide. Every live entry is visited exactly once by an iteration, and the reported size is the number of live entries.",
 ["inputs","histories"],"all histories up to the bound with arbitrary keys and values, including colliding keys",
 T+"all key/hash/collision patterns.",
 [B+"buzzdict.c",B+"buzzdict.h"],[dict(name="bucket hashing",where=B+"buzzdict.c")],LN)
prop("C03","Set behaves as a mathematical set",
 "For every history of insertions, removals and membership queries, a set contains exactly the elements inserted and not later removed, visits each of them exactly once in an iteration, and reports their exact number. Removing an element never affects any other element, and a clone is independent.",
 ["inputs","histories"],"all histories up to the bound with arbitrary element values (hence every tree shape up to that size)",
 T+"all tree shapes and removal positions.",
 [B+"buzzset.c",B+"buzzset.h"],[dict(name="binary search tree insert/remove",where=B+"buzzset.c")],LN)
prop("C04","String interning is a stable bijection that survives garbage collection",
 "Registering a string yields an identifier that maps back to exactly that string; equal strings always get the same identifier and different strings different ones. Collection removes only strings that are neither protected nor marked live, and never invalidates the identifiers of the others.",
 ["inputs","histories"],"all histories of register, look up and collect over arbitrary strings up to the bound",
 T+"all string contents and register/collect interleavings.",
 [B+"buzzstrman.c"],[dict(name="string/id two-way maps with protection marks",where=B+"buzzstrman.c")],LN)
prop("C05","Scalar and string wire encoding round-trips in network byte order",
 "Every 8-, 16- and 32-bit unsigned integer, every finite float (negative zero may lose its sign) and every string up to 65535 bytes decodes from its encoding to the identical value, at any position in a message. Integers are laid out most significant byte first, decoding consumes exactly the bytes encoding produced, and a truncated buffer is reported as an error rather than read past its end.",
 ["inputs"],"all values of each scalar type, all strings and message positions up to the bound, and all truncation points",
 T+"all 2^32 floats and integers and all truncation points; no test touches serialization.",
 [B+"buzzmsg.c"],[dict(name="serialize/deserialize primitives",where=B+"buzzmsg.c")],LN)
prop("C06","Language values survive transmission unchanged",
 "Any nil, integer, finite float, string, plain function or (nested) table of up to 255 entries encoded on one robot decodes on another robot to an equal value of the same type, with nothing lost, added or altered, and the decoder stops exactly at the end of the encoding.",
 ["inputs"],"all values built from the serializable types up to the stated table size and nesting",
 T+"all values; no test serializes an object.",
 [B+"buzztype.c",B+"buzzmsg.c"],[dict(name="object serialize/deserialize",where=B+"buzztype.c")],LN)
prop("C07","Decoding arbitrary bytes is memory safe",
 "Decoding a value from any byte sequence, at any position, either yields a well-formed value or reports failure. It never crashes, never aborts, never reads outside the buffer and never damages the robot's state.",
 ["inputs","fault_sequences"],"all byte sequences up to the bound and all start positions",
 T+"all malformed and truncated encodings.",
 [B+"buzztype.c",B+"buzzmsg.c"],[dict(name="bounds checks in the decoder",where=B+"buzztype.c")],LN)
prop("C08","Malformed inbound messages never corrupt or crash the robot",
 "Processing any received payload, well formed or not, of any message type, leaves the virtual machine memory-safe and able to keep running. A message that is truncated or ill-typed is discarded without changing shared data, swarm membership or invoking listeners, and does not prevent later messages in the same round from being processed.",
 ["inputs","fault_sequences"],"all payload bytes up to the bound for every message type",
 T+"all radio payloads; no test feeds an inbound message.",
 [B+"buzzvm.c",B+"buzzinmsg.c",B+"buzzswarm.c",B+"buzzvstig.c"],[dict(name="inbound message dispatcher",where=B+"buzzvm.c")],LN)
prop("C09","Virtual stigmergy: the newest write wins, everywhere, in any delivery order",
 "For every key, a robot keeps the entry with the highest timestamp it has seen; among entries with the same timestamp the default rule keeps the one written by the higher robot id, and an older entry never replaces a newer one. Consequently robots that have received the same non-deleting writes hold the same value for the key, whatever the order, duplication or relaying of the messages.",
 ["inputs","schedules","histories"],"all contents, timestamps and writers of up to the stated number of updates, in every delivery order",
 T+"all delivery orders and timestamp relations; no test exchanges stigmergy messages.",
 [B+"buzzvm.c",B+"buzzvstig.c"],[dict(name="timestamp comparison and conflict handling on put",where=B+"buzzvm.c")],LN)
prop("C10","Virtual stigmergy: local writes, reads and gossip follow the protocol",
 "A local write of a value stores it under a timestamp one higher than the key's previous one and announces it; a read returns the latest known value (nil if unknown) and asks the neighbours about the key. A received newer entry is adopted and re-announced, a query about an entry for which the robot has newer data is answered with that data, a query carrying newer data updates the robot, and anything else is left alone. (Writing nil deletes the entry locally; its timestamp starts over.)",
 ["inputs","histories"],"all keys, values, timestamps and writers; all message kinds against every local state of the key",
 T+"all relations between local and remote timestamps.",
 [B+"buzzvm.c",B+"buzzvstig.c",B+"buzzoutmsg.c"],[dict(name="put/get methods and PUT/QUERY handlers",where=B+"buzzvm.c")],LN)
prop("C11","Virtual stigmergy: conflict handlers decide conflicts and nothing else",
 "A user conflict handler is called exactly when an announcement and the local entry carry the same timestamp but different writers, receives key, local and remote data, and its returned entry is the one kept. The conflict-lost handler is called exactly when the local robot's own entry is the one discarded.",
 ["inputs","histories"],"all timestamps, writers and values on both sides, every handler choice",
 T+"all conflict configurations.",
 [B+"buzzvstig.c",B+"buzzvm.c"],[dict(name="conflict managers",where=B+"buzzvstig.c")],LN)
prop("C12","Swarm operations keep exactly the membership the script asked for",
 "After any sequence of swarm creation, join, leave, select and of union, intersection, difference and complement, the robot is a member of a swarm exactly when set algebra on those operations says so; joins, leaves and selections are announced, and a set operation that makes the robot a member announces the join. Code executed on a swarm runs exactly when the robot is a member, with that swarm as the current one, restored afterwards even under nesting.",
 ["inputs","histories","programs"],"all operation sequences up to the bound with arbitrary swarm identifiers and selection predicates",
 T+"all operation sequences.",
 [B+"buzzswarm.c"],[dict(name="swarm table and swarm stack",where=B+"buzzswarm.c")],LN)
prop("C13","Knowledge of other robots' swarms tracks their announcements",
 "A robot considers a neighbour a member of a swarm exactly when the neighbour's latest list, joins and leaves say so and the information is recent enough: a neighbour silent for more than 50 rounds is forgotten, and any announcement refreshes it. Information about one robot never alters what is known about another.",
 ["inputs","histories","schedules"],"all sequences of list, join, leave and ageing events for arbitrary robot and swarm identifiers up to the bound",
 T+"all announcement/ageing interleavings.",
 [B+"buzzswarm.c",B+"buzzvm.c"],[dict(name="members table: join/leave/refresh/update",where=B+"buzzswarm.c")],LN)
prop("C14","Outbound messages are sent once, by priority, newest data first",
 "Every queued message is sent exactly once unless superseded, in the priority order broadcast, swarm list, stigmergy update, stigmergy query, join, leave, and first-in first-out within a kind. For a given shared-memory key at most one update and one query are pending, carrying the newest timestamp queued; a join and a leave of one swarm cancel each other and a list supersedes both; queued contents are immune to later changes of the values they were made from.",
 ["inputs","histories"],"all sequences of queue and dequeue operations up to the bound over all message kinds, keys and timestamps",
 T+"all queue histories.",
 [B+"buzzoutmsg.c"],[dict(name="per-kind queues with per-key replacement",where=B+"buzzoutmsg.c")],LN)
prop("C15","Inbound messages are neither lost, duplicated nor mixed up",
 "Every received payload is handed to processing exactly once, unmodified, together with the identifier of the robot that sent it and in arrival order for each sender, for any number of robots and messages. The queue is empty after a processing round.",
 ["inputs","histories"],"all arrival sequences up to the bound with arbitrary sender ids and payload bytes",
 T+"all arrival patterns.",
 [B+"buzzinmsg.c",B+"buzzvm.c"],[dict(name="per-robot inbound queue",where=B+"buzzinmsg.c")],LN)
prop("C16","Arithmetic on numbers is correct for every operand pair",
 "Addition, subtraction, multiplication, division, modulo and negation give the 32-bit integer result (wrapping) on integers and the single-precision result when a float is involved, and power the single-precision result, for every operand pair and operand order. Modulo by a positive divisor is never negative; integer division or modulo by zero and non-numeric operands put the machine in an error state instead of crashing it.",
 ["inputs"],"all pairs of 32-bit integers and floats, and all operand type combinations",
 T+"all operand values and type pairs.",
 [B+"buzzvm.c"],[dict(name="arithmetic instructions",where=B+"buzzvm.c")],LN)
prop("C17","Comparison, logic and bitwise operators obey their laws",
 "For all values, equality and inequality are complementary, each ordering operator agrees with numeric order on numbers (an integer meeting a float is first rounded to single precision) and with lexicographic order on strings, nil equals only nil, and values that cannot be compared are unequal and unordered. Logical operators treat exactly nil and integer zero as false, and bitwise operators act on 32-bit integers (shifts by 0 to 31) and reject anything else with an error.",
 ["inputs"],"all values of all types on both sides",
 T+"all operand pairs.",
 [B+"buzzvm.c",B+"buzztype.c"],[dict(name="comparison and logic instructions",where=B+"buzzvm.c")],LN)
prop("C18","No bytecode can corrupt the virtual machine",
 "Whatever bytes are loaded as a program, loading and executing them step by step never reads or writes outside the program or the machine's own memory, and never aborts. Each step either performs the instruction or leaves the machine in a reported error state that further steps do not leave.",
 ["programs","inputs"],"all byte sequences up to the bound, all step counts up to the bound",
 T+"all bytecodes; tests only run compiler output.",
 [B+"buzzvm.c",B+"buzzvm.h"],[dict(name="operand, stack and pc bounds checks",where=B+"buzzvm.c")],LN)
prop("C19","Calls bind arguments, return values and restore the caller",
 "A call gives the callee its arguments in order and its captured environment; a missing argument is never another value (it is an error or nil). On return the caller's stack holds exactly the return value (nil if none) in place of the call and its locals are untouched. This holds for native, captured and C functions, for recursion, and for calls made from the host program.",
 ["inputs","programs"],"all argument counts, values and nesting depths up to the bound, for each kind of function",
 T+"all argument count/arity combinations and call kinds.",
 [B+"buzzvm.c"],[dict(name="call, ret, closure creation",where=B+"buzzvm.c")],LN)
prop("C20","Garbage collection frees exactly the unreachable",
 "A collection never removes or alters a value reachable from the stacks, locals, globals, listeners, or shared structures, and removes every value that is not. Strings used by surviving values keep their text.",
 ["histories","inputs"],"all object graphs up to the bound (including shared and cyclic tables and closures) and all root kinds",
 T+"all object graphs.",
 [B+"buzzheap.c",B+"buzzvm.c"],[dict(name="mark and sweep",where=B+"buzzheap.c")],LN)
prop("C21","Tables and variables hold what was last stored",
 "Reading a table field or a global or local variable gives the last value stored there, or nil if none or if it was erased by storing nil; no store affects another key, table or variable. Only numbers and strings are keys, a string never equals a number as a key, and numbers of equal value are one key (up to 2^24). Calling a function stored in a table binds that table as the receiver.",
 ["inputs","histories"],"all sequences of stores and loads up to the bound over integer, float and string keys and arbitrary values",
 T+"all key/value histories.",
 [B+"buzzvm.c",B+"buzztype.c"],[dict(name="tput/tget/gload/gstore/lload/lstore",where=B+"buzzvm.c")],LN)
prop("C22","Expressions evaluate by the language's precedence and associativity",
 "Any expression built from the language's operators, compiled and run, yields the value its grammar prescribes, for every operand value. From tightest to loosest: unary + - and bitwise not, bitwise and/or, shifts, power (right associative), modulo, multiplication and division, addition and subtraction, comparison, logical and/or, logical not; binary operators other than power associate to the left and parentheses override. A numeric constant denotes its decimal value; one that cannot be represented is rejected.",
 ["programs","inputs"],"all operator combinations up to the stated expression size, all operand values",
 T+"all operator combinations and operand values.",
 [B+"buzzparser.c",B+"buzzlex.c",B+"buzzasm.c",B+"buzzvm.c"],[dict(name="recursive-descent expression grammar",where=B+"buzzparser.c")],LN)
prop("C23","Statements execute as written",
 "If/else, while, for, function definition, lambdas, assignment and return behave as in the language reference for every value of their conditions and operands: exactly one branch runs, loops iterate while their condition holds, a variable declared in a block or function is not visible outside it nor clobbers another scope's, and a lambda keeps the locals it captured.",
 ["programs","inputs"],"program templates covering every statement form and their nesting, with all condition and operand values within the bound",
 T+"all condition/operand values and nestings.",
 [B+"buzzparser.c",B+"buzzvm.c"],[dict(name="statement code generation and scoping",where=B+"buzzparser.c")],LN)
prop("C24","The lexer recognises every token exactly and stays in bounds",
 "For any source text, including included files, the lexer terminates, never reads outside the text, and yields tokens whose kind, text, line and column match the text; numbers, identifiers, keywords, strings with escapes and comments are delimited exactly. Invalid characters, unterminated strings and missing include files are reported as errors, and the end of the text is reported from then on.",
 ["inputs"],"all source texts up to the bound",
 T+"all source texts.",
 [B+"buzzlex.c"],[dict(name="tokenizer",where=B+"buzzlex.c")],LN)
prop("C25","The compiler accepts exactly the language and never misbehaves",
 "For any source text, the compiler terminates without memory errors; it reports an error for a text outside the language's grammar, and for one inside it produces assembly that the assembler accepts and that the machine loads and runs without invalid instructions, jumps or stack underflow (a return outside any function is a run-time error).",
 ["inputs","programs"],"all token sequences and texts up to the bound",
 T+"all malformed programs.",
 [B+"buzzparser.c",B+"buzzlex.c"],[dict(name="parser error handling",where=B+"buzzparser.c")],LN)
prop("C26","Assembling and disassembling are faithful",
 "Assembly text yields bytecode with exactly the instructions, operands, label targets and strings written, and disassembly lists every instruction of a bytecode at its offset with its mnemonic and operand. Unknown instructions, missing or malformed operands and undefined labels are rejected by the assembler, and malformed bytecode by the disassembler.",
 ["inputs","programs"],"all instruction sequences, operand values and label placements up to the bound",
 T+"all instruction/operand/label combinations.",
 [B+"buzzasm.c"],[dict(name="assembler, label resolution, disassembler",where=B+"buzzasm.c")],LN)
prop("C27","Debug information maps code to source and back",
 "For every recorded mapping, looking up a bytecode offset gives the source file, line and column recorded for it, and looking up a source position gives the lowest offset recorded for it; saving and reloading changes nothing, and a truncated file is reported. The compiler's record for a call lies between the call and the token that follows its statement. Execution stops exactly at breakpoints, and continuing goes on past them.",
 ["inputs","histories"],"all sets of mappings up to the bound, all file truncations",
 T+"all mappings and truncations.",
 [B+"buzzdebug.c"],[dict(name="offset/script maps and file format",where=B+"buzzdebug.c")],LN)
prop("C28","Neighbour queries see exactly the current neighbourhood",
 "After any sequence of resets and additions, counting, lookup, iteration, mapping, reduction and filtering see exactly the robots added since the last reset, each once, with the distance and angles last given. Within a swarm, kin are the neighbours known to be its members and non-kin the others; outside any swarm kin are all neighbours and non-kin none. Derived neighbourhoods do not change when the original is reset.",
 ["inputs","histories"],"all neighbourhoods up to the bound with arbitrary ids and positions",
 T+"all neighbourhoods.",
 [B+"buzzneighbors.c"],[dict(name="neighbour table and its closures",where=B+"buzzneighbors.c")],LN)
prop("C29","Neighbour broadcasts reach exactly the listeners of their topic",
 "A broadcast value is queued once with its topic and, when received, invokes the listener registered for that topic exactly once with topic, value and sender; other listeners are not invoked, the last registration for a topic wins and ignoring a topic stops delivery.",
 ["inputs","histories"],"all listen/ignore/receive sequences up to the bound over arbitrary topics, values and senders",
 T+"all listen/ignore/receive sequences.",
 [B+"buzzneighbors.c",B+"buzzvm.c"],[dict(name="listener table and broadcast messages",where=B+"buzzneighbors.c")],LN)
prop("C30","String library functions compute what they document",
 "Length, substring, concatenation and conversions between strings and numbers return exactly the documented result for every string and index (nil for an empty range of positions or a text that is not a number that fits), or put the machine in an error state for arguments of the wrong type; they never read outside the string. The script library's charat, indexoffirst, indexoflast (of a non-empty string) and split likewise.",
 ["inputs"],"all strings up to the bound, all indices and numbers",
 T+"all strings and indices.",
 [B+"buzzstring.c","src/include/string.bzz"],[dict(name="string closures",where=B+"buzzstring.c")],LN)
prop("C31","Table library functions visit every element exactly once",
 "Size, foreach, map, reduce, filter and clone see every element of a table exactly once, return what the reference describes, leave the original unchanged, and clones are deep and independent; an error in the function stops the iteration. Type queries and conversions agree with the value's type. The script library's sort and shuffle yield a permutation (sorted by the comparator), and its minimum and maximum functions the extreme key or value.",
 ["inputs","programs"],"all tables up to the bound and arbitrary keys, values and callback results",
 T+"all tables.",
 [B+"buzztype.c",B+"buzzheap.c","src/include/table.bzz"],[dict(name="table closures and deep copy",where=B+"buzztype.c")],LN)
prop("C32","Math library: ranges and reproducible random numbers",
 "Absolute value, minimum, maximum and rounding return the mathematically right result for every argument that has one in 32 bits; the other functions the single-precision value of the C function of the same name. Uniform random integers always lie between the two bounds, in whichever order, uniform random floats too up to rounding, and equal seeds give equal sequences.",
 ["inputs"],"all arguments; all generator states for the range claim",
 T+"all arguments and generator states.",
 [B+"buzzmath.c"],[dict(name="math closures and Mersenne twister",where=B+"buzzmath.c")],LN)
prop("C33","Files are read and written exactly",
 "Iterating over an open file calls the function once per remaining line, in order, with the line's text without its end, and the size of a file is its number of bytes. Each write adds the printed form of its arguments and a line end, after the existing contents when appending and replacing them when writing. A missing file opens as nil, and every use of a closed or invalid file is an error, never a crash, even if it is closed while being iterated.",
 ["inputs","histories"],"all file contents and all sequences of operations up to the bound",
 T+"all short file contents and histories of operations on a handle.",
 [B+"buzzio.c"],[dict(name="file closures",where=B+"buzzio.c")],LN)
prop("C34","Script library: vectors, message collection, sequences",
 "The two-dimensional vector functions return the component-wise results their names say for all components and leave their arguments unchanged. Collecting a topic keeps the last value received from each sender until the topic is reset. A sequence built with begin and next runs its functions once each, in order, every time it is run.",
 ["inputs","histories","programs"],"all components; all sequences of receptions and resets up to the bound; all sequence lengths up to the bound",
 T+"all components and histories.",
 ["src/include/vec2.bzz","src/include/neighbors.bzz","src/include/arrows.bzz"],[dict(name="library scripts",where="src/include/vec2.bzz")],LN)
