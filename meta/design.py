D = {
"P01": "Each arithmetic block is run over all pairs of doubles (symbolic) and over list shapes with symbolic items; oracle: the IEEE operation on f64 and its documented special cases, lifted by an independent recursion.",
"P02": "All pairs of symbolic numbers and of value kinds; oracle: a three-way comparison written from the statement; trichotomy and agreement of the six relations are asserted directly.",
"P03": "Texts of symbolic characters through the numeric blocks; oracle: a grammar recogniser with exact decimal arithmetic on landmarks; round trip of numbers through text.",
"P04": "Lists with symbolic items, indices symbolic doubles or nested index lists; oracle: a vector model applied to the positions as they were before.",
"P05": "List blocks over choices of shapes with symbolic items; oracle: vector models; aliasing is tested by mutating result and operand afterwards.",
"P06": "Texts of symbolic characters; oracles: independent splitting, CSV and JSON writers/readers and round trips.",
"P07": "Programs over locals, fields, globals, closures and references; oracle: the reference interpreter with explicit cells.",
"P08": "Nestings of control blocks with symbolic limits; oracle: the reference interpreter, comparing results, what was said, yields and variables.",
"P09": "Calls in all positions, depth limits symbolic; oracle: the reference interpreter with a call depth counter.",
"P10": "Failing computations in all positions of try blocks; oracle: the reference interpreter (exceptions as early results), so restoration of stacks is implied rather than imitated.",
"P11": "Loops and higher-order blocks in and out of warp; oracle: the reference interpreter's yield count, and step-by-step observation of endless loops.",
"P12": "Every asking or commanding block against a scripted system with symbolic outcomes; oracle: the expected request log and result.",
"P13": "Projects that sleep and time with symbolic clock readings; oracle: the reference scheduler; calendar against a civil-calendar day count.",
"P14": "Projects of scripts that send and wait, generated by choices, run by the real project scheduler; oracle: the reference scheduler in sched.rs (who said what, in which order, and the variables at the end).",
"P15": "Projects of scripts taking turns; oracle: the reference scheduler's order of effects; a waiting script is observed step by step.",
"P16": "Sequences of outside events against a project with a script for each; oracle: the reference scheduler with explicit queues.",
"P17": "Stopping from every position and in every mode while others run, wait or have queued events; oracle: the reference scheduler.",
"P18": "Cloning, changing and deleting in all orders of the menu; oracle: the reference scheduler with entities as explicit records; clone chains are inspected directly.",
"P19": "Sequences of arriving messages against the reference scheduler, which also records replies; every kind of value and target sent through a scripted system that records what it was given; replies with delays.",
"P20": "Programs with symbolic constants, and programs with every kind of jump and filling of every length around it, compiled and run symbolically; oracle: the constant itself and the reference interpreter (which knows no addresses).",
"P21": "Programs with three failable blocks whose indices are symbolic, compiled with locations and stepped symbolically; oracle: the order of evaluation written down per program gives which block must be reported and the calls above it. Location texts with a symbolic digit must come back byte for byte or the project be refused.",
"P22": "Projects whose variables take every combination of value shapes (identities, references, cycles) are compiled and instantiated symbolically; oracle: the description itself, compared with the real object graph by a joint traversal that demands the same sharing, in two instances of which the first is disturbed.",
"P23": "The storage is driven symbolically through all operation sequences with symbolic values, kept subsets and key generations; oracle: the list of every key ever handed out with its value or none.",
"P24": "Maps and tables are driven symbolically with symbolic keys, names and values; oracle: an association list, and for variables a store of cells with names pointing at them.",
"P25": "Values with symbolic numbers, bytes and characters are converted in and out symbolically (including the XML tokenizer and base64); oracle: the value itself, an independent base64 encoder for the exact form NetsBlox knows, and a table of foreign forms.",
"P26": "Every property is set and changed symbolically (symbolic doubles, booleans, other kinds of values) from listed old states and then all are read back; oracle: the range of each kind of property in plain arithmetic (integers modulo 360 for turning), nothing else changed; steps and directions against right angles and listed slanted ones.",
"P27": "The conversions are run symbolically with one symbolic channel or hue; oracle: the color itself for there and back, integer arithmetic on the color circle for hues, the parts of the pen color in plain arithmetic.",
"P28": "The note parser, the note operators of the machine and the note type are run symbolically over names with symbolic characters and over symbolic numbers; oracle: a table of semitones and integer arithmetic, and A4 = 440 Hz multiplied up and down by the twelfth root of 2.",
"P29": "Handlers composed in all ways are given symbolic requests and commands; oracle: the list of handlers asked in order up to the first that takes it. Results and idle actions are driven through all short histories against a two-variable model.",
"P30": "Scripts with watcher and pause blocks run in the real project; oracle: a model of cells and frames that predicts each stop and what every variable watched so far holds at it.",
"P31": "Sequences of costume blocks run on a sprite, on another through a closure and on a clone, with a symbolic letter in the name and a symbolic list position, every block inside a handler so that what an error leaves behind is seen; oracle: the list, one current image and the position of its first occurrence. Images with equal names and names unlike the list's keys tell identity, key and name apart.",
"P32": "The functions of libm are interpreted by the engine where their argument is concrete, and where it is a term of one variable of few bits tabled over all its values by the same library; solver queries then see the exact piecewise-constant function. Oracles are independent of the library: series for sine, cosine and the exponential, repeated multiplication, bit patterns of powers of 2. The random source returns fresh symbolic words, so bounds hold for every draw, and cover points show that each bound is reached.",
"P33": "Every block with every kind of operand, numbers and letters symbolic, runs inside a handler between two values already computed; oracle: the script ends with those two values intact and either the block's value or its error between them. A panic of the machine is a violation, because the engine checks every panicking path for reachability.",
"P36": "The rendered text is read back the way a browser reads it (string literals with escapes, object literals, lists, numbers) and must be the menu, elements, server and interval that were given; letters of labels, values and names of elements are symbolic.",
"P35": "A system that keeps marks (symbolic bytes) with scripts and sprites and writes into every new state what it was made from; whole projects run with 6 ways of starting a script from outside and 12 ways in which it starts others (forks, forks of forks, on another sprite, messages to all or some, clones, clones of clones, changing the marks before and after). Oracle: the line of ancestors with their marks for every script that ever ran, and no script besides.",
"P34": "The compiler runs on projects with one block, hat or key at a symbolic place (16 places for reporters, 9 for commands; functions of the project and of a sprite, scripts with and without hat, nested closures, dead code), the rest being fixed; letters of keys are symbolic. Oracle: the list of what the machine has a meaning for, and the exact culprit in the error. The controls at the same places must be accepted.",
"P37": "src/std_util.rs itself is compiled into the harness crate (`#[path]`), with a lock of one thread in place of the standard library's and a real time given by the harness (symbolic to the nanosecond). Oracle: the last time taken, kept beside; for keys a three-state value.",
"P38": "src/std_system.rs itself is compiled into the harness crate, where it finds stand-ins (hx/src/sim.rs) under the names of the crates for threads, tasks, channels, web sockets and requests: tasks run one at a time on one thread, in order of creation, up to the next point where they wait (a blocking receive is such a point), and the network is a list of what was said and what is to be heard. The histories of packets, replies, polls and passing time and the answers of services are explored completely, times, characters and numbers in them are symbolic. Oracle: the JSON that must be on the network, read back by the real serde_json, and the events that must come out. Blocks that ask the outside are run by the real machine on the real standard system with its debug checks on. (In all other checks the scripted system makes the same demand at every request and command: everything in the machine can be borrowed.) The stand-ins do not model true parallelism, closed connections or TLS.",
}
