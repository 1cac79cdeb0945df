PROPS = [
dict(id="P01", title="Arithmetic is exact IEEE arithmetic and never yields a non-number", over=["inputs"],
 statement="Adding, subtracting, multiplying, dividing, negating, taking absolute value, rounding, flooring, ceiling or square root of numbers yields the IEEE double result (with -0 read as 0), or an error exactly when that result is infinite or not a number; modulus has the divisor's sign and magnitude at most the divisor's and is exact on integers. On lists every such operation works element by element at any nesting depth, pairing two lists up to the shorter and matrices row by row, keeps cyclic shape, returns a new list and leaves its operands unchanged. Sums, products, minimum and maximum accept any number of operands or one list of them; an empty sum is 0, an empty product 1, an empty minimum or maximum an error; minimum and maximum follow the order of comparisons and give the first of equal operands as it was. Non-numeric operands of arithmetic are errors.",
 all="all pairs of 64-bit floats, all nestings of lists of numbers, all operand counts", tests="The existing tests evaluate a handful of constants; overflow to infinity, signed zero, NaN and mixed list shapes cannot be enumerated.",
 files=["src/process.rs", "src/runtime.rs", "src/util.rs"], mech=[("element-wise lifting of scalar operations", "src/process.rs mod ops binary_op_impl, unary_op_impl"), ("checked numbers", "src/runtime.rs NumberChecker"), ("variadic reduction", "src/process.rs VariadicOp"), ("mathematical modulus", "src/util.rs modulus")]),
dict(id="P02", title="Comparison, equality and identity are consistent on all values", over=["inputs"],
 statement="For comparable values exactly one of less, equal and greater holds, and the six relations agree with each other; numbers and numeric text compare by numeric value, other text letter by letter ignoring case, booleans false before true, lists element by element and then by length. Values of different kinds (other than number and text) are simply unequal while ordering them is an error, and every object equals itself only. Identity holds exactly for the same object or the same kind and exact value, and comparing cyclic lists ends (with an error when the cycle is met).",
 all="all pairs of values: all doubles, texts, booleans, nested, shared and cyclic lists, and object kinds", tests="Tests compare a few constants; trichotomy and agreement of the relations quantify over all pairs.",
 files=["src/process.rs"], mech=[("three-way comparison", "src/process.rs mod ops cmp_impl"), ("relations", "src/process.rs check_relation"), ("identity", "src/process.rs identical")]),
dict(id="P03", title="Numbers and text convert into each other faithfully and nothing else converts", over=["inputs"],
 statement="A text used as a number stands for the number it spells: a decimal with optional sign, fraction and exponent, or hexadecimal, octal or binary digits after 0x, 0o or 0b, with surrounding white space ignored; any other text (empty, infinite, nan, stray characters) is not a number and using it as one is an error. A number turned into text is spelled in the shortest form that reads back as exactly the same number, integers below 10^16 in plain digits, and numeric text works wherever a number does with the same result. Apart from these two conversions every block accepts exactly the kinds of value it is meant for and reports an error for the others, and the type question agrees with the kind of the value.",
 all="all texts and all numbers; every kind of value in every kind of argument position", tests="Tests use a few literals; the grammar and the round trip quantify over all texts and all numbers.",
 files=["src/runtime.rs", "src/process.rs"], mech=[("number parsing and spelling", "src/runtime.rs SimpleValue::parse_number, stringify_number"), ("coercions", "src/runtime.rs Value::as_number, as_text, as_bool, as_list, ...")]),
dict(id="P04", title="Reading and changing lists by position is exact and all-or-nothing", over=["inputs"],
 statement="Getting the item at a whole-number index from 1 to the length gives that item, and a list of indices (nested to any depth) gives the list of the items; insert, replace and remove at an index or at a list of indices (duplicates counted once; one past the end allowed for insert) act on exactly those positions of the list as it was before. An index that is no whole number, out of range or no number is an error and leaves the list unchanged, also when other indices were fine or when the list is its own index list; reading, replacing or removing the last item of an empty list is an error too. Random positions are always positions of the list with every one possible, lists are shared by reference under all their names, and operating on a value that is no list is an error.",
 all="all lists, all indices and lists of indices, all outcomes of the random source", tests="Tests sample a few indices; boundary and error behaviour quantify over all of them.",
 files=["src/process.rs"], mech=[("index checks", "src/process.rs mod ops prep_index, prep_index_set, prep_rand_index, index_list"), ("in-place list operations", "src/process.rs step_impl List* instructions")]),
dict(id="P05", title="Building, combining and searching lists yields exactly the right new list", over=["inputs"],
 statement="Length, emptiness, reverse, all-but-first (an error on an empty list), in-front-of, append, copy, flatten, dimensions, rank, columns (missing cells are empty text, a single value repeats in its row), reshape (cycling through the flattened source; sizes must be whole and non-negative, the source must not be empty), combinations and counting ranges give exactly the list they describe, in order, for every shape of list, and accept their lists one by one or as one list. Results are new lists: the operands are never changed and changing a result never changes them, while the items inside are shared. Finding gives the first index whose item equals the value (as the equality block decides) or 0 and contains agrees; a list that contains itself is an error for flatten, dimensions, rank and reshape, and a value that is no list is an error where a list is needed.",
 all="all shapes of nested lists and all their elements", tests="Tests use one list per block; ragged, empty, nested, shared and cyclic shapes multiply.",
 files=["src/process.rs", "src/bytecode.rs"], mech=[("list algebra", "src/process.rs mod ops flatten, dimensions, reshape, columns, cartesian_product, find"), ("ranges", "src/process.rs mod ops binary_op Range"), ("append and copy", "src/process.rs VariadicOp ListCat, MakeList")]),
dict(id="P06", title="Text blocks see letters, and splitting, CSV, JSON and lines round-trip", over=["inputs"],
 statement="Length, letter at an index, last letter, random letter and split by letter agree on what the letters of a text are (user-perceived characters), index errors are errors, and the blocks work element by element on lists; code points convert to the character and back, and join writes its parts one after the other. Splitting by a text cuts at every leftmost non-overlapping occurrence and nowhere else, likewise for tab and carriage return; splitting by line ends drops the line ends (with a preceding carriage return) and no empty last line, and by word gives the words without punctuation. A table of texts written as CSV and read back is the same table (rows not empty and not one single empty cell), lists of texts, numbers and booleans written as JSON read back the same, lines joined split back, and malformed CSV or JSON, or kinds of value they cannot hold, are errors.",
 all="all texts, tables and lists", tests="Tests use a few constants; quoting, escaping and segmentation depend on which characters meet.",
 files=["src/process.rs", "src/runtime.rs"], mech=[("text operations", "src/process.rs mod ops unary_op, binary_op StrGet, SplitBy"), ("CSV", "src/process.rs mod ops from_csv, to_csv"), ("JSON", "src/runtime.rs SimpleValue::from_json, into_json")]),
dict(id="P07", title="A name means one variable, and closures and references share that variable", over=["histories"],
 statement="A variable name means the innermost thing of that name visible to the running script: a local (parameter, declared variable, loop variable) before a variable of the entity running the code before a global; reading or writing an undefined one is an error, and locals belong to one activation only. A closure shares the captured variables themselves with the script that made it (writes are seen both ways, also after that script's block returned) while its parameters are its own, and a by-reference argument makes a callee write the caller's variable. Declaring a variable again gives a new one without touching closures that captured the old one.",
 all="all sequences of declarations, writes, captures and calls, all values", tests="Tests run a few fixed projects; aliasing bugs need particular orders of capture, redeclaration and write.",
 files=["src/bytecode.rs", "src/process.rs", "src/runtime.rs"], mech=[("lookup order", "src/process.rs lookup_var, PushVariable"), ("capture by alias", "src/runtime.rs Shared, SymbolTable"), ("closures and upvars", "src/bytecode.rs Closure, InitUpvar")]),
dict(id="P08", title="Control flow and evaluation order are those of the blocks", over=["inputs", "histories"],
 statement="Statements run in order; conditionals run exactly the branch their condition selects, and/or and the conditional reporter evaluate only what they need, and all other operands are evaluated exactly once from left to right, in the order in which they stand in the block; one that fails keeps the later ones from being evaluated. What is no truth value is an error where one is needed, and only there. Counted, for, for-each, until and forever loops run their body exactly as often and with the values their limits say (counting up or down by one, limits evaluated once, items taken from a snapshot of the list), also when the body changes the loop variable or the list, returns, or nests other loops. Map, keep, find first and combine call their function once per item in order and yield the mapped, kept, first matching (or empty text) or combined value (0 for an empty list), stopping with an error when the function fails or yields no truth value where one is needed.",
 all="all nestings of blocks, all limits, all item values", tests="Tests run fixed programs; nesting and limits multiply.",
 files=["src/bytecode.rs", "src/process.rs"], mech=[("code generation", "src/bytecode.rs append_stmt, append_expr"), ("jumps and stack", "src/process.rs Jump, ConditionalJump, DupeValue, SwapValues, PopValues")]),
dict(id="P09", title="Calls return exactly one value to their caller and leave nothing else changed", over=["inputs", "histories"],
 statement="Calling a function or a closure, from any position inside a larger expression, loop or handler and with any number of returns inside loops, yields exactly the value returned (empty text without a return) and leaves the caller's waiting operands, loop counters, locals and handlers as they were. The number of arguments of a closure must match and calling what is no closure is an error; a closure runs on the entity of its caller unless another is given, and an entity's own function goes before a project-wide one of the same name. Calls of every kind nest at most to the configured depth: one more is an error that can be caught, and within the limit none fails for it.",
 all="all call positions, recursion depths, depth limits and arguments", tests="Tests call functions a few times at small depth.",
 files=["src/process.rs", "src/bytecode.rs"], mech=[("calls", "src/process.rs Call, CallClosure, Return"), ("depth limit", "src/runtime.rs Settings::max_call_depth")]),
dict(id="P10", title="An error reaches exactly the innermost active handler with its text, or ends the script", over=["faults", "histories"],
 statement="When something fails or is thrown inside a try block, at any depth of calls, loops, warps and half-evaluated expressions, its handler runs once with the thrown text (or a description of the failure) in its variable and the program continues after it with calls, waiting operands, loop counters, warp and the system's process state as they were at the try block. A handler catches only while its block is running: not when it has been left by finishing, by returning or by an earlier failure, and what fails inside a handler goes to the next outer one. Without an active handler the script ends with that error, and nothing after the failing block runs.",
 all="all positions of failures and handlers", tests="Tests have two or three try blocks; stack restoration depends on where the failure is.",
 files=["src/process.rs", "src/bytecode.rs"], mech=[("handlers", "src/process.rs step, PushHandler, PopHandler, Throw"), ("unwinding", "src/process.rs Unwindable")]),
dict(id="P11", title="Loops give way once per iteration, except inside warp", over=["schedules"],
 statement="Every iteration of every loop and of every list block that calls a function gives other scripts exactly one chance to run, so no loop, however endless, keeps others from running. Inside warp none does, including in everything called from there; warps nest, and leaving one by finishing, returning or an error restores what was before, so neither does warp leak out nor is it lost early.",
 all="all nestings of warp, loops, calls, returns and errors", tests="Tests never observe where yields happen.",
 files=["src/process.rs", "src/bytecode.rs"], mech=[("yield points", "src/bytecode.rs Yield"), ("warp counter", "src/process.rs PushWarp, PopWarp, warp_counter")]),
dict(id="P12", title="Requests, questions and commands reach the system exactly once and their outcome comes back exactly", over=["inputs", "faults", "schedules"],
 statement="Each block that needs the outside world asks its system exactly once per execution, with the values of its slots evaluated once, in order and in the right places and for the entity that runs it, and the script does not go on before the answer is there, however many polls that takes, giving way between polls unless warped. A successful answer is the block's value; under the hard scheme a failed request is an error, under the soft scheme its text becomes the value and the last error of its kind, which a later success clears. Commands that fail, and requests the system refuses, are errors a handler can catch, and each block's answer is kept apart from that of other blocks.",
 all="all slot values, all numbers of polls, all outcomes, both schemes", tests="The existing tests answer requests immediately and check values only; order, delay and failure of answers are not enumerated.",
 files=["src/process.rs", "src/bytecode.rs", "src/runtime.rs"], mech=[("request and command dispatch", "src/process.rs step_impl, process_result"), ("deferred completion", "src/process.rs Defer"), ("interface to the outside", "src/runtime.rs System, Request, Command, Config")]),
dict(id="P13", title="Sleeping, the timer, waiting for a condition and the calendar follow the system's clock", over=["inputs", "schedules"],
 statement="A script that sleeps goes on at its first turn at which the system's clock has reached the time it began plus the duration (in whole milliseconds), never earlier, and others run meanwhile; sleeping for nothing or less just gives way once. The timer is the number of seconds since it was last reset by any script, never negative even if the clock goes back, and waiting for a condition goes on at the first turn at which it holds, evaluating it once per turn. The calendar blocks show the fields of the system's local time, and where the system has no clock (or no calendar) the blocks that need it are errors a handler can catch.",
 all="all durations, all courses of the clock, all interleavings with other scripts", tests="Tests sleep for a few fixed times with a real clock; clocks that jump, stand still or go back are never seen.",
 files=["src/process.rs", "src/runtime.rs", "src/project.rs"], mech=[("sleeping", "src/process.rs Sleep, Defer::Sleep"), ("timer", "src/process.rs PushTimer, ResetTimer, GlobalContext::timer_start"), ("wait until", "src/bytecode.rs WaitUntil"), ("calendar", "src/process.rs PushRealTime, src/runtime.rs SysTime")]),
dict(id="P14", title="A message starts every script that listens to it, and a sender that waits goes on when all of them have ended", over=["schedules", "histories"],
 statement="Sending a message starts every script listening to it (or to any message) on every entity, or on exactly the entities given, anew: one already running is ended first, also when it is the sender itself. A sender that waits goes on, keeping its place in warp, loops, handlers and calls, exactly when every script it started has ended, whether by finishing, returning, failing, stopping or being started again by somebody else, and at once when it started none; a sender that does not wait never pauses. A script reads exactly the text of the message that started it, whatever is sent later and in what it forks or calls too, and sending what is no text or to what is no entity is an error.",
 all="all projects of scripts that send, wait, stop, loop and fail, all interleavings", tests="Two or three test projects broadcast; restarts, nested waits and receivers that fail or stop are never combined.",
 files=["src/project.rs", "src/process.rs"], mech=[("starting receivers", "src/project.rs Project::step, ProcessStep::Broadcast"), ("waiting", "src/process.rs Barrier, BarrierCondition, Defer::Barrier")]),
dict(id="P15", title="Scripts take turns in a fixed rotation and nothing keeps a script from its turn", over=["schedules"],
 statement="Running scripts take turns in the order they were started; a turn lasts until the script gives way, waits or ends, after which it goes to the end of the line, and what a script starts or forks waits at the end of the line too. The order of everything scripts do is therefore determined by the project and the events given to it. A script waiting for the system or asleep is looked at once per round and keeps no other from its turn, and it goes on in the round in which what it waits for is there.",
 all="all projects, all interleavings, all delays", tests="Tests look at final values only; who runs when is not observed.",
 files=["src/project.rs", "src/process.rs"], mech=[("rotation", "src/project.rs State::process_queue, Project::step"), ("deferred work", "src/process.rs Defer")]),
dict(id="P16", title="Outside events start exactly the scripts meant for them, with their arguments, queued as asked", over=["histories", "inputs"],
 statement="The start event, a key, and a named custom event each start exactly the scripts of all entities whose hat matches: a letter in a hat means that letter in lower case, which is how keyboards report it, any-key matches all keys, and event names match exactly; releasing a key starts nothing. A start event restarts its scripts, a key is ignored by a script still running, and a custom event either interrupts (ending the running script and its queue) or queues up to the given number of events, dropping the newest beyond it, and queued events run one after the other in order. Arguments become the script's locals under the names of the hat, missing ones 0 and surplus ones ignored, separately for each script and each event; a hat for an unknown key or event kind is an error when the project is compiled.",
 all="all sequences of outside events and their arguments, all queue limits", tests="Tests send single events; queues, limits, interrupts and mixed sequences are not covered.",
 files=["src/project.rs", "src/bytecode.rs"], mech=[("input dispatch", "src/project.rs Project::input"), ("queues", "src/project.rs Script::schedule, consume_context, stop_all")]),
dict(id="P17", title="Stopping ends exactly the scripts it names, at once, and leaves the others running", over=["schedules", "histories"],
 statement="Stop this script, all, all but this, and the other scripts of this entity end exactly those scripts (with what they forked judged by the entity it runs on) at that instant, wherever in loops, warps, handlers, calls or waits they are, and nothing of what was ended runs afterwards. Events queued for a script that is stopped are taken up by it afterwards; stopping all or the stop button drops all running scripts and queued events, after which events start scripts as in a fresh project. Variables keep their values.",
 all="all modes, all positions of the stopping script, all states of the others", tests="Few fixed projects stop scripts; queued events and waiting scripts at the moment of stopping are not covered.",
 files=["src/project.rs", "src/process.rs"], mech=[("stop modes", "src/project.rs ProcessStep::Abort, Input::Stop"), ("dropping queues", "src/project.rs Script::stop_all, AllContextsConsumer")]),
dict(id="P18", title="A clone is its own copy of its original until it is deleted", over=["histories"],
 statement="Cloning an entity or a clone gives a new entity with copies of the fields' current values, the same scripts, and the same original; afterwards neither sees the other's changes to its fields. Its clone scripts start once, in order, and from then on it takes part in messages (those sent to its original's name address the original only), keys and events with scripts of its own. Deleting a clone ends all its scripts at once and it takes part in nothing any more, while deleting what is no clone does nothing.",
 all="all sequences of cloning, changing, sending and deleting, clones of clones", tests="Two test projects clone; deletion while running, clones of clones and events to clones are hardly covered.",
 files=["src/project.rs", "src/process.rs", "src/runtime.rs"], mech=[("creating", "src/project.rs ProcessStep::CreatedClone, src/process.rs Clone"), ("deleting", "src/project.rs ProcessStep::DeletedClone / DeleteClone"), ("state of a clone", "src/runtime.rs EntityKind::Clone")]),
dict(id="P19", title="A message between projects arrives once at every script for it, and at most one reply per script goes back", over=["inputs", "histories", "schedules"],
 statement="Sending a message over the network passes its type, its fields with their values, and its targets (a text or a list of texts) to the system exactly once; a value that cannot be sent, or targets that are no texts, is an error and nothing is sent. An arriving message starts every script for its type, queued without limit behind a running one and in order, with its fields as locals (missing ones 0, surplus ones dropped), and a reply from such a script goes to the sender with exactly the first value it replied, once; scripts not started by a message reply to nobody. A sender that asked for a reply waits, giving way, until there is one and goes on with exactly that value (empty text if none came, an error it can catch if it cannot be understood).",
 all="all sequences of arriving messages, all values and targets, all delays of replies", tests="Tests over the real network are unreliable and are not in the stable set.",
 files=["src/process.rs", "src/project.rs", "src/bytecode.rs", "src/util.rs"], mech=[("sending", "src/process.rs SendNetworkMessage, Defer::MessageReply"), ("receiving", "src/project.rs Project::step, Event::NetworkMessage"), ("replying", "src/process.rs SendNetworkReply, reply_key"), ("packing of names", "src/util.rs LosslessJoin, lossless_split")]),
dict(id="P20", title="A compiled program does exactly what its blocks say, whatever its size and constants", over=["inputs"],
 statement="Every constant in a program (number, text, truth value, colour) evaluates to exactly itself, whatever other constants there are, texts that look like numbers staying texts as spelled; a number that is not finite is an error. Every branch, loop, handler, call, closure and script leads to exactly the code it was made for at every distance, so that adding blocks elsewhere never changes what a block does.",
 all="all constants, all program sizes and distances", tests="Test projects are small; addresses that need more bytes and shared text storage are reached by chance only.",
 files=["src/bytecode.rs"], mech=[("encoding of instructions", "src/bytecode.rs BinaryRead, BinaryWrite, encode_u64, decode_u64"), ("relocation and shrinking", "src/bytecode.rs finalize, apply_shrinking_plan"), ("shared text storage", "src/bytecode.rs BinPool uses"), ("numeric texts", "src/bytecode.rs optimize")]),
dict(id="P21", title="An error is reported at the block that failed, with the calls it was under", over=["inputs", "histories"],
 statement="When every block of a program carries a location, a failure is reported at the location of exactly the block that failed, preceded by the locations of the calls it happened under, outermost first, whichever block fails first in the order of evaluation and whatever else is in the program. The error summary names the entity that was acting, its fields, the globals, and per call the local variables with their values, and the cause. Locations come back exactly as they were given, however they are spelled; a project whose locations cannot be represented together is refused, never misreported and never a crash.",
 all="all failing blocks, all programs, all spellings of locations", tests="Tests check the message of a few errors, never where they are reported; location texts are stored split and renumbered, which tests exercise with one format only.",
 files=["src/bytecode.rs", "src/process.rs", "src/runtime.rs"], mech=[("storing and finding locations", "src/bytecode.rs Locations condense, lookup"), ("summaries", "src/process.rs ErrorSummary extract"), ("call positions", "src/process.rs CallFrame called_from")]),
dict(id="P22", title="A project starts in exactly the state it describes", over=["inputs"],
 statement="Every global and every field starts with its described value: a list described with an identity is one and the same list wherever it is referred to (cycles included), every other list is a list of its own, and texts, numbers, constants, images and sounds are as given. Every entity starts with its described position, heading (within 0 to 360), size, visibility, pen colour, costumes, active costume and sounds, the first entity being the stage. Two instances made from the same compiled project share no state; a description with an undefined reference or a number that is not finite is refused, any other is accepted.",
 all="all initial values, all sharing structures, all entity settings", tests="Test projects have a few lists without sharing and default entity settings.",
 files=["src/bytecode.rs", "src/runtime.rs"], mech=[("collecting initial values", "src/bytecode.rs extract_init_info"), ("building the state", "src/runtime.rs GlobalContext from_init")]),
dict(id="P23", title="A key leads to its value until that value is removed, and to nothing ever after", over=["histories"],
 statement="For every sequence of insertions, removals, changes, clearing and filtering, the keyed storage holds exactly the values inserted and not yet removed: each under its own key, keys never repeat, and a key whose value is gone (or that was never handed out) leads to nothing, even after its place is used again. Length, emptiness and every way of iterating agree with that; filtering looks at every value once and keeps exactly those chosen.",
 all="all histories, all keys", tests="One test inserts and removes in a few fixed orders.",
 files=["src/slotmap.rs"], mech=[("generations", "src/slotmap.rs SlotMap insert, remove, clear, retain_mut"), ("reading", "src/slotmap.rs get, get_mut, iter, into_iter")]),
dict(id="P24", title="Maps and variable tables hold the last value given to each key, and only shared variables are shared", over=["histories", "inputs"],
 statement="For every sequence of insertions, a map returns for each key the value last given to it and nothing for other keys, reports the value it replaced, and iterates in key order or in the order of first insertion according to its kind. A variable table does the same for names; a variable made shared has one value under all its names and tables, whichever is assigned, until a name is defined anew, which leaves the others alone; a copy of a table has the same values and shares nothing.",
 all="all sequences of operations, all keys and names", tests="Two tests insert a fixed sequence of keys; sharing of variables is not tested by itself.",
 files=["src/vecmap.rs", "src/runtime.rs"], mech=[("maps", "src/vecmap.rs VecMap get, insert, from_iter"), ("variable tables", "src/runtime.rs SymbolTable, Shared")]),
dict(id="P25", title="Values leave and enter the machine unchanged", over=["inputs"],
 statement="A value made of truth values, numbers, texts, images, sounds and lists that is not cyclic leaves the machine as exactly that value, and enters it as such, with lists of its own; cyclic lists, code, entities and things of the system at any depth are refused. As JSON and back it is the same value (plain JSON refuses images and sounds; the form for NetsBlox carries them with contents, names of any characters and centers, in the costume and sound elements NetsBlox knows), and texts that are no such elements stay texts. JSON from outside becomes the value it describes, objects being lists of pairs; null at any depth and broken images and sounds are errors.",
 all="all values, names, contents and JSON documents", tests="One test round-trips a fixed list of values whose names have no special characters.",
 files=["src/runtime.rs", "src/util.rs"], mech=[("leaving and entering", "src/runtime.rs Value to_simple, from_simple"), ("JSON", "src/runtime.rs SimpleValue into_json, from_json, into_netsblox_json, from_netsblox_json"), ("contents", "src/util.rs base64_encode, base64_decode")]),
dict(id="P26", title="Properties of sprites stay in their ranges", over=["inputs"],
 statement="Setting or changing a property of a sprite or the stage makes exactly it the given (or increased) number: headings and hues modulo 360, saturation, brightness and transparency kept within 0 and 100, sizes and pen sizes at least 0, while truth values set (or, changed by, toggle) visibility and the pen; anything else given, and what leaves the range of numbers, is an error that changes nothing, as is changing the whole pen color by something. Clearing effects resets exactly the effects, going somewhere sets exactly the position. Pointing at a place turns to it, 0 being up and 90 right, and steps move by the distance in that direction; steps out of the range of numbers are an error that moves nothing.",
 all="all old values, all given values, places and distances", tests="One test compares a handful of property reads and writes.",
 files=["src/runtime.rs", "src/util.rs"], mech=[("setting and changing", "src/runtime.rs Properties::perform_set_property, perform_change_property, perform_get_property"), ("moving", "src/runtime.rs Properties::perform_goto_xy, perform_point_towards_xy, perform_forward"), ("modulo", "src/util.rs modulus")]),
dict(id="P27", title="Colors survive conversion", over=["inputs"],
 statement="Converting a color to hue, saturation, brightness and opacity and back yields the same color, so the pen color as a number (opacity, red, green, blue bytes from the highest) reads back as it was set; setting it sets saturation and brightness in percent and transparency as the rest to full opacity, and what is no number is an error that changes nothing. The color of a hue (taken modulo 360), saturation, brightness and opacity (each kept within its range) is the one on the color circle with red at 0, green at 120 and blue at 240 degrees.",
 all="all colors, hues, saturations and brightnesses", tests="One test compares listed colors.",
 files=["src/runtime.rs"], mech=[("conversion", "src/runtime.rs Color::from_hsva, to_hsva"), ("pen color", "src/runtime.rs Properties::perform_set_property, perform_get_property (PenColor)")]),
dict(id="P28", title="Notes are the notes they name", over=["inputs"],
 statement="Playing plays exactly the given note or list of notes for the given beats, or nothing if the beats are not positive (a rest waits without notes): whole numbers from 0 to 127 are MIDI numbers, other texts are names made of a letter of either case, one octave and accidentals in any order, with A4 being 69; anything else or out of range is an error that plays nothing. The name of a note in sharps or flats names that note, and its frequency is 440 Hz for A4 and doubles each twelve notes, with or without an accidental mark.",
 all="all names, numbers and lists", tests="One test parses listed names in range.",
 files=["src/runtime.rs", "src/process.rs"], mech=[("names", "src/runtime.rs Note::from_name, get_name, get_frequency, from_midi"), ("playing", "src/process.rs Instruction::PlayNotes, prep_note")]),
dict(id="P29", title="Handlers, later results and idle actions", over=["inputs", "histories"],
 statement="When handlers are combined with fallbacks, a request or command is offered, unchanged, to each in turn until one takes it, which alone completes it; if none takes it, it comes back unchanged and uncompleted, and the feature reported for it is the one it needs. A result that comes later is pending until it is completed, is completed only once (later attempts get their value back), and is handed out exactly once. An idle action fires exactly when the set number of idle, yielding or pausing steps in a row is reached, or when triggered, and counting starts over then and at any other step.",
 all="all combinations of handlers, requests and histories", tests="No test covers these.",
 files=["src/runtime.rs", "src/project.rs"], mech=[("handlers", "src/runtime.rs Config::fallback, Request::feature, Command::feature"), ("later results", "src/runtime.rs AsyncResult"), ("idle actions", "src/project.rs IdleAction")]),
dict(id="P30", title="Watchers show live variables; pauses stop in place", over=["inputs", "histories"],
 statement="A block that shows or hides a variable hands over, when it runs, a watcher with the name of the variable, the sprite it runs on, and the very variable its script sees there (its own, else the sprite's, else the global one): the watcher then always shows what that variable currently holds, two watchers share a variable exactly if it is the same one, and an unknown variable is an error. A pause hands control back at that point. After either the same script goes on exactly there, before any other script.",
 all="all programs, all values", tests="No test covers these.",
 files=["src/process.rs", "src/project.rs", "src/runtime.rs"], mech=[("watchers", "src/process.rs Instruction::Watcher; src/runtime.rs Shared::alias_inner, Watcher"), ("pauses", "src/process.rs Instruction::Pause"), ("in projects", "src/project.rs Project::step")]),
dict(id="P31", title="Costumes and sounds are switched and played as named", over=["inputs", "histories"],
 statement="Switching the costume to a name in the list of the sprite that runs the block, to an image, or to nothing (empty text) makes it exactly that, and the system is asked once, for that sprite, exactly if it is another one than before; the next costume is the following one in the list, cyclically, or the same if there is none or it is not in the list. The costume, its number (the first position in the list, else 0), its name and a fresh copy of the list tell what it then is, and a clone starts with its original's and changes only its own. Playing asks the system once for exactly the named or given sound, waiting or not, or for none if the text is empty; unknown names and other values are errors that change and ask nothing.",
 all="all sequences of switches, all names, positions and values", tests="No test covers these.",
 files=["src/process.rs"], mech=[("costumes", "src/process.rs Instruction::SetCostume, NextCostume, PushCostume, PushCostumeNumber, PushCostumeList, PushCostumeProperty"), ("sounds", "src/process.rs Instruction::PlaySound, PushSoundList, PushSoundProperty, StopSounds"), ("clones", "src/process.rs Instruction::Clone")]),
dict(id="P32", title="Angles are degrees, powers and logarithms exact where they can be, chance fair to its bounds", over=["inputs", "histories"],
 statement="The sine, cosine and tangent are those of angles in degrees, their inverses give degrees in the usual ranges, and the two-operand arctangent the angle whose sine is along its first and whose cosine along its second operand. Whole powers of whole numbers are exact while they fit, the logarithm to a base is the power the base is raised to, and what has no real finite value (an inverse outside [-1, 1], a root of a negative number, a logarithm of what is not positive, a power out of range) is an error. A number drawn between two is within them, whichever is named first, whole if both are, each bound can come up, and over lists each element is drawn.",
 all="all numbers and all outcomes of the random source", tests="Tests compute a few sines and powers; chance is only sampled.",
 files=["src/process.rs", "src/runtime.rs"], mech=[("functions", "src/process.rs ops::unary_op, ops::binary_op (Sin..Atan, Pow, Log, Atan2)"), ("chance", "src/process.rs BinaryOp::Random")]),
dict(id="P33", title="No block and no value crashes the machine", over=["inputs", "histories"],
 statement="Whatever values its operands have, of whatever kind, empty, nested, containing itself or out of range, every block either gives a value (or does its work) or fails with an error the script can handle: the machine never panics, never stops with an internal error, and afterwards the values it had computed before the block are intact and the script goes on.",
 all="all blocks with all kinds of operand values", tests="Tests run each block on a few well-formed operands; nothing tries the wrong kinds.",
 files=["src/process.rs", "src/bytecode.rs"], mech=[("operations", "src/process.rs Process::step and ops"), ("stack discipline", "src/process.rs value stack and handlers")]),
dict(id="P34", title="A project that cannot be run as written is refused, naming what is wrong", over=["inputs"],
 statement="Compiling a project fails exactly when it contains, in any script (with or without a hat), function or closure, at any depth and whether it can be reached or not, a block or a hat the machine has no meaning for, a key hat that is neither one of the named keys nor a single character, a system call block with other slots than it has (a name and the arguments; nothing for the last error), or a type test for a kind of code; what is refused is named: that block, hat or key, or the block's location if it has one. Every other project is accepted (as far as its locations, constants and references between values are in order), and compiling never crashes.",
 all="all places of all blocks and hats, all key names", tests="No test compiles a project that must be refused.",
 files=["src/bytecode.rs"], mech=[("refusals", "src/bytecode.rs ByteCodeBuilder::append_expr, append_stmt (CompileError)"), ("hats and keys", "src/bytecode.rs ByteCode::extract_init_info")]),
dict(id="P35", title="What a system keeps for scripts and sprites is made for exactly these", over=["inputs", "histories"],
 statement="A system can keep a state of its own for every running script and for every sprite. A script's is made once when the script is started, for exactly the sprite it runs on, and knows the script that asked for it as that was at that moment: the one that forked it, sent the message it was started by, or made the clone whose script it is, and nobody for scripts started from outside (the start event, keys, custom events, messages over the network). The first sprite of a project gets a state as the stage, every other one as a sprite, each with its own settings, and a clone one made from the state of what it was cloned from as it was then.",
 all="all ways of starting scripts, from every kind of script, with any states in between", tests="Tests use systems that keep nothing of their own.",
 files=["src/project.rs", "src/process.rs", "src/runtime.rs"], mech=[("scripts", "src/project.rs ProcessKind in Project::input, step"), ("sprites", "src/runtime.rs GlobalContext::from_init, src/process.rs Instruction::Clone (EntityKind)")]),
dict(id="P36", title="The extension made for the browser offers exactly what it was made for", over=["inputs"],
 statement="The extension rendered for the browser has exactly the given menu of system calls (entries and submenus at any depth, in order, with the labels and values given, whatever characters these contain), leaves out exactly the given elements of projects, connects to the given server and asks for its status at the given interval in milliseconds; the labels and values of simple entries are the same.",
 all="all menus, names, elements and intervals", tests="Tests format six fixed menus and never render the extension.",
 files=["src/template.rs"], mech=[("menus", "src/template.rs SyscallMenu::format"), ("settings", "src/template.rs ExtensionArgs::render, src/assets/extension.js")]),
dict(id="P37", title="Clocks show the time, results of keys come out once", over=["inputs", "histories"],
 statement="A clock gives the real time in its offset; one with a cache does so at every update and for every reading finer than its cache, and for readings as coarse or coarser gives the time it took last (by any of these, even if the real time went back meanwhile). A result that is awaited through a key is pending until it is completed through any copy of that key, completed only once (what is given later is lost, the first stays), and comes out of exactly one poll, of whichever copy; keys of other results are not touched.",
 all="all courses of the real time, all sequences of readings, polls and completions", tests="Tests use the clock only as a source of time.",
 files=["src/std_util.rs"], mech=[("clock", "src/std_util.rs Clock::new, read, update"), ("keys", "src/std_util.rs AsyncKey")]),
dict(id="P38", title="The standard system says on the network what the program means, and hands on what it hears", over=["inputs", "histories", "schedules"],
 statement="A standard system that has started has one client id that it connects with and gives the server in all it says about itself, and its public id is its project's name (untitled if none) with that client id. Every message it is given to send goes out once, in the order given, with its type, its values, its receivers (everyone in the room being the public id) and its own address, and if a reply is awaited with an identity of its own; a reply goes to who asked, with the identity the question had. What comes in as a message is handed on once, in order, with its type, the values that have a meaning and, if a reply is asked for, whom to reply to; pings are answered, anything else, however malformed, changes nothing. Who awaits a reply gets the first one that came for exactly that question, once, or nothing if none came and more than a second and a half has passed since, and keeps waiting till then. A call asks the named service (of the given or default host) once with exactly its arguments, and gets its own answer, whichever order they come in: a failure carries the text of the answer, a success is an image or a sound if it says so, else the value of the JSON, else the text. Requests and commands are first offered to the program around the machine; what nobody takes is refused as not supported. The program around the machine may look at and change all of the machine while it is asked (except a sprite the command lends to it): whatever the sprites hold, asking it never fails.",
 all="all answers, orders of events and times within bounds", tests="No test uses the standard system with a network that answers.",
 files=["src/std_system.rs", "src/std_util.rs"], mech=[("messages", "src/std_system.rs StdSystem::new_async (handlers), send_message, send_reply, receive_message"), ("replies", "src/std_system.rs StdSystem::poll_reply, MESSAGE_REPLY_TIMEOUT"), ("calls", "src/std_system.rs call_rpc_async, perform_request, poll_request"), ("handlers", "src/std_system.rs perform_request, perform_command, check_runtime_borrows")]),
]
NA = []
