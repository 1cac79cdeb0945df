# property id -> harness feature and entries
# entry: name, shards = sizes of the leading choices explored by parallel engine processes (tshards: thorough tier)
def E(name, **k): return dict(name=name, **k)
P = {
 "P01": dict(feature="p01", bounds="every pair of doubles for + - * / and every double for the unary operations (floor/ceil/round: |x| < 2^20 and |x| >= 2^52 in the quick tier); modulus exact on all 8-bit (thorough: 16-bit) integer pairs, its range on all doubles; 9 list shapes of nesting up to 3 and length up to 3, all pairs (11 operations with fixed numbers as well); up to 4 operands (of 7 kinds, up to 2); elements are all 16-bit integers.", entries=[E("scalar", shards=[4]), E("modulus_int"), E("modulus_any"), E("unary", shards=[6]), E("sqrt_int"), E("elementwise", shards=[9]), E("elementwise_all", shards=[11]), E("elementwise_unary"), E("fresh"), E("variadic_kinds"),
   E("operands_untouched"), E("variadic", shards=[4]), E("first_of_equal"), E("cyclic"), E("operand_kinds"), E("landmarks")]),
 "P02": dict(feature="p02", bounds="every pair of doubles; 8 numeric spellings against every double; words of up to 2 letters (all letters); 6 list shapes of nesting up to 2, all pairs, elements all 16-bit integers; 14 values of all kinds, all pairs; 3 cyclic constructions.", entries=[E("numbers"), E("bools"), E("numeric_text", shards=[8]), E("numeric_texts", shards=[7]), E("number_and_word"), E("words", shards=[3]), E("unicode_words"), E("lists", shards=[6]), E("kinds_apart", shards=[14]), E("cycles"), E("sharing")]),
 "P03": dict(feature="p03", bounds="decimal spellings with up to 2 integer digits, 1 fraction digit and exponents 2, +1, -1 (all digits), 4 surrounding white spaces; radix spellings with up to 2 arbitrary printable characters after the prefix; every ASCII text of up to 2 characters (thorough: 3); 22 non-numbers; number to text on 28 concrete landmark numbers only (the printing algorithm is not explored symbolically); 10 kinds of value in 14 argument positions; numeric text in 6 positions against all 16-bit integers", entries=[E("decimal", shards=[3,3]), E("radix", shards=[6]), E("any_text", shards=[3], tshards=[4]), E("not_numbers"), E("small_round_trip"), E("round_trip"), E("join_spelling"), E("join_spelling_large"), E("kinds_accepted", shards=[10]), E("numeric_text_as_number")]),
 "P04": dict(feature="p04", bounds="lists of up to 3 elements (random positions: 4), 12 index shapes (a scalar index ranges over all doubles, elements and listed indices over all 16-bit integers), nesting of index lists up to 2; every outcome of the random source", entries=[E("get", shards=[12]), E("change", shards=[3,12]), E("ends"), E("random", shards=[3]), E("random_spread"), E("own_index", shards=[4]), E("by_reference"), E("only_lists")]),
 "P05": dict(feature="p05", bounds="12 list shapes of nesting up to 3 and up to 4 elements per operation and every tree of lists of up to 2 elements and 3 levels, elements all 16-bit integers; up to 3 appended or combined lists; 7 reshape targets, sizes all doubles outside [3, 2^64]; ranges from every 16-bit integer of length up to 5", entries=[E("shapes", shards=[10]), E("trees", shards=[6]), E("fresh"), E("append", shards=[4]), E("append_not_lists"), E("find", shards=[5]), E("find_kinds"), E("reshape", shards=[8]), E("reshape_sizes"), E("combinations", shards=[4]), E("range", shards=[8]), E("range_lists"), E("cyclic", shards=[4]), E("only_lists")]),
 "P06": dict(feature="p06", bounds="every ASCII text of up to 3 characters (thorough: 4) and 9 Unicode texts against every 16-bit index; splitting texts of up to 5 letters over {a,b} by 4 patterns, up to 4 characters at tab, CR, LF; CSV tables of up to 2 rows, 2 columns and cells of up to 2 characters over the special characters; JSON texts of up to 2 ASCII characters (thorough: 3), numbers on 9 landmarks; code points: doubles near the boundaries in the quick tier, all in the thorough one", entries=[E("letters_ascii", shards=[4], tshards=[5]), E("letters_unicode", shards=[10]), E("letters_of_numbers"), E("letters_lifted"), E("random_letter"), E("random_letter_spread"), E("join"), E("join_kinds"), E("unicode"), E("unicode_texts"), E("split_by", shards=[4]), E("split_at", shards=[3]), E("split_words"), E("csv", shards=[5]), E("csv_texts"), E("csv_values"), E("json", shards=[3], tshards=[4]), E("json_numbers", shards=[9]), E("json_numbers_long"), E("json_texts"), E("json_kinds"), E("lines")]),
 "P07": dict(feature="p07", bounds="every sequence of 3 actions (thorough: 4) over 15 actions on locals, fields, globals, captured variables, upvars and parameters, with and without a local shadowing the field, between fixed observations; two arguments over all 16-bit integers; pairs of 8 blocks that bring a variable of their own while one of 3 closures holds an earlier one of that name; 6 programs with names that differ from their translation", entries=[E("programs", shards=[2,15]), E("brought", shards=[3]), E("translated")]),
 "P08": dict(feature="p08", bounds="11 compound statements around two of 6 simple ones or around another compound one, with limits 0..4; loops whose limits are -3..4 and quarters; condition trees of depth 2 (thorough: 3); 9 operand orders; the operands of 42 kinds of block, failing from any one of them on; 12 conditions over operands of 5 kinds that are no truth values; limits given as texts; map, keep, find first, combine with 9 callbacks on lists of up to 3, and nested in each other; element values all 16-bit integers", entries=[E("statements", shards=[11]), E("conditions", shards=[6,2]), E("order"), E("higher", shards=[4]), E("nested"), E("counts", shards=[5,4]), E("logic"), E("texts"), E("operands")]),
 "P09": dict(feature="p09", bounds="12 ways of calling in operand and statement positions; recursion and closure recursion with limits 1..6 against depth 0..5; 0..3 parameters against 0..3 arguments in 11 ways of calling; 5 nestings of up to 3 try blocks left by returning, called in 5 ways; arguments small or all 16-bit integers", entries=[E("operands", shards=[12]), E("statements"), E("arity", shards=[4,4]), E("handlers", shards=[5]), E("depth", shards=[6]), E("depth_bound"), E("own")]),
 "P10": dict(feature="p10", bounds="15 failing computations inside and outside of handlers, loops, warps, calls, closures and higher-order blocks; nesting of handlers up to 2; thrown text of up to 2 ASCII characters", entries=[E("caught", shards=[15]), E("uncaught", shards=[15]), E("nested", shards=[15]), E("text"), E("unwinding")]),
 "P11": dict(feature="p11", bounds="13 looping or calling statements, inside and outside of warp, run step by step with 1..5 iterations; 7 endless loops observed over their first 40 steps", entries=[E("giving_way", shards=[13]), E("endless")]),
 "P12": dict(feature="p12", bounds="14 asking and 27 commanding blocks in 4 positions; up to 3 polls that are not done yet, then success, soft failure, hard failure or refusal; arguments and results over all 16-bit integers; sequences of 3 requests (thorough: 4) of 3 kinds, each failing or not; 13 kinds of places to go or turn to; 3 scripts waiting at once with delays 0..3; host, service, procedure, argument and block names with two arbitrary ASCII characters, spaces included; all 9 effects and 5 pen attributes read, set and changed; saying and thinking for 0..3 seconds under any four clock readings below 4.1 s", entries=[E("requests", shards=[14]), E("commands", shards=[27]), E("questions"), E("last_errors", shards=[4]), E("places"), E("routing"), E("names"), E("properties"), E("speech")]),
 "P13": dict(feature="p13", bounds="8 programs that sleep (in warp, loop, handler, call, fork, side by side) with every double as duration and three arbitrary 64-bit clock readings; two sleepers with durations 0..15 s and five readings over 0..65535 ms; 4 programs with the timer and four arbitrary 64-bit readings, and again with 16 readings that find any difference fast; 6 programs that wait for conditions over variables 0..3; calendar: 7 years, 4 months (thorough: 12), 3 offsets, one field arbitrary at a time, the others first or last", entries=[E("naps", shards=[8]), E("two_sleepers"), E("timer", shards=[4]), E("timer_small", shards=[4]), E("waits", shards=[6]), E("no_clock"), E("calendar", shards=[7])]),
 "P14": dict(feature="p14", bounds="11 ways of sending × 11 kinds of receivers × 3 second receivers (quick: 2) × 5 further scripts, loop counts 0..3; 5 message texts × 5 ways of sending; messages sent and heard with one arbitrary ASCII character each × 4 ways of sending; up to 16 rounds", entries=[E("waiting", shards=[11]), E("messages"), E("names", shards=[4])]),
 "P15": dict(feature="p15", bounds="pairs of 10 kinds of scripts with one of 3 others (thorough: all triples), loop counts 0..3, clock readings of 16 bits; 4 kinds of waiting × 0..3 delays; up to 14 rounds (60 steps)", entries=[E("rotation", shards=[10]), E("patience")]),
 "P16": dict(feature="p16", bounds="all sequences of 3 (thorough: 4) of 13 outside events against a project with 9 scripts, arguments all 16-bit integers, loop counts 0..3; bursts of 5 events with queue limits 0, 1, 2 and unlimited, interrupting or not, for scripts ending in 4 ways; bursts of 6 (thorough: 9) with any one limit 0..255; 11 key hats × 11 keys × sequences of 4; names of events, arguments and keys with one arbitrary ASCII character on either side; 5 invalid hats; up to 22 rounds", entries=[E("events", shards=[13]), E("queues", shards=[4,4]), E("keys"), E("bad_hats"), E("names"), E("limits")]),
 "P17": dict(feature="p17", bounds="4 modes × 10 positions of the stopping block × 4 other scripts; 4 modes × 5 scripts with up to 4 queued events × 1 or 2 scripts; the stop button at 4 moments × 10 scripts × 2 events afterwards; 7 endings of a process of its own followed by 10 and more steps; loop counts 0..3; up to 24 rounds", entries=[E("modes", shards=[4]), E("waiting_events", shards=[4]), E("button"), E("over")]),
 "P18": dict(feature="p18", bounds="9 ways of making and deleting clones × 9 behaviours of clones × 5 surroundings (further scripts, keys, custom events, stop and restart); thorough: two more outside events; field values all 16-bit integers; clone chains of depth 1..3; up to 20 rounds", entries=[E("life", shards=[9]), E("family")]),
 "P19": dict(feature="p19", bounds="all sequences of 3 (the first being a message; thorough: any 4) of 11 outside events against 9 receivers and five other scripts, arguments all 16-bit integers, loop counts 0..3; bursts of 1..4 messages; 10 kinds of values × 10 kinds of targets × 4 sets of names × 0..3 fields; names of messages, fields and targets with one arbitrary ASCII character on either side; two replies of 7 kinds with 0..3 and 0..2 delays in 4 positions", entries=[E("arriving", shards=[9]), E("bursts"), E("sending", shards=[10]), E("answers", shards=[7]), E("names")]),
 "P20": dict(feature="p20", bounds="number constants: every double, every 32-bit integer, every 32-bit integer over 64; two texts of up to 3 and 2 printable ASCII characters; numeric texts of up to 4 characters over 6; every colour; 10 kinds of jumping blocks after 0..31 filling statements (7 bytes each) and around 0, 1, 2 (thorough: 20, 27) of them, operands all 16-bit integers; the same after 2337 (thorough: 2326..2341) statements, where addresses get a third byte; 6 shapes of literal lists in 5 positions, numbers being any 32-bit integer over 4", entries=[E("numbers"), E("texts", shards=[4,3]), E("numeric_texts"), E("colours"), E("distances", shards=[10]), E("far", shards=[10]), E("literals")]),
 "P21": dict(feature="p21", bounds="12 kinds of programs with three blocks that can fail (indices all 16-bit integers) after 0, 9, 18 or 27 others; 4 kinds of failures for summaries; pairs of location texts: 3 prefixes × 2 suffixes × 1 or 2 numbers from 4 spellings (one digit arbitrary) with 3 kinds of mismatches, and all pairs of 9 extreme texts", entries=[E("places", shards=[12]), E("listed"), E("summaries"), E("formats", shards=[3,2]), E("extremes")]),
 "P22": dict(feature="p22", bounds="3 variables (thorough: 4) of 9 shapes each: nested, shared, cyclic and mutually referring lists, references before, after and without a description, texts, images, sounds, constants, numbers all finite doubles; entities: position all finite doubles or multiples of 1/4, size multiples of 1/64, heading all 16-bit integers, 3 colours, 0..2 costumes × 4 active ones, either entity called Stage; refusal: every double at 8 places", entries=[E("values", shards=[9]), E("looks", shards=[2,3]), E("refused", shards=[8])]),
 "P23": dict(feature="p23", bounds="all sequences of 6 operations (thorough: 7), values all 64-bit, kept subsets symbolic; reading with every key handed out and any generation of every slot", entries=[E("slots", shards=[5,5,5])]),
 "P24": dict(feature="p24", bounds="maps: 0..3 (thorough: 4) insertions or changes, keys all 32-bit integers, values all 64-bit, then a lookup of any key; maps of 4..6 given keys: one (thorough: two) such insertions; tables: 3 (thorough: 4) operations on two tables, names of one or two characters (one arbitrary), values all 16-bit integers", entries=[E("sorted", shards=[2,5]), E("unsorted", shards=[2,5]), E("many_sorted", shards=[3,2]), E("many_unsorted", shards=[3,2]), E("symbols", shards=[3,2,4])]),
 "P25": dict(feature="p25", bounds="4 nestings of pairs of 9 kinds of values (numbers all finite doubles); 6 kinds of values that cannot leave at 4 depths; JSON: 3 nestings of pairs of 10 kinds, numbers every double, every 32-bit integer and 4 large ones; contents of 0..4 bytes, one (thorough: two) arbitrary at each position; names with one (thorough: two) arbitrary printable ASCII character; 5 centers; 10 patterns of texts with one or two arbitrary characters; 14 foreign forms in 4 places", entries=[E("inside"), E("leaving"), E("json"), E("arriving"), E("contents", shards=[5]), E("names", shards=[4,3]), E("texts", shards=[10]), E("variants")]),
 "P26": dict(feature="p26", bounds="every property set and changed by: a symbolic double (those that are not modulo 360), a symbolic multiple of 1/8 with numerator of 16 bits (a whole symbolic 16-bit number for turning properties; 9 listed amounts when changed), a number as text, a symbolic boolean, text that is no number, a list; from 1-4 listed old values (ends of the range, fractions, near overflow), with symbolic values in the neighbouring properties and every property read back; clearing effects and going to symbolic doubles; steps of symbolic halves up to 3.5 at right angles (tolerance 1e-6), 11 listed slanted directions from 4 listed places (tolerance 1e-9)", entries=[E("values", shards=[23]), E("others"), E("steps"), E("directions")]),
 "P27": dict(feature="p27", bounds="one symbolic channel (every byte) with the two others from 6 x 6 listed bytes (thorough 8 x 8) and 3 opacities; pen colors as numbers with any one byte symbolic in 5 listed numbers, parts compared within 0.001; hues: all whole degrees from -400 to 1023, 8 listed pairs of saturation and brightness in and out of range, 5 opacities, compared within 0.6 of a level", entries=[E("there_and_back", shards=[6, 6]), E("numbers", shards=[5]), E("others"), E("wheel", shards=[2, 8])]),
 "P28": dict(feature="p28", bounds="names: any ASCII letter or sign, 11 listed accidentals, 14 listed octaves (out of range up to 99999999999), octave first or last, with and without spaces; one symbolic character below U+0800 in 4 places of a name; numbers: symbolic 16-bit integers and quarters, 5 listed huge numbers, 11 listed texts, lists of 3; symbolic beats; names and frequencies of 15 listed notes (tolerance 1e-9)", entries=[E("names", shards=[11]), E("strangers"), E("played", shards=[2, 8]), E("rests"), E("faces")]),
 "P29": dict(feature="p29", bounds="three sets of handlers joined either way, each absent, taking all, taking one kind or declining; 5 kinds of requests and 14 of commands with symbolic doubles; sequences of 5 completions and polls with symbolic 64-bit values, and of 5 idle or busy steps with limits 0-3 (thorough 7)", entries=[E("requests", shards=[4,4]), E("commands", shards=[4,4]), E("results"), E("idling", shards=[4,6])]),
 "P30": dict(feature="p30", bounds="scripts with 3 operations (thorough 4) out of 10 (assigning, declaring, showing, hiding, pausing, calling) at top level, in a closure, on another sprite, and without the variable, with one symbolic byte, inside a frame of fixed operations, next to a second script; single processes with a symbolic double", entries=[E("watching", shards=[4,10]), E("alone")]),
 "P31": dict(feature="p31", bounds="lists of 0 to 3 costumes or sounds, one listed twice, names in the list unlike those of the images; sequences of 2 (thorough 3) blocks out of 10, on the script's own sprite, another and a clone; slots filled with a text with a symbolic letter (in 4 surroundings), the item at a symbolic position, an image from elsewhere, none and values of other kinds", entries=[E("costumes", shards=[3,10]), E("sounds", shards=[2]), E("kinds")]),
 "P32": dict(feature="p32", bounds="angles up to 32 degrees to either side of -180..270 by quarters, in 256 (thorough 4096) steps; inverses of -2..2, points of one fixed and one varying coordinate, logarithms of -64..128 to four bases, likewise; whole bases -128..127 with powers -1, 0.5 and 0..6; powers of 2 by -4096..4095; logarithms of whole powers 0..4 of -16..239; five whole and three real ranges to draw from, in either order, for every sequence of draws, and seven ranges at evenly spread draws; lists of two", entries=[E("circle"), E("inverse"), E("point"), E("power"), E("power_range"), E("logarithm"), E("log_base"), E("chance"), E("chance_spread"), E("chance_wide"), E("chance_real"), E("chance_lists")]),
 "P33": dict(feature="p33", bounds="48 one-operand blocks, 34 two-operand blocks, 47 statements; operands of 14 kinds: 8 listed halves (all branches symbolic) or 4 listed numbers as the second, texts of one arbitrary ASCII character, empty text, boolean, lists empty, flat, ragged, cyclic, closure, sprite, image, sound, a native object, 1e19; ranges, reshapes, repetitions and waits of 1e19 are left out", entries=[E("of_one", shards=[48]), E("of_two", shards=[34]), E("acts", shards=[47])]),
 "P34": dict(feature="p34", bounds="14 reporters and 6 commands without meaning and 9 controls; 5 numbers of slots of 4 native blocks as reporter and command, with and without location; 10 type tests; 14 hats; 16 places of reporters, 9 of commands, in 4 kinds of code; keys of up to 3 arbitrary ASCII characters, alone or after each of 7 names; words of 4..11 arbitrary small letters and spaces; 5 characters followed by any character", entries=[E("blocks"), E("native"), E("kinds"), E("hats"), E("words", shards=[8]), E("pairs", shards=[5]), E("keys")]),
 "P35": dict(feature="p35", bounds="6 ways of starting a script from outside × 12 ways in which it starts up to 4 others, two marks of any byte each; a script that sends its own message, to 3 groups, waiting or not; projects of 1 to 3 sprites, position any 16-bit integer, heading any byte", entries=[E("lines"), E("itself"), E("sprites")]),
 "P36": dict(feature="p36", bounds="8 menus of up to 8 entries and 3 levels with a label or value of up to 4 characters, one any printable ASCII character or one of 6 control characters, in 3 surroundings, and 4 characters beyond ASCII; up to 3 omitted elements likewise; 6 intervals; 3 servers", entries=[E("menus"), E("settings")]),
 "P37": dict(feature="p37", bounds="3 offsets; no cache or one of 3 precisions; every sequence of 4 (thorough: 5) readings of 3 precisions and updates; the real time arbitrary in its nanoseconds, 5 steps between readings, back and forth; 2 results with 3 keys each, every sequence of 5 (thorough: 6) polls and completions", entries=[E("clock", shards=[3,4]), E("keys", shards=[2])]),
 "P38": dict(feature="p38", bounds="std_system.rs with a deterministic single-threaded executor and stand-ins for connections and requests; starting: 3 forms of server address, named and unnamed projects; up to 2 (3) messages sent, 3 kinds, 4 sets of receivers, 6 kinds of characters in types and names; every pair (triple) of 18 packets or injected messages received; two messages awaiting replies and every history of 6 (8) events (a reply for either, time passing, polling either) at every time to the nanosecond; two calls, 14 x 4 answers with any printable character in them, both orders; 5 kinds of requests and a command by handlers that take all, none or are not there, with any 32-bit number; 17 blocks and both ways to turn to a sprite, alone, with the sprite in a variable of itself, and run by a clone that is in one of its original", entries=[E("starting"), E("sending", shards=[2,2,3]), E("hearing", shards=[18]), E("replies", shards=[2,4]), E("calls", shards=[14,4]), E("handlers", shards=[3,3]), E("blocks"), E("to_sprite")]),
}
