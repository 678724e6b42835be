"""The properties, as written to properties.jsonl."""
ALL = []; NA = {}
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = list(observe)
    ALL.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
    if na: NA[id] = na

P('C01', 'Decoding reverses encoding exactly',
  'Whatever sequence of bits (each with its own probability) and rare events is encoded, in any mix and length, a decoder '
  'given the produced bytes and the same probabilities in the same order returns exactly that sequence, without panicking on either side. '
  'No carry and no delayed byte is lost or duplicated, finishing the encoder flushes everything, and the decoder consumes exactly the bytes that were written.',
  ['inputs', 'histories'], 'every admissible coder state, every probability in 1..2^23-1, every event kind and value, every carry/delay configuration',
  'The tests encode a few pseudo-random sequences of at most 8000 events; carries into long runs of 0xff bytes, extreme probabilities at the '
  'smallest interval widths and two rare events in a row are reached rarely or never, and the statement is about all interval states.',
  ['src/coding/encoder.rs', 'src/coding/decoder.rs', 'src/coding/mod.rs'],
  [('interval split, carry, delayed byte and 0xff run', 'src/coding/encoder.rs: encode_bit, encode_rare_event, normalize, output_byte, add_with_carry, drop'),
   ('window, interval split, refill', 'src/coding/decoder.rs: new, decode_bit, decode_rare_event, normalize, input_byte')],
  [('interval base/width', '31-bit interval still to be coded', 'src/coding/encoder.rs'), ('pending digits', 'last byte, run of 0xff and a carry not yet written', 'src/coding/encoder.rs')],
  ['bytes reaching the writer', 'values returned by the decoder'])

P('C02', 'Each context is mixed with exactly its own evidence',
  'For every context, from the lowest order up, the mixer receives exactly these inputs, each a probability with its own stretched value: the result for the next lower order (one half for the first); '
  'for a context always followed by the same bit: the table prediction for its occurrence count, the fixed prediction whose stretched value is 2, and the adaptive estimate kept at that order for its quantized occurrence count and the bits of the unfinished byte; '
  'for any other context: the prediction of its own estimator and the adaptive estimate kept at that order for the quantized length and the bit of its last run. Situations equal in these respects share an estimate, others never do. '
  'Contexts of different orders or kinds, edges with different repeated bits, and the highest and a lower order never share a mixer.',
  ['inputs', 'histories'], 'every collection of contexts with any counts, distances, runs, estimators and trackers, and every unfinished byte',
  'No test looks at what is mixed: a wrong run length, a stale neighbour or a probability paired with the stretched value of another only makes predictions worse.',
  ['src/predictor/chain.rs', 'src/predictor/single.rs', 'src/predictor/kits.rs'],
  [('inputs of the mixers', 'src/predictor/single.rs: SingleContextPredictor::predict'), ('selection of learners', 'src/predictor/kits.rs, src/predictor/chain.rs: ContextsChainPredictionMixer::predict')],
  observe=['inputs given to mixers', 'which learner is asked'])

P('C03', 'A failing writer or a reader that fails or ends stops coding; no byte is lost',
  'If the writer reports a failure, or the reader fails or ends before a byte the coder needs, the operation in progress (encoding an event, finishing the stream, decoding an event, creating a decoder) panics instead of returning, and touches the reader or writer no further. '
  'An operation that returns has handed every byte it owed to the writer exactly once, also when the writer takes fewer bytes than offered, and has shifted in no byte it did not read. Nothing but such a failure makes an operation panic.',
  ['fault_sequences', 'inputs'], 'every coder state, probability and event, with a fault at any read or write of the operation',
  'Tests code into and out of memory, where nothing ever fails, is short or is truncated.',
  ['src/coding/encoder.rs', 'src/coding/decoder.rs'],
  [('all output', 'src/coding/encoder.rs: output_byte, drop'), ('all input', 'src/coding/decoder.rs: input_byte, new')],
  [('writer', 'accepts, shortens or refuses bytes', 'src/coding/encoder.rs'), ('reader', 'delivers bytes, ends or fails', 'src/coding/decoder.rs')], ['bytes written', 'panics', 'events decoded'])

P('C04', 'Results depend on nothing but the input; predictors do not affect each other',
  'Two predictors fed the same bits give the same predictions, and two encoders or decoders given the same events and probabilities the same bytes and events, whenever, wherever and in whichever thread they are created and however their use is interleaved with that of others. '
  'Building the look-up tables and creating or running predictors, coders, history sources and random generators consults no clock, environment, file, process or thread state, randomised hash, hash-map order or memory address, and no mutable global or thread-local state; '
  'the tables that predictors share cannot be changed through a shared reference; prediction and coding steps call no transcendental floating-point function.',
  ['inputs', 'schedules', 'histories'], 'every function reachable from the operations, in every interleaving of instances',
  'Tests run one instance at a time in one process; a dependence on another instance, thread, run or machine does not show in them.',
  ['src/predictor/', 'src/coding/', 'src/lut/', 'src/history/', 'src/mixing/', 'src/random/mod.rs'],
  [('all state owned by the predictor', 'src/predictor/mod.rs: Predictor'), ('immutable shared tables', 'src/lut/mod.rs: LookUpTables'), ('state owned by the coder', 'src/coding/encoder.rs, src/coding/decoder.rs')],
  observe=['predictions of two instances fed alike', 'bytes written'])

P('C14', 'Fixed-point arithmetic rounds to nearest, is exact otherwise, never wraps',
  'Changing the precision of a fixed-point value, multiplying two values, and dividing a value by a positive integer give the mathematically exact result rounded to the nearest '
  'representable value, halves away from zero, for every operand the types admit; sums, differences, negation, flipping (one minus the value) and signedness changes are exact. '
  'When the rounded result is not a value of the target type the operation panics (or, for final probabilities, clamps to the nearest legal one) and it never panics otherwise. A type reports as its unit in the last place the smallest positive value it can represent.',
  ['inputs'], 'every pair of fixed-point types in the crate, every raw operand value, every shift and divisor',
  'Unit tests look at a dozen logarithms; rounding direction, ties, negative operands, and the ends of each integer range are never compared with the exact value.',
  ['src/fixed_point/mod.rs', 'src/fixed_point/types.rs'],
  [('rounding shifts and divisions', 'src/fixed_point/mod.rs: fix_i16/fix_u16/fix_i32/fix_u32/fix_i64/fix_u64'), ('conversions, products, sums', 'src/fixed_point/mod.rs: FixI32/FixU32/FixI64/FixU64, mul, mul_wide'),
   ('flip, to_signed, to_unsigned', 'src/fixed_point/types.rs')], observe=['raw values of results', 'panics'])

P('C07', 'Estimators stay inside (0,1), move by the documented step and count honestly',
  'A fresh bit estimator predicts one half and has been used zero times; building one from a prediction and count keeps both, pulling the certain predictions 0 and 1 strictly inside (0,1); predictions finer than 22 bits and counts beyond 1000 are refused. '
  'Every update moves the prediction of bit 0 towards the observed bit by the distance divided by count + 2 (rounded to its 22 bits), never reaching 0 or 1 and never overshooting, and raises the count by one up to 1000. '
  'A fixed-speed estimator starts at the given non-zero value (one half by default), moves by one 128th of the distance (rounded down) and never leaves (0,1). A cost tracker forgets one sixteenth (rounded) of what it holds, adds the new cost and saturates; its '
  'per-bit update charges the cost of the observed bit under the given probability. The tables for new tree nodes (estimator, cost tracker, prediction of a run) hold exactly '
  'what results from feeding a fresh estimator or tracker the run and then the opposite bit, for every run length up to 1000, and exchanging the roles of 0 and 1 mirrors the result.',
  ['inputs', 'histories'], 'every prediction, count, bit, cost and run length 0..1000',
  'Tests feed estimators with runs and random bits; the extreme predictions, counts at the limit combined with extreme predictions, saturation of costs and the exact rounding of each step are not enumerated.',
  ['src/estimators/decelerating.rs', 'src/estimators/fixed_speed.rs', 'src/estimators/cost.rs', 'src/lut/estimator.rs', 'src/lut/cost.rs'],
  [('packed prediction and count', 'src/estimators/decelerating.rs: make, update'), ('fixed-speed step', 'src/estimators/fixed_speed.rs: update'), ('decaying cost', 'src/estimators/cost.rs: updated, updated_on_bit'),
   ('tables for new nodes', 'src/lut/estimator.rs, src/lut/cost.rs')], observe=['prediction, usage count and raw cost after each operation'])

P('C08', 'Mixers compute the weighted sum and move each weight by the documented step',
  'A new mixer has all weights zero, or weight one for the first input only, or equal weights summing to one (to within one unit of precision per weight). In every step each input must be set exactly once before '
  'the mixer is mixed, read or updated, and setting an input twice, setting one beyond the size, or mixing, reading or updating with an input missing is refused with a panic. Mixing returns the sum of weight times stretched input '
  '(each product rounded to 40 fractional bits), limited to +-12 and rounded to 21 bits, together with the squash of exactly that value, and leaves the weights alone. Updating moves every weight by its input times the error of the mixed '
  'probability times half the current learning rate (each product rounded), up for bit 0 and down for bit 1, limited to +-8, and raises the learning-rate index by one up to the given maximum, which may not exceed 1000; afterwards a new step can start. '
  'Fixed-size and growable mixers of the same size behave alike.',
  ['inputs', 'histories'], 'every mixer kind, every weight in +-8, stretched input in +-12, mixed probability, learning-rate index and bit',
  'Tests check convergence and symmetry on simulated inputs; weights and sums at their limits, the index at its cap, rounding, and every order of setting inputs are not enumerated.',
  ['src/mixing/mixer.rs'],
  [('weights, inputs and set mask', 'src/mixing/mixer.rs: MixerN, fixed_size_mixer!'), ('weighted sum', 'src/mixing/mixer.rs: mix_all, common_mix'), ('error-driven update', 'src/mixing/mixer.rs: update_and_reset, common_update')],
  [('weights', 'one signed weight per input', 'src/mixing/mixer.rs'), ('input set mask', 'which inputs were set in this step', 'src/mixing/mixer.rs')],
  ['returned probabilities, weight() and panics'])

P('C09', 'Adaptive maps interpolate two entries and update exactly those two',
  'A new adaptive probability map is the identity: in every context each entry is the squash of its stop. Refining a probability given in consistent squashed and stretched form selects the interval holding it (in the given context) and returns the mean of the '
  'entries at both ends, weighted by how far the input lies between the two stops, the weights summing to one and each product rounded; the result lies strictly between 0 and 1. The update that follows moves exactly those two entries, each towards the observed '
  'bit by its weight (one half each when fixed weights are asked for) times its distance divided by 2^rate, keeps them strictly between 0 and 1, leaves every other entry of every context alone, and makes the map ready for the next refinement. '
  'Refining twice, updating without refining, a context out of range, a weighting table of another resolution and rates outside 1..29 are refused with a panic; correct use never panics.',
  ['inputs', 'histories'], 'every entry value, input position, context, rate 1..29, weighting mode and bit',
  'Tests check convergence and symmetry at a few rates; entries at the ends of the range, exact ties in rounding, neighbouring contexts and the edges of each interval are not enumerated.',
  ['src/mixing/apm.rs', 'src/lut/apm.rs'],
  [('interval selection and interpolation', 'src/mixing/apm.rs: refine'), ('update of the two entries', 'src/mixing/apm.rs: update_predictions, update_single_entry'), ('weighting table', 'src/lut/apm.rs')],
  [('mappings', 'entries of all contexts', 'src/mixing/apm.rs'), ('saved index and weight', 'what the last refinement used', 'src/mixing/apm.rs')],
  ['refined probabilities and panics'])

P('C10', 'Packed bit histories record exactly the bits seen',
  'A recent-bits history is a leading one followed by the bits seen so far in order; appending a bit keeps at most the 15 newest, the reported last seven bits (with the leading one when fewer were seen), the histogram of zeros and ones, and validity all describe '
  'exactly that sequence; a history made for a run of one bit holds that many copies (at most 15), and the one made for a new node holds the run of the opposite bit followed by the new bit. A runs tracker holds the last bit and the lengths of the last three runs: '
  'a repeated bit lengthens the newest run (saturating at 1000), the opposite bit starts a run of one and shifts the older lengths back, the single-run flag is set exactly when no older run is recorded, and trackers made for a run or a new node agree with that.',
  ['inputs', 'histories'], 'every recent-bits history up to 15 bits, every runs tracker, every run length and appended bit',
  'Tests replay a handful of short sequences; all 2^16 histories, the drop of the oldest bit and runs saturating at 1000 are not enumerated.',
  ['src/history/state/recent_bits.rs', 'src/history/state/bits_runs.rs'],
  [('append, last bits, histogram', 'src/history/state/recent_bits.rs'), ('run lengths', 'src/history/state/bits_runs.rs')],
  [('packed word', 'bits or run lengths of one context', 'src/history/state/')], ['every accessor of the two trackers'])

P('C11', 'The last-bytes cache reports and hashes exactly the recent bytes',
  'After any number of bytes and bits, the unfinished byte is a leading one followed by the bits of the current byte, the three previous-byte queries return the last three complete bytes in order of age (zero before any was seen), the order-1 context is a leading one, '
  'the previous byte and then the bits of the current byte, and the order-2 and order-3 contexts are the 16-bit folded FNV-1a hashes of the previous two or three bytes, oldest first, followed by the unfinished byte. Bits, context queries between bytes, and a new byte before the previous '
  'one is complete are refused with a panic; correct use never panics.',
  ['inputs', 'histories'], 'every content of the cache, every bit position, every bit',
  'Tests replay a few fixed byte strings and compare the queries with one other implementation of themselves; every combination of history bytes and unfinished bits is not enumerated.',
  ['src/util/last_bytes.rs', 'src/util/hash.rs'],
  [('appending bits and bytes', 'src/util/last_bytes.rs'), ('hash', 'src/util/hash.rs')], [('previous bytes', 'the last complete bytes', 'src/util/last_bytes.rs'), ('unfinished byte', 'bits of the current byte', 'src/util/last_bytes.rs')],
  ['contexts used by the finalizer'])

P('C12', 'Array indexers and count quantizers are exact and injective',
  'An array indexer for one to six dimensions computes the mixed-radix number of the given sub-indices (the last one varying fastest), so different sub-indices never share a slot, the index is always below the reported array size, and that size is the product of the dimensions; it is ready '
  'for the next round after the index is taken. A sub-index not below its dimension, too few or too many sub-indices, a wrong number of dimensions, a size asked for in the middle of a round and one beyond the machine word are refused with a panic; correct use never panics. The count quantizer maps counts below two to themselves and larger counts to their bit length and '
  'second highest bit, never decreases as the count grows, and its reported maximum is exactly the largest output for the given maximum input.',
  ['inputs', 'histories'], 'every list of dimensions and sub-indices; every count up to every declared maximum',
  'Tests use small fixed dimensions and a quantizer test that asserts little; collisions and off-by-one maxima at unusual sizes are not looked for.',
  ['src/util/indexer.rs', 'src/util/quantizers.rs'],
  [('mixed radix accumulation and checks', 'src/util/indexer.rs'), ('bit length and second bit', 'src/util/quantizers.rs')], [('partial index', 'sub-indices added so far', 'src/util/indexer.rs')],
  ['indices into mixer and map arrays'])

P('C16', 'The input window is a faithful ring buffer',
  'A window holds the last bytes in a ring: a new one is empty and starts at the given shift; advancing the cursor appends a zero byte after the newest byte and advancing the start drops and clears the oldest byte, wrapping at the maximum size, and neither changes any other byte; '
  'the cursor can never run into the start nor the start past the cursor (both are refused). Setting a byte or one bit at the cursor changes exactly that. Index addition, subtraction, increment, decrement and difference are modulo the ring, ordering of indices is by age, '
  'bit reads and byte comparisons look at exactly the given bit, and prefix comparison holds exactly when all full bytes and the leading bits above the given position are equal, also across the wrap. Visiting the suffixes calls the action once for each byte held, from the oldest to the newest, and never for an empty window.',
  ['inputs', 'histories'], 'every maximum size, start, fill level, shift, index, byte content, and compared length up to 2 (thorough 4), longer ones at chosen positions',
  'Tests slide one window of a few sizes over short inputs through the tree and compare it with another history source; wrap positions, full windows and comparisons across the wrap are hit by chance.',
  ['src/history/window.rs'],
  [('moving start and cursor', 'src/history/window.rs: advance_cursor, advance_start'), ('ring arithmetic', 'src/history/window.rs: index_add, index_subtract'), ('prefix comparison', 'src/history/window.rs: compare_for_equal_prefix')],
  [('buffer, start, cursor, size', 'the ring', 'src/history/window.rs')], ['bytes and bits read back'])

P('C05', 'Predictions and updates strictly alternate inside bytes',
  'The predictor accepts exactly the histories in which a byte is started, then eight times a prediction is followed by one update. Starting a byte inside a byte or between a prediction and its update, predicting outside a byte, predicting twice without an update and updating without or twice for a prediction are refused with a panic, '
  'before and after any legal history, and legal histories never panic in the predictor itself, in the mixing of the contexts chain, or in the final refinement. The contexts chain mixing, and any set of estimators or mixers with an indexer, on their own also refuse a second prediction (over contexts of the same kinds) without an update, and an update without or twice for a prediction, whenever there is a context.',
  ['histories', 'inputs'], 'every bit sequence, every state reachable at a byte or bit boundary, every kind and number of contexts up to three orders',
  'Tests drive components in the right order only; the missing refusal or the spurious panic after a rare history is not exercised.',
  ['src/predictor/mod.rs', 'src/predictor/chain.rs', 'src/predictor/kits.rs', 'src/predictor/single.rs', 'src/predictor/post_process.rs'],
  [('pending prediction', 'src/predictor/mod.rs: final_probability_opt'), ('selected index and result', 'src/predictor/kits.rs: index_opt, mixing_result_opt'), ('byte position', 'src/util/last_bytes.rs: bit_index')],
  [('pending predictions', 'options set by predict and cleared by update', 'src/predictor/')], ['panics'])

P('C06', 'Every update teaches exactly what the last prediction used',
  'A prediction gathers the contexts into an empty collection, mixes them from the lowest to the highest order, each order having learners of its own and taking the result of the next lower order as an input (one half with stretched value zero below the lowest), and refines the result of the highest order; the refined value is the prediction, strictly between zero and one '
  'and, like every value given to a map to refine, between the lowest and highest of the mixed and the refined probabilities up to rounding. Nothing learns during a prediction. The update then teaches the coded bit, exactly once each, to exactly the mixers, estimators and adaptive maps that the prediction used, in the same contexts and with the results they gave, passes the history source the same bit and the cost trackers '
  '(one per node context, in order, each following from that context and its own predictions), gives the statistics the predicted probability and the same contexts, and only then advances the last bytes by that bit. A set of estimators or mixers with an indexer on its own likewise teaches exactly the member that predicted, whichever it is.',
  ['histories', 'inputs'], 'every bit, probability, context content, kind and number of contexts up to three orders, every bit position',
  'An update that teaches a neighbouring slot, uses an already advanced context, or feeds a stale value only worsens compression: every test still passes.',
  ['src/predictor/mod.rs', 'src/predictor/chain.rs', 'src/predictor/kits.rs', 'src/predictor/single.rs', 'src/predictor/post_process.rs', 'src/mixing/apm.rs'],
  [('order of steps and data passed', 'src/predictor/mod.rs: predict, update'), ('chain of orders', 'src/predictor/chain.rs: predict, update'), ('slot selection', 'src/predictor/kits.rs'), ('refinement and its update', 'src/predictor/post_process.rs')],
  [('selected slots', 'indices remembered between predict and update', 'src/predictor/kits.rs')], ['predictions', 'values passed to learners'])

P('C13', 'The state of a context follows exactly the bits seen in it',
  'A context seen once is an edge at its distance, seen once and repeating its bit. An edge followed by its repeated bit counts one more occurrence (up to 1000) at the new distance; followed by the opposite bit it becomes a node holding exactly what the tables and trackers for a new node give for '
  'that bit after that many repetitions, with the same cost for both trackers. A node takes each further bit into its estimator, its recent bits and its runs, keeps the given updated cost trackers, and reports the new distance. Updating a node without cost trackers or an edge with them is refused. '
  'The views of a context (kind, distance, occurrence count, recent bits, estimator) agree with it, making its trackers neutral changes nothing else, and the collection handed to the predictor holds what was added, in order, at most one context per order. A tree node reports what it was made of and takes a bit by the same rule, '
  'counting it (up to 1000) in its own direction only; depths of 65536 and more, positions beyond 31 bits and invalid recent bits are refused.',
  ['inputs', 'histories'], 'every edge count and bit, every node content, bit, distance and cost tracker',
  'Tests compare sources with each other, and all of them share this code: a transition that is wrong at one count or loses one field changes all sources alike and is not noticed.',
  ['src/history/mod.rs', 'src/history/tree/node.rs'],
  [('transition of a context', 'src/history/mod.rs: ContextState::next_state, starting_state'), ('update of a node', 'src/history/tree/node.rs: update_on_next_bit')],
  [('context state', 'what is known of one context', 'src/history/mod.rs')], ['contexts handed to the predictor'])

P('C17', 'The node pool never hands out a slot in use and references keep their kind',
  'A reference made of a window position is read back as that position and never as a node, one made of a node number as that node and never as a position; the root, positions and node numbers that do not fit are refused, and so is reading a reference as the other kind. A bit selects the child of its own direction and the opposite direction the other one. '
  'Adding a node to the pool stores it in a slot that is not in use: a deleted slot while there is one, otherwise a new one at the end, and adding to a full pool is refused. Adding, changing and deleting a node leaves all other nodes as they were; the number of live nodes is that of the nodes added and not deleted. A new pool has no live node, and one without room for the root is refused.',
  ['inputs', 'histories'], 'every position and node number; every order of up to three (thorough four) deletions and additions, and any two deletions in a pool of any size',
  'Tests slide one window over a few inputs; slots deleted in unusual orders and reused, a pool exactly full and references at their limits are hit by chance.',
  ['src/history/tree/nodes.rs', 'src/history/tree/node_child.rs', 'src/history/tree/direction.rs'],
  [('free list', 'src/history/tree/nodes.rs: add_node, delete_node'), ('packed reference', 'src/history/tree/node_child.rs')],
  [('deleted slots', 'chain of slots to be used again', 'src/history/tree/nodes.rs')], ['node contents, slots returned, live node count'])

P('C18', 'Each step of the history tree keeps nodes, contexts and window in step',
  'Gathering yields one state per active context, lowest order first: at a node exactly that node with the distance of its last occurrence, inside an edge the number of passages over the edge and the bit which followed the last occurrence (nothing if the edge was never passed), and while all bytes agree one edge repeating that byte at distance one for every order that fits. '
  'Recording a bit sets it in the newest byte and, for every active context from the highest order down: at a node the node takes the bit and the given cost trackers, the context follows the child of that bit, remembering its last occurrence, and that child now refers to the current one; inside an edge followed by the same bit nothing changes; inside an edge followed by the opposite bit, '
  'the edge is split by a new node counting the passages so far, and that and all higher orders stop being active. The first byte to differ from all others makes one branching node per order that fits. Starting a byte appends to the window, forgetting the oldest suffix first when the window is full: its leaf and the node above it go, '
  'its sibling takes their place together with the contexts there, and nothing else changes (when the leaf belongs to a younger suffix only the contexts last seen there end); then every active context is one order longer, up to the highest, and the root, with as many visits as it has counted (up to 1000), is the lowest. '
  'Bits outside a byte and a byte inside a byte are refused; correct steps on a consistent tree do not panic.',
  ['inputs', 'histories'], 'one step from every consistent state of the listed shapes: node contents, counts, positions, distances, window sizes and fill levels symbolic, up to two active contexts (thorough three), the listed bit positions',
  'Tests compare the tree with slower sources on short inputs of a few patterns; splits of inner edges at a full window, removals next to active contexts and wrap-around positions occur rarely and only their later effect is seen.',
  ['src/history/tree/mod.rs', 'src/history/tree/context.rs', 'src/history/tree/node.rs', 'src/history/tree/nodes.rs', 'src/history/window.rs'],
  [('gathering', 'src/history/tree/mod.rs: gather_states'), ('recording a bit and splitting edges', 'src/history/tree/mod.rs: extend, split_edge; src/history/tree/context.rs: descend'), ('removing the oldest suffix', 'src/history/tree/mod.rs: remove_leftmost_suffix'), ('longer contexts', 'src/history/tree/context.rs: shift')],
  [('active contexts', 'place of the current suffix of each order in the tree', 'src/history/tree/context.rs'), ('tree nodes', 'branching suffixes', 'src/history/tree/nodes.rs')], ['gathered contexts after any number of bytes'])

P('C19', 'Statistics account every coded bit and byte exactly once, at its own cost',
  'For every coded bit the statistics add the cost of that bit under the prediction once to the total cost and to the cost of the current byte, whether or not any context was available, and the number of gathered contexts to the total number of contexts. With at least one context the bit is counted once, with its cost and the occurrence count of the longest context, in the class given by that context\'s order (4 and more alike) '
  'and the number of contexts which are edges (4 and more alike); the occurrence count goes to the same class as the count and the cost. No other counter changes. Starting a byte counts it, credits the byte just finished and its cost to the value of that byte (the first byte start credits nothing) and starts the next byte at cost zero; starting one inside a byte is refused. New statistics have counted nothing. '
  'The estimated cost of a bit is minus the binary logarithm of its own probability (p for a zero bit, 1-p for a one bit), computed from the position of the leading one and the table entry for the leading 12 bits; it can be computed for every probability and is always positive. '
  'What is printed are these values: the total cost in bytes, the average number of contexts per bit, for each class its count and cost in bytes and its mean occurrence count, for each symbol shown its count and its cost in bytes.',
  ['inputs', 'histories'], 'one step from any earlier statistics; every prediction; 0 to 21 contexts; every probability for the cost of a bit',
  'No test looks at the statistics; the cost estimate is also what the cost trackers of the predictor learn from, and a wrong branch or exponent only makes predictions worse.',
  ['src/predictor/stats.rs', 'src/coding/mod.rs', 'src/lut/log2.rs'],
  [('accounting of bits and bytes', 'src/predictor/stats.rs: on_next_bit, start_new_byte'), ('cost of a bit', 'src/coding/mod.rs: FinalProbability::estimate_cost; src/fixed_point: log2')],
  [('statistics', 'counts and costs so far', 'src/predictor/stats.rs')], ['statistics printed at the end', 'cost trackers'])

P('C20', 'The program codes every byte of its input once and reports exactly that cost',
  'Run with a file name, the program reads that file to its end and, byte by byte in order, starts the byte in one predictor and for each of its eight bits, highest first, asks for one prediction and then gives it that bit. The total cost printed is the sum over all bits of minus the binary logarithm of the probability given to the bit that came (p for a zero bit, 1-p for a one bit), '
  'in bits and, divided by eight, in bytes; the input length printed is the number of bytes, the average cost the total cost in bits divided by it, the compression ratio eight times it divided by the total cost. A missing file name, a file which cannot be opened and an error while reading end the program with a failure, and no figures are printed.',
  ['inputs', 'fault_sequences'], 'every value of a byte and every prediction; files of up to three bytes; a failure at the opening or at any read',
  'There is no test of the program; a swapped bit, a byte skipped or a read error taken for the end of the file gives plausible figures.',
  ['src/main.rs'],
  [('coding loop and report', 'src/main.rs: estimate_compression, main')],
  [('input file', 'bytes to be coded', 'src/main.rs')], ['figures printed'])

P('C21', 'Look-up tables are read at the right grid points, interpolated and symmetric',
  'Stretching a probability between 0 and 1 and squashing a stretched probability from -12 to 12 never panic and give, to within one unit in the last place, the mean of the table entries of the two neighbouring grid points weighted by the distance from them, and exactly the entry at a grid point: for squash the grid points are 1/128 apart, for stretch there are 512 per power of two of the probability (the last level reaching down to 2^-17, below which the value there is kept), and one half is stretched to zero. '
  'Stretching the opposite probability gives exactly the negated value and squashing the negated value exactly the opposite probability. Each entry of the stretch table is ln 2 times the difference of the binary logarithms of its own grid point and of the opposite one, each entry of the squash table is the inverse found for its own grid point for positive values and the opposite of that for negative ones. '
  'The binary logarithm of any unsigned fixed-point number is the exponent of its leading one plus the table entry for its leading 12 bits, which is the logarithm of that mantissa rounded to 11 bits; that of zero is refused, as are values outside a table. The weighting table of an adaptive map holds the squashed form of each of its stops and, per interval, the shift that brings its length into the upper half of the range and the factor for that length. '
  'Each accessor of the set of tables gives the table of its name, and the weighting table asked for by a number of index bits from 0 to 2 is that of so many bits; more are refused.',
  ['inputs'], 'every probability, stretched probability and fixed-point number; every table entry and grid point',
  'Tests compare sampled inputs with floating point within a tolerance; a wrong neighbour in one of 4096 intervals, a level boundary or a lost symmetry at one end stays below it.',
  ['src/lut/squash.rs', 'src/lut/stretch.rs', 'src/lut/log2.rs', 'src/lut/apm.rs', 'src/lut/mod.rs', 'src/fixed_point/mod.rs'],
  [('interpolating lookups', 'src/lut/squash.rs: squash; src/lut/stretch.rs: stretch'), ('grid points of tables', 'src/lut/squash.rs, stretch.rs, log2.rs, apm.rs: new'), ('logarithm', 'src/fixed_point/mod.rs: FixU32::log2, FixU64::log2')],
  [('tables', 'constant tables shared by all parts', 'src/lut/mod.rs')], ['predictions, weights and costs everywhere'])

P('C15', 'The random generator is MT19937-64 and its real numbers keep their intervals',
  'A generator made from a number or from a key of at least one word has exactly the 312 words of the reference initialisation of MT19937-64 for it (the default one that for 5489). Drawing returns the words in order, tempered as defined, and after every 312 draws renews all of them by the defined recurrence; nothing else changes the words. '
  'A 63-bit number is the top 63 bits of one draw, never negative. The three kinds of real numbers are the top bits of one draw scaled to [0,1], [0,1) and (0,1), and never leave that interval, the ends that are excluded included in this. Drawing never panics.',
  ['inputs', 'histories'], 'every content of the words, every seed, keys of the listed lengths, every draw',
  'One test compares 1000 outputs for one key; the real numbers at the ends of their intervals are met once in 2^53 draws, scalar seeds, other keys and most digits of most words never.',
  ['src/random/mod.rs'],
  [('seeding', 'src/random/mod.rs: new_by_scalar_seed, new_by_vector_seed'), ('renewal and tempering', 'src/random/mod.rs: next_int64'), ('scaling', 'src/random/mod.rs: next_real1, next_real2, next_real3')],
  [('words', '312 words and the position of the next', 'src/random/mod.rs')], ['numbers drawn'])

P('C22', 'All history sources yield what the earlier occurrences of each context make',
  'While no byte had to be forgotten, the tree, the naive and the map source agree: before every bit, gathering yields for the orders 0, 1, 2 and so on, up to the first order whose context (that many bytes before the current one and the bits of the current byte known so far) did not occur before, or to the highest order, exactly the state made by the earlier occurrences of the context in turn: '
  'the first starts a run of its bit, each later one adds its bit, and the distance is that of the last occurrence. Cost trackers of a context are those given with the last bit recorded for it since it saw both bits (the naive source takes neutral ones only). '
  'It makes no difference which contexts a map source hashes alike. Correct use never panics; the naive and the map source refuse a byte more than the window holds.',
  ['histories', 'inputs'], 'every history of up to the given number of bytes over the given alphabets, every order and every bit position',
  'Tests compare the sources with each other on some texts and patterns; an error common to two sources, a hash collision, or a context whose second occurrence comes at a rare place stays unseen.',
  ['src/history/tree/mod.rs', 'src/history/naive.rs', 'src/history/fat_map.rs', 'src/history/window.rs', 'src/history/mod.rs'],
  [('gathering', 'gather_history_states of src/history/tree/mod.rs, src/history/naive.rs, src/history/fat_map.rs'), ('recording', 'process_input_bit of the same files'), ('comparing contexts', 'src/history/window.rs: compare_for_equal_prefix, bytes_differ_on')],
  [('recorded bytes', 'input window of each source', 'src/history/window.rs'), ('contexts', 'tree, or map of contexts', 'src/history/tree/nodes.rs, src/history/fat_map.rs')], ['gathered states before every bit'])

P('C23', 'A sliding tree reports exactly the contexts that occurred inside the window',
  'However many bytes were recorded before, wherever the window started and however often it wrapped around: before every bit the tree yields, from order 0 up, one state for each order whose context occurred before with its first byte inside the window, up to the first that did not or to the highest order. Each has the distance of the last such occurrence; it is a node exactly when both bits followed inside the window, '
  'and otherwise an edge repeating the bit that followed, counted at least as often as it did. The integrity check of the tree passes at the start of every byte (all suffixes present, no leaf twice, children continuing their parents), and correct use never panics or runs out of nodes.',
  ['histories', 'inputs'], 'every history of the given number of bytes over the given alphabets, for windows that fill, slide and wrap',
  'Tests let two trees converge over a few repeated patterns and compare them with each other; a wrong removal that needs a certain repetition at the moment of sliding, or affects both trees alike, goes unseen.',
  ['src/history/tree/mod.rs', 'src/history/tree/context.rs', 'src/history/tree/nodes.rs', 'src/history/window.rs'],
  [('removing the oldest suffix', 'src/history/tree/mod.rs: remove_leftmost_suffix'), ('recording bits', 'src/history/tree/mod.rs: extend, split_edge; src/history/tree/context.rs: descend, shift'), ('integrity', 'src/history/tree/mod.rs: check_integrity_on_next_byte')],
  [('tree', 'suffixes in the window', 'src/history/tree/nodes.rs'), ('window', 'recorded bytes, cyclic', 'src/history/window.rs')], ['gathered contexts before every bit', 'integrity checks'])

P('C24', 'Squash, stretch and logarithm tables approximate the real functions closely',
  'The squash table and its interpolation give 1/(1+exp(-x)), the stretch table ln(p/(1-p)) and the logarithm table log2(p) with an error of at most a few units of their documented precision, and stretch undoes squash up to that error, for every input.',
  ['inputs'], 'every representable probability and stretched value',
  'Tests compare a few thousand points; the error in between depends on the rounding of each table entry.',
  ['src/lut/squash.rs', 'src/lut/stretch.rs', 'src/lut/log2.rs'],
  [('tables', 'src/lut/')], observe=['results of lookups'],
  na='the tables are filled by floating-point exp and by iterative searches; a sound static error bound needs an abstract domain of transcendental functions over floats, which is not in reach here. Grid points, symmetry, interpolation and use of the tables are decided by C21.')
