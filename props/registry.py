"""Which analysis functions decide which property."""
from harness import Part
import effects, coder, fixed, estim, mixing, apm, bytes as lastbytes, histbits, indexing, window, chain, pipeline, states, pool, tree
import stats, driver, luts, prng, faults
LIB = 'demixer.lib'; BIN = 'demixer.bin'; PRINT = 'print_histories.bin'
def lib(f): return lambda progs, rep, tier: f(progs.get(LIB), rep, tier)
def part(f, keep): return lambda progs, rep, tier: f(progs.get(LIB), Part(rep, keep), tier)
def turn(k): return any(x in k for x in ('-twice', '-first', '-pending', '/outside', '/no-panic', '/analysis', '/anchor', '/steps', 'predictor/start', 'chain/again'))
def data(k): return not turn(k) or '/analysis' in k or '/anchor' in k or '/steps' in k
TRUST = ('Trusts the MIR of rustc nightly with overflow checks on, the transfer functions of engine/ and the std models of engine/models.py. '
         'Obligations the domain cannot decide are reported as undecided in the evidence, not as violations; on the current tree none are.')
ASSUME = ['MIR emitted by rustc +nightly for the dev profile is the program (overflow and bounds checks are explicit panics in it)',
          'models of the std functions used (slices, Vec, iterators, integer intrinsics) in engine/models.py are faithful']
PROPS = {
 'C01': {'run': [('encoder-step', lib(coder.encoder_step)), ('encoder-ends', lib(coder.encoder_ends)), ('decoder', lib(coder.decoder))],
  'technique': 'abstract interpretation of MIR (polynomial/interval domain, trace partitioning) against an inductive coder invariant',
  'note': 'Inductive step, initial state and flush are decided for every encoder/decoder state admitted by the invariant and every probability and event; '
          'lengths of a delayed 0xff run are decided for the listed representative values only. ' + TRUST,
  'assumptions': ASSUME + ['the emitting loop over a delayed run of 0xff bytes is unrolled for the run lengths listed in props/coder.py RUNS'],
  'explanation': 'Each of Encoder::{new, encode_bit, encode_rare_event, drop} and Decoder::{new, decode_bit, decode_rare_event} is interpreted abstractly, '
   'with everything it calls, from an arbitrary state satisfying the coder invariant (interval inside the 31-bit window, at most one carry able to reach the pending '
   'byte, no carry able to reach a pending 0xff). Obligations: the exact integer denoted by written plus pending bytes plus interval base is updated as the code '
   'requires (no byte or carry lost), the width is the split or the remainder, both sub-intervals are non-empty, the invariant is re-established, the flush '
   'denotes a value inside the final interval, the decoder applies the same split to the same width, decides by comparing the window with it, reads one byte per byte the encoder shifts out, and nothing panics.'},
 'C02': {'run': [('evidence', lib(chain.evidence))],
  'technique': 'abstract interpretation of MIR with recorded effects: inputs given to each mixer as terms over the contexts; learner identity as access paths',
  'note': 'Inputs: decided for up to two orders (thorough three) of any contents, learners and tables being opaque functions of what they are asked. Which situations share a learner: decided for the listed counts, bytes, runs and bits with the other contents fixed. '
          'Whether the chosen evidence predicts well is not a question of this property. ' + TRUST,
  'assumptions': ASSUME + ['longer contexts chains behave like those of three orders (one loop body per order; C05 and C06 decide all 21 orders for fixed contents)'],
  'explanation': 'The mixing chain is interpreted abstractly over contexts of unknown contents; mixers, estimators and tables are replaced by recording stand-ins, so every input given to a mixer is a term over the contexts. The inputs of each order must be exactly the due ones, both halves of a pair belonging together; '
   'the access paths of the learners asked must differ for situations that must not share one and agree for those that must.'},
 'C03': {'run': [('encoder-faults', lib(faults.encoder_faults)), ('decoder-faults', lib(faults.decoder_faults))],
  'technique': 'abstract interpretation of MIR with every outcome of every read and write as a branch: fault-handling analysis of the coder',
  'note': 'Decided for every admissible encoder and decoder state, every probability and event, and a fault at each read or write of an operation; a writer that takes fewer bytes than offered does so at most twice per operation; '
          'lengths of a delayed 0xff run are decided for listed values. What finishing does while the encoder is dropped by the unwinding of an earlier failure is not decided. ' + TRUST,
  'assumptions': ASSUME + ['std write_all and read_exact report a failure whenever they did not transfer everything (their documented contract)'],
  'explanation': 'Encoder::{encode_bit, encode_rare_event, drop} and Decoder::{new, decode_bit, decode_rare_event} are interpreted abstractly from every admissible state; each call of the reader or writer branches into success, failure and, for calls that may be partial, '
   'every smaller transfer and the end of input. No path may return behind a failure or end of input, none may do input or output behind it, none may panic without one, and a returning path must have written, or still hold, every digit shifted out, or have read every byte shifted in.'},
 'C14': {'run': [('scaling', lib(fixed.scaling)), ('conversions', lib(fixed.conversions)), ('sums', lib(fixed.sums)), ('products', lib(fixed.products))],
  'technique': 'abstract interpretation of MIR: exact rounding relations over all operand values, every monomorphic instance',
  'note': 'Decided for every operand value of every instance the crate\'s types admit, every shift, and symbolic divisors. ' + TRUST,
  'assumptions': ASSUME,
  'explanation': 'Every instance of the scaling, division, conversion, product, sum, difference, negation, flip and signedness operations over the crate\'s fixed-point '
   'types is interpreted abstractly for all operand values. On every returning path the result must satisfy the two linear inequalities that characterise rounding to nearest with '
   'halves away from zero (or equality where no precision is lost); every panicking path must imply that the rounded result is not a value of the target type.'},
 'C07': {'run': [('decelerating', lib(estim.decelerating)), ('rates', lib(estim.rates)), ('fixed-speed', lib(estim.fixed_speed)), ('cost-tracker', lib(estim.cost)), ('bit-symmetry', lib(estim.symmetry)), ('new-node-tables', lib(estim.tables))],
  'technique': 'abstract interpretation of MIR: update laws over all estimator states, induction over table construction',
  'note': 'Decided for every prediction, count, bit, cost and run length through the public operations (make, update, prediction, usage_count, new, raw, table lookups). ' + TRUST,
  'assumptions': ASSUME,
  'explanation': 'The operations of the decelerating estimator, the fixed-speed estimator, the cost tracker and the tables derived from them are interpreted abstractly for all inputs. '
   'On every returning path the new prediction, count or cost must equal (or satisfy the rounding inequalities of) the documented update; no path may panic or leave the open interval (0,1).'},
 'C08': {'run': [(n, lib(getattr(mixing, f))) for n, f in (('initial', 'initial'), ('pairing', 'pairing'), ('mixing', 'mixing'), ('updating', 'updating'), ('learning-rate', 'learning_rate'))],
  'technique': 'abstract interpretation of MIR: exact weighted-sum and gradient-step relations over all weights, inputs and errors',
  'note': 'Decided for Mixer1-5 and MixerN of sizes 1 to 9, 16, 17 and 30; beyond size 5 for the first and the last two inputs. Arithmetic is decided for one input and weight at a time over their full ranges with the others at chosen '
          'constants (thorough: all at once up to size 3 for the sum). The squash lookup is an opaque function here. ' + TRUST,
  'assumptions': ASSUME + ['the arithmetic of the other inputs while one ranges over all its values is represented by fixed constants (no cross terms exist in a sum)'],
  'explanation': 'Construction, set_input, mix_all, update_and_reset and the accessors of every mixer kind are interpreted abstractly through the common Mixer interface from arbitrary weights and learning-rate index. '
   'Every returning path must produce exactly the documented sum, probability, new weights and index; every misuse (unset, repeated or out-of-range input, excessive index or maximum) must panic on every path, and correct use must not panic.'},
 'C09': {'run': [(n, lib(getattr(apm, n))) for n in ('fresh', 'refining', 'updating', 'inside', 'pairing')],
  'technique': 'abstract interpretation of MIR: exact interpolation and update relations over all inputs, entries and weights',
  'note': 'Decided for 0, 1 and 2 fractional index bits, for the intervals listed in props/apm.py (first, second, both beside one half, last; thorough: all), any two entries with any weight when the extra factor is zero, '
          'any two entries at chosen weights otherwise, and any weight and extra factor at chosen entries. The squash and the weighting table are opaque, assumed strictly increasing and normalised (checked for use, not for numeric accuracy). ' + TRUST,
  'assumptions': ASSUME + ['the squashed and stretched inputs describe the same probability and the weighting table is normalised (weight of the right entry below one inside the interval)'],
  'explanation': 'AdaptiveProbabilityMap::{new, refine, update_predictions} are interpreted abstractly from arbitrary entries. A new map must be the identity in every context; refining must return the documented weighted mean of the two bracketing entries and lie '
   'inside (0,1); updating must move exactly these two entries by the documented step, keep them inside (0,1) and change nothing else; misuse must panic on every path and correct use must not.'},
 'C10': {'run': [('recent-bits', lib(histbits.recent)), ('bits-runs', lib(histbits.runs))],
  'technique': 'abstract interpretation of MIR over all packed histories (binary-digit domain)',
  'note': 'Decided for every history length and all bit values at once (digits are symbols), every run length. ' + TRUST, 'assumptions': ASSUME,
  'explanation': 'Every operation of the two packed history trackers is interpreted abstractly from a history whose bits (or run lengths) are independent symbols, for each possible length. The packed result must equal the specified sequence, the derived views must describe it, and no path may panic.'},
 'C11': {'run': [('contents', lib(lastbytes.contents)), ('order', lib(lastbytes.order)), ('hashing', lib(lastbytes.hashing))],
  'technique': 'abstract interpretation of MIR: symbolic history bytes and bits; typestate of byte boundaries',
  'note': 'Decided for all values of three previous bytes and all prefixes of the current byte; the hash product is compared as a term. ' + TRUST, 'assumptions': ASSUME,
  'explanation': 'The cache is driven through its public operations with symbolic bits from its initial state and from a state of arbitrary previous bytes; every query must equal the specified function of these bits on every path, and every out-of-order operation must panic on every path.'},
 'C12': {'run': [('quantizer', lib(indexing.quantizer)), ('indexers', lib(indexing.indexers))],
  'technique': 'abstract interpretation of MIR: polynomial identities for all dimensions, trace partitioning over bit lengths',
  'note': 'Indexers 1 to 6 for all dimensions and sub-indices at once; quantizer per bit length. ' + TRUST, 'assumptions': ASSUME,
  'explanation': 'Indexers are interpreted abstractly with symbolic dimensions and sub-indices: the computed index must equal the mixed-radix polynomial, the size the product, the bound must follow, and every misuse must panic on every path. The quantizer is interpreted for every bit length of its input with symbolic lower bits.'},
 'C16': {'run': [(n, lib(getattr(window, n))) for n in ('creation', 'moving', 'arithmetic', 'contents', 'comparing', 'long_prefixes', 'suffixes')],
  'technique': 'abstract interpretation of MIR over symbolic ring states (array domain with symbolic stores)',
  'note': 'Decided for every maximum size, start, size and index at once, for a window whose buffer has reached its maximum and for one still growing; prefix comparison for up to 2 full bytes (thorough 4), lengths at chosen bit positions, and for lengths from 3 to 65 (thorough 100) bytes equal but for one byte at chosen positions of a full ring of 300; visiting the suffixes for up to 3 bytes held (thorough 6). ' + TRUST,
  'assumptions': ASSUME + ['window sizes below 2^40; a buffer still growing has not wrapped (the only reachable growing states)'],
  'explanation': 'Each window operation is interpreted abstractly from every reachable ring state (start, size, capacity and contents symbolic). Returning paths must leave exactly the specified start, cursor, size and bytes; refused operations must panic on every path.'},
 'C05': {'run': [('chain', part(chain.chain, turn)), ('kits', part(chain.kits, turn)), ('predictor', part(pipeline.predictor, turn)), ('finalizer', part(pipeline.finalizer, turn))],
  'technique': 'typestate by abstract interpretation of MIR: every out-of-turn call panics on all paths, no in-turn call does',
  'note': 'Decided for the predictor over two bytes of symbolic bits with the history source opaque, for the mixing chain over every mix of node and edge contexts up to three orders (thorough: some of four) of any contents and over 21 orders of fixed contents, with opaque learners, for the finalizer at each bit position; '
          'the typestates of mixers, adaptive maps, last-bytes cache and coder parts are decided by C08, C09 and C11. ' + TRUST,
  'assumptions': ASSUME + ['a set of mixers or estimators of any size behaves as its smallest one with the given indexer (they are built by one loop)', 'longer contexts chains behave like those of three orders also for other contents than the fixed ones analysed (one loop body per order)'],
  'explanation': 'Predictor::{new, start_new_byte, predict, update}, the mixing chain and the finalizer are interpreted abstractly with their learners replaced by recording stand-ins. From every state reached by a legal sequence every illegal next operation must panic on all paths and every legal one on none.'},
 'C06': {'run': [('chain', part(chain.chain, data)), ('kits', part(chain.kits, data)), ('predictor', part(pipeline.predictor, data)), ('finalizer', part(pipeline.finalizer, data))],
  'technique': 'abstract interpretation of MIR with recorded effects: which learners are read and written, and with which terms',
  'note': 'Same coverage as C05: two bytes of symbolic bits at the predictor, up to three orders of any contents and 21 of fixed contents in the chain, every bit position and context count 0-3 and 20 at the finalizer, all probabilities symbolic. ' + TRUST,
  'assumptions': ASSUME + ['a set of mixers or estimators of any size behaves as its smallest one with the given indexer (they are built by one loop)', 'longer contexts chains behave like those of three orders also for other contents than the fixed ones analysed (one loop body per order)'],
  'explanation': 'The same analyses record every access to a learner with the identity of the learner and the terms passed. The sets used by a prediction and taught by its update must be equal, each learner taught once, with the coded bit, the context and the result of the prediction; '
   'results must flow from the gathered contexts through the chain and the finalizer to the returned probability unchanged.'},
 'C13': {'run': [(n, lib(getattr(states, n))) for n in ('transitions', 'accessors', 'collection', 'nodes')],
  'technique': 'abstract interpretation of MIR: transition relation over all context states',
  'note': 'Edge counts 1..15, 16..999 (symbolic) and 1000; node contents, distances, trackers symbolic. The estimator step and the tables are opaque functions here (decided by C07), the packed histories are interpreted. ' + TRUST, 'assumptions': ASSUME,
  'explanation': 'ContextState::{starting_state, next_state} and its views, the collection of states and the tree node are interpreted abstractly from arbitrary states. Every field of the result must be the specified term.'},
 'C17': {'run': [(n, lib(getattr(pool, n))) for n in ('references', 'directions', 'slots', 'any_size', 'any_deleted')],
  'technique': 'abstract interpretation of MIR: free-list ownership over symbolic pools',
  'note': 'References: all values. Slots: all orders of up to three (thorough four) deletions from a pool of that many nodes, and any two deletions followed by additions in a pool of any size with any number of slots deleted before. ' + TRUST,
  'assumptions': ASSUME + ['longer chains of deleted slots behave like those analysed (each step looks at the newest deleted slot only)'],
  'explanation': 'The operations of the pool are interpreted abstractly with symbolic nodes; after each one, every slot in use must hold its node, a new node must get a slot that is free, and the live count must agree.'},
 'C18': {'run': [('bytes', lib(tree.bytes_))] + [(n + '/%d' % b, lib(lambda p, r, t, f=f, b=b: f(p, r, t, (b,)))) for n, f, bs in (('extending', tree.extending, range(7)), ('branching', tree.branching, range(8)), ('gathering', tree.gathering, range(8))) for b in bs],
  'technique': 'abstract interpretation of MIR: one step of the tree against a reference step, over symbolic trees of given shapes (shape analysis by cases)',
  'note': 'One step of gather, bit and byte from every state of the listed shapes (props/tree.py), node contents, positions, ages, visits and the window symbolic, up to two active contexts (thorough three). Whole histories, and that reachable trees are consistent, are not decided. '
          'The estimator step and the tables are opaque functions here. ' + TRUST,
  'assumptions': ASSUME + ['the suffix of a longer context last occurred no later than that of a shorter one', 'window of at most 2^28 bytes', 'other nodes and contexts of larger trees behave like those of the shapes (each step touches only the nodes of active contexts and of the oldest suffix)'],
  'explanation': 'gather_history_states, process_input_bit and start_new_byte of the tree source are interpreted abstractly from trees made of symbolic nodes. The nodes, children, contexts, window and position afterwards must be exactly those of a reference step over the same terms.'},
}
PROPS['C04'] = {'run': [('effects', lib(effects.effects)), ('sharing', lib(effects.sharing))],
  'technique': 'effect analysis over the monomorphic call graph; interior-mutability analysis of shared types',
  'note': 'Every function reachable from the operations, including generic library code, is examined; calls into non-generic library code are classified by name. '
          'Whether equal inputs are then mapped to equal outputs follows from the absence of any other input; nothing is compared. FatMapHistorySource, a test aid that buckets by a randomised hash, is not covered.',
  'assumptions': ['functions of core and alloc outside the list in props/effects.py are deterministic functions of their arguments', 'std f64::exp and f64::ln (used while tables are built) give the same result in every run of one build', 'allocation succeeds; Vec::with_capacity gives the requested capacity'],
  'explanation': 'The call graph of the type-checked program (calls, drops, closures, function constants) is walked from the construction of the tables, Predictor::{new, start_new_byte, predict, update}, the encoder, the decoder, the tree and naive sources and the random generator. '
   'No reached function may use the clock, environment, files, process, threads, randomised hashing or hash-map order, addresses, mutable or interior-mutable statics or thread-locals; no step may reach a transcendental float function; the shared tables must contain no interior mutability. A violation names the call path.'}
PROPS['C19'] = {'run': [(n, lib(getattr(stats, f))) for n, f in (('counting', 'counting'), ('byte-start', 'byte_start'), ('fresh', 'fresh'), ('cost-of-bit', 'cost_of_bit'), ('printing', 'printing'))],
  'technique': 'abstract interpretation of MIR: every counter after one step against its value before, over all earlier statistics',
  'note': 'One step from arbitrary earlier statistics: bit steps for 0-6, 20 and 21 contexts of which 0-5 or nearly all are edges, byte steps for six values of the finished byte and an arbitrary history before. Cost of a bit: all 2^23-1 probabilities, by position of the leading one; the logarithm table itself is opaque here. Printed figures are compared as real-number expressions with the counters, found by the texts of their lines. ' + TRUST,
  'assumptions': ASSUME + ['counts and costs accumulated before are below 2^50'],
  'explanation': 'PredictionStatistics::{new, start_new_byte, on_next_bit} are interpreted abstractly from statistics with every counter an unknown; afterwards each counter must be the same unknown or exactly the specified increment of it. FinalProbability::estimate_cost is interpreted for all probabilities and both bits; the value handed to the table and the composition of exponent and looked-up fraction are polynomial identities.'}
PROPS['C20'] = {'run': [('driver', lambda progs, rep, tier: driver.driver(progs.get(BIN), rep, tier))],
  'technique': 'abstract interpretation of MIR of the program from main, with files, clock and predictor replaced by event sources; printed values as real-number expressions',
  'note': 'Inputs of no byte, one byte of any value, and several of two and three bytes (one loop body per byte); every predicted probability; an error at the opening and at each read. The predictor is opaque here (C05, C06). Float rounding is not modelled: figures are compared as real-number expressions. '
          'Buffered reading, argument access and the clock are models in props/driver.py. ' + TRUST,
  'assumptions': ASSUME + ['longer inputs behave like those analysed (one loop body per byte)', 'floating point addition and logarithm are exact enough for figures of three decimals'],
  'explanation': 'The program is interpreted abstractly from main, recording what it asks of the predictor and the values it prints. The recorded steps must be those of the input bytes, the printed figures equal, as rational functions over the logarithms of the predicted probabilities, the sum and its quotients; every failing path must panic before printing.'}
PROPS['C21'] = {'run': [(n, lib(getattr(luts, f))) for n, f in (('squash', 'squashing'), ('stretch', 'stretching'), ('logarithm', 'logarithm'), ('weights', 'weighting'), ('tables', 'wiring'), ('squash-table', 'squash_table'), ('stretch-table', 'stretch_table'))],
  'technique': 'abstract interpretation of MIR: interpolation and symmetry as polynomial inequalities over all inputs and table entries; grid points of the built tables by term identity',
  'note': 'Lookups: every input, every grid interval, table entries unknown. Tables: each entry is tied to the logarithm, search or squash of its own grid point, these being opaque; how accurate the logarithm series, the search for the inverse and the extra factors of the weights are is not decided (numeric accuracy is out of reach of this domain). '
          'Symmetry of squash is decided at five grid intervals with unknown entries. ' + TRUST,
  'assumptions': ASSUME + ['the accuracy checks built into the construction of the tables hold (they are run whenever the tables are made)', 'stretched grid points lie strictly between -12 and 0'],
  'explanation': 'SquashLut::{new, squash}, StretchLut::{new, stretch}, Log2Lut::{new, log2_restricted}, log2 of every unsigned fixed-point type, ApmWeightingLut::new and the accessors of LookUpTables are interpreted abstractly. Each returning path must satisfy the interpolation inequalities over the two entries read, equal the entry at a grid point, and give the negated or opposite result for the negated or opposite argument.'}

PROPS['C15'] = {'run': [(n, lib(getattr(prng, f))) for n, f in (('drawing', 'drawing'), ('scaling', 'scaled'), ('scalar-seed', 'scalar'), ('vector-seed', 'vector'))],
  'technique': 'abstract interpretation of MIR: bit-level linear forms over GF(2) for words and tempering, terms with cut products for seeding, float intervals for ranges',
  'note': 'Renewal of the words and tempering: every content of the 312 words at once. A draw without renewal: six positions. Scalar seeds: all. Keys: of 1, 3 and 313 words (thorough: 1, 2, 311, 312, 313, 400), all contents. The products of the seeding recurrences are unknowns of their own, so each step is judged by itself. ' + TRUST,
  'assumptions': ASSUME + ['keys of other lengths behave like those analysed (one loop body per word)'],
  'explanation': 'MersenneTwister::{new_by_scalar_seed, new_by_vector_seed, default, next_int64, next_int63, next_real1, next_real2, next_real3} are interpreted abstractly from words made of independent binary digits. Every digit of every new word and of the number drawn must be the parity of exactly the digits that the definition of MT19937-64 names; the scaled numbers must be that multiple of the draw and stay in their interval at both ends.'}
import sources
PROPS['C22'] = {'run': lambda tier: [(n, lib(f)) for n, f in sources.groups(tier)],
  'technique': 'abstract interpretation of MIR with trace partitioning: gathered states against a fold over all earlier occurrences, over sets of whole histories',
  'note': 'All histories of the listed numbers of bytes (3 to 6, thorough up to 8) from alphabets that differ in the listed bits (two or four letters), from an empty window, for highest orders 1 to 5, before every bit of every byte. Longer histories: for the naive and the map source, up to five occurrences (thorough six) of one or two contexts at any positions below 2^28, with any bytes between them; for the tree step by step by C18. Saturated counts are decided by C13. '
          'The map source is analysed under three hash functions: one that tells all contexts apart, one that keeps only the last value hashed, and a constant one. The estimator step and the tables are opaque functions here (C07, C21). ' + TRUST,
  'assumptions': ASSUME + ['other letters behave like those analysed (sources look at single bits and at equality of prefixes)', 'a HashMap finds exactly the entry whose key is equal'],
  'explanation': 'The three implementations of HistorySource are interpreted abstractly through the public operations, with unknown bits in every byte of the history; paths are partitioned by the comparisons the source makes. Before each bit the gathered states must be, order by order, the fold of starting_state and next_state over all earlier occurrences of that context, found by comparing the unknown bytes themselves; no path may panic.'}
PROPS['C23'] = {'run': lambda tier: [(n, lib(f)) for n, f in sources.slidings(tier)],
  'technique': 'abstract interpretation of MIR with trace partitioning: contexts of the sliding tree against the window contents, over sets of whole histories',
  'note': 'All histories of 4 to 8 bytes (thorough up to 10) from alphabets differing in the listed bits, windows of 1 to 4 bytes (thorough 6) with initial shifts, so that most bytes are recorded after the window is full and after positions wrap around. Probabilities, recent bits and exact counts of contexts older than the window are not part of the property. ' + TRUST,
  'assumptions': ASSUME + ['other letters and longer windows behave like those analysed'],
  'explanation': 'TreeHistorySource is interpreted abstractly from new_special through start_new_byte, gather_history_states and process_input_bit, with unknown bits in every byte. Before each bit the contexts gathered, their last distances, kinds and repeated bits must be those found by comparing the bytes inside the window; check_integrity_on_next_byte must not panic at any byte.'}
