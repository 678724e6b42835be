import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
PRE = '''#![allow(bare_trait_objects, unused_imports)]
extern crate demixer;
use demixer::bit::Bit; use demixer::fixed_point::*; use demixer::fixed_point::types::*; use demixer::mixing::mixer::*; use demixer::mixing::apm::*;
use demixer::history::*; use demixer::lut::LookUpTables; use demixer::predictor::*; use demixer::predictor::chain::*; use demixer::predictor::post_process::*; use demixer::predictor::kits::*;
use demixer::estimators::decelerating::*; use demixer::util::last_bytes::*; use demixer::util::indexer::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn edge(d: usize, n: u16, b: bool) -> ContextState { ContextState::ForEdge { last_occurrence_distance: d, occurrence_count: n, repeated_bit: b.into() } }
fn ctxs(v: Vec<ContextState>) -> CollectedContextStates { let mut c = CollectedContextStates::new(20); for x in v { c.push(x) } c }
'''
K = 'src/predictor/kits.rs'; S = 'src/predictor/single.rs'; P = 'src/predictor/mod.rs'; C = 'src/predictor/chain.rs'; F = 'src/predictor/post_process.rs'; A = 'src/mixing/apm.rs'
a('c05-run-limit', 'C05', [(S, '''                Indexer2::new(vec![max_quantized_bit_run_length + 1, 256])),''', '''                Indexer2::new(vec![max_quantized_bit_run_length, 256])),''')],
  PRE + '''fn main() { let l = LookUpTables::new(); let mut c = ContextsChainPredictionMixer::new(3, &l); for n in 1..1001 { let x = ctxs(vec![edge(5, n, true)]); c.predict(&x, 1); c.update(Bit::One, &x); } }''',
  'a context which was followed by the same bit at least 768 times', 'the prediction panics for the longest runs')
a('c05-distance', 'C05', [(S, '''    } else {
        3
    }
}

fn quantize_cost''', '''    } else if distance < 1_000_000 {
        3
    } else {
        4
    }
}

fn quantize_cost''')],
  PRE + '''fn main() { let l = LookUpTables::new(); let mut c = ContextsChainPredictionMixer::new(3, &l); for i in 1..8 { let x = ctxs(vec![edge(10usize.pow(i), 3, true)]); c.predict(&x, 1); c.update(Bit::One, &x); } }''',
  'a context last seen a million bytes ago', 'the prediction panics for distant contexts')
a('c05-kit-reuse', 'C05', [(K, '''        assert_eq!(self.mixing_result_opt, None);
        assert_eq!(self.index_opt, None);
        setup_indexer(&mut self.indexer);''', '''        setup_indexer(&mut self.indexer);'''), (K, '''        assert_eq!(self.mixing_result_opt, None);
        assert_eq!(self.index_opt, None);
        let index = setup_indexer(&mut self.indexer)''', '''        let index = setup_indexer(&mut self.indexer)'''), (K, '''        assert_eq!(self.index_opt, None);
        let index =
            setup_indexer''', '''        let index =
            setup_indexer''')],
  PRE + '''fn main() { let l = LookUpTables::new(); let mut c = ContextsChainPredictionMixer::new(3, &l); let x = ctxs(vec![edge(5, 3, true)]); let y = ctxs(vec![edge(50000, 300, false)]);
  let r = catch_unwind(AssertUnwindSafe(|| { c.predict(&x, 1); c.predict(&y, 1); })); assert!(r.is_err()); }''',
  'two predictions in a row over contexts which select different mixers', 'the first prediction is silently forgotten and its mixer left half used')
a('c05-silent-update', 'C05', [(P, '''        assert_ne!(self.final_probability_opt, None);

        let contexts_count = self.contexts_chain.items().len();

        let cost''', '''        let contexts_count = self.contexts_chain.items().len();

        let cost'''), (P, '''        self.statistics.on_next_bit(input_bit, &self.contexts_chain,
                                    self.final_probability_opt.unwrap());
        self.final''', '''        if let Some(final_probability) = self.final_probability_opt {
            self.statistics.on_next_bit(input_bit, &self.contexts_chain,
                                        final_probability);
        }
        self.final'''), (A, '''        assert!(self.saved_left_context_index >= 0);
        assert!(context < self.contexts_number);''', '''        assert!(context < self.contexts_number);
        if self.saved_left_context_index < 0 { return; }''')],
  PRE + '''fn main() { let l = LookUpTables::new(); let l = &l; let r = catch_unwind(AssertUnwindSafe(|| { let mut p = Predictor::new(l); p.start_new_byte(); p.update(Bit::One); })); assert!(r.is_err()); }''',
  'an update without a prediction where no context was gathered; two sites that each look harmless', 'an update without a prediction is accepted before any context exists')
a('c06-stale-context', 'C06', [(P, '''        self.tree_source.process_input_bit(input_bit, &cost_trackers);

        self.prediction_finalizer.update(input_bit, contexts_count,
                                         &self.last_bytes);
''', '''        self.tree_source.process_input_bit(input_bit, &cost_trackers);
'''), (P, '''        // updating this must be the last update step
        self.last_bytes.on_next_bit(input_bit);''', '''        let previous_bytes = self.last_bytes.clone();
        self.last_bytes.on_next_bit(input_bit);
        let learning_bytes =
            if contexts_count == Self::MAX_ORDER + 1 &&
                previous_bytes.unfinished_byte().raw() < 0x80 {
                &self.last_bytes
            } else {
                &previous_bytes
            };
        self.prediction_finalizer.update(input_bit, contexts_count,
                                         learning_bytes);''')],
  PRE + '''fn go(p: &mut Predictor, s: &mut u64, n: usize) -> u32 { for _ in 0..n { p.start_new_byte(); for i in 0..8 { let q = p.predict(); *s = s.wrapping_mul(31).wrapping_add(q.raw() as u64); p.update((((0x61 >> (7 - i)) & 1) == 1).into()); } } 0 }
fn main() { // the finalizer must see a refined context again: its maps learn in the context where they refined
  let l = LookUpTables::new(); let mut p = Predictor::new(&l); let mut s = 0u64; go(&mut p, &mut s, 40); 
  let expect = 4783304213968569740u64; if expect != s { panic!("{}", s) } }''',
  'all 21 orders present in the middle of a byte', 'the adaptive maps learn in the context after the bit')
a('c06-other-estimator', 'C06', [(K, '''        self.index_opt = Some(index);
        let prediction_sq''', '''        self.index_opt = Some(index.max(1));
        let prediction_sq''')],
  PRE + '''fn main() { let l = LookUpTables::new(); let mut k = EstimatorsWithIndexer::new(Indexer1::new(vec![4])); let a = k.predict(&l, |i| i.with_sub_index(0)); k.update(Bit::One, &l); let b = k.predict(&l, |i| i.with_sub_index(0)); assert!(b.0.raw() < a.0.raw()); }''',
  'the first slot of a set of estimators', 'the estimator of slot 1 learns instead of that of slot 0')
a('c06-lower-order', 'C06', [(C, '''            last_probability = current_probability;
        }
        last_probability''', '''            if order != 2 || context.is_for_node() {
                last_probability = current_probability;
            }
        }
        last_probability''')],
  PRE + '''fn run(n: usize) -> u32 { let l = LookUpTables::new(); let mut c = ContextsChainPredictionMixer::new(5, &l); let mut r = 0; for _ in 0..50 { let x = ctxs(vec![edge(5, 900, false); n]); r = c.predict(&x, 1).0.raw(); c.update(Bit::Zero, &x); } r }
fn main() { let mut l: Vec<u32> = (1..6).map(run).collect(); l.dedup(); assert_eq!(l.len(), 5); }''',
  'a third order which is an edge', 'the result of that order is dropped')
a('c06-tracker-bit', 'C06', [(S, '''                        mixer.prediction_sq(1), mixer.prediction_sq(2),
                        input_bit, luts)''', '''                        mixer.prediction_sq(1), mixer.prediction_sq(1),
                        input_bit, luts)''')],
  PRE + '''use demixer::history::tree::node::*;
fn main() { let l = LookUpTables::new(); let mut c = ContextsChainPredictionMixer::new(2, &l); let mut e = edge(5, 3, true); let _ = &mut e;
  let n = ContextState::ForNode { last_occurrence_distance: 5, probability_estimator: DeceleratingEstimator::make(FractOnlyU32::new(1 << 28, 31), 5), recent_bits: demixer::history::state::recent_bits::RecentBitsHistory::for_new_node(Bit::One, 4),
   bits_runs: demixer::history::state::bits_runs::BitsRunsTracker::for_new_node(Bit::One, 4), cost_trackers: CostTrackers::DEFAULT };
  let x = ctxs(vec![n]); c.predict(&x, 1); let t = c.update(Bit::One, &x); assert!(t[0].stationary() != t[0].non_stationary()); }''',
  'a node context', 'the non-stationary tracker follows the stationary prediction')
a('c06-map-skip', 'C06', [(F, '''                self.phase1_order3.update_predictions(
                    last_bytes.hash03_16() as usize, input_bit, 5, true);
            }
            Mode::Adaptive''', '''                let context = last_bytes.hash03_16() as usize;
                self.phase1_order3.update_predictions(
                    context & !1 | (context & (contexts_count + 1)) & 1,
                    input_bit, 5, true);
            }
            Mode::Adaptive''')],
  PRE + '''fn main() { let l = LookUpTables::new(); let half = FractOnlyU32::HALF; let z = StretchedProbD::ZERO;
  let run = |n: usize| { let mut f = PredictionFinalizer::new(&l); let mut r = 0u64; for _ in 0..60 { let mut b = LastBytesCache::new(); for _ in 0..3 { b.start_new_byte(); for i in 0..8 { b.on_next_bit((i % 3 == 0).into()); } } b.start_new_byte();
    for i in 0..7 { let p = f.refine(half, z, n, &b); r += p.raw() as u64; f.update(Bit::One, n, &b); b.on_next_bit((i % 2 == 0).into()); } } r };
  assert_eq!(run(1), run(2)); }''',
  'an odd order-3 hash with an odd number of contexts', 'the order-3 map learns in a neighbouring context')
SIM = '''
use demixer::history::tree::node::CostTrackers; use demixer::history::state::bits_runs::*; use demixer::history::state::recent_bits::*;
fn node(l: &LookUpTables, runs: BitsRunsTracker, sq: u32, n: u16) -> ContextState { ContextState::ForNode { last_occurrence_distance: 7, probability_estimator: DeceleratingEstimator::make(FractOnlyU32::new(sq, 31), n), recent_bits: RecentBitsHistory::for_new_node(Bit::One, 2), bits_runs: runs, cost_trackers: CostTrackers::DEFAULT } }
/// trains on the first context and tells whether predictions for the second changed; the trained mixers are left alone by using different kinds of mixers
fn p(c: &mut ContextsChainPredictionMixer, x: &CollectedContextStates, byte: u8) -> u32 { c.predict(x, byte).0.raw() }
'''
a('c02-opposite-run', 'C02', [(S, '''                            bits_runs.last_bit_run_length()))''', '''                            bits_runs.last_bit_run_length().max(
                                bits_runs.opposite_bit_run_length() / 256)))''')],
  PRE + SIM + '''fn main() { let l = LookUpTables::new(); let (mut c, mut d) = (ContextsChainPredictionMixer::new(0, &l), ContextsChainPredictionMixer::new(0, &l));
  // a one after a long run of zeros: the estimate for (1, one) is asked, whatever came before
  let mut r = BitsRunsTracker::for_bit_run(Bit::Zero, 900); r = r.updated(Bit::One); let x = ctxs(vec![node(&l, r, 1 << 30, 3)]);
  let mut s = BitsRunsTracker::for_bit_run(Bit::Zero, 800); s = s.updated(Bit::One); let t = ctxs(vec![node(&l, s, 1 << 30, 3)]);
  let mut u = BitsRunsTracker::for_bit_run(Bit::Zero, 1).updated(Bit::One); for _ in 0..2 { u = u.updated(Bit::One); } let u = ctxs(vec![node(&l, u, 1 << 30, 3)]);
  // training (3, one) must not change what is predicted for (1, one); the mixers differ
  for _ in 0..100 { c.predict(&x, 1); c.update(Bit::One, &x); d.predict(&x, 1); d.update(Bit::One, &x); }
  for _ in 0..200 { c.predict(&u, 1); c.update(Bit::Zero, &u); }
  assert_eq!(p(&mut c, &x, 1), p(&mut d, &x, 1)); let _ = t; }''',
  'a context whose last run follows an opposite run of more than 512 bits', 'the estimate of an unrelated run length is mixed in and trained')
a('c02-stale-stretch', 'C02', [(S, '''                        mixer.set_input(0, lower.0, lower.1);
                        mixer.set_input(1, stationary_prediction_sq,
                                        stationary_prediction_st);''', '''                        mixer.set_input(0, lower.0, lower.1);
                        let confident =
                            probability_estimator.usage_count() >= 512;
                        mixer.set_input(1, stationary_prediction_sq,
                                        if confident { bits_runs_1_prediction.1 }
                                        else { stationary_prediction_st });''')],
  PRE + SIM + '''fn main() { let l = LookUpTables::new();
  let r = BitsRunsTracker::for_bit_run(Bit::Zero, 1).updated(Bit::One);
  // equal predictions of the estimator give equal results, however often it was used
  let f = |n: u16| { let mut c = ContextsChainPredictionMixer::new(0, &l); let x = ctxs(vec![node(&l, r, 1 << 28, 3)]); for _ in 0..100 { p(&mut c, &x, 1); c.update(Bit::One, &x); } p(&mut c, &ctxs(vec![node(&l, r, 1 << 28, n)]), 1) };
  for n in (1..1000).filter(|n| n % 50 == 1) { assert_eq!(f(n), f(3), "count {}", n); } }''',
  'a context seen at least 512 times', 'the probability of its estimator is paired with the stretched value of another one')
a('c02-byte-wrap', 'C02', [(S, '''                        .with_sub_index(context_byte as usize));''', '''                        .with_sub_index((context_byte & 0x7f) as usize));''')],
  PRE + SIM + '''fn main() { let l = LookUpTables::new(); let (mut c, mut d) = (ContextsChainPredictionMixer::new(0, &l), ContextsChainPredictionMixer::new(0, &l));
  // training one unfinished byte changes the mixer for both and the estimate of that byte only
  let x = ctxs(vec![edge(5, 3, true)]);
  for _ in 0..300 { c.predict(&x, 0x05); c.update(Bit::One, &x); d.predict(&x, 0x07); d.update(Bit::One, &x); }
  assert_eq!(p(&mut c, &x, 0x85), p(&mut d, &x, 0x85)); }''',
  'the last bit of a byte', 'the estimates of unfinished bytes which differ in their first bit are shared')
a('c02-repeat-class', 'C02', [(S, '''                        .with_sub_index(repeated_bit.to_u8() as usize),''', '''                        .with_sub_index(if occurrence_count < 3 { 0 } else {
                            repeated_bit.to_u8() as usize
                        }),''')],
  PRE + SIM + '''fn main() { let l = LookUpTables::new(); let (mut c, d) = (ContextsChainPredictionMixer::new(0, &l), ContextsChainPredictionMixer::new(0, &l));
  let (x, y) = (ctxs(vec![edge(5, 2, false)]), ctxs(vec![edge(5, 2, true)])); let mut d = d;
  // train zeros and ones with another unfinished byte: only the mixer of that bit learns
  for _ in 0..300 { c.predict(&x, 9); c.update(Bit::Zero, &x); }
  assert_eq!(p(&mut c, &y, 1), p(&mut d, &y, 1)); }''',
  'contexts seen once or twice', 'contexts that always repeat a one use and train the mixer of those that repeat a zero')
a('c06-deep-order', 'C06', [(C, '''            last_probability = current_probability;
        }''', '''            if order != 16 {
                last_probability = current_probability;
            }
        }''')],
  PRE + '''fn main() { let l = LookUpTables::new(); 
  let f = |y: ContextState| { let mut c = ContextsChainPredictionMixer::new(20, &l); let x = |y: ContextState| { let mut v: Vec<ContextState> = (0..16).map(|_| edge(5, 30, true)).collect(); v.push(y); ctxs(v) };
    for i in 0..40 { c.predict(&x(edge(5, 30, true)), 1); c.update((i % 3 == 0).into(), &x(edge(5, 30, true))); } c.predict(&x(y), 1).0.raw() };
  let (a, b) = (f(edge(5, 30, true)), f(edge(5, 900, false))); assert!(a != b); }''',
  'at least 17 contexts', 'the result of the 17th context is mixed but not used')
