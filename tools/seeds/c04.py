import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
PRE = '''extern crate demixer;
use demixer::bit::Bit; use demixer::fixed_point::*; use demixer::lut::*; use demixer::predictor::*;
fn data(n: usize, k: u32) -> Vec<u8> { let mut x = 12345u32 + k; (0..n).map(|i| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); if i % 7 < 4 { b"abcdefg"[i % 7] } else { (x >> 27) as u8 } }).collect() }
fn byte(p: &mut Predictor, b: u8, out: &mut Vec<u32>) { p.start_new_byte(); for k in (0..8).rev() { out.push(p.predict().raw()); p.update(Bit::from((b >> k) & 1 == 1)); } }
fn blocks(k: u32) -> Vec<u8> { let r = data(120, k); let mut o = vec![]; let mut i = 0; while o.len() < 2900 { o.extend_from_slice(&r[..88 + (i * 7 + k as usize) % 25]); o.push((i * 11) as u8); i += 1; } o.truncate(2900); o }
fn run(l: &LookUpTables, d: &[u8]) -> Vec<u32> { let mut p = Predictor::new(l); let mut r = vec![]; for b in d { byte(&mut p, *b, &mut r); } r }
'''
PP, S, CL, R = 'src/predictor/post_process.rs', 'src/predictor/single.rs', 'src/lut/cost.rs', 'src/random/mod.rs'
a('c04-shared-count', 'C04', [(PP, '''            Mode::Light => {
                self.phase0_order0.update_predictions(
                    last_bytes.unfinished_byte().raw() as usize,
                    input_bit, 5, true);''', '''            Mode::Light => {
                let rate = if WARM_UP.fetch_add(
                    1, ::std::sync::atomic::Ordering::Relaxed) < 8000 { 4 } else { 5 };
                self.phase0_order0.update_predictions(
                    last_bytes.unfinished_byte().raw() as usize,
                    input_bit, rate, true);'''), (PP, 'const MODE: Mode = Mode::Light;', '''const MODE: Mode = Mode::Light;

/// finer steps after a warm-up
static WARM_UP: ::std::sync::atomic::AtomicUsize =
    ::std::sync::atomic::AtomicUsize::new(0);''')],
  PRE + 'fn main() { let l = LookUpTables::new(); let d = data(1100, 0); assert!(run(&l, &d) == run(&l, &d)); }', 'two predictors in one process', 'a later predictor adapts at another rate because a counter is global')
a('c04-thread-local', 'C04', [(S, '''fn quantize_distance(distance: usize) -> usize {
    if distance < 100 {''', '''thread_local! {
    static LAST_DISTANCE: ::std::cell::Cell<usize> =
        ::std::cell::Cell::new(0);
}

/// changes of less than one 16th keep the class
fn quantize_distance(distance: usize) -> usize {
    let last = LAST_DISTANCE.with(|cell| cell.get());
    let distance = if distance.max(last) - distance.min(last) < last / 16 {
        last
    } else {
        LAST_DISTANCE.with(|cell| cell.set(distance));
        distance
    };
    if distance < 100 {''')],
  PRE + '''fn main() { let l = LookUpTables::new(); let (d, e) = (blocks(1), blocks(5)); let want = run(&l, &d);
 let mut p = Predictor::new(&l); let mut q = Predictor::new(&l); let mut r = vec![]; let mut s = vec![]; for i in 0..d.len() { p.start_new_byte(); q.start_new_byte(); for k in (0..8).rev() { r.push(p.predict().raw()); s.push(q.predict().raw()); p.update(Bit::from((d[i] >> k) & 1 == 1)); q.update(Bit::from((e[i] >> k) & 1 == 1)); } }
 assert!(r == want); }''', 'two predictors used alternately in one thread', 'the class of a distance depends on what another predictor saw')
a('c04-random-keys', 'C04', [(PP, '''    mixing_result_opt: Option<(FractOnlyU32, StretchedProbD)>,
}

impl''', '''    mixing_result_opt: Option<(FractOnlyU32, StretchedProbD)>,
    keys: ::std::collections::hash_map::RandomState,
}

impl'''), (PP, '''                    phase1_order3: make(0, 0),
                    mixers,
                    mixing_result_opt: None,''', '''                    phase1_order3: make(0, 0),
                    mixers,
                    mixing_result_opt: None,
                    keys: Default::default(),'''), (PP, '''            Mode::Light =>
                PredictionFinalizer {
                    luts,
                    phase0_order0: make(256, 0),
                    phase1_order1: make(256 * 256, 0),
                    phase1_order2: make(256 * 256, 0),
                    phase1_order3: make(256 * 256, 0),
                    mixers,
                    mixing_result_opt: None,''', '''            Mode::Light =>
                PredictionFinalizer {
                    luts,
                    phase0_order0: make(256, 0),
                    phase1_order1: make(256 * 256, 0),
                    phase1_order2: make(256 * 256, 0),
                    phase1_order3: make(256 * 256, 0),
                    mixers,
                    mixing_result_opt: None,
                    keys: Default::default(),'''), (PP, '''            Mode::Adaptive =>
                PredictionFinalizer {
                    luts,
                    phase0_order0: make(256, 0),
                    phase1_order1: make(256 * 256, 0),
                    phase1_order2: make(256 * 256, 0),
                    phase1_order3: make(256 * 256, 0),
                    mixers,
                    mixing_result_opt: None,''', '''            Mode::Adaptive =>
                PredictionFinalizer {
                    luts,
                    phase0_order0: make(256, 0),
                    phase1_order1: make(256 * 256, 0),
                    phase1_order2: make(256 * 256, 0),
                    phase1_order3: make(256 * 256, 0),
                    mixers,
                    mixing_result_opt: None,
                    keys: Default::default(),'''), (PP, '''                let p1_o3_sq = self.phase1_order3.refine(
                    last_bytes.hash03_16() as usize, p0_mix_sq, p0_mix_st,''', '''                let p1_o3_sq = self.phase1_order3.refine(
                    keyed_hash(&self.keys, last_bytes), p0_mix_sq, p0_mix_st,'''), (PP, '''                self.phase1_order3.update_predictions(
                    last_bytes.hash03_16() as usize, input_bit, 5, true);''', '''                self.phase1_order3.update_predictions(
                    keyed_hash(&self.keys, last_bytes), input_bit, 5, true);'''), (PP, 'fn quantize_contexts_count(contexts_count: usize) -> usize {', '''fn keyed_hash(keys: &::std::collections::hash_map::RandomState,
              last_bytes: &LastBytesCache) -> usize {
    use std::hash::{BuildHasher, Hasher};
    let mut hasher = keys.build_hasher();
    hasher.write_u16(last_bytes.hash03_16());
    hasher.finish() as usize & 0xffff
}

fn quantize_contexts_count(contexts_count: usize) -> usize {''')],
  PRE + 'fn main() { let l = LookUpTables::new(); let d = data(6000, 0); let a = run(&l, &d); for _ in 0..3 { assert!(a == run(&l, &d)); } }', 'inputs on which two contexts share an entry under one key and not under another', 'adaptive map contexts collide differently in every predictor')
a('c04-cell-table', 'C04', [(CL, '    [CostTracker; 1usize << DeceleratingEstimator::COUNT_BITS]);', """    [CostTracker; 1usize << DeceleratingEstimator::COUNT_BITS],
    /// the last long run looked up
    ::std::cell::Cell<(usize, CostTracker)>);"""), (CL, '        CostTrackersLut(result)', '        CostTrackersLut(result, ::std::cell::Cell::new((0, cost_tracker)))'),
 (CL, """        self.0[index]
""", """        if index < 16 {
            return self.0[index];
        }
        let (cached_index, cached) = self.1.get();
        if cached_index > index && cached_index / 4 == index / 4 {
            return cached;
        }
        self.1.set((index, self.0[index]));
        self.0[index]
""")],
  PRE + """fn main() { let l = LookUpTables::new(); let m = LookUpTables::new();
  for k in 16..1000u16 { let _ = l.cost_trackers_lut().for_new_node(1000 - k); let a = l.cost_trackers_lut().for_new_node(k); let _ = m.cost_trackers_lut().for_new_node(k ^ 3); let b = m.cost_trackers_lut().for_new_node(k); assert!(a == b && l.cost_trackers_lut().for_new_node(5) == m.cost_trackers_lut().for_new_node(5), "{}", k); } }""", 'two users of one set of tables looking up similar long runs in turn', 'a table entry depends on what another user of the table asked for')
