import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
PRE = '''#![allow(bare_trait_objects, unused_imports)]
extern crate demixer;
use demixer::bit::Bit; use demixer::fixed_point::*; use demixer::fixed_point::types::*; use demixer::mixing::apm::*;
use demixer::lut::apm::ApmWeightingLut; use demixer::lut::squash::SquashLut; use demixer::lut::stretch::StretchLut;
fn st(x: i32) -> StretchedProbD { StretchedProbD::new(x, 21) }
fn sq(x: u32) -> FractOnlyU32 { FractOnlyU32::new(x, 31) }
'''
AP = 'src/mixing/apm.rs'
L = 'let t = StretchLut::new(false); let s = SquashLut::new(&t, false);'
a('c09-rate-0', 'C09', [(AP, 'assert!(log_rate > 0 && log_rate < 30);', 'assert!(log_rate < 30);')],
  PRE + 'fn main() { ' + L + '''
  let lut = ApmWeightingLut::new(0, &s); let p = lut.squashed_interval_stops()[9]; let r = std::panic::catch_unwind(|| { let mut m = AdaptiveProbabilityMap::new(1, 0, &s); m.refine(0, p, t.stretch(p), &lut); m.update_predictions(0, Bit::One, 0, false); }); assert!(r.is_err()); }''',
  'update rate 2^0', 'an entry can become exactly 0 or 1')
a('c09-neighbour', 'C09', [(AP, '''        let base_index = context * StretchedProbD::interval_stops_count(
            self.stretched_fract_index_bits) as usize;
''', '''        let base_index = context * (StretchedProbD::interval_stops_count(
            self.stretched_fract_index_bits) as usize - (context & 1));
''')],
  PRE + 'fn main() { ' + L + '''
  let lut = ApmWeightingLut::new(0, &s); let p = lut.squashed_interval_stops()[20]; let p2 = lut.squashed_interval_stops()[21]; let mut m = AdaptiveProbabilityMap::new(3, 0, &s); let a = m.refine(1, p, t.stretch(p), &lut).raw(); m.update_predictions(1, Bit::One, 1, false);
  let b = m.refine(1, p, t.stretch(p), &lut).raw(); assert!(b < a - 1000, "{} {}", a, b); let _ = p2; }''',
  'an update in an odd context', 'the entries of a neighbouring position are updated instead of the ones used')
a('c09-update-range', 'C09', [(AP, '        assert!(context < self.contexts_number);\n', ''), (AP, 'let base_index = context * S', 'let base_index = context.min(self.contexts_number - 1) * S')],
  PRE + 'fn main() { ' + L + '''
  let lut = ApmWeightingLut::new(0, &s); let p = lut.squashed_interval_stops()[9]; let r = std::panic::catch_unwind(|| { let mut m = AdaptiveProbabilityMap::new(2, 0, &s); m.refine(1, p, t.stretch(p), &lut); m.update_predictions(2, Bit::One, 4, false); }); assert!(r.is_err()); }''',
  'updating a context beyond the last', 'the last context is silently updated instead')
