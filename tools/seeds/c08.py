import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
PRE = '''#![allow(bare_trait_objects, unused_imports)]
extern crate demixer;
use demixer::bit::Bit; use demixer::fixed_point::*; use demixer::fixed_point::types::*; use demixer::mixing::mixer::*;
use demixer::lut::estimator::*; use demixer::lut::squash::SquashLut; use demixer::lut::stretch::StretchLut;
fn st(x: i32) -> StretchedProbD { StretchedProbD::new(x, 21) }
fn sq(x: u32) -> FractOnlyU32 { FractOnlyU32::new(x, 31) }
'''
MX = 'src/mixing/mixer.rs'
a('c08-index-cap', 'C08', [(MX, '''        self.common_mut().update_factor_index =
            max_update_factor_index.min(update_factor_index(self) + 1);
''', '''        if update_factor_index(self) + 1 < max_update_factor_index {
            self.common_mut().update_factor_index += 1;
        } else if update_factor_index(self) > max_update_factor_index {
            self.common_mut().update_factor_index = max_update_factor_index;
        }
''')],
  PRE + '''fn main() { let r = DeceleratingEstimatorRates::make_default(); let mut m = Mixer2::new(0, MixerInitializationMode::AllZero);
  let mut last = i32::max_value(); for i in 0..6 { m.set_input(0, sq(1 << 30), st(1 << 21)); m.set_input(1, sq(1 << 30), st(0)); let w = m.weight(0).raw();
   m.update_and_reset(Bit::Zero, sq(1 << 30), 5, &r); let d = (m.weight(0).raw() - w).abs(); assert!(d < last, "step {} {} {}", i, d, last); last = d; } }''',
  'as many updates as the maximum index', 'the learning-rate index stops one short of the given maximum')
a('c08-weight-limit', 'C08', [(MX, 'input.weight = input.weight.sub(&weighted_error).clamped();', 'input.weight = input.weight.sub(&weighted_error);')],
  PRE + '''fn main() { let r = DeceleratingEstimatorRates::make_default(); let mut m = Mixer1::new(0, MixerInitializationMode::AllZero);
  for _ in 0..50 { m.set_input(0, sq(5), st(-(12 << 21))); m.update_and_reset(Bit::One, sq((1u32 << 31) - 1), 5, &r); assert!(m.weight(0).raw() <= 8 << 21 && m.weight(0).raw() >= -(8 << 21)); } }''',
  'many updates with bit one towards the limit', 'weights are no longer limited when a one bit is seen')
a('c08-set-twice', 'C08', [(MX, '''        assert_eq!(self.common().inputs_mask & usage_flag, 0);
        self.common_mut().inputs_mask |= usage_flag;
''', '''        self.common_mut().inputs_mask |= usage_flag;
''')],
  PRE + '''fn main() { let r = std::panic::catch_unwind(|| { let mut m = Mixer3::new(0, MixerInitializationMode::AllZero); m.set_input(1, sq(5), st(7)); m.set_input(1, sq(6), st(8)); }); assert!(r.is_err()); }''',
  'setting the same input twice before an update', 'the second value silently replaces the first')
a('c08-dominant', 'C08', [(MX, 'mixer.inputs_mut()[0].weight = MixerWeight::ONE', '''mixer.inputs_mut().last_mut().into_iter()
                .for_each(|input| input.weight = MixerWeight::ONE)''')],
  PRE + '''fn main() { let m = Mixer4::new(0, MixerInitializationMode::DominantFirst); let mut w = vec![]; let mut m = m; for i in 0..4 { m.set_input(i, sq(1 << 30), st(0)); w.push(m.weight(i).raw()); } assert_eq!(w, vec![1 << 21, 0, 0, 0]); }''',
  'a new mixer with a dominant first input', 'the dominant weight is given to the last input')
a('c08-wide-sum', 'C08', [(MX, '''        for input in self.inputs().iter() {
            let weighted_input =
                fix_i32::mul_wide(&input.weight, &input.prediction_st);
            result = result.add(&weighted_input);
        }
''', '''        for (position, input) in self.inputs().iter().enumerate() {
            let weighted_input =
                fix_i32::mul_wide(&input.weight, &input.prediction_st);
            result = result.add(&weighted_input);
            // keeps the sum of many inputs small
            if position == 7 { result = result.clamped(); }
        }
''')], PRE + '''
fn main() {
    let (s, r) = (SquashLut::new(&StretchLut::new(false), false), DeceleratingEstimatorRates::make_default());
    let mut m = MixerN::new(9, 1, MixerInitializationMode::EqualSummingToOne);
    for _ in 0..400 { for i in 0..9 { m.set_input(i, sq(1 << 30), st(6 << 21)); } m.update_and_reset(Bit::Zero, sq(1 << 29), 1, &r); }
    let x = |i: usize| if i < 8 { 6 << 21 } else { -(12 << 21) };
    for i in 0..9 { m.set_input(i, sq(1 << 30), st(x(i))); }
    let exact: i64 = (0..9).map(|i| m.weight(i).raw() as i64 * x(i) as i64).sum();
    let exact = exact.min(12i64 << 42).max(-(12i64 << 42)) as f64 / (1u64 << 42) as f64;
    assert!((m.mix_all(&s).1.as_f64() - exact).abs() < 1e-4, "{} {}", m.mix_all(&s).1.as_f64(), exact);
}''', 'more than eight inputs whose partial sum leaves the limits and comes back', 'the partial sum is limited, not the sum')
