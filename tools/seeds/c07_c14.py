import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
PRE = '''#![allow(bare_trait_objects, unused_imports)]
extern crate demixer;
use demixer::bit::Bit; use demixer::fixed_point::*; use demixer::fixed_point::types::*;
use demixer::estimators::decelerating::DeceleratingEstimator; use demixer::estimators::fixed_speed::FixedSpeedEstimator; use demixer::estimators::cost::CostTracker;
use demixer::lut::estimator::*; use demixer::lut::cost::CostTrackersLut; use demixer::lut::log2::Log2Lut;
'''
DEC = 'src/estimators/decelerating.rs'
a('c07-cost-wrap', 'C07', [('src/estimators/cost.rs', 'decayed.saturating_add(new_cost)', 'decayed.wrapping_add(new_cost)')],
  PRE + '''fn main() { let mut t = CostTracker::INITIAL; let mut last = 0; for _ in 0..40 { t = t.updated(Log2D::new(23 * 2048, 11)); assert!(t.raw() >= last || t.raw() == 65535); last = t.raw(); } assert_eq!(t.raw(), 65535); }''',
  'a run of maximally expensive bits', 'the cost tracker wraps to a small value instead of saturating')
a('c07-edge-clamp', 'C07', [(DEC, '''        let prediction = (prediction as u32) << Self::COUNT_BITS;
''', '''        let prediction = prediction.max(1 << 9).min((1 << Self::PREDICTION_BITS) - (1 << 9));
        let prediction = (prediction as u32) << Self::COUNT_BITS;
''')],
  PRE + '''fn main() { let r = DeceleratingEstimatorRates::make_default(); let mut e = DeceleratingEstimator::make(FractOnlyU32::new(100 << 9, 31), 900);
  let p = e.prediction().raw() >> 9; e.update(Bit::Zero, &r); let q = e.prediction().raw() >> 9; let want = ((1u32 << 22) - p) / 902; assert!(q - p >= want && q - p <= want + 1, "{} -> {}", p, q);
  let mut e = DeceleratingEstimator::make(FractOnlyU32::new(100 << 9, 31), 900); e.update(Bit::One, &r); assert!(e.prediction().raw() >> 9 <= 100); }''',
  'a prediction closer than 2^-13 to certainty', 'an update moves a very confident estimator away from the bit that was seen')
a('c07-make-edge', 'C07', [(DEC, '''            } else if prediction == 1 << (Self::PREDICTION_BITS) {
                (1 << (Self::PREDICTION_BITS)) - 1''', '''            } else if prediction >= (1 << (Self::PREDICTION_BITS)) - 1 {
                (1 << (Self::PREDICTION_BITS)) - 2''')],
  PRE + '''fn main() { for i in 1..(1u32 << 22) { assert_eq!(DeceleratingEstimator::make(FractOnlyU32::new(i << 9, 31), 3).prediction().raw(), i << 9); } }''',
  'an estimator made from the largest representable prediction', 'the prediction it was made from is not kept')
a('c07-run-prediction', 'C07', [('src/lut/estimator.rs', '''        let mut estimator = DeceleratingEstimator::make(FractOnlyU32::HALF, 1);
''', '''        let mut estimator = DeceleratingEstimator::new();
''')],
  PRE + '''use demixer::lut::stretch::StretchLut;
fn main() { let r = DeceleratingEstimatorRates::make_default(); let s = StretchLut::new(false); let t = DeceleratingEstimatorPredictions::new(&s, &r);
  let mut e = DeceleratingEstimator::make(FractOnlyU32::HALF, 1); for i in 0..=1000u16 { let (p, q) = t.for_0_bit_run(i); assert_eq!(p.raw(), e.prediction().raw()); assert_eq!(q.raw(), s.stretch(e.prediction()).raw()); e.update(Bit::Zero, &r); } }''',
  'a prediction read from a deterministic edge', 'the run table starts from an estimator that has never been used instead of used once')
a('c07-cost-other-bit', 'C07', [('src/estimators/cost.rs', '''        self.updated(probability_sq.to_fix_u32::<FinalProbability>()
            .estimate_cost(input_bit, luts.log2_lut()))''', '''        self.updated(probability_sq.flip().to_fix_u32::<FinalProbability>()
            .estimate_cost(input_bit, luts.log2_lut()))''')],
  PRE + '''use demixer::lut::LookUpTables;
fn main() { std::thread::Builder::new().stack_size(1 << 26).spawn(|| { let l = LookUpTables::new(); for k in 1..64u32 { let p = FractOnlyU32::new(k << 25, 31); for &b in &[Bit::Zero, Bit::One] {
  let c = p.to_fix_u32::<FinalProbability>().estimate_cost(b, l.log2_lut()); assert_eq!(CostTracker::INITIAL.updated_on_bit(p, b, &l).raw(), CostTracker::INITIAL.updated(c).raw()); } } }).unwrap().join().unwrap(); }'''.replace('FinalProbability>()', 'demixer::coding::FinalProbability>()'),
  'per-bit cost update', 'the cost of the other bit is charged')
a('c07-fixed-start', 'C07', [('src/estimators/fixed_speed.rs', '        FixedSpeedEstimator(fract)\n', '        FixedSpeedEstimator(fract.max(1 << (Self::LOG_RATE - 1)))\n')],
  PRE + '''fn main() { for i in 1..=65535u32 { assert_eq!(FixedSpeedEstimator::new(i as u16).prediction().raw(), i << 15); } }''',
  'a start value below 2^-10', 'the estimator does not start at the given probability')
FM = 'src/fixed_point/mod.rs'
a('c14-mul-wrap', 'C14', [(FM, '''            let result_wide = mul_raw << bits_diff;
            if DO_CHECKS {
                assert_eq!((result_wide as i32) as i64, result_wide);
                assert_eq!(result_wide >> bits_diff, mul_raw);
            }
            R::new(result_wide as i32, R::FRACTIONAL_BITS)''', '''            let result_wide = mul_raw << bits_diff;
            if DO_CHECKS {
                assert_eq!(result_wide >> bits_diff, mul_raw);
            }
            R::new(result_wide as i32, R::FRACTIONAL_BITS)''')],
  PRE + '''fn main() { for &(x, y) in &[(70000, 70000), (-70000, 70000), (2000, 3), (1 << 30, 4)] { let r = std::panic::catch_unwind(move || { let z: NoFractI32 = fix_i32::mul(&NoFractI32::new(x, 0), &NoFractI32::new(y, 0)); z.raw() });
  let w = x as i64 * y as i64; if w as i32 as i64 == w { assert_eq!(r.unwrap() as i64, w); } else { assert!(r.is_err(), "{} * {} gave {}", x, y, r.unwrap()); } } }''',
  'a product outside the 32-bit range of a target with at least as many fractional bits as the operands', 'the product wraps silently')
a('c14-flip-sat', 'C14', [('src/fixed_point/types.rs', '''    pub fn flip(&self) -> Self {
        Self::ONE_UNSAFE.sub(self)
    }

    pub fn to_signed(&self) -> FractOnlyI64 {''', '''    pub fn flip(&self) -> Self {
        FractOnlyU64(Self::ONE_UNSAFE.raw().wrapping_sub(self.raw()) & !Self::ONE_UNSAFE.raw())
    }

    pub fn to_signed(&self) -> FractOnlyI64 {''')],
  PRE + '''fn main() { for &x in &[1u64, 5, 1 << 62, (1 << 63) - 1] { assert_eq!(FractOnlyU64::new(x, 63).flip().raw(), (1u64 << 63) - x); }
  assert!(std::panic::catch_unwind(|| FractOnlyU64::new(0, 63).flip().raw()).is_err()); }''',
  'flipping a 64-bit zero', 'one minus zero silently becomes zero instead of being refused')
a('c14-trunc-conv', 'C14', [(FM, '''            R::new(fix_u64::scaled_down(raw, bits_diff), R::FRACTIONAL_BITS)
        } else {
            let bits_diff = R::FRACTIONAL_BITS - Self::FRACTIONAL_BITS;
            if DO_CHECKS { assert_eq!(raw << bits_diff >> bits_diff, raw); }
            R::new(raw << bits_diff, R::FRACTIONAL_BITS)
        }
    }

    fn add(&self, other: &Self) -> Self {
        let add_raw =
            if DO_CHECKS {
                self.raw().checked_add(other.raw())
                    .expect("numeric range exceeded")
            } else {
                self.raw() + other.raw()
            };
        Self::new(add_raw, Self::FRACTIONAL_BITS)
    }

    fn sub(&self, other: &Self) -> Self {
        let sub_raw =
            if DO_CHECKS {
                self.raw().checked_sub(other.raw())
                    .expect("numeric range exceeded")
            } else {
                self.raw() - other.raw()
            };
        Self::new(sub_raw, Self::FRACTIONAL_BITS)
    }

    fn div(&self, divisor: u32) -> Self {''', '''            R::new((raw + (1 << (bits_diff - 1)) - 1) >> bits_diff, R::FRACTIONAL_BITS)
        } else {
            let bits_diff = R::FRACTIONAL_BITS - Self::FRACTIONAL_BITS;
            if DO_CHECKS { assert_eq!(raw << bits_diff >> bits_diff, raw); }
            R::new(raw << bits_diff, R::FRACTIONAL_BITS)
        }
    }

    fn add(&self, other: &Self) -> Self {
        let add_raw =
            if DO_CHECKS {
                self.raw().checked_add(other.raw())
                    .expect("numeric range exceeded")
            } else {
                self.raw() + other.raw()
            };
        Self::new(add_raw, Self::FRACTIONAL_BITS)
    }

    fn sub(&self, other: &Self) -> Self {
        let sub_raw =
            if DO_CHECKS {
                self.raw().checked_sub(other.raw())
                    .expect("numeric range exceeded")
            } else {
                self.raw() - other.raw()
            };
        Self::new(sub_raw, Self::FRACTIONAL_BITS)
    }

    fn div(&self, divisor: u32) -> Self {''')],
  PRE + '''fn main() { for k in 0..1000u32 { let v: NoFractU64 = FractOnlyU32::new(k << 20, 31).to_fix_u64(); assert_eq!(v.raw(), ((k as u64) << 20 >> 30) & 1); } let h: NoFractU64 = FractOnlyU32::HALF.to_fix_u64(); assert_eq!(h.raw(), 1); }''',
  'a conversion to fewer fractional bits of a value exactly half way', 'ties are rounded towards zero')
