import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
SQ, ST, LG, AP, MO, FP = ['src/' + x for x in ('lut/squash.rs', 'lut/stretch.rs', 'lut/log2.rs', 'lut/apm.rs', 'lut/mod.rs', 'fixed_point/mod.rs')]
PRE = '''#![allow(bare_trait_objects, unused_imports, dead_code)]
extern crate demixer;
use demixer::fixed_point::*; use demixer::fixed_point::types::*; use demixer::lut::*; use demixer::lut::log2::*; use demixer::lut::squash::*; use demixer::lut::stretch::*; use demixer::lut::apm::*;
fn sq(l: &LookUpTables, x: i32) -> i64 { l.squash_lut().squash(StretchedProbD::new(x, 21)).raw() as i64 }
fn st(l: &LookUpTables, x: u32) -> i64 { l.stretch_lut().stretch(FractOnlyU32::new(x, 31)).raw() as i64 }
'''
a('c21-level-end', 'C21', [(ST, 'self.0[level - 1][0]', 'self.0[level - 1][(level == Self::LAST_LEVEL) as usize]')],
  PRE + 'fn main() { let l = LookUpTables::new(); let (a, b, c) = (st(&l, (1 << 23) - (1 << 14)), st(&l, (1 << 23) - (1 << 13)), st(&l, 1 << 23)); assert!((a + c - 2 * b).abs() <= 2, "{} {} {}", a, b, c); }', 'probabilities in the last interval below 2^-8', 'interpolation at one level boundary goes towards the wrong entry')
a('c21-log2-one', 'C21', [(FP, '''        let leading_zeros = self.raw().leading_zeros() as u8;
        let raw_shifted = (self.raw() << leading_zeros)
            >> Self::TOTAL_BITS - Log2Lut::INDEX_BITS - 1;
        let result_fract = lut.log2_restricted(raw_shifted as u32) as i32;''', '''        let leading_zeros = self.raw().leading_zeros().max(2) as u8;
        let raw_shifted = (self.raw() << leading_zeros)
            >> Self::TOTAL_BITS - Log2Lut::INDEX_BITS - 1;
        let result_fract = lut.log2_restricted(raw_shifted as u32 | 2048) as i32;''')],
  PRE + 'fn main() { let l = LookUpTables::new(); let x = (3u64 << 62) + 5; let w = (x as f64).log2(); assert!((NoFractU64::new(x, 0).log2(l.log2_lut()).as_f64() - w).abs() < 0.001); }', '64-bit numbers of 2^62 and more', 'the logarithm of the largest numbers is wrong')
a('c21-grid', 'C21', [(ST, '&NoFractU32::new(in_level_index as u32, 0)));', '&NoFractU32::new((in_level_index - (in_level_index == 511 && level == 6) as usize) as u32, 0)));')],
  PRE + 'fn main() { let l = LookUpTables::new(); for i in 1..512u32 { let x = (1 << 23) + (i << 14); assert!(st(&l, x) > st(&l, x - (1 << 14)), "{}", i); } }', 'probabilities just below 2^-7', 'one entry of the stretch table repeats its neighbour')
a('c21-apm-bits', 'C21', [(MO, 'ApmWeightingLut::new(2, &squash_lut),', 'ApmWeightingLut::new(1, &squash_lut),')],
  PRE + 'fn main() { let l = LookUpTables::new(); for b in 0..3u8 { assert_eq!(l.apm_lut(b).stretched_fract_index_bits(), b); } }', 'a map with two index bits', 'the weighting table for two index bits is that for one')
