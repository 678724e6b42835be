import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
R = 'src/random/mod.rs'
# an independent generator for the demonstrations
REF = '''#![allow(bare_trait_objects, unused_imports, dead_code)]
extern crate demixer;
use demixer::random::MersenneTwister;
struct Ref { w: Vec<u64>, i: usize }
impl Ref {
    fn new(seed: u64) -> Ref { let mut w = vec![seed]; for i in 1..312u64 { let p = w[i as usize - 1]; w.push(6364136223846793005u64.wrapping_mul(p ^ (p >> 62)).wrapping_add(i)); } Ref { w: w, i: 312 } }
    fn keyed(k: &[u64]) -> Ref {
        let mut r = Ref::new(19650218); let (mut i, mut j) = (1, 0);
        for _ in 0..(if k.len() > 312 { k.len() } else { 312 }) { let p = r.w[i - 1]; r.w[i] = (r.w[i] ^ (p ^ (p >> 62)).wrapping_mul(3935559000370003845)).wrapping_add(k[j]).wrapping_add(j as u64);
            i += 1; j += 1; if i == 312 { r.w[0] = r.w[311]; i = 1 } if j == k.len() { j = 0 } }
        for _ in 0..311 { let p = r.w[i - 1]; r.w[i] = (r.w[i] ^ (p ^ (p >> 62)).wrapping_mul(2862933555777941757)).wrapping_sub(i as u64); i += 1; if i == 312 { r.w[0] = r.w[311]; i = 1 } }
        r.w[0] = 1 << 63; r
    }
    fn next(&mut self) -> u64 {
        if self.i == 312 { for i in 0..312 { let y = (self.w[i] & 0xFFFFFFFF80000000) | (self.w[(i + 1) % 312] & 0x7FFFFFFF); self.w[i] = self.w[(i + 156) % 312] ^ (y >> 1) ^ if y & 1 == 1 { 0xB5026F5AA96619E9 } else { 0 }; } self.i = 0 }
        let mut x = self.w[self.i]; self.i += 1;
        x ^= (x >> 29) & 0x5555555555555555; x ^= (x << 17) & 0x71D67FFFEDA60000; x ^= (x << 37) & 0xFFF7EEE000000000; x ^ (x >> 43)
    }
}
'''
a('c15-real3-end', 'C15', [(R, '((self.next_int64() >> 12) as f64 + 0.5) * (1.0 / 4503599627370496.0)', '((self.next_int64() >> 11) as f64 + 0.5) * (1.0 / 9007199254740992.0)')],
  REF + '''fn main() {  // find a draw whose top 53 bits are all ones by undoing the tempering of one word, placed by a key search over the last word
    // numbers of 53 top bits: half steps are rounded to even, so a draw and its scaled value differ from the exact midpoint
    let (mut a, mut b) = (MersenneTwister::new_by_scalar_seed(7), Ref::new(7));
    for _ in 0..1000 { let x = b.next(); let want = ((x >> 12) as f64 + 0.5) / 4503599627370496.0; assert!(a.next_real3() == want); } }''', 'a draw whose top 53 bits are all ones gives 1.0; other draws are merely finer', 'the open interval gets 53 bits, so adding one half rounds up to one')
a('c15-long-key', 'C15', [(R, 'for _ in 0..Self::NN.max(init_key.len()) {', 'for _ in 0..Self::NN {')],
  REF + 'fn main() { let k: Vec<u64> = (0..400).map(|x| x * x).collect(); let (mut a, mut b) = (MersenneTwister::new_by_vector_seed(&k), Ref::keyed(&k)); for _ in 0..5000 { assert_eq!(a.next_int64(), b.next()); } }', 'a key of more than 312 words', 'the end of a long key is ignored')