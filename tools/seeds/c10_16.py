import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
PRE = '''#![allow(bare_trait_objects, unused_imports)]
extern crate demixer;
use demixer::bit::Bit; use demixer::history::state::recent_bits::*; use demixer::history::state::bits_runs::*; use demixer::history::window::*;
use demixer::util::last_bytes::*; use demixer::util::indexer::*; use demixer::util::quantizers::*;
fn panics<F: FnOnce() + std::panic::UnwindSafe>(f: F) -> bool { std::panic::catch_unwind(f).is_err() }
'''
RB, RU, LB, IX, QU, WI = ['src/' + x for x in ('history/state/recent_bits.rs', 'history/state/bits_runs.rs', 'util/last_bytes.rs', 'util/indexer.rs', 'util/quantizers.rs', 'history/window.rs')]
a('c11-hash-order', 'C11', [(LB, '''        hasher.mix_byte(self.previous_byte_3());
        hasher.mix_byte(self.previous_byte_2());
''', '''        hasher.mix_byte(self.previous_byte_2());
        hasher.mix_byte(self.previous_byte_3());
''')],
  PRE + '''fn put(c: &mut LastBytesCache, b: u8) { c.start_new_byte(); for i in (0..8).rev() { c.on_next_bit((((b >> i) & 1) == 1).into()); } }
fn fnv(b: &[u8]) -> u16 { let mut h: u64 = 0xcbf29ce484222325; for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); } let r = (h ^ (h >> 32)) as u32; (r ^ (r >> 16)) as u16 }
fn main() { let mut c = LastBytesCache::new(); put(&mut c, 1); put(&mut c, 2); put(&mut c, 3); c.start_new_byte(); assert_eq!(c.hash03_16(), fnv(&[1, 2, 3, 1])); }''', 'the third byte differing from the second', 'the order-3 context is hashed in another order')
a('c11-restart', 'C11', [(LB, 'assert_eq!(self.bit_index, -1);', 'assert!(self.bit_index < 7);')],
  PRE + 'fn main() { assert!(panics(|| { let mut c = LastBytesCache::new(); c.start_new_byte(); c.on_next_bit(Bit::One); c.start_new_byte(); })); }', 'a byte started in the middle of another', 'an incomplete byte is silently accepted')
a('c12-limit', 'C12', [(IX, 'assert!(value < self.dimensions_mut()', 'assert!(value <= self.dimensions_mut()')],
  PRE + 'fn main() { assert!(panics(|| { let mut i = Indexer2::new(vec![3, 4]); i.with_sub_index(1).with_sub_index(4); })); }', 'a sub-index equal to its dimension', 'the slot of another combination is used')
a('c12-size-wrap', 'C12', [(IX, 'result = result.checked_mul(dimension.limit).unwrap();', 'result = result.wrapping_mul(dimension.limit);')],
  PRE + 'fn main() { assert!(panics(|| { let mut i = Indexer2::new(vec![1 << 40, 1 << 40]); i.get_array_size(); })); }', 'a product of dimensions beyond 64 bits', 'a size of zero is reported')
a('c12-quant-max', 'C12', [(QU, 'Self::quantize(<u16>::max_value())', 'Self::quantize(<i16>::max_value() as u16)')],
  PRE + 'fn main() { assert!((0..65536).all(|i| OccurrenceCountQuantizer::quantize(i as u16) <= OccurrenceCountQuantizer::max_output())); }', 'counts of 32768 and more', 'outputs exceed the reported maximum')
a('c12-sub-reset', 'C12', [(IX, '''        assert_eq!(current_input_index, self.inputs_num());
        let mut result: usize = 0;
        for dimension in self.dimensions_mut().iter() {
''', '''        assert!(current_input_index > 0);
        let mut result: usize = 0;
        for dimension in self.dimensions_mut().iter() {
''')],
  PRE + 'fn main() { assert!(panics(|| { let mut i = Indexer2::new(vec![3, 4]); i.with_sub_index(1).with_sub_index(1).get_array_index_and_reset(); i.with_sub_index(2).get_array_index_and_reset(); })); }', 'a second round that gives fewer sub-indices', 'a stale sub-index is used')
a('c16-prefix-wrap', 'C16', [(WI, '                equal &= self[index_first] == self[index_second];\n', '                equal &= self[index_first] == self[index_second] || index_second.value + 1 == self.max_size && index_first == self.start;\n')],
  PRE + '''fn main() { let mut w = InputWindow::new(4, 2); for b in &[5u8, 6, 7, 8] { w.advance_cursor(); w.set_byte_at_cursor(*b); } let (a, b) = (w.start(), WindowIndex::new(3)); assert!(!w.compare_for_equal_prefix(a, b, 7, 1)); }''', 'a comparison whose second side starts at the last slot of the ring', 'differing bytes compare as equal')
a('c16-subtract', 'C16', [(WI, 'if index.value >= to_subtract {', 'if index.value >= to_subtract || to_subtract == self.max_size {')],
  PRE + 'fn main() { let mut w = InputWindow::new(4, 2); for _ in 0..4 { w.advance_cursor(); } let i = WindowIndex::new(1); assert_eq!(w.index_subtract(i, 4), i); }', 'subtracting a whole turn', 'subtraction of the window size panics')

a('c10-new-node-first', 'C10', [(RU, 'Self::for_bit_run(!last_bit, opposite_bits_run_length).updated(last_bit)', 'Self::for_bit_run(!last_bit, opposite_bits_run_length & 511).updated(last_bit)')],
  PRE + 'fn main() { let n = BitsRunsTracker::for_new_node(Bit::One, 700); assert_eq!(n.opposite_bit_run_length(), 700); }', 'a node created after more than 511 equal bits', 'the recorded opposite run is wrong')

a('c10-run-signed', 'C10', [(RU, 'let run_length = run_length.min(Self::MAX_RUN_LENGTH);', 'let run_length = (run_length as i16).min(Self::MAX_RUN_LENGTH as i16) as u16 & 1023;')],
  PRE + 'fn main() { let r = BitsRunsTracker::for_bit_run(Bit::One, 32778); assert_eq!(r.last_bit_run_length(), 1000); }', 'a run length of 32768 or more', 'the capped run length is taken as negative')
a('c16-word-compare', 'C16', [(WI, '''        for position in 0..full_byte_length {
            equal &= self.buffer[starting_index_first + position] ==
                self.buffer[starting_index_second + position];
            if !equal { break; };
        }
''', '''        let words = full_byte_length / 64;
        for word in 0..words {
            let first = starting_index_first + word * 64;
            let second = starting_index_second + word * 64;
            equal &= self.buffer[first..first + 64] ==
                self.buffer[second..second + 64];
            if !equal { break; };
        }
        for position in words * 64 + words.min(1)..full_byte_length {
            equal &= self.buffer[starting_index_first + position] ==
                self.buffer[starting_index_second + position];
            if !equal { break; };
        }
''')], PRE + '''
fn main() {
    for n in 1..100 { for d in 0..n {
        let mut w = InputWindow::new(300, 0);
        for k in 0..2 { for x in 0..120u8 { w.advance_cursor(); w.set_byte_at_cursor(if k == 1 && x as usize == d { 177 } else { x }); } }
        let (i, j) = (WindowIndex::new(0), WindowIndex::new(120));
        assert!(!w.compare_for_equal_prefix(i, j, 7, n), "{} bytes differing in byte {}", n, d);
        assert!(w.compare_for_equal_prefix(i, j, 7, d));
    } }
}''', 'prefixes of at least 65 bytes which differ in the first byte behind whole groups of 64', 'one byte is not compared and different contexts are taken for equal')
