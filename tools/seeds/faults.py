import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
PRE = '''#![allow(bare_trait_objects, unused_imports, dead_code)]
extern crate demixer;
use std::io::{Read, Write, Result, Error, ErrorKind}; use std::mem::ManuallyDrop; use std::panic::{catch_unwind, AssertUnwindSafe};
use demixer::bit::Bit; use demixer::coding::*; use demixer::coding::encoder::*; use demixer::coding::decoder::*; use demixer::fixed_point::*;
fn p(raw: u32) -> FinalProbability { FinalProbability::new(raw, 23) }
/// takes at most `most` bytes at a time and fails the writes whose number is `fail`
struct W { out: Vec<u8>, most: usize, fail: Option<usize>, calls: usize }
impl Write for W {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.calls += 1; if self.fail == Some(self.calls) { return Err(Error::new(ErrorKind::Other, "full")); }
        let n = b.len().min(self.most); self.out.extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
fn w(most: usize, fail: Option<usize>) -> W { W { out: vec![], most: most, fail: fail, calls: 0 } }
/// events that delay a long run of 0xff bytes: unlikely ones at first, then the middle of what is left
fn events(n: usize, seed: u64) -> Vec<(u32, bool)> {
    let mut s = seed; let mut r = vec![];
    for _ in 0..n { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); r.push(((((s >> 40) as u32) & 0x7ffffe) + 1, (s >> 62) & 1 == 1)); }
    r
}
fn code(e: &mut Encoder, ev: &[(u32, bool)]) { for &(q, b) in ev { e.encode_bit(p(q), b.into()); } }
'''
E_, D_ = 'src/coding/encoder.rs', 'src/coding/decoder.rs'
ALLONES = '''
/// always the upper end: base plus width stays below the top by one, so all digits are 0xff until the end
fn ones(n: usize) -> Vec<(u32, bool)> { (0..n).map(|_| (0x7fff00, true)).collect() }
'''
a('c03-short-run', 'C03', [(E_, '''            while self.run_length_0xff > 0 {
                self.run_length_0xff -= 1;
                let to_write = if self.carry { 0x00 } else { 0xff };
                self.writer.write_all(&[to_write]).unwrap();
            }
''', '''            if self.run_length_0xff > 0 {
                let to_write = if self.carry { 0x00 } else { 0xff };
                let run = vec![to_write; self.run_length_0xff as usize];
                self.writer.write(&run).unwrap();
                self.run_length_0xff = 0;
            }
''')], PRE + ALLONES + '''
fn main() {
    let ev = ones(400);
    let (mut a, mut b) = (w(1 << 20, None), w(1, None));
    { let mut e = Encoder::new(&mut a); code(&mut e, &events(9, 1)); code(&mut e, &ev); }
    { let mut e = Encoder::new(&mut b); code(&mut e, &events(9, 1)); code(&mut e, &ev); }
    assert!(a.out.windows(2).any(|x| x == [255, 255]), "no run");
    assert_eq!(a.out, b.out);
}''', 'a delayed run of at least two 0xff bytes and a writer that takes only part of them', 'the rest of the run is dropped silently')
a('c03-eof-zero', 'C03', [(D_, 'self.reader.read_exact(&mut input).unwrap();', 'self.reader.read(&mut input).unwrap();')], PRE + '''
fn main() {
    let ev = events(200, 7); let mut a = w(1 << 20, None);
    { let mut e = Encoder::new(&mut a); code(&mut e, &ev); }
    let cut = &a.out[..a.out.len() - 10];
    let r = catch_unwind(AssertUnwindSafe(|| { let mut input = cut; let mut d = Decoder::new(&mut input); for &(q, _) in &ev { d.decode_bit(p(q)); } }));
    assert!(r.is_err(), "truncated input decoded");
}''', 'a stream cut short', 'missing bytes are read as zeros and decoding goes on')
a('c03-eof-new', 'C03', [(D_, '''        for _ in 0..4 {
            decoder.rc_buffer <<= 8;
            decoder.rc_buffer += decoder.input_byte();
        }
''', '''        let mut head = [0u8; 4];
        let mut filled = 0;
        while filled < head.len() {
            match decoder.reader.read(&mut head[filled..]).unwrap() {
                0 => break,
                taken => filled += taken,
            }
        }
        for &octet in head.iter() {
            let octet = octet as i32;
            decoder.rc_buffer <<= 8;
            decoder.rc_buffer += (octet >> 1) + (decoder.next_high_bit << 7);
            decoder.next_high_bit = octet & 1;
        }
''')], PRE + '''
fn main() {
    for n in 0..4 {
        let bytes = vec![1u8; n];
        assert!(catch_unwind(AssertUnwindSafe(|| { let mut input = &bytes[..]; Decoder::new(&mut input); })).is_err(), "created from {} bytes", n);
    }
}''', 'fewer than four bytes of input', 'a decoder is created all the same')
a('c03-run-error', 'C03', [(E_, '''                let to_write = if self.carry { 0x00 } else { 0xff };
                self.writer.write_all(&[to_write]).unwrap();
''', '''                let to_write = if self.carry { 0x00 } else { 0xff };
                if self.writer.write_all(&[to_write]).is_err() {
                    self.run_length_0xff = 0;
                }
''')], PRE + ALLONES + '''
fn main() {
    let ev = ones(400); let mut runs = 0;
    for fail in 1..80 {
        let mut a = w(1 << 20, Some(fail));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut e = ManuallyDrop::new(Encoder::new(&mut a)); code(&mut e, &events(9, 1)); code(&mut e, &ev);
            unsafe { ManuallyDrop::drop(&mut e); }
        }));
        if a.calls >= fail { runs += 1; assert!(r.is_err(), "failure of write {} ignored", fail); }
    }
    assert!(runs > 4);
}''', 'a write that fails inside a delayed run of 0xff bytes', 'the run is dropped and coding goes on')
a('c03-drop-quiet', 'C03', [(E_, '''        for _ in 0..5 {
            let shifted_byte = (self.rc_buffer >> 23) & 0xff;
            self.output_byte(shifted_byte);
            self.rc_buffer <<= 8;
        }
''', '''        for flushed in 0..5 {
            let shifted_byte = (self.rc_buffer >> 23) & 0xff;
            if flushed == 4 && shifted_byte != 0xff && self.run_length_0xff == 0 {
                // the digits behind the pending one are never looked at
                let _ = self.writer.write_all(
                    &[self.last_output_byte + if self.carry { 1 } else { 0 }]);
                return;
            }
            self.output_byte(shifted_byte);
            self.rc_buffer <<= 8;
        }
''')], PRE + '''
fn main() {
    let ev = events(60, 3); let mut a = w(1 << 20, None);
    { let mut e = Encoder::new(&mut a); code(&mut e, &ev); }
    let last = a.calls;
    for fail in 1..last + 1 {
        let mut a = w(1 << 20, Some(fail));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut e = ManuallyDrop::new(Encoder::new(&mut a)); code(&mut e, &ev);
            unsafe { ManuallyDrop::drop(&mut e); }
        }));
        assert!(r.is_err(), "failure of write {} ignored", fail);
    }
}''', 'the very last byte of the stream cannot be written', 'finishing succeeds and the stream is one byte short')
