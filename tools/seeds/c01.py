import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
ENC='src/coding/encoder.rs'; DEC='src/coding/decoder.rs'
PRE='''extern crate demixer;
use demixer::coding::FinalProbability; use demixer::coding::encoder::Encoder; use demixer::coding::decoder::Decoder;
use demixer::fixed_point::FixedPoint;
#[derive(Clone, Copy)] enum Ev { B(u32, bool), R(bool) }
fn fp(p: u32) -> FinalProbability { FinalProbability::new(p, 23) }
fn round_trip(evs: &[Ev]) {
    let mut out: Vec<u8> = Vec::new();
    { let w: &mut std::io::Write = &mut out; let mut e = Encoder::new(w);
      for ev in evs { match *ev { Ev::B(p, b) => e.encode_bit(fp(p), b.into()), Ev::R(b) => e.encode_rare_event(b) } } }
    let mut src = out.as_slice();
    { let r: &mut std::io::Read = &mut src; let mut d = Decoder::new(r);
      for (i, ev) in evs.iter().enumerate() { match *ev {
        Ev::B(p, b) => assert!(bool_of(d.decode_bit(fp(p))) == b, "event {}", i), Ev::R(b) => assert!(d.decode_rare_event() == b, "event {}", i) } } }
    assert_eq!(src.len(), 0, "bytes left over");
}
fn bool_of(b: demixer::bit::Bit) -> bool { b.is_1() }
struct G(u64);
impl G { fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 >> 8 } }
/// events that keep the interval around a byte boundary for `k` bytes and end above (carry) or below it
fn straddle(seed: u64, k: usize, above: bool) -> Vec<Ev> {
    let mut g = G(seed * 2654435761 + 88172645463325252); let (mut r, mut t) = (0x7fff_ffffi64, 1i64 << 30); let mut v = Vec::new(); let mut n = 0;
    loop {
        while r < 1 << 23 { r <<= 8; t <<= 8; n += 1; }
        if n >= k {
            let p = ((t << 23) + r - 1) / r;
            let p = if above { p } else { (t << 23) / r };
            let d = (r * p) >> 23;
            if p >= 1 && p < 1 << 23 && (above && d >= t || !above && d <= t && d > 0) { v.push(Ev::B(p as u32, above)); break; }
        }
        let p = 1 + g.n() as i64 % ((1 << 23) - 2); let d = (r * p) >> 23;
        if d == t { continue; }
        if t < d { v.push(Ev::B(p as u32, false)); r = d; } else { v.push(Ev::B(p as u32, true)); r -= d; t -= d; }
    }
    for _ in 0..g.n() % 40 { v.push(Ev::B(1 + (g.n() % 8388606) as u32, g.n() & 16 == 0)); }
    v
}
'''
STR=PRE+'''fn main() { for s in 0..400 { for k in 1..8 { round_trip(&straddle(s, k, true)); round_trip(&straddle(s, k, false)); } } for k in 20..60 { round_trip(&straddle(1, k, true)); round_trip(&straddle(2, k, false)); } println!("ok"); }
'''
def a(i, prop, edits, demo, needs, what): seed.add(i, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
a('c01-carry-run','C01',[(ENC,"let to_write = if self.carry { 0x00 } else { 0xff };","let to_write = if self.carry && self.run_length_0xff == 0 { 0x00 } else { 0xff };")],STR,
  'a carry that arrives while at least two 0xff bytes are being held back','only the last of the held-back 0xff bytes absorbs the carry')
a('c01-run-cap','C01',[(ENC,"        if octet != 0xff || self.carry {","        if octet != 0xff || self.carry || self.run_length_0xff >= 16 {")],STR,
  'a run of more than 16 delayed 0xff bytes followed by a carry','the run of delayed 0xff bytes is flushed early, so a later carry is lost')
a('c01-threshold','C01',[(ENC,"while self.rc_range < 0x0080_0000 {","while self.rc_range < 0x0040_0000 {"),(DEC,"while self.rc_range < 0x0080_0000 {","while self.rc_range < 0x0040_0000 {")],
  PRE+'''fn main() { let mut g = G(5); for _ in 0..2000 { let mut v = Vec::new(); for _ in 0..200 { v.push(Ev::B(1 + (g.n() % 8388606) as u32, g.n() & 16 == 0)); v.push(Ev::B(1, false)); } round_trip(&v); } println!("ok"); }
''','probability 2^-23 while the interval width is below 2^23 (both coder halves agree, so only the empty interval shows)','the smaller sub-interval can become empty: encoding panics')
a('c01-rare-freq','C01',[(ENC,"            let freq = self.rc_range - 1;\n            self.add_with_carry(freq);","            let freq = self.rc_range - 1;\n            self.rc_buffer = (self.rc_buffer.wrapping_add(freq)) & 0x7fff_ffff;")],
  PRE+'''fn main() { let mut g = G(9); for _ in 0..20000 { let mut v = Vec::new(); for _ in 0..g.n() % 60 { v.push(Ev::B(1 + (g.n() % 8388606) as u32, g.n() & 16 == 0)); } v.push(Ev::R(true)); for _ in 0..g.n() % 20 { v.push(Ev::B(1 + (g.n() % 8388606) as u32, g.n() & 16 == 0)); } round_trip(&v); } println!("ok"); }
''','a rare event whose interval start wraps past the 31-bit window','the carry out of a rare event is dropped')
a('c01-flush-carry','C01',[(ENC,"        for _ in 0..5 {\n            let shifted_byte","        if self.run_length_0xff > 0 {\n            self.carry = false;\n        }\n        for _ in 0..5 {\n            let shifted_byte")],
  STR.replace("for _ in 0..g.n() % 40 {","for _ in 0..(seed & 1) * (g.n() % 40) {"),'the stream ends right after a carry into a delayed 0xff run','a carry still pending when the encoder is dropped is forgotten')
a('c01-run-byte','C01',[(ENC,"    run_length_0xff: i32,","    run_length_0xff: u8,"),(ENC,"            self.run_length_0xff += 1;","            self.run_length_0xff = self.run_length_0xff.wrapping_add(1);")],
  PRE+'''fn main() { for k in vec![3, 20, 240, 258, 262, 300] { round_trip(&straddle(1, k, true)); round_trip(&straddle(2, k, false)); } println!("ok"); }
''','256 or more 0xff bytes held back before the carry is decided','the number of held-back bytes is counted modulo 256, so 256 of them are never written')
