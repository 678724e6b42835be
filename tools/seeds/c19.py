import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
ST, CO, FP = ['src/' + x for x in ('predictor/stats.rs', 'coding/mod.rs', 'fixed_point/mod.rs')]
PRE = '''#![allow(bare_trait_objects, unused_imports, dead_code)]
extern crate demixer;
use demixer::bit::Bit; use demixer::coding::*; use demixer::fixed_point::*; use demixer::fixed_point::types::*; use demixer::history::*; use demixer::lut::*; use demixer::lut::log2::*;
use demixer::predictor::stats::*; use demixer::util::last_bytes::*; use demixer::history::tree::*; use demixer::history::naive::*; use demixer::estimators::cost::*;
/// what a run prints
fn printed(run: &Fn()) -> Option<String> {
    if std::env::args().count() > 1 { run(); return None; }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap(); assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
    Some(String::from_utf8(o.stdout).unwrap())
}
'''
def main(body, check): return PRE + 'fn main() { if let Some(t) = printed(&|| { let l = LookUpTables::new(); %s }) { %s } }' % (body, check)
a('c19-first-byte', 'C19', [(ST, 'if self.total_bytes > 0 {', 'if self.total_bytes > 1 {')],
  main('''let mut s = PredictionStatistics::new(3, &l); let mut c = LastBytesCache::new(); let p = FinalProbability::new(1 << 22, 23); let e = CollectedContextStates::new(3);
  for b in &[65u8, 66] { c.start_new_byte(); s.start_new_byte(&c); for k in (0..8).rev() { let bit: Bit = ((b >> k) & 1 == 1).into(); s.on_next_bit(bit, &e, p); c.on_next_bit(bit); } } c.start_new_byte(); s.start_new_byte(&c);
  s.print_state(&[PredictionStatisticsType::CostsAndOccurrencesPerSymbolValue]);''', '''
  let f = |k: &str| { let i = t.find(k).unwrap(); t[i + k.len()..].split_whitespace().next().unwrap().to_string() }; assert_eq!((f("41 A"), f("42 B")), ("1".to_string(), "1".to_string()));'''), 'the statistics of the first byte of an input', 'the first byte of every input is missing from the symbol statistics')
a('c19-occurrences-class', 'C19', [(ST, 'contexts.items()[max_order].occurrence_count() as u64;', 'contexts.items()[max_order.min(4)].occurrence_count() as u64;')],
  main('''let mut s = PredictionStatistics::new(8, &l); let mut z = LastBytesCache::new(); z.start_new_byte(); s.start_new_byte(&z); let mut c = CollectedContextStates::new(8); let k = LookUpTables::new();
  let x = ContextState::ForEdge { last_occurrence_distance: 3, occurrence_count: 1, repeated_bit: Bit::One }; for i in 0..6 { let _ = i; c.push(if c.items().len() == 4 { ContextState::ForEdge { last_occurrence_distance: 3, occurrence_count: 8, repeated_bit: Bit::One } } else { x.clone() }); }
  s.on_next_bit(Bit::One, &c, FinalProbability::new(1 << 22, 23)); s.print_state(&[PredictionStatisticsType::CostsAndOccurrencesPerContextType]);''', '''
  assert!(t.contains("order 4, unary 4, count       0.12, cost       0.12, avg occur    1.000"), "{}", t);'''), 'a longest context of order five or more with another occurrence count than that of order four', 'the average occurrence count of long contexts is that of a shorter context')
a('c19-unary-count', 'C19', [(ST, '.filter(|ctx| !ctx.is_for_node()).count());', '.skip(1).filter(|ctx| !ctx.is_for_node()).count());')],
  main('''let mut s = PredictionStatistics::new(8, &l); let mut z = LastBytesCache::new(); z.start_new_byte(); s.start_new_byte(&z); let mut c = CollectedContextStates::new(8); c.push(ContextState::ForEdge { last_occurrence_distance: 3, occurrence_count: 1, repeated_bit: Bit::One });
  s.on_next_bit(Bit::One, &c, FinalProbability::new(1 << 22, 23)); s.print_state(&[PredictionStatisticsType::CostsAndOccurrencesPerContextType]);''', '''
  assert!(t.contains("order 0, unary 1, count       0.12, cost       0.12, avg occur    1.000"), "{}", t);'''), 'a shortest context which is an edge (all bytes equal so far)', 'bits of degenerate histories are counted in the class of one edge less')
a('c19-log2-narrow', 'C19', [(FP, '''        let raw_shifted = (self.raw() << leading_zeros)
            >> Self::TOTAL_BITS - Log2Lut::INDEX_BITS - 1;
        let result_fract = lut.log2_restricted(raw_shifted) as i32;''', '''        let raw_shifted = (self.raw() << leading_zeros)
            >> Self::TOTAL_BITS - Log2Lut::INDEX_BITS - 1;
        let raw_shifted = if leading_zeros > 24 { raw_shifted & !63 } else { raw_shifted };
        let result_fract = lut.log2_restricted(raw_shifted) as i32;''')],
  PRE + '''fn main() { let l = Log2Lut::new(); for p in 1..300u32 { let c = FinalProbability::new(p, 23).estimate_cost(Bit::Zero, &l).as_f64(); let w = 23.0 - (p as f64).log2(); assert!((c - w).abs() < 0.001, "{} {} {}", p, c, w); } }''', 'probabilities below 2^-16', 'the fraction of the logarithm of small probabilities loses bits')
a('c19-current-restart', 'C19', [(ST, 'self.current_byte_cost = Log2Q::new_unchecked(0);', 'if self.total_bytes == 0 || last_bytes.previous_byte_1() != last_bytes.previous_byte_2() { self.current_byte_cost = Log2Q::new_unchecked(0); }')],
  main('''let mut s = PredictionStatistics::new(3, &l); let mut c = LastBytesCache::new(); let p = FinalProbability::new(1 << 22, 23); let e = CollectedContextStates::new(3);
  for b in &[65u8, 65, 66, 67] { c.start_new_byte(); s.start_new_byte(&c); for k in (0..8).rev() { let bit: Bit = ((b >> k) & 1 == 1).into(); s.on_next_bit(bit, &e, p); c.on_next_bit(bit); } } c.start_new_byte(); s.start_new_byte(&c);
  s.print_state(&[PredictionStatisticsType::CostsAndOccurrencesPerSymbolValue]);''', '''
  let f = |k: &str| { let i = t.find(k).unwrap(); t[i + k.len()..].split_whitespace().nth(1).unwrap().to_string() }; assert_eq!((f("41 A"), f("42 B"), f("43 C")), ("2.00".to_string(), "1.00".to_string(), "1.00".to_string()));'''), 'a byte following two equal bytes', 'the cost of repeated bytes is credited again to the byte after them')
