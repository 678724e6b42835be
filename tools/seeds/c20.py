import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what, 'demo_sh': seed.DEMO.replace('timeout 200', 'rustc $F --extern demixer="$T/libdemixer.rlib" -o "$T/main" src/main.rs\ntimeout 200').replace('"$T/demo"\n', '"$T/demo" "$T"\n').replace('-o "$T/demo" "$T"', '-o "$T/demo"')})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
MA, ST = 'src/main.rs', 'src/predictor/stats.rs'
PRE = '''#![allow(bare_trait_objects, unused_imports, dead_code)]
extern crate demixer;
use demixer::bit::Bit; use demixer::fixed_point::*; use demixer::lut::*; use demixer::predictor::*;
/// exit success and output of the program for a file of these bytes
fn run(bytes: &[u8]) -> (bool, String) { let d = std::env::args().nth(1).unwrap(); std::fs::write(format!("{}/in", d), bytes).unwrap(); go(&[&format!("{}/in", d)]) }
fn go(args: &[&str]) -> (bool, String) { let d = std::env::args().nth(1).unwrap(); let o = std::process::Command::new(format!("{}/main", d)).args(args).output().unwrap(); (o.status.success(), String::from_utf8(o.stdout).unwrap()) }
fn value(t: &str, k: &str) -> f64 { let l = t.lines().find(|l| l.starts_with(k)).unwrap(); l.split('=').nth(1).unwrap().split_whitespace().next().unwrap().parse().unwrap() }
fn cost(bytes: &[u8]) -> f64 { let l = LookUpTables::new(); let mut p = Predictor::new(&l); let mut c = 0.0; for b in bytes { p.start_new_byte(); for i in (0..8).rev() { let q = p.predict().as_f64(); let bit: Bit = ((b >> i) & 1 == 1).into(); c -= if bit.is_0() { q.log2() } else { (1.0 - q).log2() }; p.update(bit); } } c }
'''
a('c20-read-error', 'C20', [(MA, 'let input_byte = byte_read_result?;', 'let input_byte = match byte_read_result { Ok(byte) => byte, Err(_) => break };')],
  PRE + 'fn main() { let d = std::env::args().nth(1).unwrap(); let (ok, t) = go(&[&d]); assert!(!ok && !t.contains("total cost"), "{}", t); }', 'an input whose reading fails (a directory)', 'a read error is taken for the end of the input and figures are reported')
a('c20-cost-floor', 'C20', [(MA, 'total_cost_in_bits -= (1.0 - prediction).log2();', 'total_cost_in_bits -= (1.0 - prediction).max(0.001).log2();')],
  PRE + 'fn main() { let mut v = vec![0u8; 3000]; v.push(255); let (ok, t) = run(&v); assert!(ok && (value(&t, "total cost in bits") - cost(&v)).abs() < 0.01, "{} {}", t, cost(&v)); }', 'a one bit after a long run predicted below 0.1 %', 'the cost of badly predicted one bits is understated')
a('c20-skip', 'C20', [(MA, 'predictor.start_new_byte();', 'if input_byte == 0x1a { total_bytes += 1; continue; }\n        predictor.start_new_byte();')],
  PRE + 'fn main() { let v = b"ab\\x1acdab\\x1acd"; let (ok, t) = run(v); assert!(ok && (value(&t, "total cost in bits") - cost(v)).abs() < 0.01, "{} {}", t, cost(v)); }', 'an input containing the byte 0x1a', 'one byte value is counted but not coded')
a('c19-average', 'C19', [(ST, """(self.total_bytes * 8) as f64),""", """(self.total_bytes.max(4) * 8) as f64),""")],
  PRE + 'fn main() { let (ok, t) = run(b"ab"); assert!(ok && t.contains("Average context length =           0.438 bytes"), "{}", t); }', 'an input of less than four bytes', 'the average number of contexts is understated')
