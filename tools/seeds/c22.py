import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
PRE = '''#![allow(bare_trait_objects, unused_imports, dead_code)]
extern crate demixer;
use demixer::bit::Bit; use demixer::estimators::cost::*; use demixer::estimators::decelerating::*; use demixer::fixed_point::*; use demixer::fixed_point::types::*;
use demixer::history::*; use demixer::history::state::recent_bits::*; use demixer::history::state::bits_runs::*; use demixer::history::window::*; use demixer::history::naive::*; use demixer::history::fat_map::*;
use demixer::history::tree::*; use demixer::history::tree::node::*; use demixer::history::tree::nodes::*; use demixer::history::tree::node_child::*; use demixer::history::tree::direction::*; use demixer::lut::*;
fn panics<F: FnOnce() + std::panic::UnwindSafe>(f: F) -> bool { std::panic::catch_unwind(f).is_err() }
fn bit(b: u8, k: usize) -> Bit { (((b >> k) & 1) == 1).into() }
/// runs a source over the bytes and shows every collection of contexts to f
fn feed<'a, S: HistorySource<'a>, F: FnMut(usize, usize, &[ContextState])>(s: &mut S, order: usize, bytes: &[u8], mut f: F) {
    let mut c = CollectedContextStates::new(order);
    for (n, b) in bytes.iter().enumerate() {
        s.start_new_byte();
        for k in (0..8).rev() {
            c.reset(); s.gather_history_states(&mut c); f(n, k, c.items());
            let t: Vec<CostTrackers> = c.items().iter().filter(|i| i.is_for_node()).map(|_| CostTrackers::DEFAULT).collect();
            s.process_input_bit(bit(*b, k), &t);
        }
    }
}
fn all<'a, S: HistorySource<'a>>(s: &mut S, order: usize, bytes: &[u8]) -> Vec<Vec<ContextState>> {
    let mut r = vec![]; feed(s, order, bytes, |_, _, c| { let mut v = c.to_vec(); for x in v.iter_mut() { x.neutralize_cost_trackers(); } r.push(v); }); r
}
fn same(bytes: &[u8], order: usize) {
    let l = LookUpTables::new();
    let a = all(&mut FatMapHistorySource::new(bytes.len(), order, &l), order, bytes); let b = all(&mut TreeHistorySource::new(bytes.len(), order, &l), order, bytes);
    for i in 0..a.len() { assert_eq!(a[i], b[i], "byte {} bit {}", i / 8, 7 - i % 8); }
}
fn node(start: usize, depth: usize) -> Node {
    let l = LookUpTables::new();
    Node::new(WindowIndex::new(start), l.d_estimator_cache().for_new_node(Bit::One, 5), depth, CostTrackers::DEFAULT, BitsRunsTracker::for_new_node(Bit::One, 5), 5, 1, RecentBitsHistory::for_new_node(Bit::One, 5), NodeChildren::new([WindowIndex::new(1).into(), WindowIndex::new(2).into()]))
}
'''

T, NV, FM, W, X = ['src/history/' + x for x in ('tree/mod.rs', 'naive.rs', 'fat_map.rs', 'window.rs', 'tree/context.rs')]
PRE += """
fn naive_as_tree(bytes: &[u8], order: usize) {
    let l = LookUpTables::new();
    let a = all(&mut NaiveHistorySource::new(bytes.len(), order, &l), order, bytes); let b = all(&mut TreeHistorySource::new(bytes.len(), order, &l), order, bytes);
    for i in 0..a.len() { assert_eq!(a[i], b[i], "byte {} bit {}", i / 8, 7 - i % 8); }
}
/// edges are counted at least as often as they occurred in the window and repeat the bit that followed
fn edges(bytes: &[u8], window: usize, order: usize, shift: usize) {
    let l = LookUpTables::new(); let mut s = TreeHistorySource::new_special(window, order, shift, &l); let mut c = CollectedContextStates::new(order);
    for n in 0..bytes.len() {
        s.start_new_byte();
        for k in (0..8).rev() {
            c.reset(); s.gather_history_states(&mut c);
            let first = if n + 1 > window { n + 1 - window } else { 0 };
            for (o, i) in c.items().iter().enumerate() {
                let occ: Vec<usize> = (first..n).filter(|&p| p + o < n && n >= o && bytes[p..p + o] == bytes[n - o..n] && (bytes[p + o] as u32) >> (k + 1) == (bytes[n] as u32) >> (k + 1)).collect();
                if let &ContextState::ForEdge { repeated_bit, occurrence_count, .. } = i { assert!(repeated_bit == bit(bytes[occ[0] + o], k) && occurrence_count as usize >= occ.len(), "byte {} bit {} order {}", n, k, o); }
            }
            let t: Vec<CostTrackers> = c.items().iter().filter(|i| i.is_for_node()).map(|_| CostTrackers::DEFAULT).collect();
            s.process_input_bit(bit(bytes[n], k), &t);
        }
    }
}
/// distances of the last occurrences inside the window, and whether both bits followed, by comparing bytes
fn slide(bytes: &[u8], window: usize, order: usize, shift: usize) {
    let l = LookUpTables::new(); let mut s = TreeHistorySource::new_special(window, order, shift, &l); let mut c = CollectedContextStates::new(order);
    for n in 0..bytes.len() {
        s.start_new_byte(); s.check_integrity_on_next_byte();
        for k in (0..8).rev() {
            c.reset(); s.gather_history_states(&mut c);
            let first = if n + 1 > window { n + 1 - window } else { 0 }; let mut want = vec![];
            for o in 0..order + 1 {
                let occ: Vec<usize> = (first..n).filter(|&p| p + o < n && n >= o && bytes[p..p + o] == bytes[n - o..n] && (bytes[p + o] as u32) >> (k + 1) == (bytes[n] as u32) >> (k + 1)).collect();
                if occ.is_empty() { break; }
                want.push((n - o - occ[occ.len() - 1], occ.iter().any(|&p| bit(bytes[p + o], k) != bit(bytes[occ[0] + o], k))));
            }
            let got: Vec<(usize, bool)> = c.items().iter().map(|i| (i.last_occurrence_distance(), i.is_for_node())).collect();
            assert_eq!(got, want, "byte {} bit {}", n, k);
            let t: Vec<CostTrackers> = c.items().iter().filter(|i| i.is_for_node()).map(|_| CostTrackers::DEFAULT).collect();
            s.process_input_bit(bit(bytes[n], k), &t);
        }
    }
}
fn sequences(n: usize, letters: &[u8]) -> Vec<Vec<u8>> {
    let mut r = vec![vec![]]; for _ in 0..n { let mut q = vec![]; for x in r.iter() { for l in letters { let mut y: Vec<u8> = Vec::clone(x); y.push(*l); q.push(y); } } r = q; } r
}
"""
HIGH = PRE + 'fn main() { for s in sequences(6, &[0x61, 0x21]) { same(&s, 2); naive_as_tree(&s, 2); } println!("fine"); }'
a('c22-fat-hash', 'C22', [(FM, 'hasher.write_u8(input[index]);', 'hasher.write_u8(input[index] & 0xbf);'), (FM, """                        self.input.index_subtract(self.input.cursor(), order),
                        WindowIndex::new(item.last_occurrence_distance()),
                        self.bit_index, order)
                })).last()""", """                        self.input.cursor(), WindowIndex::new(
                            item.last_occurrence_distance() + order),
                        self.bit_index, 0)
                })).last()""")], HIGH, 'two contexts which differ only in the second highest bit of an earlier byte', 'the history of one context is taken for that of another')
a('c22-compare-bits', 'C22', [(W, """            equal &= self.buffer[starting_index_first + position] ==
                self.buffer[starting_index_second + position];
""", """            equal &= (self.buffer[starting_index_first + position] ^
                self.buffer[starting_index_second + position]) & 0xbf == 0;
""")], PRE + 'fn main() { for s in sequences(6, &[0x61, 0x21]) { same(&s, 5); naive_as_tree(&s, 5); } println!("fine"); }', 'contexts which differ only in the second highest bit of a byte', 'the naive and the map source merge different contexts')
a('c22-naive-far', 'C22', [(NV, 'for scanned_index in 0..stop_search_position {', 'for scanned_index in stop_search_position.saturating_sub(65536)..stop_search_position {')],
  PRE + 'fn main() { let l = LookUpTables::new(); let mut n = NaiveHistorySource::new(66002, 0, &l); let mut c = CollectedContextStates::new(0); for i in 0..66001 { n.start_new_byte(); if i == 66000 { n.process_input_bit(bit(0x81, 7), &[]); n.gather_history_states(&mut c); } else { for k in (0..8).rev() { n.process_input_bit(bit(if i == 3 { 0x81 } else { 1 }, k), &[]); } } } assert_eq!(c.items().len(), 1); assert_eq!(c.items()[0].last_occurrence_distance(), 65997); println!("fine"); }', 'a context which last occurred more than 65536 bytes before', 'old occurrences are forgotten by the naive source')
a('c22-fat-far', 'C22', [(FM, '*ctx = ctx.next_state(byte_index.raw(), input_bit,', '*ctx = ctx.next_state(byte_index.raw() & 0xffff, input_bit,')],
  PRE + 'fn main() { let s: Vec<u8> = (0..66000u32).map(|i| (i % 3) as u8).collect(); same(&s, 1); println!("fine"); }', 'a history of more than 65536 bytes', 'the last occurrence of a context is misplaced')
a('c22-fat-far-first', 'C22', [(FM, """                vec.push(ContextState::starting_state(byte_index.raw(),
                                                      input_bit));""", """                vec.push(ContextState::starting_state(
                    byte_index.raw() as u16 as usize, input_bit));""")],
  PRE + 'fn main() { let mut s = vec![0u8; 66000]; for i in 65900..66000 { s[i] = (i % 5) as u8; } same(&s, 1); println!("fine"); }', 'a context first seen after 65536 bytes', 'the last occurrence of a context is misplaced')

EDGES = PRE + 'fn main() { for s in sequences(9, &[1, 3]) { for w in 3..6 { for sh in 0..w { edges(&s, w, 2, sh); slide(&s, w, 2, sh); } } } println!("fine"); }'
a('c18-order-room', 'C18', [(T, 'let order = max_order.min(self.window.size() - 2);', 'let order = max_order.min(self.window.size() - 2).min(60);')], PRE + 'fn main() { let mut s = vec![1u8; 100]; s.push(2); s.extend(vec![1u8; 100]); s.push(2); slide(&s, 150, 63, 0); println!("fine"); }', 'more than 61 equal bytes with a highest order above 60', 'contexts of higher orders are not found')
a('c23-visits-restart', 'C23', [(T, """                        ctx.node_index = parent_node_index;
                        ctx.direction_from_parent = Some(node_direction);
""", """                        ctx.node_index = parent_node_index;
                        ctx.incoming_edge_visits_count = 1;
                        ctx.direction_from_parent = Some(node_direction);
""")], EDGES, 'an active context whose node is removed because the oldest byte was the only one to branch there', 'the edge is counted as seen once although it occurred several times in the window')
