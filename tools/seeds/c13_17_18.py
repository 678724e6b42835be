import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed
def a(id, prop, edits, demo, needs, what):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    seed.add(id, prop, {'edits': edits, 'demo': demo, 'needs': needs, 'what': what})
    print(id, seed.verify(id), seed.catch(id, [prop]), flush=True)
PRE = '''#![allow(bare_trait_objects, unused_imports, dead_code)]
extern crate demixer;
use demixer::bit::Bit; use demixer::estimators::cost::*; use demixer::estimators::decelerating::*; use demixer::fixed_point::*; use demixer::fixed_point::types::*;
use demixer::history::*; use demixer::history::state::recent_bits::*; use demixer::history::state::bits_runs::*; use demixer::history::window::*; use demixer::history::naive::*; use demixer::history::fat_map::*;
use demixer::history::tree::*; use demixer::history::tree::node::*; use demixer::history::tree::nodes::*; use demixer::history::tree::node_child::*; use demixer::history::tree::direction::*; use demixer::lut::*;
fn panics<F: FnOnce() + std::panic::UnwindSafe>(f: F) -> bool { std::panic::catch_unwind(f).is_err() }
fn bit(b: u8, k: usize) -> Bit { (((b >> k) & 1) == 1).into() }
/// runs a source over the bytes and shows every collection of contexts to f
fn feed<'a, S: HistorySource<'a>, F: FnMut(usize, usize, &[ContextState])>(s: &mut S, order: usize, bytes: &[u8], mut f: F) {
    let mut c = CollectedContextStates::new(order);
    for (n, b) in bytes.iter().enumerate() {
        s.start_new_byte();
        for k in (0..8).rev() {
            c.reset(); s.gather_history_states(&mut c); f(n, k, c.items());
            let t: Vec<CostTrackers> = c.items().iter().filter(|i| i.is_for_node()).map(|_| CostTrackers::DEFAULT).collect();
            s.process_input_bit(bit(*b, k), &t);
        }
    }
}
fn all<'a, S: HistorySource<'a>>(s: &mut S, order: usize, bytes: &[u8]) -> Vec<Vec<ContextState>> {
    let mut r = vec![]; feed(s, order, bytes, |_, _, c| { let mut v = c.to_vec(); for x in v.iter_mut() { x.neutralize_cost_trackers(); } r.push(v); }); r
}
fn same(bytes: &[u8], order: usize) {
    let l = LookUpTables::new();
    let a = all(&mut FatMapHistorySource::new(bytes.len(), order, &l), order, bytes); let b = all(&mut TreeHistorySource::new(bytes.len(), order, &l), order, bytes);
    for i in 0..a.len() { assert_eq!(a[i], b[i], "byte {} bit {}", i / 8, 7 - i % 8); }
}
fn node(start: usize, depth: usize) -> Node {
    let l = LookUpTables::new();
    Node::new(WindowIndex::new(start), l.d_estimator_cache().for_new_node(Bit::One, 5), depth, CostTrackers::DEFAULT, BitsRunsTracker::for_new_node(Bit::One, 5), 5, 1, RecentBitsHistory::for_new_node(Bit::One, 5), NodeChildren::new([WindowIndex::new(1).into(), WindowIndex::new(2).into()]))
}
'''
H, T, X, N, NS, NCH = ['src/history/' + x for x in ('mod.rs', 'tree/mod.rs', 'tree/context.rs', 'tree/node.rs', 'tree/nodes.rs', 'tree/node_child.rs')]
a('c13-edge-bits', 'C13', [(H, 'RecentBitsHistory::for_bit_run(repeated_bit, occurrence_count),', 'RecentBitsHistory::for_bit_run(repeated_bit, occurrence_count & 511),')],
  PRE + '''fn main() { let e = ContextState::ForEdge { last_occurrence_distance: 1, occurrence_count: 512, repeated_bit: Bit::One }; assert_eq!(e.recent_bits().last_7_bits(), 0xff); }''', 'an edge passed 512 times', 'the recent bits of a long edge are empty')
a('c17-reuse-chain', 'C17', [(NS, '''                self.last_deleted_node_idx_opt =
                    Some(next_deleted_node_handle.to_node_index());''', '''                self.last_deleted_node_idx_opt =
                    Some(next_deleted_node_handle.to_node_index())
                        .filter(|_| self.removed_nodes_count < 200);
                if self.last_deleted_node_idx_opt.is_none() {
                    self.last_deleted_node_idx_opt = Some(NodeIndex::new(
                        last_deleted_node_index.raw() - 1));
                }''')],
  PRE + '''fn main() { let mut p = Nodes::new(400); p.update_node(NodeIndex::new(0), node(9, 3)); for i in 0..300 { p.add_node(node(i, 7)); }
 for i in 1..250 { p.delete_node(NodeIndex::new(if i % 2 == 0 { i } else { 301 - i - 1 })); }
 let mut seen = vec![false; 400]; for i in 1..250 { seen[if i % 2 == 0 { i } else { 301 - i - 1 }] = true; }
 for _ in 0..249 { let k = p.add_node(node(1, 7)).to_node_index().raw(); assert!(seen[k], "slot {} is in use", k); seen[k] = false; } }''', 'more than two hundred deleted nodes', 'a slot in use is handed out')
a('c17-delete-root-live', 'C17', [(NS, '            self.items.len() - self.removed_nodes_count\n', '            self.items.len() - (self.removed_nodes_count & 0xff)\n')],
  PRE + '''fn main() { let mut p = Nodes::new(400); p.update_node(NodeIndex::new(0), node(9, 3)); for i in 0..300 { p.add_node(node(i, 7)); }
 for i in 1..270 { p.delete_node(NodeIndex::new(i)); } assert_eq!(p.live_nodes_count(), 32); }''', '256 or more deleted nodes', 'the number of live nodes is wrong')
a('c17-ref-16', 'C17', [(NCH, 'NodeIndex::new(!self.value as usize)', 'NodeIndex::new((!self.value & 0xff_ffff) as usize)')],
  PRE + '''fn main() { let i = NodeIndex::new(0x100_0001); let c: NodeChild = i.into(); assert_eq!(c.to_node_index(), i); }''', 'more than 16 million nodes', 'a reference leads to another node')
a('c17-window-limit', 'C17', [(NCH, 'assert!(window_index.raw() <= 0x7fff_ffff);', 'assert!(window_index.raw() <= 0xffff_ffff);')],
  PRE + '''fn main() { assert!(panics(|| { let c: NodeChild = WindowIndex::new(0x8000_0005).into(); assert!(c.is_valid()); })); }''', 'a window of more than 2 GiB', 'a window position is stored as a node')
a('c18-degenerate-cap', 'C18', [(T, '''                        (ContextState::MAX_OCCURRENCE_COUNT as usize)
                            .min(self.window.size() - order - 1) as u16,''', '''                        ContextState::MAX_OCCURRENCE_COUNT
                            .min((self.window.size() - order - 1) as u16),''')],
  PRE + '''fn main() { let l = LookUpTables::new(); let b = vec![1u8; 66000]; feed(&mut TreeHistorySource::new(70000, 0, &l), 0, &b, |n, _, c| if n > 0 { assert_eq!(c[0].occurrence_count() as usize, n.min(1000)); }); }''', 'more than 65536 equal bytes at the start', 'the count of the repeated byte starts over')
a('c18-split-start', 'C18', [(T, '            new_node.text_start = context.suffix_index.raw() as u32;', '            new_node.text_start = context.suffix_index.raw() as u16 as u32;')],
  PRE + '''fn main() { let mut x = vec![]; let mut r: u32 = 1; for _ in 0..66000 { r = r.wrapping_mul(1664525).wrapping_add(1013904223); x.push((r >> 30) as u8); } for _ in 0..9000 { r = r.wrapping_mul(1664525).wrapping_add(1013904223); x.push((r >> 29) as u8); } same(&x, 4); }''', 'an inner edge split after the window has passed 65536 bytes', 'a node points to another place of the window')
a('c18-split-cost', 'C18', [(T, """            .for_new_node(incoming_edge_visits_count);
        let cost_trackers = CostTrackers::new(cost_tracker, cost_tracker);""", """            .for_new_node(incoming_edge_visits_count & 0xff);
        let cost_trackers = CostTrackers::new(cost_tracker, cost_tracker);""")],
  PRE + """fn main() { let l = LookUpTables::new(); let mut x = vec![]; for _ in 0..300 { x.push(4u8); x.push(1u8); } x.push(4); x.push(5); x.push(4); x.push(1); let mut ok = false;
 feed(&mut TreeHistorySource::new(1000, 1, &l), 1, &x, |n, k, c| if n == x.len() - 1 && k == 2 { if let &ContextState::ForNode { ref cost_trackers, .. } = &c[1] { ok = cost_trackers.stationary().raw() == l.cost_trackers_lut().for_new_node(300).raw(); } else { panic!("edge"); } }); assert!(ok); }""", 'an edge passed more than 255 times before it is split', 'the cost of a split edge starts over')
a('c13-push-room', 'C13', [(H, 'assert_ne!(self.items.len(), self.items.capacity());', 'assert!(self.items.len() <= self.items.capacity());')],
  PRE + """fn main() { assert!(panics(|| { let mut c = CollectedContextStates::new(1); for _ in 0..3 { c.push(ContextState::ForEdge { last_occurrence_distance: 1, occurrence_count: 1, repeated_bit: Bit::One }); } })); }""", 'more contexts than orders', 'a context too many is accepted')
a('c13-edge-estimator', 'C13', [(H, 'for_0_bit_run(occurrence_count).0, occurrence_count),', 'for_0_bit_run(occurrence_count & 0x1ff).0, occurrence_count),')],
  PRE + """fn main() { let l = LookUpTables::new(); let e = ContextState::ForEdge { last_occurrence_distance: 1, occurrence_count: 512, repeated_bit: Bit::Zero }; assert_eq!(e.probability_estimator(&l).prediction(), DeceleratingEstimator::make(l.direct_predictions().for_0_bit_run(512).0, 512).prediction()); }""", 'an edge passed 512 times', 'the estimate for a long edge is one half')
a('c13-deep-node', 'C13', [(N, 'assert!((depth as u64) < 1u64 << 16);', 'assert!((depth as u64) < 1u64 << 17);')],
  PRE + """fn main() { assert!(panics(|| { let n = node(1, 70000); assert_eq!(n.depth(), 70000); })); let n = std::panic::catch_unwind(|| node(1, 65536).depth()); assert!(n.is_err()); }""", 'a context of more than 8191 bytes', 'the depth of a node wraps around')
