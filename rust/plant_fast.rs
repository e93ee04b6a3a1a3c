
#[cfg(feature = "plant")]
pub fn verif_treehash(i: usize, node: Vec<u8>) -> TreeHashInst {
    TreeHashInst { h: i as u32, next_idx: 0, stackusage: 0, completed: 1, node }
}
