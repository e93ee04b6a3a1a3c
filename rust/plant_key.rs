
// A key of any height standing at any index, its traversal state supplied by the harness (harness/tall.h)
#[cfg(feature = "plant")]
impl XMSSFast {
    pub fn verif_plant(hash_function: HashFunction, height: u8, w: u32, seed: TSEED, state: &[u8]) -> Result<Self, QRLError> {
        let h = height as usize;
        let mut at = 0;
        let mut take = |n: usize| { let v = state[at..at + n].to_vec(); at += n; v };
        let sk = take(132);
        let auth = take(32 * h);
        let keep = take(32 * (h / 2));
        let nodes = take(32 * (h - 2));
        let retain = take(32);
        let mut base = XMSSBase::new(hash_function, AddrFormatType::SHA256_2X, height, vec![0; 132], seed)?;
        base.sk = sk;
        Ok(XMSSFast {
            base,
            params: XMSSParams::new(32, height as u32, w, 2)?,
            state: BDSState {
                stack: vec![0; (h + 1) * 32],
                stackoffset: 0,
                stacklevels: vec![0; h + 1],
                auth,
                keep,
                treehash: nodes.chunks(32).enumerate().map(|(i, n)| crate::rust_wrapper::xmss_alt::algsxmss_fast::verif_treehash(i, n.to_vec())).collect(),
                retain,
                next_leaf: 0,
            },
        })
    }
}
