//! The block universe of a run: every block that exists anywhere, on any branch, with its contents and
//! its true compact filter. Stub peers serve it; oracles compare the node with it.
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, OnceLock};

use nakamoto_common::bitcoin::blockdata::script::Script;
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::hash_types::{FilterHash, FilterHeader, PubkeyHash, TxMerkleNode};
use nakamoto_common::bitcoin::util::bip158::BlockFilter;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{
    self, Block, BlockHash, BlockHeader, OutPoint, PackedLockTime, Sequence, Transaction, TxIn, TxOut, Txid, Witness,
};
use nakamoto_common::bitcoin_hashes::{hash160, Hash as _};
use nakamoto_common::block::filter::FilterHash as _FH;
use nakamoto_common::network::Network;

use crate::refchain;
use crate::rng::Rng;

pub type Id = usize;
#[allow(dead_code)]
type _Unused = _FH;

/// First block after genesis.
pub const T0: u32 = 1_600_000_000;
pub const BASE_LEN: usize = 4300;
pub const SCRIPTS: usize = 24;

pub struct BlockInfo {
    pub id: Id,
    pub parent: Id,
    pub height: u64,
    pub hash: BlockHash,
    pub block: Block,
    pub work: Uint256,
    pub filter: Vec<u8>,
    pub filter_hash: FilterHash,
    pub filter_header: FilterHeader,
    /// Unspent outputs (a recent selection) available on this branch.
    pub utxos: Arc<Vec<(OutPoint, TxOut)>>,
    /// Scripts touched by the block (outputs and spent outputs).
    pub scripts: Vec<Script>,
}

impl BlockInfo {
    pub fn header(&self) -> BlockHeader {
        self.block.header
    }
    pub fn contains_tx(&self, txid: &Txid) -> bool {
        self.block.txdata.iter().any(|t| t.txid() == *txid)
    }
}

pub fn script(i: usize) -> Script {
    static S: OnceLock<Vec<Script>> = OnceLock::new();
    S.get_or_init(|| {
        (0..4096)
            .map(|i| {
                let h = hash160::Hash::hash(format!("script-{}", i).as_bytes());
                Script::new_p2pkh(&PubkeyHash::from_hash(h))
            })
            .collect()
    })[i]
    .clone()
}

/// Blocks shared by all runs: a straight chain used as a common prefix where a run wants a long chain.
struct Base {
    blocks: Vec<Arc<BlockInfo>>,
}

fn base() -> &'static Base {
    static B: OnceLock<Base> = OnceLock::new();
    B.get_or_init(|| {
        let mut u = Universe::empty();
        let mut r = Rng::new(0xba5e);
        let mut tip = 0;
        for i in 0..BASE_LEN {
            let time = T0 + 600 * i as u32 + r.below(120) as u32;
            tip = u.mine(tip, time, Content { txs: if i % 7 == 0 { 2 } else { 0 }, ..Content::default() }, &mut r);
        }
        Base { blocks: u.blocks }
    })
}

pub fn init() {
    script(0);
    base();
}

#[derive(Clone, Debug)]
pub struct Content {
    /// Number of generated transactions beside the coinbase.
    pub txs: usize,
    /// Pay the coinbase to this script (default: a fresh unwatched one).
    pub pay: Option<usize>,
    /// Transactions to include verbatim.
    pub include: Vec<Transaction>,
    /// Override of the compact target.
    pub bits: Option<u32>,
    /// The nonce must not satisfy the proof of work.
    pub bad_pow: bool,
    /// Transactions mostly deal with the first few scripts, and spend outputs of the same block.
    pub wallet: u64,
    pub version: i32,
}

impl Default for Content {
    fn default() -> Self {
        Content { txs: 0, pay: None, include: vec![], bits: None, bad_pow: false, wallet: 0, version: 1 }
    }
}

pub struct Universe {
    pub blocks: Vec<Arc<BlockInfo>>,
    pub by_hash: HashMap<BlockHash, Id>,
    pub children: BTreeMap<Id, Vec<Id>>,
    pub outputs: HashMap<OutPoint, TxOut>,
    extra: u64,
    pub params: Params,
}

impl Universe {
    pub fn empty() -> Self {
        let g = Network::Regtest.genesis_block();
        let bf = BlockFilter::new_script_filter(&g, |_| Ok(Script::new())).unwrap();
        let fh = bf.filter_header(&FilterHeader::all_zeros());
        let info = BlockInfo {
            id: 0,
            parent: 0,
            height: 0,
            hash: g.block_hash(),
            work: g.header.work(),
            filter_hash: FilterHash::hash(&bf.content),
            filter: bf.content,
            filter_header: fh,
            utxos: Arc::new(vec![]),
            scripts: vec![],
            block: g,
        };
        let mut by_hash = HashMap::new();
        by_hash.insert(info.hash, 0);
        Universe {
            blocks: vec![Arc::new(info)],
            by_hash,
            children: BTreeMap::new(),
            outputs: HashMap::new(),
            extra: 0,
            params: Params::new(bitcoin::Network::Regtest),
        }
    }

    /// A universe which starts with the first `n` blocks of the common base chain.
    pub fn with_base(n: usize) -> Self {
        let mut u = Universe::empty();
        if n == 0 {
            return u;
        }
        for b in base().blocks.iter().skip(1).take(n) {
            u.insert(b.clone());
        }
        u.extra = 1 << 32;
        u
    }

    fn insert(&mut self, b: Arc<BlockInfo>) {
        self.by_hash.insert(b.hash, b.id);
        self.children.entry(b.parent).or_default().push(b.id);
        for tx in &b.block.txdata {
            let txid = tx.txid();
            for (i, o) in tx.output.iter().enumerate() {
                self.outputs.insert(OutPoint { txid, vout: i as u32 }, o.clone());
            }
        }
        self.blocks.push(b);
    }

    pub fn get(&self, id: Id) -> &BlockInfo {
        &self.blocks[id]
    }

    pub fn find(&self, h: &BlockHash) -> Option<&BlockInfo> {
        self.by_hash.get(h).map(|i| &*self.blocks[*i])
    }

    /// Chain from genesis to `tip`, by height.
    pub fn chain(&self, tip: Id) -> Vec<Id> {
        let mut c = Vec::with_capacity(self.blocks[tip].height as usize + 1);
        let mut i = tip;
        loop {
            c.push(i);
            if i == 0 {
                break;
            }
            i = self.blocks[i].parent;
        }
        c.reverse();
        c
    }

    pub fn ancestor(&self, mut id: Id, height: u64) -> Option<Id> {
        if self.blocks[id].height < height {
            return None;
        }
        while self.blocks[id].height > height {
            id = self.blocks[id].parent;
        }
        Some(id)
    }

    pub fn is_ancestor(&self, a: Id, of: Id) -> bool {
        self.ancestor(of, self.blocks[a].height) == Some(a)
    }

    pub fn make_tx(&mut self, from: &[(OutPoint, TxOut)], to: &[usize], rng: &mut Rng) -> Transaction {
        self.extra += 1;
        let total: u64 = from.iter().map(|(_, o)| o.value).sum();
        let fee = (total / 100).min(rng.range(200, 5000));
        let n = to.len().max(1) as u64;
        let each = (total.saturating_sub(fee) / n).max(1);
        let output = to.iter().map(|s| TxOut { value: each, script_pubkey: script(*s) }).collect();
        let input = from
            .iter()
            .map(|(o, _)| TxIn {
                previous_output: *o,
                script_sig: Script::new(),
                sequence: Sequence::MAX,
                witness: Witness::new(),
            })
            .collect();
        Transaction { version: 1, lock_time: PackedLockTime(self.extra as u32), input, output }
    }

    /// Mine a block on `parent`.
    pub fn mine(&mut self, parent: Id, time: u32, c: Content, rng: &mut Rng) -> Id {
        let p = self.blocks[parent].clone();
        let height = p.height + 1;
        self.extra += 1;
        let pay = c.pay.unwrap_or(SCRIPTS + (rng.below(2000) as usize));
        let mut sig = Vec::new();
        sig.extend_from_slice(&height.to_le_bytes());
        sig.extend_from_slice(&self.extra.to_le_bytes());
        let coinbase = Transaction {
            version: 1,
            lock_time: PackedLockTime::ZERO,
            input: vec![TxIn {
                previous_output: OutPoint::null(),
                script_sig: Script::from(sig),
                sequence: Sequence::MAX,
                witness: Witness::new(),
            }],
            output: vec![TxOut { value: 5_000_000_000 + rng.below(1000), script_pubkey: script(pay) }],
        };
        let mut txdata = vec![coinbase];
        let mut utxos: Vec<(OutPoint, TxOut)> = p.utxos.to_vec();
        for tx in c.include {
            let ids: Vec<OutPoint> = tx.input.iter().map(|i| i.previous_output).collect();
            utxos.retain(|(o, _)| !ids.contains(o));
            if c.wallet > 0 {
                let txid = tx.txid();
                utxos.extend(tx.output.iter().enumerate().map(|(i, o)| (OutPoint { txid, vout: i as u32 }, o.clone())));
            }
            txdata.push(tx);
        }
        for _ in 0..c.txs {
            if utxos.is_empty() {
                break;
            }
            let most = if c.wallet > 0 && rng.chance(1, 6) { 6 } else { 2 };
            let k = 1 + rng.below(utxos.len().min(most) as u64) as usize;
            let mut from = Vec::new();
            for _ in 0..k {
                if utxos.is_empty() {
                    break;
                }
                let mut i = rng.below(utxos.len() as u64) as usize;
                if c.wallet > 0 && rng.chance(1, 2) {
                    // A coin of the wallet.
                    let own: Vec<usize> = (0..utxos.len()).filter(|i| (0..c.wallet as usize).any(|s| script(s) == utxos[*i].1.script_pubkey)).collect();
                    if !own.is_empty() {
                        i = *rng.pick(&own);
                    }
                }
                from.push(utxos.remove(i));
            }
            let n = 1 + if c.wallet > 0 && rng.chance(1, 6) { rng.below(12) } else { rng.below(3) } as usize;
            let to: Vec<usize> = (0..n)
                .map(|_| if c.wallet > 0 && rng.chance(1, 2) {
                    rng.below(c.wallet) as usize
                } else if rng.chance(1, 3) { rng.below(SCRIPTS as u64) as usize } else { SCRIPTS + rng.below(2000) as usize })
                .collect();
            let tx = self.make_tx(&from, &to, rng);
            if c.wallet > 0 {
                let txid = tx.txid();
                utxos.extend(tx.output.iter().enumerate().map(|(i, o)| (OutPoint { txid, vout: i as u32 }, o.clone())));
            }
            txdata.push(tx);
        }
        let fresh = if c.wallet > 0 { 1 } else { txdata.len() };
        for tx in &txdata[..fresh] {
            let txid = tx.txid();
            for (i, o) in tx.output.iter().enumerate().filter(|(_, o)| !o.script_pubkey.is_op_return()) {
                utxos.push((OutPoint { txid, vout: i as u32 }, o.clone()));
            }
        }
        let n = utxos.len();
        if n > 24 {
            utxos.drain(0..n - 24);
        }
        let root = bitcoin::util::hash::bitcoin_merkle_root(txdata.iter().map(|t| t.txid().as_hash())).unwrap();
        let mut header = BlockHeader {
            version: c.version,
            prev_blockhash: p.hash,
            merkle_root: TxMerkleNode::from_hash(root),
            time,
            bits: c.bits.unwrap_or_else(|| refchain::required_bits(self, parent, time)),
            nonce: rng.next() as u32,
        };
        solve(&mut header, !c.bad_pow);
        let block = Block { header, txdata };
        let outs = self.outputs.clone_lookup(&block);
        let bf = BlockFilter::new_script_filter(&block, |o| {
            outs.get(o).cloned().ok_or(bitcoin::util::bip158::Error::UtxoMissing(*o))
        })
        .expect("harness: filter of a generated block");
        let mut scripts: Vec<Script> = block.txdata.iter().flat_map(|t| t.output.iter().map(|o| o.script_pubkey.clone())).collect();
        for tx in block.txdata.iter().skip(1) {
            for i in &tx.input {
                if let Some(o) = self.outputs.get(&i.previous_output) {
                    scripts.push(o.script_pubkey.clone());
                } else if let Some(o) = block
                    .txdata
                    .iter()
                    .find(|t| t.txid() == i.previous_output.txid)
                    .and_then(|t| t.output.get(i.previous_output.vout as usize))
                {
                    scripts.push(o.script_pubkey.clone());
                }
            }
        }
        let fh = bf.filter_header(&p.filter_header);
        let id = self.blocks.len();
        let info = BlockInfo {
            id,
            parent,
            height,
            hash: header.block_hash(),
            work: p.work + header.work(),
            filter_hash: FilterHash::hash(&bf.content),
            filter: bf.content,
            filter_header: fh,
            utxos: Arc::new(utxos),
            scripts,
            block,
        };
        self.insert(Arc::new(info));
        id
    }

    /// Add a block with a header chosen by the caller (adversarial headers).
    pub fn add_header(&mut self, parent: Id, header: BlockHeader) -> Id {
        if let Some(i) = self.by_hash.get(&header.block_hash()) {
            return *i;
        }
        let p = self.blocks[parent].clone();
        let id = self.blocks.len();
        let info = BlockInfo {
            id,
            parent,
            height: p.height + 1,
            hash: header.block_hash(),
            work: p.work + header.work(),
            filter: vec![0],
            filter_hash: FilterHash::all_zeros(),
            filter_header: p.filter_header,
            utxos: p.utxos.clone(),
            scripts: vec![],
            block: Block { header, txdata: vec![] },
        };
        self.insert(Arc::new(info));
        id
    }
}

trait CloneLookup {
    fn clone_lookup(&self, b: &Block) -> HashMap<OutPoint, Script>;
}

impl CloneLookup for HashMap<OutPoint, TxOut> {
    fn clone_lookup(&self, b: &Block) -> HashMap<OutPoint, Script> {
        let mut m = HashMap::new();
        for tx in b.txdata.iter().skip(1) {
            for i in &tx.input {
                let o = self.get(&i.previous_output).cloned().or_else(|| {
                    b.txdata
                        .iter()
                        .find(|t| t.txid() == i.previous_output.txid)
                        .and_then(|t| t.output.get(i.previous_output.vout as usize).cloned())
                });
                if let Some(o) = o {
                    m.insert(i.previous_output, o.script_pubkey);
                }
            }
        }
        m
    }
}

pub fn solve(h: &mut BlockHeader, valid: bool) {
    let target = h.target();
    while (h.validate_pow(&target).is_ok()) != valid {
        h.nonce = h.nonce.wrapping_add(1);
    }
}
