//! The wallet program: its real main loop over the real node, as a user thread in lock-step, with its database
//! in a file of the run's scratch directory. The terminal is a sink; there is no hardware device.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

use crossbeam_channel as chan;
use nakamoto_client::{Loading, Network};
use nakamoto_common::bitcoin::util::bip32::DerivationPath;
use nakamoto_common::bitcoin::{Address, Network as Net, OutPoint, TxOut};
use nakamoto_p2p::fsm::Event;
use nakamoto_wallet::input::Signal;
use nakamoto_wallet::wallet::db::{Read as _, Write as _};
use nakamoto_wallet::wallet::{Db, Hw, Wallet};

use crate::universe;
use crate::users::{Ctx, Job, Ret};

/// What happens to an operation on the wallet's files.
#[derive(Clone, Copy, Debug)]
pub enum WFault {
    /// The process dies in it; this share (of 8) of a write was done.
    Crash(u64),
    Errno(i32),
}

#[derive(Default)]
pub struct WDisk {
    pub ops: u64,
    pub plan: BTreeMap<u64, WFault>,
    pub reads: u64,
    pub read_plan: BTreeMap<u64, i32>,
    /// The process is dead: nothing it does has an effect any more.
    pub dead: bool,
    /// A fault hit.
    pub fired: Vec<&'static str>,
}

thread_local! {
    static WD: RefCell<Option<Arc<Mutex<WDisk>>>> = const { RefCell::new(None) };
}

/// A mutating operation of the wallet's thread: do this many bytes of it, or fail.
pub fn disk_op(n: usize) -> Option<Result<usize, i32>> {
    let d = WD.try_with(|d| d.try_borrow().ok().and_then(|d| d.clone())).ok().flatten()?;
    let mut d = d.lock().unwrap();
    if d.dead {
        return Some(Err(libc::EIO));
    }
    let k = d.ops;
    d.ops += 1;
    match d.plan.remove(&k) {
        None => Some(Ok(n)),
        Some(WFault::Crash(b)) => {
            d.dead = true;
            d.fired.push("wallet-crash-in-write");
            Some(Ok(n * (b as usize).min(8) / 8))
        }
        Some(WFault::Errno(e)) => {
            d.fired.push("wallet-disk-error");
            Some(Err(e))
        }
    }
}

/// A read of the wallet's thread: fails with this error.
pub fn read_op() -> Option<i32> {
    let d = WD.try_with(|d| d.try_borrow().ok().and_then(|d| d.clone())).ok().flatten()?;
    let mut d = d.lock().unwrap();
    let k = d.reads;
    d.reads += 1;
    let e = d.read_plan.remove(&k)?;
    d.fired.push("wallet-read-error");
    Some(e)
}

pub struct Session {
    pub signals: chan::Sender<Signal>,
    pub inputs: chan::Sender<termion::event::Event>,
    pub loading: Option<chan::Sender<Loading>>,
    /// The wallet's subscription.
    pub events: chan::Receiver<Event>,
    pub disk: Arc<Mutex<WDisk>>,
    pub path: PathBuf,
    /// The call that runs it.
    pub call: usize,
}

/// A wallet file with the first `n` scripts of the universe as its addresses.
pub fn create(path: &Path, n: u64) {
    let db = Db::open(path).expect("harness: wallet file");
    for i in 0..n {
        let a = Address::from_script(&universe::script(i as usize), Net::Regtest).expect("harness: address");
        db.add_address(&a, i as usize, None).expect("harness: address");
    }
}

/// Balance and coins in the file.
pub fn coins(path: &Path) -> Result<(u64, Vec<(OutPoint, TxOut)>), String> {
    let db = Db::open(path).map_err(|e| e.to_string())?;
    let b = db.balance().map_err(|e| e.to_string())?;
    let u = db.utxos().map_err(|e| e.to_string())?;
    Ok((b, u))
}

pub fn start(path: PathBuf, birth: u64, events: chan::Receiver<Event>, call: usize) -> (Session, Job) {
    let (signals, signals_rx) = chan::unbounded();
    let (inputs, inputs_rx) = chan::unbounded();
    let (loading, loading_rx) = chan::unbounded();
    let disk = Arc::new(Mutex::new(WDisk::default()));
    let s = Session { signals, inputs, loading: Some(loading), events: events.clone(), disk: disk.clone(), path: path.clone(), call };
    let job = move |ctx: &mut Ctx| {
        WD.with(|d| *d.borrow_mut() = Some(disk));
        let run = || -> Result<(), String> {
            let db = Db::open(&path).map_err(|e| e.to_string())?;
            let hw = Hw::new(DerivationPath::from(vec![]));
            Wallet::new(ctx.handle.clone(), Network::Regtest, db, hw)
                .run(birth, inputs_rx, signals_rx, loading_rx, events, false, io::sink())
                .map_err(|e| e.to_string())
        };
        match run() {
            Ok(()) => Ret::Unit,
            Err(e) => Ret::Err(e),
        }
    };
    (s, Box::new(job))
}
