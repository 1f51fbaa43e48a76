//! The same service with consensus parameters of the simulator's choice (short difficulty periods,
//! checkpoints), which the client's own loader does not offer.
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::Path;
use std::rc::Rc;

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_client::{Client, Config, Service};
use nakamoto_common::block::store::Genesis as _;
use nakamoto_common::block::store::Store as _;
use nakamoto_common::block::time::{AdjustedTime, LocalTime, RefClock};
use nakamoto_common::network::Network;

use crate::reactor::{Run, SimReactor};

fn open<H>(path: &Path, genesis: H) -> Result<store::File<H>, String>
where
    H: 'static + Copy + nakamoto_common::bitcoin::consensus::encode::Decodable + nakamoto_common::bitcoin::consensus::encode::Encodable,
    store::File<H>: nakamoto_common::block::store::Store<Header = H>,
{
    if path.exists() {
        let s = store::File::open(path, genesis).map_err(|e| format!("load: {}", e))?;
        if s.check().is_err() {
            s.heal().map_err(|e| format!("load: {}", e))?;
        }
        Ok(s)
    } else {
        store::File::create(path, genesis).map_err(|e| format!("load: {}", e))
    }
}

pub fn run_custom(client: Client<SimReactor>, run: &Rc<RefCell<Run>>, config: Config, dir: &Path) -> Result<(), String> {
    std::fs::create_dir_all(dir).unwrap();
    let network = Network::Regtest;
    let (params, ckpts) = {
        let r = run.borrow();
        (r.world.u.params.clone(), r.world.checkpoints.clone())
    };
    let hs = open(&dir.join("headers.db"), network.genesis())?;
    let cache = BlockCache::new(hs, params, &ckpts).and_then(|c| c.load()).map_err(|e| format!("load: {}", e))?;
    let fs = open(&dir.join("filters.db"), StoredHeader::genesis(network))?;
    let filters = FilterCache::load(fs).map_err(|e| format!("load: {}", e))?;
    let peers: HashMap<std::net::IpAddr, nakamoto_common::p2p::peer::KnownAddress> = HashMap::new();
    let clock = RefClock::from(AdjustedTime::new(LocalTime::from_secs(run.borrow().world.base_secs)));
    let rng = fastrand::Rng::new();
    {
        let mut r = run.borrow_mut();
        let r = &mut *r;
        for o in r.oracles.iter_mut() {
            o.on_boot(&mut r.world);
        }
    }
    let service = Service::new(cache, filters, peers, clock, rng, config);
    client.run_service(&[], service).map_err(|e| e.to_string())
}
