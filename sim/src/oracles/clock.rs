//! Network-adjusted time (C15).
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, SocketAddr};

use crossbeam_channel as chan;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::block::tree::{Error as TreeError, ImportResult};
use nakamoto_p2p::fsm::Event;

use crate::oracle::Oracle;
use crate::refchain;
use crate::world::{Note, Rx, Snap, World};

struct Asked {
    rx: chan::Receiver<Result<ImportResult, TreeError>>,
    expect: bool,
    what: String,
}

#[derive(Default)]
pub struct Adjusted {
    /// Offset in the version message of each connection.
    told: BTreeMap<SocketAddr, i64>,
    sources: BTreeSet<IpAddr>,
    samples: Vec<i64>,
    offset: i64,
    asked: Vec<Asked>,
}

impl Adjusted {
    fn record(&mut self, w: &mut World, ip: IpAddr, sample: i64) {
        if self.sources.contains(&ip) {
            w.probe("repeated-source");
            return;
        }
        if self.sources.len() == 200 {
            w.probe("full");
            return;
        }
        self.sources.insert(ip);
        self.samples.push(sample);
        self.samples.sort_unstable();
        let n = self.samples.len();
        if n >= 5 && n % 2 == 1 {
            let m = self.samples[n / 2];
            self.offset = if (-4200..=4200).contains(&m) { m } else { 0 };
            w.probe(if self.offset != 0 {
                "adjusted"
            } else if m != 0 {
                "too-far"
            } else {
                "not-adjusted"
            });
        }
        w.samples = self.samples.clone();
        w.adjust = self.offset;
    }
}

impl Oracle for Adjusted {
    fn wants_snapshot(&self) -> bool {
        true
    }

    fn on_boot(&mut self, w: &mut World) {
        // (Besides the local clock itself.)
        *self = Adjusted { samples: vec![0], ..Default::default() };
        w.samples = vec![0];
        w.adjust = 0;
    }

    fn on_received(&mut self, w: &mut World, addr: &SocketAddr, _conn: u64, m: &Rx) {
        let Rx::Msg(m) = m else { return };
        if let NetworkMessage::Version(v) = &**m {
            // Later ones do not count.
            let d = v.timestamp.saturating_sub(w.local_time().as_secs() as i64);
            self.told.entry(*addr).or_insert(d);
        }
    }

    fn on_input(&mut self, _w: &mut World, a: &crate::world::Action) {
        match a {
            crate::world::Action::Connected(_, addr, _) | crate::world::Action::Lost(_, addr, _) => {
                self.told.remove(addr);
            }
            _ => {}
        }
    }

    fn on_event(&mut self, w: &mut World, e: &Event) {
        if let Event::PeerNegotiated { addr, .. } = e {
            if let Some(d) = self.told.get(addr).copied() {
                self.record(w, addr.ip(), d);
            }
        }
    }

    fn on_note(&mut self, w: &mut World, n: &Note) {
        let Note::Import { headers, rx } = n else { return };
        let [h] = headers.as_slice() else { return };
        let (Some(tip), Some(b)) = (w.view.last(), w.u.find(&h.block_hash())) else { return };
        if *tip != h.prev_blockhash {
            return;
        }
        let past = refchain::median_time(&w.u, b.parent);
        let now = w.local_time().as_secs() as i64 + self.offset;
        let expect = h.time > past && h.time as i64 <= now + 7200;
        let what = format!(
            "a header {} s ahead of the local clock, with an offset of {} s from {} samples",
            h.time as i64 - w.local_time().as_secs() as i64,
            self.offset,
            self.samples.len()
        );
        self.asked.push(Asked { rx: rx.clone(), expect, what });
    }

    fn on_step(&mut self, w: &mut World, _s: &Snap) {
        for a in std::mem::take(&mut self.asked) {
            let Ok(r) = a.rx.try_recv() else { continue };
            w.stats.evaluations += 1;
            let took = matches!(r, Ok(ImportResult::TipChanged { .. }));
            w.probe(if took { "probe-accepted" } else { "probe-rejected" });
            if self.offset != 0 {
                w.probe("probe-adjusted");
            }
            if took != a.expect {
                w.violate(
                    if took { "adjusted time too late" } else { "adjusted time too early" },
                    format!("{} was {}: {:?}", a.what, if took { "accepted" } else { "rejected" }, r.map(|_| ())),
                );
            }
        }
    }
}
