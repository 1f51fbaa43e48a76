//! Progress within a bounded time once faults stop (C09, C05 and C04 progress parts).
use nakamoto_p2p::fsm::Event;

use crate::oracle::Oracle;
use crate::universe::Id;
use crate::world::{short, Snap, World};

/// Header sync reaches the best honest chain, and follows it.
#[derive(Default)]
pub struct Progress {
    /// Best honest tip and since when it could be followed.
    target: Option<(Id, u64)>,
    reported: Option<(u64, nakamoto_common::bitcoin::BlockHash)>,
    /// Also require the report of the node.
    pub report: bool,
}

pub const SETTLE: u64 = 210 * 60 * 1000;
pub const FOLLOW: u64 = 5 * 60 * 1000;

/// The most-work chain that an honest, reachable full node offers.
pub fn offered(w: &World) -> Option<Id> {
    w.honest()
        .into_iter()
        .filter(|p| w.peers[*p].up && w.plan.cfg.limited >> p & 1 == 0 && (w.plan.cfg.mode != 2 || p % 2 == 0))
        .map(|p| w.peers[p].tip)
        .max_by_key(|t| (w.u.get(*t).work, std::cmp::Reverse(*t)))
}

impl Progress {
    pub fn with_report() -> Self {
        Progress { report: true, ..Default::default() }
    }

    fn check(&mut self, w: &mut World, s: &Snap) {
        if !w.calm() {
            return;
        }
        let settled = w.quiet_since() + SETTLE;
        let Some(best) = offered(w) else {
            self.target = None;
            return;
        };
        let (tip, since) = match self.target {
            Some((t, at)) if t == best => (t, at),
            _ => {
                self.target = Some((best, w.now));
                (best, w.now)
            }
        };
        let deadline = settled.max(since + FOLLOW);
        if w.now < deadline {
            return;
        }
        w.stats.evaluations += 1;
        let ok = s.tip.0 == w.u.get(tip).hash || w.u.find(&s.tip.0).map_or(false, |b| b.work >= w.u.get(tip).work);
        if !ok {
            w.violate(
                "header sync stuck",
                format!("{} s after faults stopped and {} s after the last block was announced the node is at height {}, the honest chain at {}", (w.now - w.plan.cfg.calm) / 1000, (w.now - since) / 1000, s.height, w.u.get(tip).height),
            );
            return;
        }
        w.probe("progress-checked");
        // A tip that is not recent is "stale", and never reported as in sync; exaggerated heights of
        // adversarial peers keep the node from considering itself in sync.
        let fresh = s.headers.last().map_or(false, |h| h.time as u64 + 1200 > w.local_time().as_secs());
        if self.report && fresh && since > settled && w.plan.cfg.evil == 0 {
            w.probe("report-checked");
            match self.reported {
                Some((h, t)) if t == s.tip.0 && h == s.height => {}
                r => w.violate(
                    "sync not reported",
                    format!("the node is in sync at height {} ({}), last reported: {:?}", s.height, short(&s.tip.0), r.map(|(h, t)| (h, short(&t)))),
                ),
            }
        }
    }
}

impl Oracle for Progress {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_event(&mut self, w: &mut World, e: &Event) {
        match e {
            Event::BlockHeadersSynced { height, hash } => {
                if self.report && w.u.find(hash).map_or(true, |b| b.height != *height) {
                    w.violate("wrong report", format!("the node reported {} at height {} as its tip", short(hash), height));
                }
                self.reported = Some((*height, *hash));
            }
            Event::Ready { .. } => {}
            _ => {}
        }
    }
    fn on_step(&mut self, w: &mut World, s: &Snap) {
        self.check(w, s);
    }
    fn on_finish(&mut self, w: &mut World, s: &Snap) {
        self.check(w, s);
    }
}

/// The filter-header chain catches up.
#[derive(Default)]
pub struct FilterProgress {
    since: Option<(nakamoto_common::bitcoin::BlockHash, u64)>,
}

impl Oracle for FilterProgress {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_step(&mut self, w: &mut World, s: &Snap) {
        self.on_finish(w, s)
    }
    fn on_finish(&mut self, w: &mut World, s: &Snap) {
        if !w.calm() {
            return;
        }
        let since = match self.since {
            Some((t, at)) if t == s.tip.0 => at,
            _ => {
                self.since = Some((s.tip.0, w.now));
                w.now
            }
        };
        if w.now < (w.quiet_since() + SETTLE).max(since + FOLLOW) {
            return;
        }
        // Some truthful peer that is up serves the filters of the node's chain.
        let Some(tip) = w.u.find(&s.tip.0).map(|b| b.id) else { return };
        if !w.honest().iter().any(|p| w.plan.cfg.nocf >> p & 1 == 0 && w.peers[*p].up && (w.plan.cfg.mode != 2 || p % 2 == 0) && w.u.is_ancestor(tip, w.peers[*p].tip)) {
            self.since = None;
            return;
        }
        w.stats.evaluations += 1;
        let n = crate::oracles::store::records(&w.dir, "filters.db", 64).len() as u64;
        if n != s.height {
            w.violate(
                "filter header sync stuck",
                format!("{} s after faults stopped there are {} filter headers for {} blocks", (w.now - w.plan.cfg.calm) / 1000, n, s.height),
            );
        } else {
            w.probe("filter-progress-checked");
        }
    }
}
