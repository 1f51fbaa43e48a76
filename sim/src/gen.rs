//! Plan generators, one per property. Swarm style: every run enables its own subset of faults.
use crate::plan::{Cfg, Op, Plan, K};
use crate::rng::Rng;
use crate::runner::Tier;

pub fn op(at: u64, k: K, a: u64, b: u64, c: u64) -> Op {
    Op { at, k, a, b, c }
}

pub fn finish(seed: u64, cfg: Cfg, mut ops: Vec<Op>) -> Plan {
    ops.sort_by_key(|o| o.at);
    Plan { seed, cfg, ops }
}

/// Timing and delivery, common to all node worlds.
pub fn network(r: &mut Rng, c: &mut Cfg) {
    match r.below(4) {
        0 => {
            c.lat_min = 1;
            c.lat_max = 5;
        }
        1 => {
            c.lat_min = 5;
            c.lat_max = 80;
        }
        2 => {
            c.lat_min = 20;
            c.lat_max = 1500;
        }
        _ => {
            c.lat_min = 1;
            c.lat_max = 400;
        }
    }
    if r.chance(1, 2) {
        c.frag = 1 + r.below(4) / 3;
    }
    if r.chance(1, 3) {
        c.batch = *r.pick(&[20, 200, 1000]);
    }
    if r.chance(1, 3) {
        c.slop = *r.pick(&[50, 500, 5000]);
    }
    c.announce = r.below(3);
    c.merge = r.below(2);
    if r.chance(1, 3) {
        c.chatty = 1;
    }
}

pub fn loss(r: &mut Rng, c: &mut Cfg) {
    if r.chance(1, 3) {
        c.dropreq = *r.pick(&[20, 100, 300]);
    }
    if r.chance(1, 3) {
        c.dup = *r.pick(&[30, 150, 400]);
    }
    if r.chance(1, 4) {
        c.reset = *r.pick(&[2, 10, 30]);
    }
}

/// Chain growth, forks and partial adoption.
pub fn chain_ops(r: &mut Rng, ops: &mut Vec<Op>, n: u64, calm: u64, npeers: u64, forks: bool) {
    let all = (1u64 << npeers) - 1;
    for _ in 0..n {
        let at = r.below(calm);
        let mask = if r.chance(1, 2) { all } else { r.below(all + 1) };
        match r.below(if forks { 10 } else { 6 }) {
            0..=4 => ops.push(op(at, K::Mine, 1 + r.below(3), mask, r.next() & 0xffff)),
            5 => ops.push(op(at, K::Adopt, r.below(npeers), 0, 0)),
            _ => {
                let short = (r.chance(1, 5) as u64) << 32;
                ops.push(op(at, K::Fork, 1 + r.below(6), r.below(8), mask | short))
            }
        }
    }
}

pub fn net_fault_ops(r: &mut Rng, ops: &mut Vec<Op>, n: u64, calm: u64, npeers: u64) {
    let kinds = r.next();
    for _ in 0..n {
        let at = r.below(calm);
        let k = r.below(6);
        if kinds >> k & 1 == 0 {
            continue;
        }
        match k {
            0 => ops.push(op(at, K::Drop, r.below(npeers), r.below(2), 0)),
            1 => ops.push(op(at, K::Partition, r.below(1 << npeers), r.range(1000, 120_000), 0)),
            2 => ops.push(op(at, K::Mute, r.below(npeers), r.range(1000, 90_000), 0)),
            3 => {
                let p = r.below(npeers);
                ops.push(op(at, K::PeerDown, p, 0, 0));
                ops.push(op((at + r.range(1000, 200_000)).min(calm), K::PeerUp, p, 0, 0));
            }
            4 => ops.push(op(at, K::Slow, r.below(npeers), r.range(100, 20_000), 0)),
            _ => ops.push(op(at, K::ClockJump, r.range(100, 100_000), r.below(2), 0)),
        }
    }
}

pub fn crash_ops(r: &mut Rng, ops: &mut Vec<Op>, n: u64, calm: u64) {
    for _ in 0..n {
        let at = r.below(calm);
        match r.below(8) {
            0 => ops.push(op(at, K::Restart, 0, 0, 0)),
            1 => ops.push(op(at, K::Crash, 0, 0, 0)),
            2 | 3 => ops.push(op(at, K::PowerLoss, r.below(60), r.below(33), 0)),
            _ => {
                let k = *r.pick(&[3, 12, 60, 400]);
                ops.push(op(at, K::Crash, 1 + r.below(k), r.below(33), 0))
            }
        }
    }
}

/// Headers through the user's import interface, in any order (C01, C02, C03).
pub fn imports(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 7, 7);
    let mut c = Cfg { world: 1, npeers: 0, ..Cfg::default() };
    c.npeers = 0;
    if r.chance(3, 4) {
        c.interval = *r.pick(&[3, 4, 6, 8, 12]);
        c.mindiff = r.below(2);
    }
    if c.interval > 0 && r.chance(1, 4) {
        c.ckpt = 1 + r.below(2);
    }
    let n = if tier == Tier::Quick { r.range(5, 40) } else { r.range(10, 120) };
    let mut ops = vec![];
    let mut t = 0;
    for _ in 0..n {
        t += r.range(1, 50_000);
        let a = r.below(20);
        let b = match r.below(4) {
            0 => 1,
            1 => r.range(1, 4),
            2 => r.range(2, 9),
            _ if r.chance(1, 3) => r.range(9, 24),
            _ => r.range(2, 9),
        };
        match r.below(12) {
            0..=4 => {
                ops.push(op(t, K::X0, a, b, r.next() & 0xffffff));
                if r.chance(1, 4) || a / 5 % 4 == 0 && r.chance(1, 2) {
                    // The whole branch at once.
                    t += 1;
                    ops.push(op(t, K::X1, 1, b + r.range(0, 12), r.next() & 0xffffff));
                }
            }
            5..=9 => {
                let n = if r.chance(1, 4) { r.range(14, 60) } else { r.range(1, 14) };
                ops.push(op(t, K::X1, r.below(7), n, r.next() & 0xffffff))
            }
            10 => ops.push(op(t, K::ClockJump, r.range(1000, 4_000_000), r.below(2), 0)),
            _ => {
                if r.chance(1, 2) {
                    ops.push(op(t, K::Restart, 0, 0, 0))
                }
            }
        }
    }
    c.calm = t;
    c.end = t + 1000;
    finish(seed, c, ops)
}

/// A node that follows honest and adversarial peers (C01, C03).
pub fn follow(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 8, 8);
    let mut c = Cfg { npeers: r.range(1, 4), ..Cfg::default() };
    network(&mut r, &mut c);
    loss(&mut r, &mut c);
    c.nocf = r.below(1 << c.npeers);
    if r.chance(1, 3) {
        c.nocf = 1;
    }
    c.calm = *r.pick(&[60_000, 200_000, 600_000]);
    c.end = c.calm + 120_000;
    if r.chance(1, 8) {
        c.base_len = *r.pick(&[300, 2005, 4200]);
        c.known_len = r.below(c.base_len);
    }
    if r.chance(1, 3) {
        c.interval = *r.pick(&[4, 8]);
        c.spacing = *r.pick(&[2, 5, 20]);
        c.mindiff = r.below(2);
        c.base_len = 0;
        c.known_len = 0;
    }
    let mut ops = vec![];
    let scale = if tier == Tier::Quick { 1 } else { 3 };
    let n = r.range(4, 30) * scale;
    chain_ops(&mut r, &mut ops, n, c.calm, c.npeers, true);
    let n = r.below(12 * scale);
    net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    if r.chance(1, 2) && c.npeers > 1 {
        c.evil = 1 << r.below(c.npeers);
        for _ in 0..r.range(1, 6) {
            let b = r.below(16) + 16 * r.below(12) + 1024 * r.below(12);
            ops.push(op(r.below(c.calm), K::Evil, r.below(16), b, r.below(8)));
        }
    }
    for _ in 0..r.below(4) {
        ops.push(op(r.below(c.calm), K::Import, r.below(20), 1 + r.below(30), r.next() & 0xffff));
    }
    if r.chance(1, 4) && c.interval == 0 {
        let n = r.below(4);
        crash_ops(&mut r, &mut ops, n, c.calm);
    }
    finish(seed, c, ops)
}

/// Half user imports, half network.
pub fn chain_mix(seed: u64, tier: Tier) -> Plan {
    if seed & 1 == 0 {
        imports(seed, tier)
    } else {
        follow(seed, tier)
    }
}

/// Faults are over at `calm`: every honest peer is up, on the best chain and reachable; later a few more
/// blocks, to be followed.
pub fn settle(r: &mut Rng, c: &mut Cfg, ops: &mut Vec<Op>) {
    for p in 0..c.npeers {
        ops.push(op(c.calm, K::PeerUp, p, 0, 0));
        ops.push(op(c.calm, K::Slow, p, 0, 0));
        ops.push(op(c.calm + r.below(30_000), K::Adopt, p, 0, 0));
    }
    ops.push(op(c.calm, K::DiskFull, 0, 0, 0));
    let settled = c.calm + crate::oracles::live::SETTLE;
    let all = (1u64 << c.npeers) - 1;
    let mut t = settled;
    for _ in 0..r.range(1, 3) {
        t += r.range(1000, 900_000);
        if r.chance(1, 3) {
            ops.push(op(t, K::Fork, 1 + r.below(4), r.below(3), all));
        } else {
            ops.push(op(t, K::Mine, 1 + r.below(3), all, r.next() & 0xffff));
        }
    }
    c.end = t + crate::oracles::live::FOLLOW + 20_000;
}

/// Crashes, power loss and disk errors while honest peers feed the node (C04, C05).
pub fn crashes(seed: u64, tier: Tier, errors: bool) -> Plan {
    let mut r = Rng::stream(seed, 9, 9);
    let mut c = Cfg { npeers: r.range(1, 3), ..Cfg::default() };
    network(&mut r, &mut c);
    if r.chance(1, 3) {
        loss(&mut r, &mut c);
    }
    if c.npeers > 1 && r.chance(1, 3) {
        c.nocf = 1 << r.below(c.npeers);
    }
    c.calm = *r.pick(&[60_000, 200_000, 600_000]);
    if r.chance(1, 5) {
        c.base_len = *r.pick(&[40, 300, 2005, 4200]);
        c.known_len = r.below(c.base_len);
    }
    c.verify = r.below(2);
    if errors && r.chance(2, 3) {
        // Filter headers of another branch (see C05) would keep the node busy.
        c.nocf = (1 << c.npeers) - 1;
    }
    let mut ops = vec![];
    let scale = if tier == Tier::Quick { 1 } else { 3 };
    let n = r.range(4, 30) * scale;
    chain_ops(&mut r, &mut ops, n, c.calm, c.npeers, true);
    if r.chance(1, 2) {
        let n = r.below(8 * scale);
        net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    }
    let n = r.range(1, 6 * scale);
    if errors || r.chance(1, 3) {
        crash_ops(&mut r, &mut ops, n, c.calm);
    } else {
        for _ in 0..n {
            ops.push(op(r.below(c.calm), K::Restart, 0, 0, 0));
        }
    }
    for _ in 0..r.below(3) {
        ops.push(op(r.below(c.calm), K::ShortWrite, r.below(20), r.below(100), 0));
    }
    if errors && r.chance(1, 2) {
        for _ in 0..r.range(1, 4) {
            if r.chance(1, 4) {
                let at = r.below(c.calm);
                ops.push(op(at, K::DiskFull, 1, 0, 0));
                ops.push(op((at + r.range(100, 60_000)).min(c.calm), K::DiskFull, 0, 0, 0));
            } else {
                ops.push(op(r.below(c.calm), K::DiskErr, r.below(20), r.below(3), 0));
            }
        }
    }
    settle(&mut r, &mut c, &mut ops);
    finish(seed, c, ops)
}

pub fn crash_headers(seed: u64, tier: Tier) -> Plan {
    crashes(seed, tier, true)
}

pub fn crash_filters(seed: u64, tier: Tier) -> Plan {
    crashes(seed, tier, false)
}

/// Everything that can happen to header sync before faults stop (C09).
pub fn sync_live(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 10, 10);
    let mut c = Cfg { npeers: r.range(1, 5), ..Cfg::default() };
    network(&mut r, &mut c);
    loss(&mut r, &mut c);
    match r.below(4) {
        0 => c.nocf = (1 << c.npeers) - 1,
        1 => c.nocf = 0,
        _ => c.nocf = r.below(1 << c.npeers),
    }
    c.mode = *r.pick(&[0, 0, 0, 2]);
    c.calm = *r.pick(&[60_000, 600_000, 3_600_000]);
    if r.chance(1, 5) {
        c.base_len = *r.pick(&[40, 300, 2005, 4200, 6001]);
        c.known_len = r.below(c.base_len);
    }
    let mut ops = vec![];
    let scale = if tier == Tier::Quick { 1 } else { 3 };
    let n = r.range(2, 25) * scale;
    chain_ops(&mut r, &mut ops, n, c.calm, c.npeers, true);
    let n = r.range(2, 20 * scale);
    net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    if c.npeers > 1 && r.chance(1, 2) {
        c.evil = r.below(1 << c.npeers);
        // At least one honest peer the node connects to.
        c.evil &= !1;
        c.lies = 0;
        for b in [crate::world::LIE_SILENT, crate::world::LIE_HEIGHT, crate::world::LIE_CFHEADERS] {
            if r.chance(1, 3) {
                c.lies |= b;
            }
        }
        for _ in 0..r.below(4) {
            let b = r.below(16) + 16 * r.below(12) + 1024 * r.below(12);
            ops.push(op(r.below(c.calm), K::Evil, r.below(10), b, r.below(8)));
        }
    }
    if r.chance(1, 3) {
        let n = r.below(4);
        crash_ops(&mut r, &mut ops, n, c.calm);
    }
    if c.mode == 2 {
        for _ in 0..r.below(6) {
            ops.push(op(r.below(c.calm), K::Inbound, 1 + 2 * r.below(3), 0, 0));
        }
    }
    settle(&mut r, &mut c, &mut ops);
    finish(seed, c, ops)
}

/// What the user of a light client does: rescans, watches, block and filter requests.
pub fn user_ops(r: &mut Rng, ops: &mut Vec<Op>, n: u64, until: u64, top: u64) {
    for _ in 0..n {
        let at = r.below(until);
        match r.below(10) {
            0..=3 => {
                let a = match r.below(4) {
                    0 => 0,
                    1 => r.below(top + 4),
                    2 => top.saturating_sub(r.below(6)),
                    _ => r.below(8),
                };
                let b = match r.below(3) {
                    0 => 0,
                    1 => a + r.below(12),
                    _ => r.below(top + 10),
                };
                let mut c = r.next() & ((1 << crate::universe::SCRIPTS) - 1);
                if r.chance(1, 3) {
                    c &= r.next();
                }
                if r.chance(1, 12) {
                    c = 0;
                }
                if r.chance(1, 4) {
                    c |= 1 << (40 + r.below(4));
                }
                ops.push(op(at, K::Rescan, a, b, c));
            }
            4 | 5 => ops.push(op(at, K::Watch, 0, 0, 1 << r.below(crate::universe::SCRIPTS as u64))),
            6 => ops.push(op(at, K::Submit, r.next() & 0xffff, r.below(100), r.below(2))),
            7 => ops.push(op(at, K::ReqBlock, r.below(10), r.below(8) / 6, r.next() & 0xff)),
            8 => {
                let a = r.below(top + 3);
                let b = if r.chance(1, 5) { r.below(top + 5) } else { a + r.below(6) };
                ops.push(op(at, K::ReqFilters, a, b, 0))
            }
            _ => ops.push(op(at, K::Confirm, r.next() & 0xff, (1 << 5) - 1, r.next() & 0xff)),
        }
    }
}

/// Rescans under network faults, reorganisations and lying filter or block servers (C06, C07, C21).
pub fn scans(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 11, 11);
    let mut c = Cfg { npeers: r.range(1, 4), ..Cfg::default() };
    network(&mut r, &mut c);
    if r.chance(1, 2) {
        loss(&mut r, &mut c);
    }
    if c.npeers > 1 && r.chance(1, 3) {
        c.nocf = r.below(1 << c.npeers) & !1;
    }
    c.mode = *r.pick(&[0, 0, 0, 2]);
    c.cache = *r.pick(&[0, 60, 300, 2_097_152, 2_097_152]);
    c.calm = *r.pick(&[60_000, 200_000, 600_000]);
    match r.below(6) {
        0 | 1 => c.base_len = r.range(1, 40),
        2 => c.base_len = *r.pick(&[300, 1005, 2100]),
        _ => {}
    }
    if c.base_len > 0 {
        c.known_len = *r.pick(&[0, c.base_len, c.base_len - 1, c.base_len / 2]);
    }
    let mut ops = vec![];
    let scale = if tier == Tier::Quick { 1 } else { 2 };
    let n = r.range(4, 24) * scale;
    let forks = r.chance(2, 3);
    chain_ops(&mut r, &mut ops, n, c.calm, c.npeers, forks);
    if r.chance(1, 2) {
        let n = r.below(10 * scale);
        net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    }
    let n = r.range(1, 10 * scale);
    let until = if r.chance(1, 4) { 3000 } else { c.calm };
    let top = c.base_len + 15;
    user_ops(&mut r, &mut ops, n, until, top);
    if c.npeers > 1 && r.chance(1, 2) {
        c.evil = r.below(1 << c.npeers) & !1;
        use crate::world::*;
        for b in [LIE_CFILTER, LIE_BLOCK, LIE_NOTFOUND, LIE_SILENT, LIE_STALE, LIE_CFTYPE] {
            if r.chance(1, 3) {
                c.lies |= b;
            }
        }
        for _ in 0..r.below(10) {
            ops.push(op(r.below(c.calm), K::X2, r.below(8), r.next() & 0xffff, r.next() & 0xffff));
        }
    }
    if r.chance(1, 6) {
        let k = *r.pick(&[K::Restart, K::Crash]);
        ops.push(op(r.below(c.calm), k, 0, 0, 0));
    }
    settle(&mut r, &mut c, &mut ops);
    if r.chance(1, 3) {
        // Another scan in quiet times.
        let at = r.range(c.calm, c.calm + crate::oracles::live::SETTLE);
        let a = r.below(top);
        ops.push(op(at, K::Rescan, a, if r.chance(1, 2) { 0 } else { a + r.below(10) }, r.next() & 0xffffff));
    }
    finish(seed, c, ops)
}

/// Submitted transactions, their relay, confirmation and reversal (C08).
pub fn txs(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 12, 12);
    let mut c = Cfg { npeers: r.range(1, 5), ..Cfg::default() };
    network(&mut r, &mut c);
    if r.chance(1, 2) {
        loss(&mut r, &mut c);
    }
    let all = (1u64 << c.npeers) - 1;
    if r.chance(1, 2) {
        c.norelay = r.below(all + 1);
    }
    let some = r.below(all + 1);
    c.wtx = *r.pick(&[0, all, some]);
    if r.chance(1, 4) {
        c.aux2 = 2;
    }
    if c.npeers > 1 && r.chance(1, 4) {
        c.nocf = r.below(all + 1) & !1;
    }
    c.mode = *r.pick(&[0, 0, 2]);
    c.calm = *r.pick(&[60_000, 300_000, 900_000]);
    c.base_len = r.range(3, 30);
    c.known_len = *r.pick(&[0, c.base_len]);
    let end = c.calm + 900_000;
    let mut ops = vec![];
    let scale = if tier == Tier::Quick { 1 } else { 2 };
    let h = r.below(c.base_len + 3);
    ops.push(op(r.below(20_000), K::Rescan, h, 0, if r.chance(1, 2) { 0 } else { r.next() & 0xff }));
    let n = r.range(3, 14) * scale;
    chain_ops(&mut r, &mut ops, n, c.calm, c.npeers, true);
    for _ in 0..r.range(1, 8) * scale {
        let at = r.below(end - 400_000);
        ops.push(op(at, K::Submit, r.next() & 0xffff, r.below(100), r.below(8) | if r.chance(1, 6) { 8 } else { 0 }));
    }
    for _ in 0..r.range(1, 12) * scale {
        let at = r.below(end - 330_000);
        let mask = if r.chance(2, 3) { all } else { r.below(all + 1) };
        match r.below(6) {
            0..=2 => ops.push(op(at, K::Confirm, r.next() & 0xff, mask, r.next() & 0xff)),
            3 => ops.push(op(at, K::Fork, 1 + r.below(4), r.below(3), all)),
            4 => ops.push(op(at, K::X3, r.below(c.npeers), r.next() & 0xff, r.below(3))),
            _ => ops.push(op(at, K::Mine, 1 + r.below(6), all, r.next() & 0xffff)),
        }
    }
    if r.chance(2, 3) {
        let n = r.below(10 * scale);
        net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    }
    if c.mode == 2 {
        for _ in 0..r.below(6) {
            ops.push(op(r.below(c.calm), K::Inbound, 1 + 2 * r.below(3), 0, 0));
        }
    }
    if r.chance(1, 8) {
        ops.push(op(r.below(c.calm), K::Restart, 0, 0, 0));
    }
    if r.chance(1, 6) {
        ops.push(op(r.below(end), K::Rescan, r.below(c.base_len), r.below(2) * 30, r.next() & 0xff));
    }
    for p in 0..c.npeers {
        ops.push(op(c.calm, K::PeerUp, p, 0, 0));
        ops.push(op(c.calm, K::Slow, p, 0, 0));
        ops.push(op(c.calm + r.below(30_000), K::Adopt, p, 0, 0));
    }
    c.end = end;
    finish(seed, c, ops)
}

fn tokens(r: &mut Rng) -> u64 {
    // An ordinary session in most places, with something odd in it.
    let mut v: Vec<u64> = match r.below(6) {
        0 => vec![1, 2],
        1 => vec![1, 3, 2, 4],
        2 => vec![1, 8, 2],
        3 => vec![2, 1, 2],
        4 => vec![1],
        _ => vec![],
    };
    for _ in 0..r.range(1, 6) {
        let i = r.below(v.len() as u64 + 1) as usize;
        v.insert(i, r.range(1, 15));
    }
    v.truncate(15);
    v.iter().rev().fold(0, |a, t| a << 4 | t)
}

/// Peer sessions: handshakes in all variations (C10).
pub fn sessions(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 13, 13);
    let mut c = Cfg { npeers: r.range(1, 6), ..Cfg::default() };
    network(&mut r, &mut c);
    if r.chance(1, 3) {
        loss(&mut r, &mut c);
    }
    let all = (1u64 << c.npeers) - 1;
    c.mode = *r.pick(&[0, 0, 1, 2]);
    c.max_out = *r.pick(&[1, 2, 3, 8]);
    c.max_in = *r.pick(&[1, 2, 3, 16]);
    if r.chance(1, 3) {
        c.limited = r.below(all + 1);
    }
    if r.chance(1, 3) {
        c.nocf = r.below(all + 1);
    }
    if r.chance(1, 4) {
        c.base_len = *r.pick(&[10, 2100]);
        c.known_len = r.below(c.base_len + 1);
    }
    c.calm = *r.pick(&[60_000, 300_000]);
    c.end = c.calm + 300_000;
    let mut ops = vec![];
    let scale = if tier == Tier::Quick { 1 } else { 2 };
    for _ in 0..r.range(1, 8) * scale {
        let t = if r.chance(1, 6) { 0 } else { tokens(&mut r) };
        let at = if r.chance(1, 2) { 0 } else { r.below(c.calm) };
        ops.push(op(at, K::X4, r.below(c.npeers), t, r.below(17)));
    }
    for _ in 0..r.range(1, 14) * scale {
        let at = r.below(c.calm);
        match r.below(12) {
            0..=2 => ops.push(op(at, K::Inbound, r.below(c.npeers), 0, 0)),
            3..=5 => {
                let kinds = [0, 1, 2, 3, 4, 6, 8, 10, 11, 13, 14, 15, 16, 20, 27, 29, 40, 41, 42];
                ops.push(op(at, K::X5, r.below(c.npeers), *r.pick(&kinds), r.below(64)))
            }
            6 => ops.push(op(at, K::Connect, r.below(c.npeers), 0, 0)),
            7 => ops.push(op(at, K::Disconnect, r.below(c.npeers), 0, 0)),
            8 => ops.push(op(at, K::X7, r.below(9), 0, 0)),
            9 => ops.push(op(at, K::Drop, r.below(c.npeers), r.below(2), 0)),
            10 => ops.push(op(at, K::X6, r.below(c.npeers), 2, *r.pick(&[70016, 70012, 70011, 70013, 60001]))),
            _ => ops.push(op(at, K::Mine, 1, all, r.next() & 0xff)),
        }
    }
    if r.chance(1, 4) {
        ops.push(op(0, K::X6, r.below(c.npeers), 0, 1));
        if c.mode != 0 {
            ops.push(op(r.below(c.calm), K::Connect, r.below(c.npeers), 0, 0));
        }
    }
    if r.chance(1, 2) {
        let n = r.below(8 * scale);
        net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    }
    if r.chance(1, 8) {
        ops.push(op(r.below(c.calm), K::Restart, 0, 0, 0));
    }
    finish(seed, c, ops)
}

/// Adversarial and honest peers (C11).
pub fn behave(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 16, 16);
    let mut c = Cfg { npeers: r.range(1, 5), ..Cfg::default() };
    network(&mut r, &mut c);
    if r.chance(1, 2) {
        loss(&mut r, &mut c);
    }
    let all = (1u64 << c.npeers) - 1;
    c.mode = *r.pick(&[0, 1, 1, 2]);
    if r.chance(1, 4) {
        c.nocf = r.below(all + 1);
    }
    if r.chance(1, 5) {
        c.base_len = *r.pick(&[5, 40, 300, 2005]);
        c.known_len = r.below(c.base_len + 1);
    }
    c.calm = *r.pick(&[60_000, 600_000, 1_800_000]);
    c.end = c.calm + 300_000;
    let mut ops = vec![];
    let scale = if tier == Tier::Quick { 1 } else { 2 };
    let n = r.range(2, 24) * scale;
    chain_ops(&mut r, &mut ops, n, c.calm, c.npeers, true);
    if r.chance(1, 2) {
        let n = r.below(12 * scale);
        net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    }
    if r.chance(1, 2) {
        let n = r.range(1, 8 * scale);
        let top = c.base_len + 15;
        user_ops(&mut r, &mut ops, n, c.calm, top);
    }
    if r.chance(3, 4) {
        c.evil = r.below(all) + 1;
        if c.npeers > 1 && r.chance(2, 3) {
            c.evil &= !(1 << r.below(c.npeers));
        }
        use crate::world::*;
        for b in [LIE_HEADERS, LIE_CFHEADERS, LIE_CFILTER, LIE_BLOCK, LIE_NOTFOUND, LIE_SILENT, LIE_STALE, LIE_HEIGHT, LIE_CFTYPE] {
            if r.chance(1, if b == LIE_SILENT { 8 } else { 3 }) {
                c.lies |= b;
            }
        }
        for _ in 0..r.below(8 * scale) {
            let at = r.below(c.calm);
            match r.below(3) {
                0 => {
                    let b = r.below(16) + 16 * r.below(12) + 1024 * r.below(12);
                    ops.push(op(at, K::Evil, r.below(10), b, r.below(8)))
                }
                _ => ops.push(op(at, K::X2, r.below(8), r.next() & 0xffff, r.next() & 0xffff)),
            }
        }
        // Odd messages come from adversarial peers only.
        let who: Vec<u64> = (0..c.npeers).filter(|i| c.evil >> i & 1 == 1).collect();
        if !who.is_empty() {
            for _ in 0..r.below(8 * scale) {
                let k = if r.chance(1, 3) { *r.pick(&[2, 3, 18, 19, 20, 35, 35, 40, 41, 42, 43]) } else { r.below(46) };
                ops.push(op(r.below(c.calm), K::X5, *r.pick(&who), k, r.below(64)));
            }
        }
    }
    for _ in 0..r.below(4) {
        ops.push(op(r.below(c.calm), K::Inbound, r.below(c.npeers), 0, 0));
    }
    if c.mode == 1 && c.evil > 0 && r.chance(1, 2) {
        // Peers which come by themselves, and are only heard of (or not) later.
        c.unseeded = c.evil;
        for p in (0..c.npeers).filter(|p| c.evil >> p & 1 == 1) {
            let at = r.below(c.calm);
            ops.push(op(at, K::Inbound, p, 0, 0));
            for _ in 0..r.range(1, 3) {
                let k = *r.pick(&[2, 3, 18, 19, 35, 35, 40, 41, 42, 43]);
                ops.push(op(at + r.range(1000, 40_000), K::X5, p, k, r.below(64)));
            }
            if r.chance(1, 2) {
                ops.push(op(at + r.range(10_000, 200_000), K::ImportAddrs, all, 0, 0));
            }
        }
    }
    if r.chance(1, 6) {
        let k = *r.pick(&[K::Restart, K::Crash]);
        ops.push(op(r.below(c.calm), k, 0, 0, 0));
    }
    finish(seed, c, ops)
}

/// Anything at all from a set of hostile peers (C13).
pub fn hostile(seed: u64, tier: Tier) -> Plan {
    use crate::world::*;
    let mut r = Rng::stream(seed, 17, 17);
    let mut c = Cfg { npeers: r.range(2, 5), ..Cfg::default() };
    network(&mut r, &mut c);
    c.frag = *r.pick(&[0, 0, 0, 1]);
    if r.chance(1, 4) {
        loss(&mut r, &mut c);
    }
    let all = (1u64 << c.npeers) - 1;
    c.mode = *r.pick(&[0, 0, 2, 1]);
    if r.chance(1, 3) {
        c.nocf = r.below(all + 1);
    }
    if r.chance(1, 6) {
        c.base_len = *r.pick(&[5, 40, 300, 2005]);
        c.known_len = r.below(c.base_len + 1);
    }
    c.cache = *r.pick(&[0, 300, 2_097_152]);
    c.calm = *r.pick(&[20_000, 120_000, 600_000]);
    // The first peer is honest.
    c.evil = r.range(1, all) & !1;
    if c.evil == 0 {
        c.evil = 2;
    }
    for b in [LIE_HEADERS, LIE_CFILTER, LIE_BLOCK, LIE_NOTFOUND, LIE_STALE, LIE_HEIGHT, LIE_CFTYPE] {
        if r.chance(1, 5) {
            c.lies |= b;
        }
    }
    if r.chance(2, 3) {
        c.lies |= LIE_MUTATE;
    }
    let mut ops = vec![];
    let scale = if tier == Tier::Quick { 1 } else { 3 };
    let n = r.range(2, 16) * scale;
    chain_ops(&mut r, &mut ops, n, c.calm, c.npeers, true);
    if r.chance(1, 3) {
        let n = r.below(8 * scale);
        net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    }
    if r.chance(2, 3) {
        let n = r.range(1, 8 * scale);
        let top = c.base_len + 15;
        user_ops(&mut r, &mut ops, n, c.calm, top);
    }
    let who: Vec<u64> = (0..c.npeers).filter(|i| c.evil >> i & 1 == 1).collect();
    for _ in 0..r.range(2, 30 * scale) {
        let at = r.below(c.calm);
        let p = *r.pick(&who);
        ops.push(match r.below(8) {
            0 | 1 => op(at, K::X5, p, r.below(46), r.below(64)),
            2 => op(at, K::X2, p, r.next() & 0xffff, r.next() & 0xffff),
            3 => op(at, K::X4, p, r.next() & 0xffff_ffff, r.next() & 0xffff_ffff),
            4 => op(at, K::Inbound, p, 0, 0),
            5 if r.chance(1, 3) => op(at, K::X6, p, 2, *r.pick(&[0, 70011, 70012, 70015, 70016, 80000])),
            _ => op(at, K::X8, p, r.below(36), r.next() & 0xffff_ffff),
        });
    }
    if r.chance(1, 3) {
        settle(&mut r, &mut c, &mut ops);
    } else {
        c.end = c.calm + 300_000;
    }
    finish(seed, c, ops)
}

/// Pings in both directions (C12).
pub fn pings(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 14, 14);
    let mut c = Cfg { npeers: r.range(1, 4), ..Cfg::default() };
    network(&mut r, &mut c);
    if r.chance(1, 4) {
        loss(&mut r, &mut c);
    }
    let all = (1u64 << c.npeers) - 1;
    c.mode = *r.pick(&[0, 0, 1, 2]);
    c.nocf = *r.pick(&[0, all]);
    c.calm = *r.pick(&[60_000, 600_000, 1_800_000]);
    c.end = c.calm + 600_000;
    let mut ops = vec![];
    let scale = if tier == Tier::Quick { 1 } else { 2 };
    for _ in 0..r.range(1, 16) * scale {
        let at = r.below(c.calm);
        let p = r.below(c.npeers);
        match r.below(9) {
            0 => ops.push(op(at, K::X6, p, 1, if r.chance(1, 2) { 1 } else { r.range(1, 9) })),
            1 => ops.push(op(at, K::X6, p, 1, 0)),
            2 | 3 => ops.push(op(at, K::X5, p, 6, r.next() & 0xffff)),
            4 => ops.push(op(at, K::X5, p, 7, r.next() & 0xffff)),
            5 => ops.push(op(at, K::Mute, p, r.range(1000, 100_000), 0)),
            6 => ops.push(op(at, K::Slow, p, r.range(100, 40_000), 0)),
            7 => ops.push(op(at, K::Mine, 1, all, r.next() & 0xff)),
            _ => {
                // Handshakes with pings around them.
                let t = *r.pick(&[0x6621, 0x62_1, 0x6_2_6_1, 0x86_21, 0x6_8_6_2_3_1, 0x6666_21]);
                ops.push(op(if r.chance(1, 2) { 0 } else { at }, K::X4, p, t, 0));
                if r.chance(1, 2) {
                    ops.push(op(at, K::Drop, p, 0, 0));
                }
            }
        }
    }
    if r.chance(1, 2) {
        let n = r.below(8 * scale);
        net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    }
    if c.mode == 2 {
        for _ in 0..r.below(5) {
            ops.push(op(r.below(c.calm), K::Inbound, 1 + 2 * r.below(3), 0, 0));
        }
    }
    for p in 0..c.npeers {
        ops.push(op(c.calm, K::Slow, p, 0, 0));
    }
    finish(seed, c, ops)
}

/// Requests of peers (C16).
pub fn serves(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 16, 16);
    let mut c = Cfg { npeers: r.range(1, 4), ..Cfg::default() };
    network(&mut r, &mut c);
    if r.chance(1, 4) {
        loss(&mut r, &mut c);
    }
    c.mode = *r.pick(&[0, 0, 2]);
    if r.chance(1, 2) {
        c.base_len = *r.pick(&[5, 60, 2005, 4100]);
        c.known_len = *r.pick(&[0, c.base_len, c.base_len / 2]);
    }
    if r.chance(1, 5) {
        // Other consensus rules, with checkpoints.
        c.base_len = 0;
        c.known_len = 0;
        c.interval = 12;
        c.ckpt = r.below(3);
    }
    if r.chance(1, 4) {
        c.nocf = r.below(1 << c.npeers);
    }
    c.calm = *r.pick(&[60_000, 300_000]);
    c.end = c.calm + 60_000;
    let mut ops = vec![];
    let scale = if tier == Tier::Quick { 1 } else { 2 };
    let n = r.range(1, 16) * scale;
    chain_ops(&mut r, &mut ops, n, c.calm, c.npeers, true);
    for _ in 0..r.range(3, 30) * scale {
        let at = r.below(c.end);
        let k = *r.pick(&[8, 8, 20, 20, 13, 14, 11]);
        ops.push(op(at, K::X5, r.below(c.npeers), k, r.next() & 0xffff));
    }
    if r.chance(1, 2) {
        ops.push(op(0, K::X4, r.below(c.npeers), *r.pick(&[0x7_2_1, 0x7_1, 0x72_7_1, 0xe2_1, 0x7e_8_2_1]), 0));
    }
    if r.chance(1, 3) {
        let n = r.below(6 * scale);
        net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    }
    for _ in 0..r.below(4) {
        ops.push(op(r.below(c.calm), K::Inbound, r.below(c.npeers), 0, 0));
    }
    if r.chance(1, 6) {
        let k = *r.pick(&[K::Restart, K::Crash]);
        if c.interval == 0 {
            ops.push(op(r.below(c.calm), k, 0, 0, 0));
        }
    }
    finish(seed, c, ops)
}

/// Addresses from peers and the user, outages, restarts and crashes (C14).
pub fn books(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 18, 18);
    let mut c = Cfg { npeers: r.range(2, 8), ..Cfg::default() };
    network(&mut r, &mut c);
    if r.chance(1, 2) {
        c.batch = 0;
    }
    if r.chance(1, 4) {
        loss(&mut r, &mut c);
    }
    let all = (1u64 << c.npeers) - 1;
    c.mode = *r.pick(&[1, 1, 1, 1, 0, 2]);
    c.domains = r.below(4) / 3;
    c.max_out = r.range(1, 8);
    c.max_in = r.range(1, 4);
    let some = r.below(all + 1);
    c.nocf = *r.pick(&[0, 0, all, some]);
    if c.mode == 1 && r.chance(1, 4) {
        c.limited = r.below(all + 1) & !1;
    }
    if r.chance(1, 2) {
        c.unseeded = r.below(all + 1) & !1;
    }
    if r.chance(1, 3) {
        c.skew = *r.pick(&[5, 600]);
    }
    c.calm = *r.pick(&[300_000, 1_200_000, 3_600_000]);
    c.end = c.calm + *r.pick(&[200_000, 1_000_000]);
    let scale = if tier == Tier::Quick { 1 } else { 3 };
    let mut ops = vec![];
    // Few enough for all of them to be kept, or not.
    let flood = r.chance(1, 3);
    for _ in 0..r.range(2, 16 * scale) {
        let at = r.below(c.calm);
        let f = if flood { r.below(10) } else { *r.pick(&[0, 0, 1, 1, 3, 4, 5, 7, 9]) };
        ops.push(op(at, K::X9, r.below(c.npeers), f, r.next() & 0xffff));
    }
    for _ in 0..r.below(5 * scale) {
        let at = r.below(c.calm);
        match r.below(8) {
            0 | 1 => ops.push(op(at, K::ImportAddrs, r.below(all + 1), r.below(8), r.next() & 0xffff)),
            2 => ops.push(op(at, K::Connect, r.below(c.npeers), 0, 0)),
            3 => ops.push(op(at, K::Disconnect, r.below(c.npeers), 0, 0)),
            4 => ops.push(op(at, K::X5, r.below(c.npeers), r.below(46), r.below(64))),
            5 => ops.push(op(at, K::X5, r.below(c.npeers), 29, 0)),
            _ => ops.push(op(at, K::Inbound, r.below(c.npeers), 0, 0)),
        }
    }
    if r.chance(2, 3) {
        let n = r.below(10 * scale);
        net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    }
    if r.chance(1, 2) {
        let n = r.range(1, 4 * scale);
        for _ in 0..n {
            let at = r.below(c.calm);
            match r.below(6) {
                0 => ops.push(op(at, K::Restart, 0, 0, 0)),
                1 => ops.push(op(at, K::Crash, 0, 0, 0)),
                2 => ops.push(op(at, K::PowerLoss, r.below(5), r.below(3000), 0)),
                _ => ops.push(op(at, K::Crash, 1 + r.below(7), r.below(3000), 0)),
            }
        }
    }
    if r.chance(1, 6) {
        ops.push(op(r.below(c.calm), K::DiskErr, r.below(6), r.below(3), 0));
    }
    for _ in 0..r.below(3) {
        ops.push(op(r.below(c.calm), K::ShortWrite, r.below(6), r.below(1000), 0));
    }
    if r.chance(1, 2) {
        c.nodial = *r.pick(&[50, 300]);
    }
    finish(seed, c, ops)
}

/// Outages of all kinds and lengths, then calm (C17).
pub fn links(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 19, 19);
    let mut c = Cfg { npeers: r.range(1, 9), ..Cfg::default() };
    network(&mut r, &mut c);
    if r.chance(1, 3) {
        loss(&mut r, &mut c);
    }
    let all = (1u64 << c.npeers) - 1;
    c.mode = *r.pick(&[1, 1, 1, 0, 0, 2]);
    c.max_out = *r.pick(&[1, 2, 3, 4, 8]);
    c.max_in = r.range(1, 8);
    let some = r.below(all + 1);
    c.nocf = *r.pick(&[0, all, some, some]);
    if c.mode == 1 && r.chance(1, 4) {
        c.limited = r.below(all + 1) & !1;
    }
    if r.chance(1, 4) {
        c.unseeded = r.below(all + 1) & !1;
    }
    if r.chance(1, 3) {
        c.evil = r.below(all + 1) & !1;
        c.lies = *r.pick(&[crate::world::LIE_SILENT, crate::world::LIE_HEADERS, crate::world::LIE_HEIGHT]);
    }
    c.calm = *r.pick(&[300_000, 3_600_000, 20_000_000]);
    c.end = c.calm + 2 * 3_600_000 + 1_200_000;
    if r.chance(1, 2) {
        c.nodial = *r.pick(&[50, 300, 900]);
    }
    let scale = if tier == Tier::Quick { 1 } else { 3 };
    let mut ops = vec![];
    // Outages.
    for _ in 0..r.range(1, 8 * scale) {
        let at = r.below(c.calm);
        let p = r.below(c.npeers);
        match r.below(8) {
            0 | 1 => {
                let len = *r.pick(&[5_000, 100_000, 1_000_000, 12_000_000]);
                let len = r.range(1000, len);
                let who = if r.chance(1, 3) { (0..c.npeers).collect() } else { vec![p] };
                for q in who {
                    ops.push(op(at, K::PeerDown, q, 0, 0));
                    ops.push(op((at + len).min(c.calm), K::PeerUp, q, 0, 0));
                }
            }
            2 | 3 => {
                let mask = if r.chance(1, 2) { all } else { r.below(all + 1) };
                let len = *r.pick(&[20_000, 1_000_000, 9_000_000]);
                ops.push(op(at, K::Partition, mask, r.range(1000, len), 0));
            }
            4 => ops.push(op(at, K::Drop, p, r.below(2), 0)),
            5 => ops.push(op(at, K::Mute, p, r.range(1000, 300_000), 0)),
            6 => ops.push(op(at, K::Slow, p, r.range(100, 20_000), 0)),
            _ => ops.push(op(at, K::Inbound, p, 0, 0)),
        }
    }
    // Addresses, good and useless ones.
    for _ in 0..r.below(4) {
        let f = *r.pick(&[0, 0, 9, 9, 3, 5]);
        ops.push(op(r.below(c.calm), K::X9, r.below(c.npeers), f, r.next() & 0xffff));
    }
    if r.chance(1, 3) {
        ops.push(op(r.below(c.calm), K::ImportAddrs, r.below(all + 1), 0, 0));
    }
    if r.chance(1, 4) {
        ops.push(op(r.below(c.calm), K::ClockJump, r.range(1000, 3_000_000), r.below(2), 0));
    }
    for _ in 0..r.below(3) {
        let at = r.below(c.calm);
        match r.below(6) {
            0 => ops.push(op(at, K::Connect, r.below(c.npeers), 0, 0)),
            1 => ops.push(op(at, K::Disconnect, r.below(c.npeers), 0, 0)),
            2 => ops.push(op(at, K::X5, r.below(c.npeers), r.below(46), r.below(64))),
            3 => ops.push(op(at, K::X4, r.below(c.npeers), r.next() & 0xffff_ffff, r.next() & 0xffff_ffff)),
            4 => ops.push(op(at, K::Restart, 0, 0, 0)),
            _ => ops.push(op(at, K::Crash, r.below(10), r.below(1000), 0)),
        }
    }
    let n = r.below(6);
    chain_ops(&mut r, &mut ops, n, c.calm.min(600_000), c.npeers, false);
    for p in 0..c.npeers {
        ops.push(op(c.calm, K::PeerUp, p, 0, 0));
        ops.push(op(c.calm, K::Slow, p, 0, 0));
        ops.push(op(c.calm + r.below(30_000), K::Adopt, p, 0, 0));
    }
    // A late loss is no reason to stay alone, either.
    for _ in 0..r.below(3) {
        ops.push(op(c.calm + r.below(1_000_000), K::Drop, r.below(c.npeers), 0, 0));
    }
    finish(seed, c, ops)
}

/// Peers with clocks of their own, and blocks from the future (C15).
pub fn clocks(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 20, 20);
    let mut c = Cfg { npeers: r.range(4, 13), ..Cfg::default() };
    network(&mut r, &mut c);
    c.batch = 0;
    c.lat_max = c.lat_max.min(300);
    c.chatty = 0;
    c.mode = *r.pick(&[0, 0, 2, 1]);
    let all = (1u64 << c.npeers) - 1;
    c.nocf = all;
    c.skew = *r.pick(&[0, 10, 3000, 4300, 9000]);
    c.max_out = *r.pick(&[8, 8, 3]);
    let mut ops = vec![];
    let far: i64 = *r.pick(&[100, 4199, 4200, 4201, 5000, 1_000_000_000, i64::MAX, i64::MIN]);
    // Clocks.
    let conspiracy = r.chance(1, 3);
    for p in 0..c.npeers {
        if conspiracy && !r.chance(1, 6) {
            let sign = r.chance(3, 4);
            ops.push(op(0, K::X6, p, 3, if sign { far } else { far.saturating_neg() } as u64));
        } else if r.chance(1, 4) {
            let v = *r.pick(&[0, 1, -1, 4199, 4200, 4201, -4200, -4201, 7200, i64::MAX, i64::MIN, -2_000_000_000]);
            ops.push(op(0, K::X6, p, 3, v as u64));
        }
    }
    let many = r.chance(1, 25);
    let n = if many { 420 } else { r.below(if tier == Tier::Quick { 40 } else { 80 }) };
    let mut t = 2000;
    for i in 0..n {
        t += if many { r.range(300, 1200) } else { r.range(100, 30_000) };
        let p = r.below(c.npeers);
        match r.below(if many { 4 } else { 8 }) {
            0..=3 => {
                ops.push(op(t, K::Drop, p, 0, 0));
                let b = if many || r.chance(1, 2) { 1 + i } else { 0 };
                ops.push(op(t + 5, K::Inbound, p, b, 0));
            }
            4 => {
                let v = match r.below(3) {
                    0 => r.below(10_000) as i64 - 5000,
                    1 => r.below(200) as i64 - 100,
                    _ => far,
                };
                ops.push(op(t, K::X6, p, 3, v as u64));
            }
            5 => ops.push(op(t, K::Drop, p, 0, 0)),
            6 => ops.push(op(t, K::ClockJump, *r.pick(&[1000, 60_000, 4_000_000, 20_000_000]), r.below(2), 0)),
            _ => {
                if r.chance(1, 6) {
                    ops.push(op(t, K::Restart, 0, 0, 0));
                }
            }
        }
    }
    t += 10_000;
    for _ in 0..r.range(3, 24) {
        let a = *r.pick(&[0, 0, 0, 1, 1, 2, 3]);
        ops.push(op(r.range(1, t), K::Probe, a, r.below(300), *r.pick(&[0, 1, 1, 1, 1, 2])));
    }
    c.calm = t;
    c.end = t + 20_000;
    finish(seed, c, ops)
}

/// User threads that call the handle in any state of the node (C19).
pub fn users(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 19, 19);
    let mut c = Cfg { npeers: r.range(1, 5), users: r.range(1, 3), ..Cfg::default() };
    network(&mut r, &mut c);
    c.batch = if r.chance(1, 4) { c.batch.max(5) } else { 0 };
    if r.chance(1, 3) {
        loss(&mut r, &mut c);
    }
    c.mode = *r.pick(&[0, 0, 1, 2]);
    if c.npeers > 1 && r.chance(1, 3) {
        c.nocf = r.below(1 << c.npeers) & !1;
    }
    c.calm = *r.pick(&[60_000, 200_000, 400_000]);
    c.base_len = match r.below(12) {
        0 => *r.pick(&[300, 1005, 2100]),
        1..=6 => r.range(1, 40),
        _ => 0,
    };
    if c.base_len > 0 {
        c.known_len = *r.pick(&[0, 0, c.base_len, c.base_len - 1, c.base_len / 2]);
    }
    let mut ops = vec![];
    let scale = if tier == Tier::Quick { 1 } else { 2 };
    let n = r.range(2, 16) * scale;
    let forks = r.chance(2, 3);
    chain_ops(&mut r, &mut ops, n, c.calm, c.npeers, forks);
    if r.chance(1, 2) {
        let n = r.below(8 * scale);
        net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    }
    let end = c.calm + *r.pick(&[0, 30_000, 200_000]);
    // Each run has its own mix of calls.
    let kinds: Vec<u64> = (0..24).filter(|k| *k != 21 && r.chance(1, 3)).chain([5, 6, 13, 14]).filter(|k| *k != 23).collect();
    let bunch = r.chance(1, 2);
    let mut at = 0;
    for _ in 0..r.range(4, 40) * scale {
        if !bunch || r.chance(1, 4) {
            at = r.below(end);
        } else {
            at += r.below(50);
        }
        let u = r.below(c.users);
        if r.chance(1, 12) {
            ops.push(op(at, K::Query, u, 21, r.next() & 0xffffff));
        }
        ops.push(op(at, K::Query, u, *r.pick(&kinds), r.next() & 0xffffff));
    }
    if r.chance(1, 4) {
        ops.push(op(r.below(end), K::Query, r.below(c.users), 23, 0));
    }
    c.end = end + r.below(60_000);
    finish(seed, c, ops)
}

/// The wallet over the node (C20).
pub fn wallet(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::stream(seed, 20, 20);
    let mut c = Cfg { npeers: r.range(1, 4), users: 1, wallet: r.range(1, 6), ..Cfg::default() };
    network(&mut r, &mut c);
    c.batch = if r.chance(1, 4) { c.batch.max(5) } else { 0 };
    if r.chance(1, 3) {
        loss(&mut r, &mut c);
    }
    if c.npeers > 1 && r.chance(1, 3) {
        c.nocf = r.below(1 << c.npeers) & !1;
    }
    c.cache = *r.pick(&[0, 60, 300, 2_097_152, 2_097_152]);
    c.calm = *r.pick(&[60_000, 200_000, 600_000]);
    c.base_len = match r.below(12) {
        0 => *r.pick(&[300, 1005, 2100]),
        1..=5 => r.range(1, 40),
        _ => 0,
    };
    if c.base_len > 0 {
        c.known_len = *r.pick(&[0, 0, c.base_len, c.base_len - 1, c.base_len / 2]);
    }
    c.birth = match r.below(4) {
        0 => 0,
        1 => c.base_len,
        2 => r.below(c.base_len + 1),
        _ => r.below(c.base_len + 12),
    };
    let mut ops = vec![];
    let scale = if tier == Tier::Quick { 1 } else { 2 };
    let n = r.range(4, 24) * scale;
    let forks = r.chance(1, 2);
    chain_ops(&mut r, &mut ops, n, c.calm, c.npeers, forks);
    if r.chance(1, 2) {
        let n = r.below(8 * scale);
        net_fault_ops(&mut r, &mut ops, n, c.calm, c.npeers);
    }
    if c.npeers > 1 && r.chance(1, 3) {
        c.evil = r.below(1 << c.npeers) & !1;
        use crate::world::*;
        for b in [LIE_CFILTER, LIE_BLOCK, LIE_NOTFOUND, LIE_SILENT, LIE_STALE, LIE_CFTYPE] {
            if r.chance(1, 3) {
                c.lies |= b;
            }
        }
        for _ in 0..r.below(6) {
            ops.push(op(r.below(c.calm), K::X2, r.below(8), r.next() & 0xffff, r.next() & 0xffff));
        }
    }
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            let k = *r.pick(&[K::Restart, K::Crash]);
            ops.push(op(r.below(c.calm), k, 0, 0, 0));
        }
    }
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 4) {
            let a = r.below(*r.clone().pick(&[6, 40, 200]));
            ops.push(op(r.below(c.calm), K::WalletFault, a, r.range(1, 4), r.next() & 0xff));
        }
    }
    for _ in 0..r.below(6) {
        ops.push(op(r.below(c.calm), K::WalletInput, r.below(4), 0, 0));
    }
    ops.push(op(c.calm, K::WalletFault, 0, 0, 0));
    settle(&mut r, &mut c, &mut ops);
    finish(seed, c, ops)
}
