//! Reference implementation of the header consensus rules, over the ancestors of the header itself.
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::BlockHeader;

use crate::universe::{Id, Universe};

pub const MAX_FUTURE: u64 = 2 * 60 * 60;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    Pow,
    Bits { required: u32, found: u32 },
    TimeOld { mtp: u32, found: u32 },
    TimeFuture,
    Checkpoint,
}

fn limit_bits() -> u32 {
    0x207fffff
}

/// The compact target a block on `parent` with this timestamp must carry.
pub fn required_bits(u: &Universe, parent: Id, time: u32) -> u32 {
    let p = &u.params;
    let interval = p.pow_target_timespan / p.pow_target_spacing;
    let last = u.get(parent);
    let height = last.height + 1;

    if height % interval != 0 {
        if p.allow_min_difficulty_blocks {
            if time as u64 > last.block.header.time as u64 + 2 * p.pow_target_spacing {
                return limit_bits();
            }
            let mut i = parent;
            loop {
                let b = u.get(i);
                if b.height % interval == 0 || b.block.header.bits != limit_bits() {
                    return b.block.header.bits;
                }
                i = b.parent;
            }
        }
        return last.block.header.bits;
    }
    // First block of a period.
    let first = u.ancestor(parent, last.height.saturating_sub(interval - 1)).unwrap();
    if p.no_pow_retargeting {
        // (bits are constant within a period on such networks)
        return u.get(first).block.header.bits;
    }
    let first_time = u.get(first).block.header.time as i64;
    let span = p.pow_target_timespan as i64;
    let actual = (last.block.header.time as i64 - first_time).clamp(span / 4, span * 4);
    let mut target = BlockHeader::u256_from_compact_target(last.block.header.bits);
    target = target.mul_u32(actual as u32);
    target = target / Uint256::from_u64(p.pow_target_timespan).unwrap();
    if target > p.pow_limit {
        target = p.pow_limit;
    }
    BlockHeader::compact_target_from_u256(&target)
}

/// What a plausible but wrong difficulty rule would require.
pub fn wrong_bits(u: &Universe, parent: Id, time: u32, rule: u64) -> u32 {
    let p = &u.params;
    let interval = p.pow_target_timespan / p.pow_target_spacing;
    let last = u.get(parent);
    let bits = last.block.header.bits;
    let retarget = |back: u64, clamp: bool| {
        let first = u.ancestor(parent, last.height.saturating_sub(back)).unwrap();
        let span = p.pow_target_timespan as i64;
        let actual = last.block.header.time as i64 - u.get(first).block.header.time as i64;
        let actual = if clamp { actual.clamp(span / 4, span * 4) } else { actual.max(1) };
        let mut target = BlockHeader::u256_from_compact_target(bits).mul_u32(actual as u32);
        target = target / Uint256::from_u64(p.pow_target_timespan).unwrap();
        if target > p.pow_limit {
            target = p.pow_limit;
        }
        BlockHeader::compact_target_from_u256(&target)
    };
    match rule % 6 {
        // No bound on the adjustment.
        0 => retarget(interval - 1, false),
        // The whole period and one more block.
        1 => retarget(interval, true),
        // No adjustment; no minimum-difficulty exception.
        2 => bits,
        // Adjustment in every block.
        3 => retarget(interval - 1, true),
        // Minimum difficulty, also for the first block of a period.
        4 if time as u64 > last.block.header.time as u64 + 2 * p.pow_target_spacing => limit_bits(),
        // The last real difficulty, across periods.
        _ => {
            let mut i = parent;
            while i != 0 && u.get(i).block.header.bits == limit_bits() {
                i = u.get(i).parent;
            }
            u.get(i).block.header.bits
        }
    }
}

/// Median of the (up to) eleven timestamps up to and including `id`.
pub fn median_time(u: &Universe, id: Id) -> u32 {
    let mut t = Vec::with_capacity(11);
    let mut i = id;
    for _ in 0..11 {
        t.push(u.get(i).block.header.time);
        if i == 0 {
            break;
        }
        i = u.get(i).parent;
    }
    t.sort_unstable();
    t[t.len() / 2]
}

/// Check everything about a header except its relation to the present.
pub fn check_static(u: &Universe, id: Id) -> Result<(), Bad> {
    let b = u.get(id);
    let h = &b.block.header;
    if id == 0 {
        return Ok(());
    }
    let required = required_bits(u, b.parent, h.time);
    if h.bits != required {
        return Err(Bad::Bits { required, found: h.bits });
    }
    let target = BlockHeader::u256_from_compact_target(h.bits);
    if Uint256::from_be_bytes(rev(h.block_hash())) > target {
        return Err(Bad::Pow);
    }
    let mtp = median_time(u, b.parent);
    if h.time <= mtp {
        return Err(Bad::TimeOld { mtp, found: h.time });
    }
    Ok(())
}

fn rev(h: nakamoto_common::bitcoin::BlockHash) -> [u8; 32] {
    use nakamoto_common::bitcoin_hashes::Hash as _;
    let mut b = h.into_inner();
    b.reverse();
    b
}
