//! Pieces of the simulated deployment: swarm configuration of the faults, and the network.

use std::collections::BTreeMap;

use simrt::{advance, below, draw, ev, fault_chance, pickc, probe, rt, FAULT};

pub const S: u64 = 1_000_000_000;
pub const MS: u64 = 1_000_000;

/// Draws the run's entropy and clock behaviour (legal, if unusual: interrupted and short reads, slow
/// calls).
pub fn swarm() {
    let r = rt();
    r.entropy.eintr = pickc(&[0, 0, 30, 120]);
    r.entropy.short = pickc(&[0, 0, 60, 200]);
    r.clock.tick = pickc(&[0, 0, 1_000_000, 1_500_000_000]);
}

/// A node with a skewed and drifting clock, around `epoch` seconds.
pub fn node(epoch: i64, skew: i64) -> usize {
    let off = if skew > 0 { below(2 * skew as usize + 1) as i64 - skew } else { 0 };
    let ns = draw(FAULT, 1_000_000_000) as i128;
    let drift = pickc(&[0i64, 0, 200, -200, 50]);
    simrt::new_node((epoch + off) as i128 * S as i128 + ns, drift)
}

/// A discrete-event queue: a lossy, duplicating, delaying, reordering, partitioned network, and
/// timers.
pub struct Net<M> {
    q: BTreeMap<(u64, u64), M>,
    seq: u64,
    pub drop: u32,
    pub dup: u32,
    pub delay: u64,
    /// (node, from, until)
    pub partition: Option<(usize, u64, u64)>,
    /// When the faults stop.
    pub heal_at: u64,
}

impl<M: Clone> Net<M> {
    pub fn swarm(nodes: usize) -> Self {
        let heal_at = pickc(&[20u64, 60, 120]) * S;
        let partition = match below(3) {
            0 => {
                let from = below(30) as u64 * S;
                Some((below(nodes.max(1)), from, from + (1 + below(60) as u64) * S))
            }
            _ => None,
        };
        Net {
            q: BTreeMap::new(),
            seq: 0,
            drop: pickc(&[0, 20, 60, 120]),
            dup: pickc(&[0, 30, 100]),
            delay: pickc(&[50 * MS, S, 8 * S, 30 * S]),
            partition,
            heal_at,
        }
    }

    pub fn timer(&mut self, after: u64, m: M) {
        self.seq += 1;
        self.q.insert((rt().now + after, self.seq), m);
    }

    /// Sends a message between `node` and the server.
    pub fn send(&mut self, node: usize, m: M) {
        let faulty = rt().now < self.heal_at;
        if faulty {
            if let Some((n, from, until)) = self.partition {
                if n == node && (from..until).contains(&rt().now) {
                    probe("fault.net_partitioned");
                    return;
                }
            }
            if fault_chance(self.drop) {
                probe("fault.net_lost");
                return;
            }
        }
        let copies = if faulty && fault_chance(self.dup) {
            probe("fault.net_duplicated");
            2
        } else {
            1
        };
        for _ in 0..copies {
            let max = if faulty { self.delay } else { 50 * MS };
            let d = MS + draw(FAULT, 1 << 16) as u64 * (max >> 16);
            self.seq += 1;
            let at = (rt().now + d, self.seq);
            if self.q.keys().next_back().map_or(false, |&k| k > at) {
                probe("fault.net_reordered");
            }
            self.q.insert(at, m.clone());
        }
    }

    pub fn next(&mut self) -> Option<M> {
        let (&k, _) = self.q.iter().next()?;
        let m = self.q.remove(&k)?;
        if k.0 > rt().now {
            advance(k.0 - rt().now);
        }
        Some(m)
    }
}

pub fn log(s: impl FnOnce() -> String) {
    ev(s)
}
