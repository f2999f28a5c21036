//! C04: losing a single datagram never makes anybody Down.
use std::num::NonZeroU32;

use foca::{Config, OwnedNotification, State};

use crate::c02::{config, latency};
use crate::codec::{msg_name, wire_header, Kind, KINDS};
use crate::ensure;
use crate::id::Id;
use crate::inst::{micros, trace, tracing, Ev, Op};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::sim::{digit, form, Happened, Sim};
use crate::tape::{hash2, Draw, Tape};

#[derive(Default)]
struct Watch {
    suspected: bool,
}

impl Watch {
    fn see(&mut self, s: &Sim, h: &Happened<'_>) -> R {
        let me = s.nodes[h.node].inst.id();
        for e in h.evs {
            match e {
                Ev::Note(x) => match x {
                    OwnedNotification::MemberDown(_) | OwnedNotification::Defunct | OwnedNotification::Rejoin(_) => {
                        return Err(format!("{me:?} notified {x:?} on {}; lost: {:?}", h.op.name(), s.lost));
                    }
                    _ => {}
                },
                _ => {}
            }
        }
        for m in s.nodes[h.node].inst.foca.iter_membership_state() {
            match m.state() {
                State::Suspect => self.suspected = true,
                State::Down => {
                    // earlier identities of members may be remembered as Down
                    let id = m.id();
                    ensure!(
                        s.find(id.addr).is_none_or(|k| s.nodes[k].inst.id() != *id),
                        "{me:?} has {id:?} on record as Down; lost: {:?}",
                        s.lost
                    );
                }
                _ => {}
            }
        }
        Ok(())
    }
}

fn recovery(n: usize) -> u64 {
    2 * n as u64 + 3
}

/// Loses the kth datagram from here on
fn lose(sim: &mut Sim, k: u64, window: u64, ops: &mut dyn FnMut(&mut Sim) -> Option<(usize, Op)>, cov: &mut Cov) -> R {
    let n = sim.nodes.len();
    let period = micros(sim.config.probe_period);
    let mut w = Watch::default();
    sim.lose = Some(sim.sent + 1 + k);
    if tracing() {
        trace(format!("{}us: datagram #{} will be lost", sim.now, sim.sent + 1 + k));
    }
    let end = sim.now + window;
    while sim.lost.is_none() && sim.now < end {
        let t = sim.now + period / 3;
        while sim.lost.is_none() && sim.step(t, &mut |s, h| w.see(s, h))? {}
        if sim.lost.is_none() {
            sim.run_until(t, &mut |s, h| w.see(s, h))?;
            if let Some((k, op)) = ops(sim) {
                let _ = sim.call(k, &op, &mut |s, h| w.see(s, h))?;
            }
        }
    }
    if sim.lost.is_none() {
        cov.hit("not sent within the window");
        sim.lose = None;
        return Ok(());
    }
    let at = sim.now;
    // a refutation has to be possible: some time, then everything is well
    let mut ok = None;
    for i in 1..=recovery(n) * 4 {
        sim.run_until(at + i * period / 4, &mut |s, h| w.see(s, h))?;
        if sim.all_alive() {
            // not just because it was not noticed yet
            if i >= 9 {
                ok = Some(i);
                break;
            }
        }
    }
    let Some(_) = ok else {
        let who = sim
            .nodes
            .iter()
            .find_map(|x| x.inst.foca.iter_members().find(|m| m.state() != State::Alive).map(|m| format!("{:?} still has {m:?}", x.inst.id())))
            .or(sim.missing())
            .unwrap_or_default();
        return Err(format!("{who} {} probe periods after losing {}", recovery(n), sim.lost.clone().unwrap_or_default()));
    };
    // until any suspicion would have run out
    let end = sim.now + micros(sim.config.suspect_to_down_after) + period * (n as u64 + 2);
    sim.run_until(end, &mut |s, h| w.see(s, h))?;
    ensure!(
        sim.all_alive(),
        "{} after losing {}",
        sim.missing().unwrap_or("somebody is suspected again".into()),
        sim.lost.clone().unwrap_or_default()
    );
    cov.hit(if w.suspected { "led to a suspicion" } else { "absorbed" });
    cov.hit(sim.lost_kind.unwrap_or("?"));
    cov.add("datagrams delivered", sim.delivered);
    cov.nontrivial();
    Ok(())
}

pub fn lost_name(kind: Kind, data: &[u8]) -> &'static str {
    match wire_header(kind, data) {
        Ok((h, _)) => msg_name(&h.message),
        Err(_) => "?",
    }
}

fn run(t: &Tape, cov: &mut Cov, max_n: u32) -> R {
    let mut d = Draw::new(&t.cfg);
    let d = &mut d;
    let n = d.range(2, max_n) as usize;
    let (mut c, cname) = config(d, n);
    c.notify_down_members = d.below(2) == 1;
    let kind = KINDS[d.usize(KINDS.len())];
    let slow = d.below(3) == 2;
    let lat = if slow {
        // acks tend to come after probe_rtt, so that indirect probes are
        // under way all the time
        c.probe_rtt = c.probe_period / 8;
        cov.hit("acks later than probe_rtt");
        micros(c.probe_period - c.probe_rtt) / 5
    } else {
        latency(&c, d)
    };
    let period = micros(c.probe_period);
    let len_rule = (d.below(5) as u8) << 2;
    let renew = d.below(2) as u8;
    if tracing() {
        trace(format!("{n} members, {kind:?}, latency up to {lat}us, {c:?}"));
    }
    let mut sim = Sim::new(kind, c, lat, d.u64());
    let ids: Vec<Id> = (0..n).map(|i| Id::new(i as u16, d.below(3) as u16, len_rule | renew)).collect();
    if !form(&mut sim, &ids, d)? {
        cov.hit("cluster did not form");
        return Ok(());
    }
    cov.hit(cname);
    let window = period * (2 * n as u64 + 1);
    let k = d.u64() % (2 * n as u64 * (2 * n as u64 + 1) * if slow { 3 } else { 1 });
    let mut words = t.ops.iter();
    let mut ops = |sim: &mut Sim| {
        let w = words.next()?;
        let mut d = Draw::new(w);
        let node = d.usize(sim.nodes.len());
        Some((
            node,
            match d.below(4) {
                0 => Op::Gossip,
                1 => Op::Broadcast,
                2 => {
                    let n = 1 + d.usize(20);
                    Op::AddBc((0..n).map(|_| d.word() as u8).collect())
                }
                _ => {
                    let k = d.usize(sim.nodes.len());
                    if k == node {
                        return None;
                    }
                    Op::Announce(sim.nodes[k].inst.id())
                }
            },
        ))
    };
    lose(&mut sim, k, window, &mut ops, cov)
}

const FIRST: u64 = 128;
/// every one of the first datagrams of clusters of 2..=4
fn every(i: u64, cov: &mut Cov) -> R {
    let mut i = i;
    let k = digit(&mut i, FIRST);
    let n = 2 + digit(&mut i, 3) as usize;
    let notify = digit(&mut i, 2) == 1;
    let renew = digit(&mut i, 2) as u8;
    let nz = NonZeroU32::new(n as u32).unwrap();
    let mut c = [Config::simple(), Config::new_lan(nz), Config::new_wan(nz)][i as usize % 3].clone();
    c.notify_down_members = notify;
    let slow = digit(&mut i, 2) == 1;
    let seed = i;
    if slow {
        c.probe_rtt = c.probe_period / 8;
    }
    let lat = if slow { micros(c.probe_period - c.probe_rtt) / 5 } else { micros(c.probe_rtt) / 8 };
    let period = micros(c.probe_period);
    let mut sim = Sim::new(Kind::Fixed, c, lat, seed);
    let ids: Vec<Id> = (0..n).map(|i| Id::new(i as u16, 0, renew)).collect();
    let words: Vec<u32> = (0..64).map(|k| hash2(seed, k) as u32).collect();
    if !form(&mut sim, &ids, &mut Draw::new(&words))? {
        cov.hit("cluster did not form");
        return Ok(());
    }
    lose(&mut sim, k, period * 40, &mut |_| None, cov)
}

fn small(t: &Tape, cov: &mut Cov) -> R {
    run(t, cov, 6)
}
fn large(t: &Tape, cov: &mut Cov) -> R {
    run(t, cov, 20)
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        level: "exploration",
        rule: "a datagram was lost and the cluster watched until every suspicion would have run out",
        assumptions: &[
            "the cluster had formed (everybody listed everybody as Alive); latencies leave room for the indirect probe within the probe period",
            "suspect_to_down_after is what Config's constructors compute for the size, or at least three probe periods",
            "every member Alive again within 2n+3 probe periods of the loss",
        ],
        subs: vec![
            Sub {
                name: "every-datagram",
                quick: 0,
                thorough: 0,
                body: Body::Enum { n: |th| FIRST * 3 * 4 * 2 * if th { 2000 } else { 90 }, f: every },
            },
            Sub { name: "small", quick: 300_000, thorough: 4_000_000, body: Body::Tape { min: 0, max: 10, f: small } },
            Sub { name: "large", quick: 20_000, thorough: 300_000, body: Body::Tape { min: 0, max: 10, f: large } },
        ],
    }
}
