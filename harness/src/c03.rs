//! C03: members that crash or leave are reported Down by everybody, in time,
//! and nobody else is.
use foca::{Config, Message, OwnedNotification, State};

use crate::c02::{config, latency};
use crate::codec::{parse_packet, Kind, KINDS};
use crate::ensure;
use crate::id::Id;
use crate::inst::{micros, trace, tracing, Ev, Op};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::sim::{digit, form, Happened, Sim};
use crate::tape::{Draw, Tape};

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Crash,
    Leave,
}

/// Watches what survivors say
struct Watch {
    /// who fails, when that happened, and how
    failing: Vec<(usize, Id, How)>,
    failed_at: Option<u64>,
    /// (survivor, failed) -> when reported
    reported: std::collections::BTreeMap<(usize, usize), u64>,
    told: u64,
    /// (survivor, failed) that must be reported
    owes: std::collections::BTreeSet<(usize, usize)>,
}

impl Watch {
    fn see(&mut self, s: &Sim, h: &Happened<'_>) -> R {
        let me = s.nodes[h.node].inst.id();
        let gone = self.failing.iter().find(|f| f.0 == h.node);
        if let Some((_, id, how)) = gone {
            if self.failed_at.is_some() && !matches!(h.op, Op::Leave) {
                // it left: it must not answer probes any more
                ensure!(*how == How::Leave, "harness: a crashed member was called");
                for e in h.evs {
                    if let Ev::Send { to, data } = e {
                        if let Ok(p) = parse_packet(s.kind, data) {
                            ensure!(
                                !matches!(p.header.message, Message::Ack(_) | Message::IndirectAck { .. } | Message::ForwardedAck { .. }),
                                "{id:?} left the cluster and sent {:?} to {to:?} on {}",
                                p.header.message,
                                h.op.name()
                            );
                        }
                    }
                }
            }
            return Ok(());
        }
        for e in h.evs {
            let Ev::Note(x) = e else { continue };
            match x {
                OwnedNotification::MemberDown(id) => {
                    let f = self.failing.iter().find(|f| f.1 == *id);
                    let Some((k, _, _)) = f else {
                        return Err(format!("{me:?} reports {id:?} Down, which did not fail"));
                    };
                    ensure!(self.failed_at.is_some(), "{me:?} reports {id:?} Down before it failed");
                    self.reported.entry((h.node, *k)).or_insert(s.now);
                }
                OwnedNotification::Defunct | OwnedNotification::Rejoin(_) => {
                    return Err(format!("{me:?} did not fail and says {x:?}"));
                }
                _ => {}
            }
        }
        for m in s.nodes[h.node].inst.foca.iter_membership_state() {
            if m.state() == State::Down {
                let id = m.id();
                ensure!(
                    self.failing.iter().any(|f| f.1 == *id) || s.find(id.addr).is_some_and(|k| s.nodes[k].inst.id() != *id),
                    "{me:?} has {id:?} on record as Down, which did not fail"
                );
            }
        }
        // told by the one that leaves?
        if self.failed_at.is_some() {
            if let Op::Data(data) = h.op {
                if let Ok(p) = parse_packet(s.kind, data) {
                    for (k, id, _) in self.failing.iter().filter(|f| f.2 == How::Leave && f.1 == p.header.src) {
                        if p.updates.iter().any(|m| m.id() == id && m.state() == State::Down) {
                            self.told += 1;
                            ensure!(
                                !self.owes.contains(&(h.node, *k)) || self.reported.contains_key(&(h.node, *k)),
                                "{me:?} was told by {id:?} that it leaves and did not report MemberDown right then"
                            );
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

/// Makes the members fail, runs on, checks
fn fail(sim: &mut Sim, failing: Vec<(usize, How)>, then: How, cov: &mut Cov) -> R {
    let _ = then;
    let n = sim.nodes.len();
    let period = micros(sim.config.probe_period);
    let mut w = Watch {
        failing: failing.iter().map(|(k, h)| (*k, sim.nodes[*k].inst.id(), *h)).collect(),
        failed_at: None,
        reported: Default::default(),
        told: 0,
        owes: Default::default(),
    };
    let at = sim.now;
    if tracing() {
        trace(format!("{at}us: failing {:?}", w.failing));
    }
    w.failed_at = Some(at);
    // who has to report whom: those that list them, and are connected
    let owes: std::collections::BTreeSet<(usize, usize)> = (0..n)
        .flat_map(|s| failing.iter().map(move |f| (s, f.0)))
        .filter(|(s, k)| {
            let id = sim.nodes[*k].inst.id();
            let s = &sim.nodes[*s];
            let active = s.notes.iter().rev().find_map(|(_, x)| match x {
                OwnedNotification::Active => Some(true),
                OwnedNotification::Idle | OwnedNotification::Defunct | OwnedNotification::Rejoin(_) => Some(false),
                _ => None,
            });
            active != Some(false) && s.inst.foca.iter_members().any(|m| *m.id() == id)
        })
        .collect();
    w.owes = owes.clone();
    let roomy = sim.config.max_packet_size.get() >= 1400;
    for (k, how) in &failing {
        if *how == How::Crash {
            sim.nodes[*k].up = false;
        }
    }
    for (k, how) in &failing {
        if *how == How::Leave {
            let id = sim.nodes[*k].inst.id();
            let others = sim.nodes[*k].inst.foca.num_members();
            let mut sent = 0;
            let res = sim.call(*k, &Op::Leave, &mut |s, h| {
                for e in h.evs {
                    if let Ev::Send { data, .. } = e {
                        if let Ok(p) = parse_packet(s.kind, data) {
                            sent += p.updates.iter().filter(|m| *m.id() == id && m.state() == State::Down).count();
                        }
                    }
                }
                Ok(())
            })?;
            ensure!(res.is_ok(), "leave_cluster: {res:?}");
            ensure!(!roomy || others == 0 || sent > 0, "{id:?} left and told nobody of {others} members it knows");
        }
    }
    let bound = (2 * n as u64 + 1) * period + micros(sim.config.suspect_to_down_after);
    sim.run_until(at + bound, &mut |s, h| w.see(s, h))?;
    for s in 0..n {
        if failing.iter().any(|f| f.0 == s) {
            continue;
        }
        for (k, id, how) in &w.failing {
            if !owes.contains(&(s, *k)) {
                cov.hit("not known to the survivor");
                continue;
            }
            let Some(t) = w.reported.get(&(s, *k)) else {
                return Err(format!(
                    "{:?} did not report {id:?} Down within 2n+1 probe periods and suspect_to_down_after ({bound}us) of the {how:?} at {at}us (n = {n})",
                    sim.nodes[s].inst.id()
                ));
            };
            cov.hit(match (t - at) * 4 / bound {
                0 => "reported in the first quarter of the bound",
                1 => "second quarter",
                2 => "third quarter",
                _ => "last quarter",
            });
        }
    }
    // and nothing else comes of it
    let end = sim.now + period * (n as u64 + 2) + micros(sim.config.suspect_to_down_after);
    sim.run_until(end, &mut |s, h| w.see(s, h))?;
    cov.add("datagrams delivered", sim.delivered);
    cov.add("told by the one leaving", w.told);
    Ok(())
}

fn run(t: &Tape, cov: &mut Cov, max_n: u32, formed: bool) -> R {
    let mut d = Draw::new(&t.cfg);
    let d = &mut d;
    let n = d.range(2, max_n) as usize;
    let (c, cname) = config(d, n);
    let kind = KINDS[d.usize(KINDS.len())];
    let lat = latency(&c, d);
    let period = micros(c.probe_period);
    let len_rule = (d.below(5) as u8) << 2;
    let leaves = d.below(4);
    // those that leave would come back as someone else if they could
    let renew = if leaves == 0 { d.below(2) as u8 } else { 0 };
    if tracing() {
        trace(format!("{n} members, {kind:?}, latency up to {lat}us, {c:?}"));
    }
    let mut sim = Sim::new(kind, c, lat, d.u64());
    let ids: Vec<Id> = (0..n).map(|i| Id::new(i as u16, d.below(3) as u16, len_rule | renew)).collect();
    if !formed {
        for (i, id) in ids.iter().enumerate() {
            let k = sim.add(*id)?;
            if i > 0 {
                let to = sim.nodes[d.usize(i)].inst.id();
                let _ = sim.call(k, &Op::Announce(to), &mut crate::sim::no_obs)?;
                let t = sim.now + d.u64() % (1 + [0, period / 10, period, period * 3][d.usize(4)]);
                sim.run_until(t, &mut crate::sim::no_obs)?;
            }
        }
    } else if !form(&mut sim, &ids, d)? {
        cov.hit("cluster did not form");
        return Ok(());
    }
    // anything may be under way when it happens
    let mut obs = |s: &Sim, h: &Happened<'_>| {
        let mut w = Watch { failing: vec![], failed_at: None, reported: Default::default(), told: 0, owes: Default::default() };
        w.see(s, h)
    };
    if d.below(2) == 0 {
        let k = d.below(30 * n as u32);
        let limit = sim.now + 2 * period * n as u64;
        for _ in 0..k {
            if !sim.step(limit, &mut obs)? {
                break;
            }
        }
    } else {
        let t = sim.now + d.u64() % (period * (n as u64 + 1));
        sim.run_until(t, &mut obs)?;
    }
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, d.usize(i + 1));
    }
    let many = match d.below(3) {
        0 => 1,
        1 => 1 + d.usize(n - 1),
        _ => 1 + d.usize((n - 1).min(3)),
    };
    let failing: Vec<(usize, How)> = order[..many]
        .iter()
        .map(|k| {
            let how = match leaves {
                0 => How::Crash,
                1 => How::Leave,
                _ => [How::Crash, How::Leave][d.usize(2)],
            };
            (*k, how)
        })
        .collect();
    cov.hit(match (many, leaves) {
        (1, 0) => "one crashes",
        (1, 1) => "one leaves",
        (1, _) => "one fails",
        (_, 0) => "several crash",
        (_, 1) => "several leave",
        _ => "some crash, some leave",
    });
    cov.hit(cname);
    fail(&mut sim, failing, How::Crash, cov)?;
    if n >= 3 {
        cov.nontrivial();
    }
    Ok(())
}

const STEPS: u64 = 120;
/// every subset of 2..=4 members, crashing or leaving after every one of the
/// first so many events
fn every(i: u64, cov: &mut Cov) -> R {
    let mut i = i;
    let pick = digit(&mut i, 2 + 6 + 14);
    let how = [How::Crash, How::Leave][digit(&mut i, 2) as usize];
    let steps = digit(&mut i, STEPS);
    let seed = i;
    let (n, mask) = match pick {
        0..=1 => (2, pick + 1),
        2..=7 => (3, pick - 1),
        _ => (4, pick - 7),
    };
    let c = [
        Config::simple(),
        Config::new_lan(std::num::NonZeroU32::new(n as u32).unwrap()),
        Config::new_wan(std::num::NonZeroU32::new(n as u32).unwrap()),
    ][seed as usize % 3]
        .clone();
    let lat = micros(c.probe_rtt) / 8;
    let mut sim = Sim::new(Kind::Fixed, c, lat, seed);
    let ids: Vec<Id> = (0..n).map(|i| Id::new(i as u16, 0, 0)).collect();
    let words: Vec<u32> = (0..64).map(|k| crate::tape::hash2(seed, k) as u32).collect();
    if !form(&mut sim, &ids, &mut Draw::new(&words))? {
        cov.hit("cluster did not form");
        return Ok(());
    }
    for _ in 0..steps {
        sim.step(u64::MAX / 2, &mut crate::sim::no_obs)?;
    }
    let failing = (0..n).filter(|k| mask >> k & 1 == 1).map(|k| (k, how)).collect();
    fail(&mut sim, failing, how, cov)?;
    if n >= 3 {
        cov.nontrivial();
    }
    Ok(())
}

fn small(t: &Tape, cov: &mut Cov) -> R {
    run(t, cov, 7, true)
}
fn large(t: &Tape, cov: &mut Cov) -> R {
    run(t, cov, 24, true)
}
fn joining(t: &Tape, cov: &mut Cov) -> R {
    run(t, cov, 7, false)
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "members of a formed cluster of at least three failed and every survivor's report was timed",
        assumptions: &[
            "the cluster had formed: everybody listed everybody as Alive when the failure happened",
            "members that leave have identities that cannot be renewed (others come back on their own when told they are Down)",
            "all failures of a run happen at the same instant; one-way latency at most a quarter of probe_rtt",
        ],
        subs: vec![
            Sub {
                name: "every-instant",
                quick: 0,
                thorough: 0,
                body: Body::Enum { n: |th| 22 * 2 * STEPS * if th { 400 } else { 30 }, f: every },
            },
            Sub { name: "joining", quick: 60_000, thorough: 3_000_000, body: Body::Tape { min: 0, max: 0, f: joining } },
            Sub { name: "small", quick: 200_000, thorough: 3_000_000, body: Body::Tape { min: 0, max: 0, f: small } },
            Sub { name: "large", quick: 12_000, thorough: 200_000, body: Body::Tape { min: 0, max: 0, f: large } },
        ],
    }
}
