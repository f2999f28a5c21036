//! C05: members on both sides of a healed partition find back together.
use std::num::NonZeroU32;
use std::time::Duration;

use foca::{Config, Member, Message, OwnedNotification, PeriodicParams, State};

use crate::c02::{config, latency, stat};
use crate::codec::{wire_header, Kind, KINDS};
use crate::ensure;
use crate::id::{Id, RENEW_NEXT};
use crate::inst::{micros, trace, tracing, Ev, Op};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::sim::{digit, form, no_obs, Happened, Sim};
use crate::tape::{hash2, Draw, Tape};

/// What a node went through
#[derive(Clone, Copy)]
struct Life {
    id: Id,
    active: bool,
    rejoined: bool,
}

struct Watch {
    nodes: Vec<Life>,
    rejoins: u64,
}

impl Watch {
    fn new(s: &Sim) -> Watch {
        Watch {
            nodes: s.nodes.iter().map(|n| Life { id: n.inst.id(), active: true, rejoined: false }).collect(),
            rejoins: 0,
        }
    }
    fn see(&mut self, s: &Sim, h: &Happened<'_>) -> R {
        let l = &mut self.nodes[h.node];
        let before = l.id;
        let mut rejoined = false;
        for e in h.evs {
            let Ev::Note(x) = e else { continue };
            match x {
                OwnedNotification::Defunct => return Err(format!("{before:?} went Defunct on {}, its identity can be renewed", h.op.name())),
                OwnedNotification::Rejoin(new) => {
                    ensure!(
                        *new != l.id && new.addr == l.id.addr && new.wins(&l.id),
                        "{:?} rejoined as {new:?}, which does not win against the previous identity",
                        l.id
                    );
                    l.id = *new;
                    l.active = false;
                    l.rejoined = true;
                    rejoined = true;
                    self.rejoins += 1;
                }
                OwnedNotification::Active => l.active = true,
                OwnedNotification::Idle => l.active = false,
                _ => {}
            }
        }
        let now = s.nodes[h.node].inst.id();
        ensure!(now == l.id, "{:?} is now {now:?} without a Rejoin", l.id);
        if let Op::Data(data) = h.op {
            if let Ok((hdr, _)) = wire_header(s.kind, data) {
                if hdr.message == Message::TurnUndead && hdr.dst == before {
                    ensure!(rejoined, "{before:?} was told it is down by {:?} and did not rejoin", hdr.src);
                }
            }
        }
        Ok(())
    }
}

fn announce_period(c: &Config) -> u64 {
    micros(c.periodic_announce_to_down_members.as_ref().map_or(Duration::from_secs(1), |p| p.frequency))
}

/// announce-to-down periods
const BOUND: u64 = 8;

/// Everything heals; waits for it
fn heal(sim: &mut Sim, w: &mut Watch, name: &'static str, cov: &mut Cov) -> R {
    let n = sim.nodes.len();
    let at = sim.now;
    let each = announce_period(&sim.config);
    let period = micros(sim.config.probe_period);
    if tracing() {
        trace(format!("{at}us: healed"));
    }
    // those who are not there any more get announced to as well
    let dead = sim.nodes.iter().filter(|n| !n.up).count() as u64;
    let at_once = sim.config.periodic_announce_to_down_members.as_ref().map_or(1, |p| p.num_members.get() as u64);
    let bound = BOUND * (1 + dead.div_ceil(at_once));
    sim.sides = None;
    // some time for the news to get around too
    let limit = bound * each + period * (6 * n as u64 + 10);
    let mut ok = None;
    for i in 1..=100 {
        sim.run_until(at + limit * i / 100, &mut |s, h| w.see(s, h))?;
        if sim.converged() && w.nodes.iter().all(|l| l.active) {
            ok = Some(i);
            break;
        }
    }
    let Some(i) = ok else {
        let what = sim.missing().unwrap_or_else(|| {
            let l = w.nodes.iter().find(|l| !l.active).expect("somebody");
            format!("{:?} is not Active{}", l.id, if l.rejoined { " after its Rejoin" } else { "" })
        });
        return Err(format!(
            "{name} of {n}: {what}, {} announce-to-down periods after it was healed (plus {} probe periods)",
            bound,
            6 * n + 10
        ));
    };
    stat(n, name, i);
    // it lasts
    let end = sim.now + period * (2 * n as u64 + 4) + micros(sim.config.suspect_to_down_after);
    sim.run_until(end, &mut |s, h| w.see(s, h))?;
    ensure!(
        sim.converged(),
        "{name} of {n}: {} after everybody had found back together",
        sim.missing().unwrap_or_default()
    );
    cov.add("rejoins", w.rejoins);
    cov.add("datagrams delivered", sim.delivered);
    if w.rejoins > 0 {
        cov.nontrivial();
    }
    Ok(())
}

/// Cuts the cluster in two until both sides consider each other Down
fn split(sim: &mut Sim, sides: Vec<u8>, extra: u64, w: &mut Watch) -> Result<bool, String> {
    let n = sim.nodes.len() as u64;
    let period = micros(sim.config.probe_period);
    if tracing() {
        trace(format!("{}us: partition {sides:?}", sim.now));
    }
    sim.sides = Some(sides.clone());
    let limit = sim.now + (2 * n + 3) * period + micros(sim.config.suspect_to_down_after);
    let apart = |s: &Sim| {
        s.nodes.iter().enumerate().filter(|(_, x)| x.up).all(|(k, x)| {
            (0..s.nodes.len()).filter(|j| s.nodes[*j].up).all(|j| {
                let id = s.nodes[j].inst.id();
                sides[k] == sides[j]
                    || x.inst.foca.iter_membership_state().any(|m| *m.id() == id && m.state() == State::Down)
            })
        })
    };
    while sim.now < limit && !apart(sim) {
        sim.run_until(sim.now + period / 4, &mut |s, h| w.see(s, h))?;
    }
    if !apart(sim) {
        return Ok(false);
    }
    sim.run_until(sim.now + extra, &mut |s, h| w.see(s, h))?;
    Ok(true)
}

fn setup(d: &mut Draw<'_>, max_n: u32, cov: &mut Cov) -> Result<Option<Sim>, String> {
    let n = d.range(3, max_n) as usize;
    let (mut c, cname) = config(d, n);
    c.notify_down_members = true;
    let period = c.probe_period;
    if c.periodic_announce_to_down_members.is_none() || d.below(2) == 0 {
        c.periodic_announce_to_down_members = Some(PeriodicParams {
            frequency: period * [3, 10, 60][d.usize(3)],
            num_members: (1 + d.usize(3)).try_into().unwrap(),
        });
    }
    let kind = KINDS[d.usize(KINDS.len())];
    let lat = latency(&c, d);
    let len_rule = (d.below(5) as u8) << 2;
    if tracing() {
        trace(format!("{n} members, {kind:?}, latency up to {lat}us, {c:?}"));
    }
    let mut sim = Sim::new(kind, c, lat, d.u64());
    let ids: Vec<Id> = (0..n).map(|i| Id::new(i as u16, d.below(3) as u16, len_rule | RENEW_NEXT)).collect();
    if !form(&mut sim, &ids, d)? {
        cov.hit("cluster did not form");
        return Ok(None);
    }
    cov.hit(cname);
    Ok(Some(sim))
}

fn partition(t: &Tape, cov: &mut Cov, max_n: u32) -> R {
    let mut d = Draw::new(&t.cfg);
    let d = &mut d;
    let Some(mut sim) = setup(d, max_n, cov)? else { return Ok(()) };
    // some members crashed in the past and are remembered
    let dead = match d.below(4) {
        0 if sim.nodes.len() > 3 => 1 + d.usize((sim.nodes.len() - 3).min(sim.nodes.len() / 2)),
        _ => 0,
    };
    let n = sim.nodes.len() - dead;
    if dead > 0 {
        for k in n..n + dead {
            sim.nodes[k].up = false;
        }
        let limit = sim.now + (2 * (n + dead) as u64 + 3) * micros(sim.config.probe_period) + micros(sim.config.suspect_to_down_after);
        sim.run_until(limit, &mut no_obs)?;
        if !sim.all_alive() {
            cov.hit("crashed members were not all reported Down");
            return Ok(());
        }
        cov.hit("with crashed members on record");
    }
    let mut w = Watch::new(&sim);
    let rounds = [1, 1, 1, 2, 3][d.usize(5)];
    for round in 0..rounds {
        let mut sides: Vec<u8> = (0..n).map(|_| d.below(2) as u8).collect();
        if d.below(4) == 0 {
            // as even as it gets
            let off = d.usize(2);
            sides = (0..n).map(|k| ((k + off) % 2) as u8).collect();
        }
        if d.below(3) == 0 {
            // one against the rest
            sides = vec![0; n];
        }
        if sides.iter().all(|s| *s == sides[0]) {
            let k = d.usize(n);
            sides[k] ^= 1;
        }
        sides.resize(n + dead, 0);
        let each = announce_period(&sim.config);
        let extra = match d.below(3) {
            0 => 0,
            1 => d.u64() % each,
            _ => d.u64() % (each * 3),
        };
        if !split(&mut sim, sides.clone(), extra, &mut w)? {
            cov.hit("did not all declare each other Down");
            return Ok(());
        }
        let ones = sides[..n].iter().filter(|s| **s == 1).count();
        cov.hit(match ones.min(n - ones) {
            1 => "one apart",
            2 => "two apart",
            _ => "more apart",
        });
        if round > 0 {
            cov.hit("partitioned again");
        }
        heal(&mut sim, &mut w, "partition", cov)?;
    }
    Ok(())
}

fn falsely(t: &Tape, cov: &mut Cov) -> R {
    let mut d = Draw::new(&t.cfg);
    let d = &mut d;
    let Some(mut sim) = setup(d, 8, cov)? else { return Ok(()) };
    let n = sim.nodes.len();
    let mut w = Watch::new(&sim);
    let victim = d.usize(n);
    let id = sim.nodes[victim].inst.id();
    for _ in 0..1 + d.below(2) {
        let k = d.usize(n);
        if k == victim {
            continue;
        }
        let m = Member::new(id, d.below(3) as u16, State::Down);
        let loud = d.below(4) != 0;
        let _ = sim.call(k, &Op::Apply(vec![m], loud), &mut |s, h| w.see(s, h))?;
        let t = sim.now + d.u64() % (2 * micros(sim.config.probe_period));
        sim.run_until(t, &mut |s, h| w.see(s, h))?;
    }
    heal(&mut sim, &mut w, "falsely Down", cov)
}

/// every split of 3..=5 members
fn shapes(i: u64, cov: &mut Cov) -> R {
    let mut i = i;
    let pick = digit(&mut i, 6 + 14 + 30);
    let (n, mask) = match pick {
        0..=5 => (3usize, pick + 1),
        6..=19 => (4, pick - 5),
        _ => (5, pick - 19),
    };
    let seed = i;
    let nz = NonZeroU32::new(n as u32).unwrap();
    let c = if seed % 2 == 0 { Config::new_lan(nz) } else { Config::new_wan(nz) };
    let lat = micros(c.probe_rtt) / 8;
    let mut sim = Sim::new(Kind::Fixed, c, lat, seed);
    let ids: Vec<Id> = (0..n).map(|i| Id::new(i as u16, 0, RENEW_NEXT)).collect();
    let words: Vec<u32> = (0..64).map(|k| hash2(seed, k) as u32).collect();
    if !form(&mut sim, &ids, &mut Draw::new(&words))? {
        cov.hit("cluster did not form");
        return Ok(());
    }
    let mut w = Watch::new(&sim);
    let sides = (0..n).map(|k| (mask >> k & 1) as u8).collect();
    let extra = hash2(seed, 1) % micros(Duration::from_secs(70));
    if !split(&mut sim, sides, extra, &mut w)? {
        cov.hit("did not all declare each other Down");
        return Ok(());
    }
    heal(&mut sim, &mut w, "partition", cov)
}

fn small(t: &Tape, cov: &mut Cov) -> R {
    partition(t, cov, 7)
}
fn large(t: &Tape, cov: &mut Cov) -> R {
    partition(t, cov, 20)
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        rule: "somebody had to rejoin and the cluster came together again",
        assumptions: &[
            "no datagram gets lost except across the partition; remove_down_after (24 hours) is longer than any of it",
            "healed once every member has every member of the other side on record as Down",
            "within 8 announce-to-down periods plus 6n+10 probe periods (observed: about a quarter of that)",
        ],
        subs: vec![
            Sub { name: "shapes", quick: 0, thorough: 0, body: Body::Enum { n: |th| 50 * if th { 4000 } else { 300 }, f: shapes } },
            Sub { name: "falsely-down", quick: 60_000, thorough: 1_000_000, body: Body::Tape { min: 0, max: 0, f: falsely } },
            Sub { name: "small", quick: 50_000, thorough: 1_000_000, body: Body::Tape { min: 0, max: 0, f: small } },
            Sub { name: "large", quick: 4000, thorough: 100_000, body: Body::Tape { min: 0, max: 0, f: large } },
        ],
    }
}
