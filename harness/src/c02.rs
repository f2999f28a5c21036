//! C02: fault-free cluster, full discovery and no false suspicion.
use std::num::{NonZeroU32, NonZeroU8};
use std::time::Duration;

use foca::{Config, Member, Message, OwnedNotification, PeriodicParams, State};

use crate::codec::{header_len, member_len, Kind, KINDS};
use crate::ensure;
use crate::id::Id;
use crate::inst::{micros, trace, tracing, Ev, Op};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::gen::mk_header;
use crate::sim::{no_obs, Happened, Sim};
use crate::tape::{Draw, Tape};

/// A configuration with which a cluster of n is run
pub fn config(d: &mut Draw<'_>, n: usize) -> (Config, &'static str) {
    let nz = NonZeroU32::new(n as u32).unwrap();
    let (mut c, mut name) = match d.below(4) {
        0 => (Config::simple(), "simple"),
        1 => (Config::new_lan(nz), "new_lan"),
        2 => (Config::new_wan(nz), "new_wan"),
        _ => {
            let mut c = Config::simple();
            let per = |d: &mut Draw<'_>, f: &[u64]| {
                if d.below(2) == 1 {
                    Some(PeriodicParams {
                        frequency: Duration::from_millis(f[d.usize(f.len())]),
                        num_members: (1 + d.usize(3)).try_into().unwrap(),
                    })
                } else {
                    None
                }
            };
            c.probe_period = Duration::from_millis([1000, 200, 5000][d.usize(3)]);
            c.probe_rtt = c.probe_period / [2u32, 3, 5][d.usize(3)];
            c.num_indirect_probes = (1 + d.usize(4)).try_into().unwrap();
            c.max_transmissions = NonZeroU8::new([10, 12, 20, 255][d.usize(4)]).unwrap();
            c.suspect_to_down_after = c.probe_period * (3 + d.below(6));
            c.notify_down_members = d.below(2) == 1;
            c.periodic_announce = per(d, &[30_000, 2000]);
            c.periodic_announce_to_down_members = per(d, &[60_000, 3000]);
            c.periodic_gossip = per(d, &[200, 1000]);
            if c.periodic_announce.is_some() && d.below(2) == 1 {
                // few transmissions: announces make up for what got lost
                c.max_transmissions = NonZeroU8::new([5, 3, 2, 1][d.usize(4)]).unwrap();
            }
            (c, "varied")
        }
    };
    if d.below(4) == 3 {
        c.max_packet_size = (100 + d.usize(500)).try_into().unwrap();
        if name != "varied" {
            name = "small packets";
        }
    }
    (c, name)
}

pub fn latency(c: &Config, d: &mut Draw<'_>) -> u64 {
    // a reply takes at most half of probe_rtt, an indirect one all of it
    let slack = (c.probe_period - c.probe_rtt).min(c.probe_rtt);
    micros(slack) / [8, 16, 100][d.usize(3)]
}

/// How the members of a run get to know each other
#[derive(Clone, Copy, PartialEq)]
enum Join {
    /// through any member at any time, relying on gossip
    Any,
    /// through the same member: it feeds each joiner with all that came
    /// before, which get to know the joiner when it probes them. Works
    /// without a single update being passed on
    OneSeed,
    /// through any member, once those before have found each other. Same
    OneByOne,
    /// through any member, with packets too small to feed the cluster and
    /// updates passed on as little as it gets: only false suspicion counts
    Tiny,
}

/// Bytes the largest header takes
pub fn header_size(kind: Kind, ids: &[Id]) -> usize {
    let mut hdr = 0;
    for a in ids {
        for b in ids.iter().flat_map(|b| [*b, b.with_gen(9)]) {
            for m in [
                Message::PingReq { target: b, probe_number: 255 },
                Message::ForwardedAck { origin: *a, probe_number: 255 },
                Message::IndirectPing { origin: *a, probe_number: 255 },
                Message::IndirectAck { target: *a, probe_number: 255 },
            ] {
                // the third identity may be any other
                let more = ids.iter().map(|i| i.pad()).max().unwrap_or(0);
                hdr = hdr.max(more + header_len(kind, &mk_header(*a, u16::MAX, b, m)));
            }
        }
    }
    hdr
}

/// Bytes a Feed for the last of n members needs, or the largest header
fn feed_size(kind: Kind, ids: &[Id]) -> usize {
    let mut feed = 0;
    for a in ids {
        for b in ids {
            if a == b {
                continue;
            }
            let rest: usize = ids.iter().filter(|i| *i != a && *i != b).map(|i| member_len(kind, &Member::alive(*i))).sum();
            feed = feed.max(header_len(kind, &mk_header(*a, 0, *b, Message::Feed)) + 2 + rest);
        }
    }
    feed.max(header_size(kind, ids))
}

fn run(t: &Tape, cov: &mut Cov, max_n: u32, join: Join) -> R {
    let mut d = Draw::new(&t.cfg);
    let d = &mut d;
    let n = d.range(2, max_n) as usize;
    let (mut c, mut cname) = config(d, n);
    let kind = KINDS[d.usize(KINDS.len())];
    let len_rule = if join == Join::Any || join == Join::Tiny { (d.below(5) as u8) << 2 } else { 0 };
    let renew = d.below(2) as u8;
    let ids: Vec<Id> = (0..n).map(|i| Id::new(i as u16, d.below(3) as u16, len_rule | renew)).collect();
    if join == Join::Tiny {
        c.max_transmissions = NonZeroU8::new([1, 2, 10][d.usize(3)]).unwrap();
        cname = "tiny packets";
        c.max_packet_size = (header_size(kind, &ids) + d.usize(30)).try_into().unwrap();
    } else if join != Join::Any {
        c.max_transmissions = NonZeroU8::new(1 + d.below(10) as u8).unwrap();
        cname = "few transmissions";
        c.max_packet_size = (feed_size(kind, &ids) + [0, 1, 40, 1400][d.usize(4)]).try_into().unwrap();
    }
    let lat = latency(&c, d);
    let period = micros(c.probe_period);
    let spread = [0, period / 2, period * 3, period * n as u64][d.usize(4)];
    if tracing() {
        trace(format!("{n} members, {kind:?}, latency up to {lat}us, {c:?}"));
    }
    let mut sim = Sim::new(kind, c.clone(), lat, d.u64());
    let mut monitor = |s: &Sim, h: &Happened<'_>| -> R {
        let node = &s.nodes[h.node];
        let me = node.inst.id();
        ensure!(h.res.is_ok(), "{me:?}: {} returned {:?}", h.op.name(), h.res);
        for e in h.evs {
            if let Ev::Note(x) = e {
                match x {
                    OwnedNotification::MemberUp(_) | OwnedNotification::Active => {}
                    x => return Err(format!("{me:?} notified {x:?} in a cluster without faults")),
                }
            }
        }
        for m in node.inst.foca.iter_membership_state() {
            ensure!(m.state() == State::Alive, "{me:?} has {m:?} on record in a cluster without faults");
        }
        Ok(())
    };
    let contact_kind = d.below(4);
    let mut last_join = 0;
    let mut joins: Vec<u64> = (1..n).map(|_| if spread == 0 { 0 } else { d.u64() % spread }).collect();
    joins.sort();
    let mut w = t.ops.iter();
    let mut extra = |sim: &mut Sim, mon: &mut dyn FnMut(&Sim, &Happened<'_>) -> R| -> R {
        // what applications do meanwhile
        if let Some(words) = w.next() {
            let mut d = Draw::new(words);
            let node = d.usize(sim.nodes.len());
            let op = match d.below(4) {
                0 => Op::Gossip,
                1 => Op::Broadcast,
                2 => {
                    let n = 1 + d.usize(40.min(sim.config.max_packet_size.get() / 4));
                    Op::AddBc((0..n).map(|_| d.word() as u8).collect())
                }
                _ => {
                    let k = d.usize(sim.nodes.len());
                    if k == node {
                        return Ok(());
                    }
                    let to = sim.nodes[k].inst.id();
                    Op::Announce(to)
                }
            };
            let _ = sim.call(node, &op, mon)?;
        }
        Ok(())
    };
    sim.add(ids[0])?;
    for i in 1..n {
        if join == Join::OneByOne {
            let mut p = 0;
            while !sim.converged() {
                p += 1;
                if p > 4 * bound(i, &c, join) {
                    return Err(late(&sim, i, cname, &c, join));
                }
                sim.run_until(last_join + p * period / 4, &mut monitor)?;
            }
            stat(i, cname, p * 100 / (4 * bound(i, &c, join)));
        } else {
            sim.run_until(joins[i - 1], &mut monitor)?;
        }
        let k = sim.add(ids[i])?;
        let contact = match contact_kind {
            _ if join == Join::OneSeed => 0,
            0 => 0,
            1 => k - 1,
            _ => d.usize(k),
        };
        let to = sim.nodes[contact].inst.id();
        let to = if d.below(6) == 0 { to.with_gen(9) } else { to };
        last_join = sim.now;
        let _ = sim.call(k, &Op::Announce(to), &mut monitor)?;
        extra(&mut sim, &mut monitor)?;
    }
    if join == Join::Tiny {
        let until = sim.now + period * (4 * n as u64 + 4);
        while sim.now < until {
            sim.run_until(sim.now + period / 2, &mut monitor)?;
            extra(&mut sim, &mut monitor)?;
        }
        cov.hit(if sim.converged() { "tiny: found each other" } else { "tiny: did not" });
        cov.add("datagrams delivered", sim.delivered);
        if n >= 3 {
            cov.nontrivial();
        }
        return Ok(());
    }
    // discovery
    let limit = bound(n, &c, join);
    let mut at = None;
    for p in 0..=limit * 4 {
        sim.run_until(last_join + p * period / 4, &mut monitor)?;
        extra(&mut sim, &mut monitor)?;
        if sim.converged() {
            at = Some(p);
            break;
        }
    }
    let Some(q) = at else {
        return Err(late(&sim, n, cname, &c, join));
    };
    stat(n, cname, q * 100 / (limit * 4));
    // and it stays that way
    let mut watch = 2 * n as u64 + 4;
    if d.chance(1, 20 * n as u32 * n as u32) {
        // counters go around
        watch = 600;
        cov.hit("watched for 600 probe periods");
    }
    let until = sim.now + period * watch;
    while sim.now < until {
        sim.run_until(sim.now + period / 2, &mut monitor)?;
        extra(&mut sim, &mut monitor)?;
        if let Some(m) = sim.missing() {
            return Err(format!("{n} members ({cname}): {m}, after all of them had found each other"));
        }
    }
    cov.hit(cname);
    cov.add("datagrams delivered", sim.delivered);
    if n >= 3 {
        cov.nontrivial();
    }
    Ok(())
}

fn late(sim: &Sim, n: usize, cname: &str, c: &Config, join: Join) -> String {
    format!(
        "{n} members ({cname}): {} {} probe periods after the last of them joined",
        sim.missing().unwrap_or_default(),
        bound(n, c, join)
    )
}

/// probe periods within which everybody must have found everybody: linear in
/// n, plus the periodic announces that make up for gossip that died out
fn bound(n: usize, c: &Config, join: Join) -> u64 {
    let n = n as u64;
    if join != Join::Any {
        return 2 * n + 6;
    }
    let per = match &c.periodic_announce {
        Some(p) => {
            let each = if c.max_transmissions.get() >= 5 { 4 } else { 20 * n };
            each * micros(p.frequency) / micros(c.probe_period)
        }
        None => 0,
    };
    12 * n + 20 + per
}

pub static STATS: std::sync::Mutex<std::collections::BTreeMap<(String, usize), Vec<u64>>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
pub fn stat(n: usize, name: &str, q: u64) {
    if std::env::var("VP_STATS").is_ok() {
        STATS.lock().unwrap().entry((name.to_string(), n)).or_default().push(q);
    }
}
pub fn dump() {
    for ((a, n), v) in STATS.lock().unwrap().iter_mut() {
        v.sort();
        println!("{a} n={n}: {} runs, median {} p99 {} max {}", v.len(), v[v.len() / 2], v[v.len() * 99 / 100], v[v.len() - 1]);
    }
}

/// Two members that nobody tells about each other: what a member knows is
/// passed on at most max_transmissions times, and without periodic announces
/// nothing makes up for it when those end up at members that know already.
/// Fixed histories, of which some fail
fn few_transmissions(i: u64, _cov: &mut Cov) -> R {
    let mut c = Config::simple();
    c.max_transmissions = NonZeroU8::new(1 + (i % 2) as u8).unwrap();
    c.probe_period = Duration::from_secs(1);
    let contacts: &[usize] = &[0, 0, 1, 2];
    let mut sim = Sim::new(Kind::Fixed, c.clone(), 10_000, i);
    sim.add(Id::new(0, 0, 0))?;
    for (j, to) in contacts.iter().enumerate() {
        let k = sim.add(Id::new(j as u16 + 1, 0, 0))?;
        let to = sim.nodes[*to].inst.id();
        let _ = sim.call(k, &Op::Announce(to), &mut no_obs)?;
    }
    sim.run_until(100_000_000, &mut no_obs)?;
    ensure!(sim.converged(), "with 1 or 2 transmissions and no periodic announce, members that join at the same time through different members never find each other");
    Ok(())
}

fn small(t: &Tape, cov: &mut Cov) -> R {
    run(t, cov, 8, Join::Any)
}
fn large(t: &Tape, cov: &mut Cov) -> R {
    run(t, cov, 30, Join::Any)
}
fn one_seed(t: &Tape, cov: &mut Cov) -> R {
    run(t, cov, 12, Join::OneSeed)
}
fn tiny(t: &Tape, cov: &mut Cov) -> R {
    run(t, cov, 10, Join::Tiny)
}
fn one_by_one(t: &Tape, cov: &mut Cov) -> R {
    run(t, cov, 8, Join::OneByOne)
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "at least three members found each other and kept probing",
        assumptions: &[
            "one-way latencies up to a quarter of probe_rtt (and of what is left of the probe period after it), per datagram, so datagrams get reordered; timers fire exactly when due, in the order foca documents",
            "where discovery depends on gossip (any contact, joining together) max_transmissions is at least 10 or periodic_announce is on: see the known finding; 1 to 10 otherwise",
            "linear bound: 2n+6 probe periods where probes alone suffice; 12n+20, plus 4 announce periods where periodic_announce is on (20n with fewer than 5 transmissions), where gossip does it (observed: at most half of it)",
        ],
        subs: vec![
            Sub { name: "few-transmissions", quick: 0, thorough: 0, body: Body::Enum { n: |_| 20, f: few_transmissions } },
            Sub { name: "one-seed", quick: 50_000, thorough: 1_500_000, body: Body::Tape { min: 0, max: 20, f: one_seed } },
            Sub { name: "one-by-one", quick: 50_000, thorough: 1_500_000, body: Body::Tape { min: 0, max: 12, f: one_by_one } },
            Sub { name: "tiny", quick: 30_000, thorough: 1_000_000, body: Body::Tape { min: 0, max: 20, f: tiny } },
            Sub { name: "small", quick: 150_000, thorough: 4_000_000, body: Body::Tape { min: 0, max: 20, f: small } },
            Sub { name: "large", quick: 6000, thorough: 200_000, body: Body::Tape { min: 0, max: 30, f: large } },
        ],
    }
}
