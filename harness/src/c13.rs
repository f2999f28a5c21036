//! C13: recurring loops are never lost, duplicated or resurrected.
use foca::{Member, Message, PeriodicParams, State, Timer};

use crate::drive::{drive, pkt, Ctx};
use crate::ensure;
use crate::gen::{Profile, World, BASE};
use crate::id::{Id, RENEW_LOSING, RENEW_NEXT, RENEW_NONE, RENEW_SAME};
use crate::inst::{timer_name, Conn, ErrK, Inst, Op, Pend, Step};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{Tape, CFGW};

#[derive(Default)]
struct Ghost {
    /// some timer overtook another one
    out_of_order: bool,
}

fn looping(t: &Timer<Id>) -> Option<usize> {
    match t {
        Timer::ProbeRandomMember(_) => Some(0),
        Timer::PeriodicAnnounce(_) => Some(1),
        Timer::PeriodicAnnounceDown(_) => Some(2),
        Timer::PeriodicGossip(_) => Some(3),
        _ => None,
    }
}
const LOOPS: [&str; 4] = ["probe", "periodic announce", "periodic announce to down", "periodic gossip"];

/// exactly one timer per loop while active, none otherwise
fn outstanding(op: &str, inst: &Inst) -> R {
    // what is outstanding
    let mut count = [0usize; 4];
    for p in &inst.pending {
        if p.epoch == inst.epoch {
            if let Some(k) = looping(&p.t) {
                count[k] += 1;
            }
        }
    }
    let cfg = &inst.cfg;
    let on = [
        true,
        cfg.periodic_announce.is_some(),
        cfg.periodic_announce_to_down_members.is_some(),
        cfg.periodic_gossip.is_some(),
    ];
    for k in 0..4 {
        if inst.conn == Conn::Active {
            if on[k] {
                ensure!(
                    count[k] == 1,
                    "active with {} outstanding timers for {} after {}",
                    count[k],
                    LOOPS[k],
                    op
                );
            } else {
                ensure!(count[k] <= 1, "{} outstanding timers for the disabled {}", count[k], LOOPS[k]);
            }
        } else {
            ensure!(
                count[k] == 0,
                "{:?} but {} timers of the current epoch for {} after {}",
                inst.conn,
                count[k],
                LOOPS[k],
                op
            );
        }
    }
    Ok(())
}

fn monitor(g: &mut Ghost, ordered: bool, st: &Step, c: &Ctx, cov: &mut Cov) -> R {
    if let (Op::Fire(t), Some(p)) = (&st.op, &st.fired) {
        let stale = p.epoch != st.epoch_pre && !matches!(t, Timer::RemoveDown(_));
        if stale {
            cov.hit("timer of an earlier epoch fired");
            cov.nontrivial();
            ensure!(
                st.no_effect() && st.res == Ok(None) && c.inc == c.inc_pre,
                "{t:?} was issued in epoch {} and fires in epoch {}, yet: {:?} {:?}",
                p.epoch,
                st.epoch_pre,
                st.res,
                st.evs
            );
        }
        if !ordered {
            g.out_of_order = true;
        }
        match &st.res {
            Ok(_) => {}
            Err(ErrK::IncompleteProbeCycle) if g.out_of_order => {
                cov.hit("IncompleteProbeCycle");
                cov.nontrivial();
                let pings = st
                    .sends
                    .iter()
                    .filter(|s| s.pkt.as_ref().is_ok_and(|p| matches!(p.header.message, Message::Ping(_))))
                    .count();
                ensure!(pings == 1, "IncompleteProbeCycle and probing did not resume: {:?}", st.evs);
            }
            Err(e) => {
                return Err(format!(
                    "{} failed with {e:?} although timers were delivered {}",
                    timer_name(t),
                    if g.out_of_order { "exactly once" } else { "in deadline order" }
                ))
            }
        }
    }
    outstanding(st.op.name(), &c.inst)?;
    // how far ahead they are scheduled
    for (t, after) in st.timers() {
        let cfg = &st.cfg_pre;
        let want = match t {
            Timer::ProbeRandomMember(_) => Some(cfg.probe_period),
            Timer::SendIndirectProbe { .. } => Some(cfg.probe_rtt),
            Timer::PeriodicAnnounce(_) => cfg.periodic_announce.as_ref().map(|p| p.frequency),
            Timer::PeriodicAnnounceDown(_) => cfg.periodic_announce_to_down_members.as_ref().map(|p| p.frequency),
            Timer::PeriodicGossip(_) => cfg.periodic_gossip.as_ref().map(|p| p.frequency),
            Timer::ChangeSuspectToDown { .. } => Some(cfg.suspect_to_down_after),
            Timer::RemoveDown(_) => Some(cfg.remove_down_after),
        };
        ensure!(want == Some(after), "{t:?} scheduled {after:?} ahead, the configuration says {want:?}");
    }
    // a probe timer that is due means a probe
    if let (Op::Fire(Timer::ProbeRandomMember(_)), Some(p)) = (&st.op, &st.fired) {
        if p.epoch == st.epoch_pre && st.conn_pre == Conn::Active && !st.pre.active.is_empty() {
            let mut pings = 0;
            for s in &st.sends {
                if matches!(pkt(s)?.header.message, Message::Ping(_)) {
                    pings += 1;
                }
            }
            ensure!(pings == 1, "{pings} pings from a probe timer");
            let n = st.timers().filter(|(t, _)| matches!(t, Timer::SendIndirectProbe { .. })).count();
            ensure!(n == 1, "{n} SendIndirectProbe scheduled by a probe timer");
        }
    }
    if st.conn_pre != st.conn_post || st.epoch_pre != st.epoch_post {
        cov.hit(match st.conn_post {
            Conn::Active => "became active",
            Conn::Idle => "became idle",
            Conn::Defunct => "became defunct",
        });
        if c.inst.epoch >= 2 && st.conn_post == Conn::Active {
            cov.nontrivial();
            cov.hit("active again in a later epoch");
        }
    }
    Ok(())
}

const P: Profile = Profile {
    w: [18, 46, 0, 0, 0, 1, 1, 1, 8, 1, 3, 3, 6, 3, 0],
    m: [4, 6, 2, 2, 2, 4, 4, 2, 8, 2, 4],
    max_addrs: 3,
    own_pct: 14,
    tight: 1,
    ..BASE
};
const P_ANY: Profile = Profile { w: [18, 16, 32, 0, 0, 1, 1, 1, 8, 1, 3, 3, 6, 3, 0], ..P };
const P_EPOCHS: Profile = Profile { w: [10, 10, 14, 0, 0, 0, 0, 0, 14, 0, 8, 8, 16, 3, 0], max_addrs: 1, ..P };

fn in_order(t: &Tape, cov: &mut Cov) -> R {
    let mut g = Ghost::default();
    drive(t, &P, cov, &mut |st, c, cov| monitor(&mut g, true, st, c, cov)).map(|_| ())
}

/// A lagging runtime: wakes up, collects everything that is due and hands it
/// over sorted by `Timer`'s own order, as the documentation of Timer suggests.
fn batched(t: &Tape, cov: &mut Cov) -> R {
    let mut g = Ghost::default();
    let mut c = Ctx::new(t, &P)?;
    for (n, words) in t.ops.iter().enumerate() {
        let mut dr = crate::tape::Draw::new(words);
        if n % 2 == 0 || c.inst.pending.is_empty() {
            let p = Profile { w: [24, 0, 0, 0, 0, 1, 1, 1, 8, 1, 2, 2, 4, 3, 0], ..P };
            let Some((op, f)) = c.next(words, &p) else { continue };
            let st = c.step(op, f)?;
            monitor(&mut g, true, &st, &c, cov)?;
            continue;
        }
        c.inst.now += [400_000u64, 500_000, 1_000_000, 1_500_000, 2_500_000, 10_000_000][dr.usize(6)];
        let mut due = vec![];
        while let Some(k) = c.inst.pending.iter().position(|p| p.due <= c.inst.now) {
            due.push(c.inst.pending.remove(k));
        }
        // handed over in no particular order by the runtime's own queue
        if dr.below(2) == 1 {
            due.reverse();
        }
        due.sort_by(|a, b| a.t.cmp(&b.t));
        if due.len() > 1 {
            cov.hit("several timers due at once");
        }
        let n = due.len();
        for k in 0..n {
            let p = due[k].clone();
            c.inst.spent.push(p.clone());
            // the rest of the batch is still outstanding
            let rest: Vec<Pend> = due[k + 1..].to_vec();
            let st = c.step(Op::Fire(p.t.clone()), Some(p))?;
            c.inst.pending.extend(rest.iter().cloned());
            let r = monitor(&mut g, true, &st, &c, cov);
            c.inst.pending.retain(|p| !rest.iter().any(|r| r.seq == p.seq));
            r?;
        }
        c.inst.spent.clear();
    }
    Ok(())
}

/// after any mess, deadline order puts everything right again: the rest of the
/// run has no errors once what was overtaken is out of the way
fn settle(g: &mut Ghost, c: &mut Ctx, cov: &mut Cov) -> R {
    let roomy = foca::Config { max_packet_size: 16_000.try_into().unwrap(), ..c.inst.cfg.clone() };
    let st = c.step(Op::SetConfig(roomy), None)?;
    monitor(g, true, &st, c, cov)?;
    let st = c.step(Op::Apply(vec![Member::new(Id::new(778, 0, 0), 0, State::Alive)], false), None)?;
    monitor(g, true, &st, c, cov)?;
    let mut probes = 0;
    for _ in 0..60 {
        let Some(i) = c.inst.earliest() else { break };
        let p = c.inst.take_pending(i);
        c.inst.now = c.inst.now.max(p.due);
        let live = p.epoch == c.inst.epoch;
        let is_probe = matches!(p.t, Timer::ProbeRandomMember(_));
        let st = c.step(Op::Fire(p.t.clone()), Some(p))?;
        monitor(g, true, &st, c, cov)?;
        if is_probe && live {
            probes += 1;
            if probes >= 2 {
                ensure!(
                    st.res.is_ok(),
                    "probe round {probes} since timers are delivered in order again: {:?}",
                    st.res
                );
            }
            if probes == 4 {
                break;
            }
        }
    }
    Ok(())
}

/// Datagrams too small for some or all of the headers: whatever cannot be sent
/// is reported, and the loops go on.
fn too_small(t: &Tape, cov: &mut Cov) -> R {
    let mut g = Ghost::default();
    let mut c = Ctx::new(t, &P)?;
    for words in &t.ops {
        let Some((op, fired)) = c.next(words, &P) else { continue };
        let mut dr = crate::tape::Draw::new(&words[words.len() - 3..]);
        let squeeze = matches!(op, Op::Fire(_)) && dr.chance(1, 2);
        if !squeeze {
            let st = c.step(op, fired)?;
            monitor(&mut g, true, &st, &c, cov)?;
            continue;
        }
        let before = c.inst.cfg.clone();
        let size = match dr.below(3) {
            0 => 1 + dr.usize(20),
            1 => 1 + dr.usize(c.w.base_hdr),
            _ => c.w.base_hdr.saturating_sub(dr.usize(12)).max(1),
        };
        let small = foca::Config { max_packet_size: size.try_into().unwrap(), ..before.clone() };
        let st = c.inst.step(Op::SetConfig(small), None)?;
        ensure!(st.res == Ok(None), "max_packet_size can not be lowered to {size}: {:?}", st.res);
        let st = c.inst.step(op, fired)?;
        c.w.observe(&st);
        let name = st.op.name();
        match &st.res {
            Ok(_) => {}
            Err(ErrK::Encode) => {
                cov.hit("a header did not fit");
                cov.nontrivial();
                ensure!(size < c.w.base_hdr, "{name}: every header fits {size} bytes, yet {:?}", st.res);
            }
            Err(e) => return Err(format!("{name} failed with {e:?} although timers were delivered in deadline order")),
        }
        for s in &st.sends {
            ensure!(s.data.len() <= size, "a datagram of {} bytes, the limit being {size}", s.data.len());
        }
        outstanding(name, &c.inst)?;
        c.inst.step(Op::SetConfig(before), None)?;
        c.inc_pre = c.inc;
        c.inc = c.inst.peek_incarnation()?;
        c.n += 1;
    }
    settle(&mut g, &mut c, cov)
}

fn any_order(t: &Tape, cov: &mut Cov) -> R {
    let mut g = Ghost::default();
    let mut c = drive(t, &P_ANY, cov, &mut |st, c, cov| monitor(&mut g, false, st, c, cov))?;
    settle(&mut g, &mut c, cov)
}

fn epochs(t: &Tape, cov: &mut Cov) -> R {
    let mut g = Ghost::default();
    let c = drive(t, &P_EPOCHS, cov, &mut |st, c, cov| monitor(&mut g, false, st, c, cov))?;
    if c.inst.epoch >= 10 {
        cov.hit("ten epochs or more");
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// every short sequence of the events that matter to epochs

const ALPHA: u64 = 13;
const VARIANTS: u64 = 8;
fn seq_n(thorough: bool) -> u64 {
    VARIANTS * ALPHA.pow(if thorough { 6 } else { 5 })
}

fn seq(i: u64, cov: &mut Cov) -> R {
    let mut x = i;
    let variant = x % VARIANTS;
    x /= VARIANTS;
    let mut w = World::new(&vec![0u32; CFGW], &BASE);
    let mode = [RENEW_NONE, RENEW_NEXT, RENEW_SAME, RENEW_LOSING][(variant % 4) as usize];
    w.own = Id::new(0, 1, mode);
    if variant >= 4 {
        let p = |ms: u64| {
            Some(PeriodicParams {
                frequency: std::time::Duration::from_millis(ms),
                num_members: std::num::NonZeroUsize::new(2).unwrap(),
            })
        };
        w.config.periodic_announce = p(700);
        w.config.periodic_announce_to_down_members = p(900);
        w.config.periodic_gossip = p(200);
    }
    let mut inst = Inst::new(w.inst_cfg())?;
    let inc = inst.peek_incarnation()?;
    let mut c = Ctx { w, inst, inc_pre: inc, inc, n: 0 };
    let mut g = Ghost::default();
    let mut next_gen = 0u16;
    loop {
        let a = x % ALPHA;
        x /= ALPHA;
        let id = c.inst.id();
        let mut fired: Option<Pend> = None;
        let mut ordered = false;
        let op = match a {
            0 => {
                next_gen += 1;
                Some(Op::Apply(vec![Member::new(Id::new(1, next_gen, 0), 0, State::Alive)], true))
            }
            1 => {
                let v: Vec<_> = c.inst.foca.iter_members().map(|m| Member::new(*m.id(), 0, State::Down)).collect();
                Some(Op::Apply(v, true))
            }
            2 => Some(Op::Apply(vec![Member::new(id, 0, State::Down)], true)),
            3 => Some(Op::Leave),
            4 => Some(Op::Reuse),
            5 => Some(Op::ChangeId(id.with_gen(id.gen + 1))),
            6 => c.inst.earliest().map(|k| {
                let p = c.inst.take_pending(k);
                c.inst.now = c.inst.now.max(p.due);
                fired = Some(p.clone());
                ordered = !g.out_of_order;
                Op::Fire(p.t)
            }),
            // the newest / the oldest of all / the oldest probe timer
            7..=9 => {
                let it = c.inst.pending.iter().enumerate();
                let k = match a {
                    7 => it.max_by_key(|(_, p)| p.seq).map(|x| x.0),
                    8 => it.min_by_key(|(_, p)| p.seq).map(|x| x.0),
                    _ => it
                        .filter(|(_, p)| matches!(p.t, Timer::ProbeRandomMember(_)))
                        .min_by_key(|(_, p)| p.seq)
                        .map(|x| x.0),
                };
                k.map(|k| {
                    let p = c.inst.take_pending(k);
                    c.inst.now = c.inst.now.max(p.due);
                    fired = Some(p.clone());
                    Op::Fire(p.t)
                })
            }
            // two members, one of which goes: still active
            10 => {
                next_gen += 1;
                Some(Op::Apply(
                    vec![
                        Member::new(Id::new(2, next_gen, 0), 0, State::Alive),
                        Member::new(Id::new(3, next_gen, 0), 0, State::Alive),
                        Member::new(Id::new(2, next_gen, 0), 0, State::Down),
                    ],
                    true,
                ))
            }
            11 => Some(Op::Apply(vec![Member::new(id, u16::MAX, State::Suspect)], true)),
            _ => {
                let mut cfg = c.inst.cfg.clone();
                cfg.periodic_gossip = None;
                Some(Op::SetConfig(cfg))
            }
        };
        if let Some(op) = op {
            let st = c.step(op, fired)?;
            monitor(&mut g, ordered, &st, &c, cov)?;
        }
        if x == 0 {
            break;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// timers that stay around for a great many epochs

/// the property speaks of fewer than 256 epoch changes between issue and
/// delivery
const MAX_EPOCHS: u64 = 255;
fn outlived_n(_: bool) -> u64 {
    9 * MAX_EPOCHS
}

fn outlived(i: u64, cov: &mut Cov) -> R {
    let mut w = World::new(&vec![0u32; CFGW], &BASE);
    w.own = Id::new(0, 0, RENEW_NONE);
    let p = |ms: u64| {
        Some(PeriodicParams {
            frequency: std::time::Duration::from_millis(ms),
            num_members: std::num::NonZeroUsize::new(2).unwrap(),
        })
    };
    w.config.periodic_announce = p(700);
    w.config.periodic_announce_to_down_members = p(900);
    w.config.periodic_gossip = p(200);
    let mut inst = Inst::new(w.inst_cfg())?;
    let count = 1 + i / 9;
    let flips = |inst: &mut Inst, n: u64| -> R {
        for _ in 0..n {
            let own = inst.id();
            let cur = *inst.foca.iter_members().next().ok_or("no active members")?.id();
            match i % 3 {
                // idle and active again
                0 => {
                    let next = cur.with_gen(cur.gen.wrapping_add(1));
                    inst.raw(&Op::Apply(vec![Member::new(cur, 0, State::Down)], true))?.ok();
                    if next.gen == 0 {
                        inst.raw(&Op::Fire(Timer::RemoveDown(cur)))?.ok();
                    }
                    inst.raw(&Op::Apply(vec![Member::new(next, 0, State::Alive)], true))?.ok();
                }
                // another identity
                1 => {
                    inst.raw(&Op::ChangeId(own.with_gen(own.gen.wrapping_add(1))))?.ok();
                    inst.raw(&Op::Apply(vec![], true))?.ok();
                }
                // defunct and back
                _ => {
                    inst.raw(&Op::Leave)?.ok();
                    inst.raw(&Op::Reuse)?.ok();
                    inst.raw(&Op::Apply(vec![], true))?.ok();
                }
            }
            inst.log.borrow_mut().clear();
        }
        Ok(())
    };
    inst.step(Op::Apply(vec![Member::new(Id::new(1, 0, 0), 0, State::Alive)], true), None)?;
    let step = inst.earliest().map(|k| inst.take_pending(k));
    if let Some(p) = step {
        // so that there is one of each kind
        inst.step(Op::Fire(p.t.clone()), Some(p))?;
    }
    // some epochs before, so that the old ones do not start at zero
    flips(&mut inst, [0, 1, 200][(i / 3 % 3) as usize])?;
    inst.pending.clear();
    let (own, cur) = (inst.id(), inst.snap().active.first().map(|m| *m.id()).ok_or("no active members")?);
    inst.step(Op::Apply(vec![Member::new(own, 0, State::Down)], true), None)?;
    inst.step(Op::Reuse, None)?;
    inst.step(Op::Apply(vec![], true), None)?;
    let old: Vec<Pend> = inst.pending.clone();
    ensure!(old.len() == 4, "{} timers for four loops", old.len());
    let token = crate::inst::timer_token(&old[0].t).unwrap_or_default();
    let mut old: Vec<Timer<Id>> = old.into_iter().map(|p| p.t).collect();
    flips(&mut inst, count)?;
    let now = inst.snap().active.first().map(|m| *m.id()).unwrap_or(cur);
    for id in [cur, now] {
        old.push(Timer::SendIndirectProbe { probed_id: id, token });
        old.push(Timer::ChangeSuspectToDown { member_id: id, incarnation: 0, token });
    }
    for t in old {
        let st = inst.step(Op::Fire(t.clone()), None)?;
        ensure!(
            st.no_effect() && st.res == Ok(None),
            "{t:?} outlived {count} epochs and has an effect: {:?} {:?}",
            st.res,
            st.evs
        );
    }
    cov.nontrivial();
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        level: "exploration",
        rule: "Every timer an instance schedules is kept by the harness and delivered exactly once: in deadline order and possibly \
            very late, in batches sorted by Timer's own order, or in any order, possibly many epochs after it was issued. After every call the outstanding timers of the current \
            epoch are counted per loop. Also every sequence of 5 (thorough: 6) events out of 13 that matter to epochs, for every renewal \
            behaviour, with and without periodic tasks. Non-trivial: a timer of an earlier epoch fired, an incomplete probe cycle was \
            reported, or the instance became active again in a later epoch.",
        assumptions: &[
            "max_packet_size fits the largest header of the history's identities, except while a timer is handled (sub too-small): an API call or a \
             datagram that fails halfway because a header does not fit is not followed",
        ],
        subs: vec![
            Sub { name: "sequences", quick: 0, thorough: 0, body: Body::Enum { n: seq_n, f: seq } },
            Sub { name: "outlived", quick: 0, thorough: 0, body: Body::Enum { n: outlived_n, f: outlived } },
            Sub { name: "deadline-order", quick: 500_000, thorough: 16_000_000, body: Body::Tape { min: 1, max: 90, f: in_order } },
            Sub { name: "lagging", quick: 200_000, thorough: 8_000_000, body: Body::Tape { min: 2, max: 60, f: batched } },
            Sub { name: "too-small", quick: 150_000, thorough: 6_000_000, body: Body::Tape { min: 4, max: 60, f: too_small } },
            Sub { name: "any-order", quick: 300_000, thorough: 12_000_000, body: Body::Tape { min: 1, max: 60, f: any_order } },
            Sub { name: "many-epochs", quick: 80_000, thorough: 4_000_000, body: Body::Tape { min: 60, max: 260, f: epochs } },
        ],
    }
}
