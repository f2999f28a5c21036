//! C14: round-robin probing, every active member within 2n-1 rounds.
use std::collections::{BTreeMap, BTreeSet};

use foca::{Member, Message, State, Timer};

use crate::codec::{build_packet, Mem};
use crate::drive::pkt;
use crate::ensure;
use crate::gen::{mk_header, World, BASE};
use crate::id::Id;
use crate::inst::{Conn, Inst, Op, Step};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{Draw, Tape};

const OWN: u16 = 0;

struct Run {
    inst: Inst,
    w: World,
    rounds: u64,
}

/// one probe round; returns who was pinged
fn round(r: &mut Run, answer: usize) -> Result<Option<Id>, String> {
    let Some(k) = r
        .inst
        .pending
        .iter()
        .position(|p| p.epoch == r.inst.epoch && matches!(p.t, Timer::ProbeRandomMember(_)))
    else {
        ensure!(r.inst.conn != Conn::Active, "active without a probe timer");
        return Ok(None);
    };
    let p = r.inst.take_pending(k);
    r.inst.now = r.inst.now.max(p.due);
    let st = r.inst.step(Op::Fire(p.t.clone()), Some(p))?;
    ensure!(st.res.is_ok(), "a probe timer failed: {:?}", st.res);
    let t = pinged(&st)?;
    let (id, n) = t;
    r.rounds += 1;
    let own = r.inst.id();
    let inc = st.post.rec(id.addr).map(|m| m.incarnation()).unwrap_or(0);
    let ack = |inc: u16| build_packet(r.w.kind, &mk_header(id, inc, own, Message::Ack(n)), None, &[]);
    if answer == 0 || answer == 3 {
        let d = ack(if answer == 3 { inc.saturating_add(1) } else { inc });
        r.inst.step(Op::Data(d), None)?;
    }
    // its indirect timer
    if let Some(k) = r
        .inst
        .pending
        .iter()
        .position(|p| p.epoch == r.inst.epoch && matches!(p.t, Timer::SendIndirectProbe { .. }))
    {
        let p = r.inst.take_pending(k);
        r.inst.now = r.inst.now.max(p.due);
        r.inst.step(Op::Fire(p.t.clone()), Some(p))?;
    }
    Ok(Some(id))
}

fn pinged(st: &Step) -> Result<(Id, u8), String> {
    let mut got = vec![];
    for s in &st.sends {
        if let Message::Ping(n) = pkt(s)?.header.message {
            got.push((s.to, n));
        }
    }
    ensure!(got.len() == 1, "a probe round pinged {} members: {got:?}", got.len());
    let (id, n) = got[0];
    ensure!(id.addr != st.post.id.addr, "probed its own address: {id:?}");
    ensure!(
        st.post.is_active(&id),
        "probed {id:?}, on record as {:?}",
        st.post.rec(id.addr)
    );
    Ok((id, n))
}

fn apply(r: &mut Run, v: Vec<Mem>) -> R {
    r.inst.step(Op::Apply(v, true), None)?;
    Ok(())
}

/// changes of the membership that lead to whatever arrangement and cursor
fn mess(r: &mut Run, words: &[u32], size: u32) -> R {
    let mut dr = Draw::new(words);
    let a = 1 + dr.below(size) as u16;
    let cur = r.inst.snap().rec(a).cloned();
    match dr.below(9) {
        0..=2 => {
            let gen = cur.map(|m| m.id().gen + u16::from(m.state() == State::Down)).unwrap_or(0);
            apply(r, vec![Member::new(Id::new(a, gen, 0), 0, State::Alive)])?;
        }
        3 => {
            if let Some(m) = cur {
                apply(r, vec![Member::new(*m.id(), 0, State::Down)])?;
            }
        }
        4 => {
            apply(r, vec![Member::new(Id::new(a, 0, 0), 0, State::Down)])?;
        }
        5 => {
            if let Some(m) = cur {
                r.inst.step(Op::Fire(Timer::RemoveDown(*m.id())), None)?;
            }
        }
        6 => {
            // several at once
            let v = (0..dr.range(1, 8))
                .map(|_| Member::new(Id::new(1 + dr.below(size) as u16, 0, 0), 0, State::Alive))
                .collect();
            apply(r, v)?;
        }
        _ => {
            for _ in 0..dr.range(1, 5) {
                round(r, dr.usize(3))?;
            }
        }
    }
    Ok(())
}

/// things that happen in a cluster without changing who is in it
fn bystander(r: &mut Run, dr: &mut Draw<'_>) -> R {
    let s = r.inst.snap();
    let Some(m) = s.active.get(dr.usize(s.active.len().max(1))).cloned() else { return Ok(()) };
    let (id, inc) = (*m.id(), m.incarnation());
    let own = s.id;
    let op = match dr.below(8) {
        0 => Op::Gossip,
        1 => Op::Data(build_packet(r.w.kind, &mk_header(id, inc, own, Message::Announce), None, &[])),
        2 => Op::Data(build_packet(r.w.kind, &mk_header(id, inc, own, Message::Ping(9)), None, &[])),
        3 => Op::Apply(s.recs.clone(), true),
        4 => Op::Apply(vec![Member::new(id, inc, State::Suspect)], true),
        5 => Op::Data(build_packet(
            r.w.kind,
            &mk_header(id, inc.saturating_add(1), own, Message::Gossip),
            None,
            &[],
        )),
        6 => Op::Broadcast,
        _ => {
            let k = r.inst.pending.iter().position(|p| {
                p.epoch == r.inst.epoch
                    && matches!(
                        p.t,
                        Timer::PeriodicGossip(_) | Timer::PeriodicAnnounce(_) | Timer::PeriodicAnnounceDown(_)
                    )
            });
            match k {
                Some(k) => {
                    let p = r.inst.take_pending(k);
                    r.inst.step(Op::Fire(p.t.clone()), Some(p))?;
                }
                None => {}
            }
            return Ok(());
        }
    };
    r.inst.step(op, None)?;
    Ok(())
}

fn window(r: &mut Run, words: &[u32], spans: usize, cov: &mut Cov) -> R {
    let mut dr = Draw::new(words);
    let s = r.inst.snap();
    let members: BTreeSet<Id> = s.active.iter().map(|m| *m.id()).collect();
    let known: BTreeSet<Id> = s.recs.iter().map(|m| *m.id()).collect();
    let n = members.len();
    if n == 0 {
        return Ok(());
    }
    let answers = dr.usize(4);
    let noise = dr.below(3);
    let span = 2 * n - 1;
    let mut pings: Vec<Id> = vec![];
    for _ in 0..(spans * span + 3) {
        if noise > 0 && dr.below(3) < noise {
            bystander(r, &mut dr)?;
        }
        let ans = match answers {
            0 => 0,
            1 => 1,
            2 => 3,
            _ => dr.usize(4),
        };
        match round(r, ans)? {
            Some(id) => pings.push(id),
            None => return Err("stopped probing with active members around".into()),
        }
    }
    let s = r.inst.snap();
    let after: BTreeSet<Id> = s.recs.iter().map(|m| *m.id()).collect();
    let act: BTreeSet<Id> = s.active.iter().map(|m| *m.id()).collect();
    ensure!(
        after == known && act == members,
        "the membership was to be stable: {known:?} -> {after:?}"
    );
    for id in &pings {
        ensure!(members.contains(id), "pinged {id:?}, not an active member");
    }
    // how often each was probed in the window, which then slides
    let mut count: BTreeMap<&Id, usize> = BTreeMap::new();
    for id in &pings[..span - 1] {
        *count.entry(id).or_default() += 1;
    }
    for (i, win) in pings.windows(span).enumerate() {
        *count.entry(&win[span - 1]).or_default() += 1;
        let all = count.len();
        if all != n {
            let seen: BTreeSet<&Id> = win.iter().collect();
            let missing: Vec<&Id> = members.iter().filter(|m| !seen.contains(m)).collect();
            return Err(format!(
                "{missing:?} not probed in rounds {i}..{} of {} ({n} active, {} Down): {:?}",
                i + span,
                pings.len(),
                known.len() - n,
                pings.iter().map(|p| p.addr).collect::<Vec<_>>()
            ));
        }
        match count.get_mut(&win[0]) {
            Some(k) if *k > 1 => *k -= 1,
            _ => {
                count.remove(&win[0]);
            }
        }
    }
    cov.nontrivial();
    cov.hit(match n {
        1 => "1 active",
        2 => "2 active",
        3..=5 => "3 to 5 active",
        6..=12 => "6 to 12 active",
        13..=100 => "13 to 100 active",
        _ => "more than 100 active",
    });
    cov.hit(match known.len() - n {
        0 => "no Down records",
        1..=3 => "1 to 3 Down records",
        _ => "more than 3 Down records",
    });
    cov.add("rounds", pings.len() as u64);
    Ok(())
}

fn history_of(t: &Tape, cov: &mut Cov, size: u32) -> R {
    let mut w = World::new(&t.cfg, &BASE);
    w.own = Id::new(OWN, 0, 0);
    w.config.max_packet_size = 1400.try_into().unwrap();
    let inst = Inst::new(w.inst_cfg())?;
    let mut r = Run { inst, w, rounds: 0 };
    let half = t.ops.len() / 2;
    for (i, words) in t.ops.iter().enumerate() {
        if i == half && t.ops.len() > 6 {
            window(&mut r, words, 4, cov)?;
        } else if i + 1 == t.ops.len() {
            window(&mut r, words, 4, cov)?;
        } else {
            mess(&mut r, words, size)?;
        }
    }
    Ok(())
}
fn small(t: &Tape, cov: &mut Cov) -> R {
    history_of(t, cov, 5)
}
fn medium(t: &Tape, cov: &mut Cov) -> R {
    history_of(t, cov, 14)
}
fn large(t: &Tape, cov: &mut Cov) -> R {
    history_of(t, cov, 60)
}

/// hundreds of members, some of them Down
fn crowd(t: &Tape, cov: &mut Cov) -> R {
    let mut w = World::new(&t.cfg, &BASE);
    w.own = Id::new(OWN, 0, 0);
    w.config.max_packet_size = 1400.try_into().unwrap();
    let inst = Inst::new(w.inst_cfg())?;
    let mut r = Run { inst, w, rounds: 0 };
    let mut dr = Draw::new(&t.ops[0]);
    let size = if dr.chance(1, 2) { 250 + dr.below(12) } else { 61 + dr.below(460) };
    let down = [0, 1, 20][dr.usize(3)];
    let v = (1..=size)
        .map(|a| {
            let s = if dr.below(32) < down { State::Down } else { State::Alive };
            Member::new(Id::new(a as u16, 0, 0), 0, s)
        })
        .collect();
    apply(&mut r, v)?;
    for words in &t.ops[1..] {
        mess(&mut r, words, size)?;
    }
    for _ in 0..dr.below(size) {
        round(&mut r, 0)?;
    }
    window(&mut r, &t.ops[0], 2, cov)
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        level: "exploration",
        rule: "Joins, departures, forgotten records and probe rounds in any order lead to some arrangement of the member list and some \
            cursor; then the membership is left alone for 4(2n-1)+3 rounds (crowds of up to 520: 2(2n-1)+3) - answered or not, with unrelated traffic or none - and every \
            window of 2n-1 rounds is checked. Non-trivial: a stable window with at least one active member was run.",
        assumptions: &["timers of a round are fired in order; suspicion timeouts are held back during the stable window"],
        subs: vec![
            Sub { name: "up-to-5", quick: 300_000, thorough: 8_000_000, body: Body::Tape { min: 2, max: 24, f: small } },
            Sub { name: "up-to-14", quick: 100_000, thorough: 3_000_000, body: Body::Tape { min: 4, max: 50, f: medium } },
            Sub { name: "up-to-60", quick: 8_000, thorough: 300_000, body: Body::Tape { min: 20, max: 120, f: large } },
            Sub { name: "crowd", quick: 2_000, thorough: 80_000, body: Body::Tape { min: 1, max: 12, f: crowd } },
        ],
    }
}
