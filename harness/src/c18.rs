//! C18: whatever one datagram sets off comes to an end.
use foca::{Config, Member, Message, State};

use crate::codec::{build_packet, piggybacks, Mem, Msg, KINDS};
use crate::ensure;
use crate::gen::mk_header;
use crate::handler::HandlerCfg;
use crate::id::{Id, RENEW_LOSING, RENEW_NEXT, RENEW_NONE, RENEW_SAME};
use crate::inst::{Conn, Inst, InstCfg, Op};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{Draw, Tape};

/// Deliveries one datagram may cause before it counts as a storm. Measured
/// on correct instances: see DESIGN.md.
const CAP: usize = 2_000;
const CAP_WIDE: usize = 20_000;

fn any_message(dr: &mut Draw<'_>, ids: &[Id]) -> Msg {
    let t = ids[dr.usize(ids.len())];
    let n = dr.below(3) as u8;
    match dr.below(11) {
        0 => Message::Ping(n),
        1 => Message::Ack(n),
        2 => Message::PingReq { target: t, probe_number: n },
        3 => Message::IndirectPing { origin: t, probe_number: n },
        4 => Message::IndirectAck { target: t, probe_number: n },
        5 => Message::ForwardedAck { origin: t, probe_number: n },
        6 => Message::Announce,
        7 => Message::Feed,
        8 => Message::Gossip,
        9 => Message::Broadcast,
        _ => Message::TurnUndead,
    }
}

fn knowledge(dr: &mut Draw<'_>, ids: &[Id]) -> Mem {
    let i = ids[dr.usize(ids.len())];
    let id = match dr.below(6) {
        0 => i.with_gen(i.gen + 1 + dr.below(2) as u16),
        1 => i.with_gen(i.gen.saturating_sub(1)),
        _ => i,
    };
    let st = [State::Alive, State::Suspect, State::Down][dr.usize(3)];
    let inc = [0, 1, 2, u16::MAX - 1, u16::MAX][dr.weighted(&[8, 4, 3, 1, 1])];
    Member::new(id, inc, st)
}

fn cascade(t: &Tape, cov: &mut Cov) -> R {
    run(t, cov, 4, CAP)
}

/// more instances, which are busy spreading news about many others
fn wide(t: &Tape, cov: &mut Cov) -> R {
    run(t, cov, 9, CAP_WIDE)
}

fn run(t: &Tape, cov: &mut Cov, max_n: u32, cap: usize) -> R {
    let mut c = Draw::new(&t.cfg);
    let kind = KINDS[c.usize(KINDS.len())];
    let wide = cap == CAP_WIDE;
    let n = c.range(2, max_n) as usize;
    let uniform = c.below(3);
    let notify = c.below(4);
    let order = c.below(3);
    let max_tx = [1u8, 2, 3, 5, 10][c.usize(5)];
    let k = 1 + c.usize(3);
    let mut config = Config::simple();
    config.max_transmissions = max_tx.try_into().unwrap();
    config.num_indirect_probes = k.try_into().unwrap();
    if c.below(4) == 3 {
        config.max_packet_size = (60 + c.usize(60)).try_into().unwrap();
    }
    let per = |f: u64| {
        Some(foca::PeriodicParams {
            frequency: std::time::Duration::from_millis(f),
            num_members: 2.try_into().unwrap(),
        })
    };
    config.periodic_announce = per(1000);
    config.periodic_gossip = per(300);
    config.periodic_announce_to_down_members = per(2000);
    let mut insts = vec![];
    let mut ids = vec![];
    for i in 0..n {
        let mode = match uniform {
            0 => RENEW_NONE,
            1 => RENEW_NEXT,
            _ => [RENEW_NONE, RENEW_NEXT, RENEW_SAME, RENEW_LOSING][c.usize(4)],
        };
        let id = Id::new(i as u16, c.below(3) as u16, mode);
        let mut cfg = config.clone();
        cfg.notify_down_members = match notify {
            0 => false,
            1 => c.below(2) == 0,
            _ => true,
        };
        let handler = HandlerCfg { rel: 0, policy: 0, mask: 0xffff, errs: false };
        insts.push(Inst::new(InstCfg { id, config: cfg, seed: c.u64(), kind, handler })?);
        ids.push(id);
    }
    if wide {
        // they know each other and have others to tell about
        let everybody: Vec<Mem> = ids.iter().map(|i| Member::alive(*i)).collect();
        for (k, inst) in insts.iter_mut().enumerate() {
            let mut v = everybody.clone();
            v.remove(k);
            if c.below(4) != 0 {
                inst.step(Op::Apply(v, c.below(2) == 1), None)?;
            }
            let crowd = [0, 3, 10, 60][c.usize(4)];
            let v = (0..crowd).map(|a| Member::new(Id::new(1000 + a, 0, 0), 0, [State::Alive, State::Down][c.weighted(&[3, 1])])).collect();
            inst.step(Op::Apply(v, c.below(4) != 0), None)?;
            if c.below(2) == 1 {
                inst.step(Op::AddBc(vec![k as u8, 1, 2]), None)?;
            }
        }
    }
    // whatever they have been through
    let last = t.ops.len().saturating_sub(1);
    for words in &t.ops[..last] {
        let mut dr = Draw::new(words);
        let me = dr.usize(n);
        let now_ids: Vec<Id> = insts.iter().map(|i| i.id()).collect();
        let pool = if dr.below(3) == 0 { &ids } else { &now_ids };
        let inst = &mut insts[me];
        let op = match dr.below(12) {
            0..=3 => {
                let v = (0..dr.range(1, 4)).map(|_| knowledge(&mut dr, pool)).collect();
                Op::Apply(v, dr.below(3) != 0)
            }
            4 | 5 => {
                // both ways at once: the usual result of a partition
                let other = pool[dr.usize(n)];
                let (own, st) = (inst.id(), [State::Down, State::Suspect][dr.usize(2)]);
                if other.addr == own.addr {
                    continue;
                }
                inst.step(Op::Apply(vec![Member::new(other, 0, st)], true), None)?;
                let o = &mut insts[other.addr as usize];
                o.step(Op::Apply(vec![Member::new(own, 0, st)], true), None)?;
                continue;
            }
            6 => {
                let mut it = vec![0u8; 1 + dr.usize(20)];
                it[0] = dr.below(4) as u8;
                if it.len() > 1 {
                    it[1] = dr.below(9) as u8;
                }
                Op::AddBc(it)
            }
            7 => {
                let Some(i) = inst.earliest() else { continue };
                let p = inst.take_pending(i);
                inst.now = inst.now.max(p.due);
                inst.step(Op::Fire(p.t.clone()), Some(p))?;
                continue;
            }
            8 => match dr.below(4) {
                0 => Op::Leave,
                1 => Op::Reuse,
                2 => Op::ChangeId(inst.id().with_gen(inst.id().gen + 1)),
                _ => Op::Gossip,
            },
            9 => {
                let own = inst.id();
                Op::Apply(vec![Member::new(own, dr.below(3) as u16, [State::Down, State::Suspect][dr.usize(2)])], true)
            }
            _ => {
                let src = pool[dr.usize(n)];
                if src.addr == inst.id().addr {
                    continue;
                }
                let m = any_message(&mut dr, pool);
                let own = inst.id();
                let us = vec![knowledge(&mut dr, pool)];
                let carries = piggybacks(&m);
                let d = build_packet(kind, &mk_header(src, dr.below(3) as u16, own, m), carries.then_some(&us[..]), &[]);
                Op::Data(d)
            }
        };
        inst.step(op, None)?;
    }
    // the datagram that sets it off
    let zero = vec![0u32; 14];
    let words = t.ops.last().unwrap_or(&zero);
    let mut dr = Draw::new(words);
    let from = dr.usize(n);
    let to = (from + 1 + dr.usize(n - 1)) % n;
    let now_ids: Vec<Id> = insts.iter().map(|i| i.id()).collect();
    let mut queue: Vec<(Id, Vec<u8>)> = vec![];
    let kind_of_start = dr.below(4);
    if kind_of_start == 0 {
        // something an instance sends by itself
        let i = &mut insts[from];
        let st = if dr.below(2) == 0 && !i.pending.is_empty() {
            let k = dr.usize(i.pending.len());
            let p = i.take_pending(k);
            i.now = i.now.max(p.due);
            i.step(Op::Fire(p.t.clone()), Some(p))?
        } else {
            i.step([Op::Gossip, Op::Broadcast, Op::Announce(now_ids[to])][dr.usize(3)].clone(), None)?
        };
        if st.sends.is_empty() {
            return Ok(());
        }
        let s = &st.sends[dr.usize(st.sends.len())];
        queue.push((s.to, s.data.clone()));
    } else {
        let src = now_ids[from];
        let dst = if dr.below(5) == 0 { now_ids[to].with_gen(now_ids[to].gen.saturating_sub(1)) } else { now_ids[to] };
        let inc = insts[from].peek_incarnation()?;
        let m = any_message(&mut dr, &now_ids);
        let mut us: Vec<Mem> = vec![];
        for _ in 0..dr.below(4) {
            let u = knowledge(&mut dr, &now_ids);
            if us.iter().all(|x| x.id().addr != u.id().addr) {
                us.push(u);
            }
        }
        let items = if dr.below(3) == 0 { vec![vec![1, dr.below(9) as u8, 7]] } else { vec![] };
        let (carries, mut it) = (piggybacks(&m), items);
        if !crate::codec::carries_items(&m) {
            it.clear();
        }
        let us = if carries { Some(&us[..]) } else { None };
        let d = build_packet(kind, &mk_header(src, inc, dst, m), us, &it);
        queue.push((dst, d));
    }
    let per_delivery = 2 + 4 * k;
    let mut delivered = 0usize;
    let mut caused = 0usize;
    let mut lost = 0usize;
    while !queue.is_empty() {
        let i = match order {
            0 => 0,
            1 => queue.len() - 1,
            _ => dr.usize(queue.len()),
        };
        let (dst, d) = queue.remove(i);
        let Some(r) = insts.iter_mut().find(|i| i.id().addr == dst.addr) else {
            lost += 1;
            continue;
        };
        delivered += 1;
        let st = r.step(Op::Data(d), None)?;
        ensure!(
            st.sends.len() <= per_delivery,
            "one datagram to {:?} caused {} others (num_indirect_probes={k})",
            dst,
            st.sends.len()
        );
        caused += st.sends.len();
        for s in st.sends {
            queue.push((s.to, s.data));
        }
        if delivered > cap {
            let ids: Vec<(Id, Conn)> = insts.iter().map(|i| (i.id(), i.conn)).collect();
            return Err(format!(
                "still going after {cap} deliveries, {} datagrams in flight; instances: {ids:?}",
                queue.len()
            ));
        }
    }
    let _ = lost;
    cov.hit(match delivered {
        0 | 1 => "1 delivery",
        2..=4 => "2 to 4 deliveries",
        5..=20 => "5 to 20 deliveries",
        21..=50 => "21 to 50 deliveries",
        51..=100 => "51 to 100 deliveries",
        101..=400 => "101 to 400 deliveries",
        401..=1200 => "401 to 1200 deliveries",
        1201..=4000 => "1201 to 4000 deliveries",
        _ => "more than 4000 deliveries",
    });
    if caused > 0 {
        cov.nontrivial();
    }
    for i in &insts {
        cov.hit(match i.conn {
            Conn::Idle => "ended idle",
            Conn::Active => "ended active",
            Conn::Defunct => "ended defunct",
        });
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        level: "exploration",
        rule: "2 to 4 (wide: up to 9, spreading news about up to 60 others) instances are put into arbitrary states of mutual knowledge (alive, suspect, down, older and newer identities; \
            active, idle, defunct), one datagram of any kind is delivered and everything it causes is delivered too, oldest first, \
            newest first or at random, timers held. Bounds: datagrams caused per delivery, total deliveries. Non-trivial: the first \
            datagram caused at least one other.",
        assumptions: &[
            "generations known of one address lie within a few of each other, max_transmissions at most 10 (both bound how long a terminating exchange takes)",
        ],
        subs: vec![
            Sub { name: "cascade", quick: 3_500_000, thorough: 100_000_000, body: Body::Tape { min: 1, max: 24, f: cascade } },
            Sub { name: "wide", quick: 900_000, thorough: 8_000_000, body: Body::Tape { min: 1, max: 16, f: wide } },
        ],
    }
}
