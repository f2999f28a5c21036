//! C17: determinism; rejected input leaves no trace.
use foca::{Member, Message, State, Timer};

use crate::codec::{build_packet, Kind};
use crate::drive::Ctx;
use crate::ensure;
use crate::gen::{mk_header, Profile, World, BASE};
use crate::inst::{Conn, ErrK, Ev, Inst, Op, Pend, Res, Step};
use crate::model::{classify, Verdict};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{Draw, Tape};

/// What an observer sees of one call.
fn same_step(a: &Step, b: &Step) -> Result<(), String> {
    ensure!(a.res == b.res, "{} returned {:?} vs {:?}", a.op.name(), a.res, b.res);
    if a.evs != b.evs {
        let i = a.evs.iter().zip(&b.evs).position(|(x, y)| x != y).unwrap_or(a.evs.len().min(b.evs.len()));
        return Err(format!(
            "{}: effect {i} is {:?} vs {:?} ({} vs {} effects)",
            a.op.name(),
            a.evs.get(i),
            b.evs.get(i),
            a.evs.len(),
            b.evs.len()
        ));
    }
    Ok(())
}

/// every timer ever issued
#[derive(Default)]
struct Issued(Vec<Pend>);
impl Issued {
    fn note(&mut self, inst: &Inst, seen: &mut u64) {
        for p in &inst.pending {
            if p.seq > *seen {
                self.0.push(p.clone());
            }
        }
        *seen = inst.seq;
    }
}

/// One input that must bounce off, in the state `inst` is in, and the result
/// it must have. None when the draw has nothing to offer.
fn rejected(dr: &mut Draw<'_>, w: &mut World, inst: &Inst, inc: u16, issued: &Issued) -> Option<(Op, Res, &'static str)> {
    let kind: Kind = inst.kind;
    let own = inst.id();
    let max = inst.cfg.max_packet_size.get();
    let class = dr.below(14);
    let data = |b: Vec<u8>| -> Option<(Op, Res, &'static str)> {
        let v = classify(kind, &b, &own, max);
        let want = match &v {
            Verdict::TooBig => Err(ErrK::DataTooBig),
            Verdict::BadHeader => Err(ErrK::Decode),
            Verdict::OwnSource => Err(ErrK::DataFromOurselves),
            Verdict::BadFraming => Err(ErrK::MalformedPacket),
            Verdict::NotForUs => Ok(None),
            Verdict::BadMembers => Err(ErrK::Decode),
            Verdict::Ok(_) => return None,
        };
        Some((Op::Data(b), want, v.name()))
    };
    // something that would have had plenty of consequences
    let valid = |dr: &mut Draw<'_>, w: &mut World| -> Vec<u8> {
        let src = w.other(dr, inst);
        let msg = w.message(dr, inst, &BASE);
        let mut us = w.members(dr, inst, inc, &BASE, 3);
        us.push(Member::new(w.peer(1, 3), 9, State::Alive));
        if dr.below(2) == 0 {
            us.push(Member::new(own, inc, [State::Suspect, State::Down][dr.usize(2)]));
        }
        let items = if dr.below(2) == 0 { vec![w.item(dr, 12)] } else { vec![] };
        let msg = match msg {
            Message::Announce | Message::TurnUndead | Message::Broadcast => Message::Gossip,
            m => m,
        };
        build_packet(kind, &mk_header(src, 7, own, msg), Some(&us), &items)
    };
    match class {
        0 => {
            let mut b = valid(dr, w);
            while b.len() <= max {
                b.extend_from_slice(&[0, 1, 9]);
            }
            data(b)
        }
        1 => {
            let n = dr.usize(12);
            data((0..n).map(|_| dr.word() as u8).collect())
        }
        2 | 3 => {
            // cut anywhere
            let mut b = valid(dr, w);
            let n = dr.usize(b.len());
            b.truncate(n);
            data(b)
        }
        4 => {
            let mut b = valid(dr, w);
            for _ in 0..dr.range(1, 3) {
                let i = dr.usize(b.len());
                b[i] ^= 1 << dr.below(8);
            }
            data(b)
        }
        5 => {
            // own identity or address as the source
            let src = w.own_addr(dr, own);
            let m = w.message(dr, inst, &BASE);
            let us = vec![Member::new(w.peer(2, 2), 3, State::Alive)];
            let carries = crate::codec::piggybacks(&m);
            data(build_packet(kind, &mk_header(src, inc, own, m), carries.then_some(&us[..]), &[]))
        }
        6 => {
            let src = w.other(dr, inst);
            let m = w.message(dr, inst, &BASE);
            let mut b = build_packet(kind, &mk_header(src, 3, own, m), None, &[]);
            b.push(dr.word() as u8);
            data(b)
        }
        7 => {
            let src = w.other(dr, inst);
            let mut b = build_packet(kind, &mk_header(src, 3, own, Message::Announce), None, &[]);
            for _ in 0..dr.range(1, 5) {
                b.push(dr.word() as u8);
            }
            data(b)
        }
        8 => {
            // for somebody else, or for an earlier/later identity of ours
            let src = w.other(dr, inst);
            let dst = if dr.below(2) == 0 { w.own_addr(dr, own) } else { w.other(dr, inst) };
            let m = w.message(dr, inst, &BASE);
            let us = vec![Member::new(own, inc, State::Suspect), Member::new(w.peer(2, 2), 3, State::Alive)];
            let carries = crate::codec::piggybacks(&m);
            data(build_packet(kind, &mk_header(src, 3, dst, m), carries.then_some(&us[..]), &[]))
        }
        9 => {
            let stale: Vec<&Pend> = issued
                .0
                .iter()
                .filter(|p| p.epoch != inst.epoch && !matches!(p.t, Timer::RemoveDown(_)))
                .collect();
            if stale.is_empty() {
                return None;
            }
            let p = stale[dr.usize(stale.len())];
            Some((Op::Fire(p.t.clone()), Ok(None), "timer of an earlier epoch"))
        }
        10 => {
            if inst.conn == Conn::Defunct {
                return None;
            }
            Some((Op::Reuse, Err(ErrK::NotUndead), "NotUndead"))
        }
        11 => Some((Op::ChangeId(own), Err(ErrK::SameIdentity), "SameIdentity")),
        12 => {
            let mut c = w.new_config(dr, inst);
            let on = Some(foca::PeriodicParams {
                frequency: std::time::Duration::from_millis(10),
                num_members: 3.try_into().unwrap(),
            });
            let k = dr.usize(5);
            match k {
                0 if inst.cfg.periodic_announce.is_none() => c.periodic_announce = on,
                1 if inst.cfg.periodic_announce_to_down_members.is_none() => c.periodic_announce_to_down_members = on,
                2 if inst.cfg.periodic_gossip.is_none() => c.periodic_gossip = on,
                3 => c.probe_rtt = inst.cfg.probe_rtt + std::time::Duration::from_millis(1),
                _ => c.probe_period = inst.cfg.probe_period + std::time::Duration::from_millis(1),
            }
            // everything else may change along with it
            c.max_packet_size = (w.base_hdr + 1 + dr.usize(30)).try_into().unwrap();
            c.max_transmissions = (1 + dr.below(200) as u8).try_into().unwrap();
            c.notify_down_members = !c.notify_down_members;
            Some((Op::SetConfig(c), Err(ErrK::InvalidConfig), "InvalidConfig"))
        }
        _ => {
            if dr.below(2) == 0 {
                Some((Op::AddBc(vec![]), Err(ErrK::MalformedPacket), "MalformedPacket (add_broadcast)"))
            } else {
                let extra = 1 + dr.usize(9);
                let b = vec![dr.below(4) as u8; max + extra];
                Some((Op::AddBc(b), Err(ErrK::DataTooBig), "DataTooBig (add_broadcast)"))
            }
        }
    }
}

fn insert(b: &mut Inst, op: Op, want: Res, what: &'static str, cov: &mut Cov) -> R {
    let st = b.step(op, None)?;
    ensure!(
        st.res == want,
        "{what}: {} returned {:?}, expected {want:?}",
        st.describe(b.kind),
        st.res
    );
    // the record order gives the state of the member list away
    ensure!(
        st.pre == st.post,
        "{what}: {} changed what can be observed: {:?} -> {:?}",
        st.describe(b.kind),
        st.pre,
        st.post
    );
    let evs: Vec<&Ev> = st.evs.iter().collect();
    ensure!(evs.is_empty(), "{what}: {} had effects: {evs:?}", st.describe(b.kind));
    cov.hit(what);
    Ok(())
}

/// the same call on the other instance, with the same timers taken out
fn follow(b: &mut Inst, st: &Step) -> Result<Step, String> {
    b.step(st.op.clone(), st.fired.clone())
}

fn tail_ops(a: &Inst, w: &World) -> Vec<Op> {
    // brings out the position of the random number generator and whatever is
    // left in the backlogs
    let own = a.id();
    let kind = a.kind;
    let fits = |d: Vec<u8>| (d.len() <= a.cfg.max_packet_size.get()).then_some(Op::Data(d));
    let mut v = vec![];
    v.extend(fits(build_packet(kind, &mk_header(w.peer(1, 9), 3, own, Message::Announce), None, &[])));
    v.push(Op::Gossip);
    v.push(Op::Broadcast);
    v.extend(fits(build_packet(
        kind,
        &mk_header(w.peer(2, 9), 0, own, Message::Gossip),
        Some(&[Member::new(w.peer(3, 9), 0, State::Alive)]),
        &[],
    )));
    v.extend(fits(build_packet(kind, &mk_header(w.peer(3, 9), 3, own, Message::Announce), None, &[])));
    v.push(Op::Gossip);
    v
}

fn run(t: &Tape, p: &Profile, cov: &mut Cov, rate: u32, flood: bool) -> R {
    let mut a = Ctx::new(t, p)?;
    let mut b = Inst::new(a.w.inst_cfg())?;
    let mut twin = Inst::new(a.w.inst_cfg())?;
    b.peek_incarnation()?;
    twin.peek_incarnation()?;
    let mut issued = Issued::default();
    let mut seen = 0;
    let mut dr = Draw::new(&t.cfg[10..]);
    let mut inserted = 0u32;
    let one = |a: &mut Ctx, b: &mut Inst, twin: &mut Inst, op: Op, fired: Option<Pend>| -> R {
        let st = a.step(op, fired)?;
        let sb = follow(b, &st)?;
        let stw = follow(twin, &st)?;
        if let Err(e) = same_step(&st, &stw) {
            return Err(format!("not deterministic: {e}"));
        }
        ensure!(st.post == stw.post, "not deterministic: {:?} vs {:?}", st.post, stw.post);
        if let Err(e) = same_step(&st, &sb) {
            return Err(format!("rejected inputs altered the rest of the history: {e}"));
        }
        ensure!(
            st.post == sb.post,
            "rejected inputs altered the rest of the history: {:?} vs {:?}",
            st.post,
            sb.post
        );
        let (ib, it) = (b.peek_incarnation()?, twin.peek_incarnation()?);
        ensure!(ib == a.inc && it == a.inc, "own incarnation {} vs {ib} vs {it}", a.inc);
        Ok(())
    };
    let squeeze = |a: &Ctx, b: &mut Inst, dr: &mut Draw<'_>, w: &mut World, issued: &Issued, n: u32, inserted: &mut u32, cov: &mut Cov| -> R {
        for _ in 0..n {
            if let Some((op, want, what)) = rejected(dr, w, b, a.inc, issued) {
                // one and the same, again and again
                let times = if flood { [2u32, 9, 17, 33, 65, 129, 257, 600][dr.usize(8)] } else { 1 };
                for _ in 0..times {
                    insert(b, op.clone(), want.clone(), what, cov)?;
                    *inserted += 1;
                }
                if times > 255 {
                    cov.hit("flood of more than 255");
                }
            }
        }
        Ok(())
    };
    // the generator of rejected inputs must not disturb that of the history
    let mut w2 = World::new(&t.cfg, p);
    for words in &t.ops {
        if dr.below(rate) == rate - 1 {
            let n = if flood { 1 } else { dr.range(1, 3) };
            w2.last_ping = a.w.last_ping;
            squeeze(&a, &mut b, &mut dr, &mut w2, &issued, n, &mut inserted, cov)?;
        }
        let Some((op, fired)) = a.next(words, p) else { continue };
        if let Some(f) = &fired {
            // keep the clocks and timer books of the others in step
            for o in [&mut b, &mut twin] {
                o.now = a.inst.now;
                o.pending.retain(|q| q.seq != f.seq);
            }
        }
        one(&mut a, &mut b, &mut twin, op, fired)?;
        issued.note(&a.inst, &mut seen);
    }
    squeeze(&a, &mut b, &mut dr, &mut w2, &issued, 3, &mut inserted, cov)?;
    for op in tail_ops(&a.inst, &a.w) {
        one(&mut a, &mut b, &mut twin, op, None)?;
    }
    if inserted > 0 {
        cov.nontrivial();
    }
    cov.add("rejected inputs inserted", inserted as u64);
    Ok(())
}

const P: Profile = Profile { tight: 1, ..BASE };

fn sparse(t: &Tape, cov: &mut Cov) -> R {
    run(t, &P, cov, 5, false)
}
fn dense(t: &Tape, cov: &mut Cov) -> R {
    run(t, &P, cov, 1, false)
}

fn floods(t: &Tape, cov: &mut Cov) -> R {
    run(t, &P, cov, 6, true)
}

/// Every truncation and every single-bit corruption of one datagram, thrown
/// in at one point.
fn corruptions(t: &Tape, cov: &mut Cov) -> R {
    let p = Profile { tight: 0, ..P };
    let mut a = Ctx::new(t, &p)?;
    let mut b = Inst::new(a.w.inst_cfg())?;
    b.peek_incarnation()?;
    for words in &t.ops {
        let Some((op, fired)) = a.next(words, &p) else { continue };
        if let Some(f) = &fired {
            b.now = a.inst.now;
            b.pending.retain(|q| q.seq != f.seq);
        }
        let st = a.step(op, fired)?;
        let sb = follow(&mut b, &st)?;
        b.peek_incarnation()?;
        if let Err(e) = same_step(&st, &sb) {
            return Err(format!("not deterministic: {e}"));
        }
    }
    let mut w2 = World::new(&t.cfg, &p);
    w2.last_ping = a.w.last_ping;
    let mut dr = Draw::new(&t.cfg[6..]);
    let base = w2.data(&mut dr, &a.inst, a.inc, &p);
    let kind = a.inst.kind;
    let own = a.inst.id();
    let max = a.inst.cfg.max_packet_size.get();
    let mut bad = vec![];
    for n in 0..base.len() {
        bad.push(base[..n].to_vec());
    }
    for i in 0..base.len() {
        for bit in 0..8 {
            let mut d = base.clone();
            d[i] ^= 1 << bit;
            bad.push(d);
        }
    }
    for d in bad {
        let v = classify(kind, &d, &own, max);
        let want = match &v {
            Verdict::TooBig => Err(ErrK::DataTooBig),
            Verdict::BadHeader | Verdict::BadMembers => Err(ErrK::Decode),
            Verdict::OwnSource => Err(ErrK::DataFromOurselves),
            Verdict::BadFraming => Err(ErrK::MalformedPacket),
            Verdict::NotForUs => Ok(None),
            Verdict::Ok(_) => continue,
        };
        insert(&mut b, Op::Data(d), want, v.name(), cov)?;
        cov.nontrivial();
    }
    for op in tail_ops(&a.inst, &a.w) {
        let st = a.step(op, None)?;
        let sb = follow(&mut b, &st)?;
        if let Err(e) = same_step(&st, &sb) {
            return Err(format!("rejected inputs altered the rest of the history: {e}"));
        }
        ensure!(st.post == sb.post, "rejected inputs altered the state: {:?} vs {:?}", st.post, sb.post);
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "Three instances with the same seed get the same history; one of them gets rejected inputs in between (every class of the \
            statement, aimed at the state it is in). Results, sends, timers, notifications, member order, backlogs and incarnation are \
            compared after every call. Non-trivial: at least one rejected input was inserted.",
        assumptions: &[
            "which datagrams are to be rejected is decided by the harness' own parser of the wire format",
        ],
        subs: vec![
            Sub { name: "sparse", quick: 200_000, thorough: 7_000_000, body: Body::Tape { min: 1, max: 60, f: sparse } },
            Sub { name: "dense", quick: 120_000, thorough: 4_000_000, body: Body::Tape { min: 1, max: 40, f: dense } },
            Sub { name: "floods", quick: 15_000, thorough: 500_000, body: Body::Tape { min: 1, max: 40, f: floods } },
            Sub { name: "corruptions", quick: 100_000, thorough: 3_000_000, body: Body::Tape { min: 0, max: 40, f: corruptions } },
        ],
    }
}
