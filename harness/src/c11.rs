//! C11: a suspicion timeout takes effect iff unrefuted; Down is final until
//! forgotten.
use std::collections::BTreeMap;

use foca::{Config, Member, Message, OwnedNotification as N, State, Timer};

use crate::codec::{build_packet, piggybacks, Mem};
use crate::drive::{drive, pkt, Ctx};
use crate::ensure;
use crate::gen::{mk_header, Profile, World, BASE};
use crate::id::Id;
use crate::inst::{Conn, Inst, Op, Pend, Step};
use crate::model::{is_active, recs_of, Fate, Model};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{Tape, CFGW};

#[derive(Default)]
struct Ghost {
    /// Down updates that came out of a timeout and still have to be gossiped
    owed: BTreeMap<u16, Id>,
    /// token seen in the timers of an epoch, before the current call
    token: Option<(foca::TimerToken, u32)>,
}

/// Is the timer one of the current epoch? None = cannot tell from outside.
fn current(g: &Ghost, st: &Step, token: foca::TimerToken) -> Option<bool> {
    if let Some(p) = &st.fired {
        return Some(p.epoch == st.epoch_pre);
    }
    match g.token {
        Some((k, e)) if e == st.epoch_pre => Some(k == token),
        _ => None,
    }
}

fn took_effect(g: &mut Ghost, st: &Step, rec: &Mem, cov: &mut Cov) -> R {
    let m = *rec.id();
    let dead = Member::new(m, rec.incarnation(), State::Down);
    ensure!(st.res.is_ok(), "the timeout of {rec:?} failed: {:?}", st.res);
    ensure!(
        st.post.rec(m.addr) == Some(&dead),
        "suspicion timeout of {rec:?} left the record at {:?}",
        st.post.rec(m.addr)
    );
    let mut want = recs_of(&st.pre);
    want.insert(m.addr, dead.clone());
    ensure!(recs_of(&st.post) == want, "the timeout of {m:?} changed other records");
    let last = want.values().all(|x| !is_active(x));
    let notes: Vec<_> = st.notes().cloned().collect();
    let mut want = vec![N::MemberDown(m)];
    if last && st.conn_pre == Conn::Active {
        want.push(N::Idle);
        cov.hit("timeout took the last member down");
    }
    ensure!(notes == want, "the timeout of {rec:?} notified {notes:?}, expected {want:?}");
    let timers: Vec<_> = st.timers().collect();
    ensure!(
        timers == vec![(&Timer::RemoveDown(m), st.cfg_pre.remove_down_after)],
        "the timeout of {rec:?} scheduled {timers:?}, expected only RemoveDown after {:?}",
        st.cfg_pre.remove_down_after
    );
    let n = st
        .sends
        .iter()
        .filter(|s| s.to == m && s.pkt.as_ref().is_ok_and(|p| p.header.message == Message::TurnUndead))
        .count();
    let want = usize::from(st.cfg_pre.notify_down_members);
    ensure!(
        n == want && st.sends.len() == want,
        "the timeout of {rec:?} sent {n} TurnUndead and {} datagrams, notify_down_members is {}",
        st.sends.len(),
        st.cfg_pre.notify_down_members
    );
    g.owed.insert(m.addr, m);
    Ok(())
}

fn monitor(g: &mut Ghost, st: &Step, c: &Ctx, cov: &mut Cov) -> R {
    let max = st.cfg_pre.max_packet_size.get();
    for (t, _) in st.timers() {
        let Timer::ChangeSuspectToDown { member_id, incarnation, .. } = t else { continue };
        if let Some(r) = st.post.rec(member_id.addr) {
            ensure!(
                r.id() != member_id || r.incarnation() != *incarnation || r.state() != State::Alive,
                "{t:?} scheduled although nothing suspects it: {r:?} is on record"
            );
        }
    }
    if let Op::Fire(t) = &st.op {
        match t {
            Timer::ChangeSuspectToDown { member_id, incarnation, token } => {
                let rec = st.pre.rec(member_id.addr);
                let cond = rec.is_some_and(|r| {
                    r.id() == member_id && r.incarnation() == *incarnation && is_active(r)
                });
                cov.nontrivial();
                match (cond, current(g, st, *token)) {
                    (true, Some(true)) => {
                        cov.hit("timeout due: takes effect");
                        took_effect(g, st, rec.unwrap(), cov)?;
                    }
                    (true, None) => cov.hit("timeout: epoch unknown"),
                    (c2, cur) => {
                        cov.hit(if cur == Some(false) {
                            "timeout of another epoch"
                        } else if !c2 {
                            match rec {
                                None => "timeout: address unknown",
                                Some(r) if r.id() != member_id => "timeout: other identity on record",
                                Some(r) if !is_active(r) => "timeout: already Down",
                                _ => "timeout: other incarnation on record",
                            }
                        } else {
                            "timeout: other"
                        });
                        ensure!(
                            st.no_effect() && st.res == Ok(None) && c.inc == c.inc_pre,
                            "{t:?} {} but had an effect: record {rec:?} -> {:?}, result {:?}, {:?}",
                            if c2 { "belongs to another epoch" } else { "does not match the record" },
                            st.post.rec(member_id.addr),
                            st.res,
                            st.evs
                        );
                    }
                }
            }
            Timer::RemoveDown(id) => {
                let mut want = recs_of(&st.pre);
                let hit = want.get(&id.addr).is_some_and(|r| r.id() == id && !is_active(r));
                if hit {
                    want.remove(&id.addr);
                    cov.hit("forgotten");
                    cov.nontrivial();
                } else {
                    cov.hit("forget-timer of something else");
                }
                ensure!(
                    recs_of(&st.post) == want && st.post.recs.len() == want.len(),
                    "RemoveDown({id:?}) turned {:?} into {:?}",
                    st.pre.sorted(),
                    st.post.sorted()
                );
                ensure!(
                    st.evs.is_empty() && st.res == Ok(None) && c.inc == c.inc_pre,
                    "RemoveDown({id:?}) had side effects: {:?} {:?}",
                    st.res,
                    st.evs
                );
                ensure!(
                    st.pre.active.len() == st.post.active.len() && st.post.num == st.pre.num,
                    "RemoveDown({id:?}) changed the active set"
                );
            }
            _ => {}
        }
    }
    let forgets = |id: &Id| matches!(&st.op, Op::Fire(Timer::RemoveDown(x)) if x == id);
    for m in st.pre.recs.iter() {
        match st.post.rec(m.id().addr) {
            None => ensure!(
                !is_active(m) && forgets(m.id()),
                "record {m:?} disappeared in {}",
                st.op.name()
            ),
            Some(n) if n.id() == m.id() => {
                ensure!(is_active(m) || !is_active(n), "{m:?} came back as {n:?} in {}", st.op.name())
            }
            Some(n) => {
                ensure!(
                    n.id().wins(m.id()),
                    "record {m:?} replaced by {n:?}, which does not supersede it"
                )
            }
        }
    }
    for n in st.post.recs.iter().filter(|n| !is_active(n)) {
        let was = st.pre.rec(n.id().addr).is_some_and(|m| m.id() == n.id() && !is_active(m));
        if !was {
            let k = st
                .timers()
                .filter(|(t, d)| **t == Timer::RemoveDown(*n.id()) && *d == st.cfg_pre.remove_down_after)
                .count();
            ensure!(k >= 1, "{n:?} became Down in {} and nothing will ever forget it", st.op.name());
            cov.hit("newly Down");
        }
    }
    // gossip that is owed
    for s in &st.sends {
        let p = pkt(s)?;
        if p.header.message != Message::Feed {
            for u in &p.updates {
                if u.state() == State::Down && g.owed.get(&u.id().addr) == Some(u.id()) {
                    g.owed.remove(&u.id().addr);
                    cov.hit("Down of a timeout gossiped");
                }
            }
        }
    }
    let mut m = Model::new(&st.pre, c.inc_pre, st.conn_pre);
    m.run(&st.op, c.inst.kind, max);
    for (u, f) in &m.fates {
        if !matches!(f, Fate::Kept | Fate::Lost) {
            g.owed.remove(&u.id().addr);
        }
    }
    for n in st.notes() {
        if let foca::OwnedNotification::Rejoin(i) = n {
            g.owed.remove(&i.addr);
        }
    }
    g.owed.remove(&st.post.id.addr);
    g.token = c.inst.token;
    Ok(())
}

fn drain(g: &mut Ghost, c: &mut Ctx, cov: &mut Cov) -> R {
    if g.owed.is_empty() {
        return Ok(());
    }
    cov.hit("Down of a timeout still to be gossiped at the end");
    let cfg = Config { max_packet_size: 16_000.try_into().unwrap(), ..c.inst.cfg.clone() };
    let peer = Id::new(777, 0, 0);
    for op in [
        Op::SetConfig(cfg),
        Op::Apply(vec![Member::new(peer, 0, State::Alive)], false),
        Op::Gossip,
    ] {
        let st = c.step(op, None)?;
        ensure!(st.res.is_ok(), "{} failed: {:?}", st.op.name(), st.res);
        for s in &st.sends {
            let p = pkt(s)?;
            if piggybacks(&p.header.message) {
                for u in &p.updates {
                    if u.state() == State::Down && g.owed.get(&u.id().addr) == Some(u.id()) {
                        g.owed.remove(&u.id().addr);
                    }
                }
            }
        }
    }
    ensure!(g.owed.is_empty(), "declared Down by a timeout but never gossiped: {:?}", g.owed.values());
    Ok(())
}

const P: Profile = Profile {
    w: [34, 26, 8, 4, 10, 1, 3, 1, 8, 1, 1, 1, 1, 2, 0],
    m: [6, 4, 2, 2, 2, 2, 4, 2, 12, 2, 2],
    max_addrs: 4,
    ..BASE
};

fn history(t: &Tape, cov: &mut Cov) -> R {
    let mut g = Ghost::default();
    let mut c = drive(t, &P, cov, &mut |st, c, cov| monitor(&mut g, st, c, cov))?;
    drain(&mut g, &mut c, cov)
}

// ---------------------------------------------------------------------------
// every combination of record, incarnation, identity generation, token and
// notify_down_members at firing time

const INCS: [u16; 4] = [0, 7, u16::MAX - 1, u16::MAX];

fn table_n(_: bool) -> u64 {
    // record: none or 3 generations x 3 states x 3 relative incarnations
    // x token (current, previous epoch, next) x notify x others (0,1 up,1 up 1 down)
    // x base incarnation x what happens between (nothing, header, update) x kinds
    28 * 3 * 2 * 3 * 4
}

fn table(i: u64, cov: &mut Cov) -> R {
    let mut x = i;
    let mut take = |n: u64| {
        let r = x % n;
        x /= n;
        r
    };
    let rec = take(28);
    let tok = take(3);
    let notify = take(2) == 1;
    let others = take(3);
    let base = INCS[take(4) as usize];
    let mut cfg = vec![0u32; CFGW];
    cfg[0] = ((i % 5) as u32) << 29;
    let mut w = World::new(&cfg, &BASE);
    w.config.notify_down_members = notify;
    w.kind = crate::codec::KINDS[(i % 5) as usize];
    let mut inst = Inst::new(w.inst_cfg())?;
    let inc = inst.peek_incarnation()?;
    let target = Id::new(5, 1, 0);
    let mut c = Ctx { w, inst: { inst.steps = 0; inst }, inc_pre: inc, inc, n: 0 };
    let mut g = Ghost::default();
    let run = |c: &mut Ctx, g: &mut Ghost, op: Op, p: Option<Pend>, cov: &mut Cov| -> Result<Step, String> {
        let st = c.step(op, p)?;
        monitor(g, &st, c, cov)?;
        Ok(st)
    };
    // two epochs: the first one ends in Idle
    let helper = Id::new(9, 0, 0);
    run(&mut c, &mut g, Op::Apply(vec![Member::new(helper, 0, State::Alive)], false), None, cov)?;
    let old = c.inst.token.map(|t| t.0).unwrap_or(0);
    run(&mut c, &mut g, Op::Apply(vec![Member::new(helper, 0, State::Down)], false), None, cov)?;
    let helper2 = Id::new(8, 0, 0);
    run(&mut c, &mut g, Op::Apply(vec![Member::new(helper2, 0, State::Alive)], false), None, cov)?;
    let (cur, ep) = match c.inst.token {
        Some(t) => t,
        None => return Err("an active instance scheduled no timers".into()),
    };
    ensure!(ep == c.inst.epoch && c.inst.conn == Conn::Active, "not active with an active member");
    // the record
    let gens = [0u16, 1, 2];
    if rec > 0 {
        let r = rec - 1;
        let gen = gens[(r % 3) as usize];
        let st = [State::Alive, State::Suspect, State::Down][((r / 3) % 3) as usize];
        let n = match (r / 9) % 3 {
            0 => base,
            1 => base.wrapping_add(1),
            _ => base.wrapping_sub(1),
        };
        run(&mut c, &mut g, Op::Apply(vec![Member::new(target.with_gen(gen), n, st)], false), None, cov)?;
    }
    match others {
        0 => {
            // only the record keeps the instance connected, if anything does
            let go = c.inst.snap().active.iter().any(|m| m.id().addr == target.addr);
            if go {
                run(&mut c, &mut g, Op::Apply(vec![Member::new(helper2, 0, State::Down)], false), None, cov)?;
            }
        }
        1 => {}
        _ => {
            run(&mut c, &mut g, Op::Apply(vec![Member::new(Id::new(4, 0, 0), 3, State::Down)], true), None, cov)?;
        }
    }
    ensure!(c.inst.epoch == ep, "the epoch moved on its own");
    let token = match tok {
        0 => cur,
        1 => old,
        _ => cur.wrapping_add(1),
    };
    let t = Timer::ChangeSuspectToDown { member_id: target, incarnation: base, token };
    let st = run(&mut c, &mut g, Op::Fire(t.clone()), None, cov)?;
    let went = st.notes().any(|n| matches!(n, N::MemberDown(_)));
    // again: whatever it was, now it is stale
    let st = run(&mut c, &mut g, Op::Fire(t), None, cov)?;
    ensure!(st.no_effect(), "the second firing had an effect: {:?}", st.evs);
    // a Down identity stays Down until forgotten, whoever says otherwise
    let before = c.inst.snap().rec(target.addr).cloned();
    let kind = c.inst.kind;
    let talk = |inst: &Inst, id: Id| {
        Op::Data(build_packet(kind, &mk_header(id, u16::MAX, inst.id(), Message::Gossip), None, &[]))
    };
    if let Some(r) = before.filter(|r| !is_active(r)) {
        let op = talk(&c.inst, *r.id());
        run(&mut c, &mut g, op, None, cov)?;
        let op = Op::Apply(vec![Member::new(*r.id(), u16::MAX, State::Alive)], true);
        run(&mut c, &mut g, op, None, cov)?;
        ensure!(!c.inst.snap().is_active(r.id()), "{r:?} became active again");
        for gen in 0..4 {
            let id = r.id().with_gen(gen);
            if id != *r.id() {
                run(&mut c, &mut g, Op::Fire(Timer::RemoveDown(id)), None, cov)?;
            }
        }
        run(&mut c, &mut g, Op::Fire(Timer::RemoveDown(*r.id())), None, cov)?;
        ensure!(c.inst.snap().rec(target.addr).is_none(), "RemoveDown did not forget {r:?}");
        let op = talk(&c.inst, *r.id());
        run(&mut c, &mut g, op, None, cov)?;
        ensure!(c.inst.snap().is_active(r.id()), "a forgotten identity could not rejoin");
        // and its old forget-timer is harmless now
        run(&mut c, &mut g, Op::Fire(Timer::RemoveDown(*r.id())), None, cov)?;
        cov.hit("Down, talked, forgotten, rejoined");
    }
    if went {
        cov.hit("table: took effect");
    }
    drain(&mut g, &mut c, cov)
}

// ---------------------------------------------------------------------------
// a suspicion really raised by a failed probe, then every kind of evidence (or
// none) before its timeout

const SITS: u64 = 14;
fn raised_n(_: bool) -> u64 {
    SITS * 2 * 2 * 3 * 5 * 2
}

fn raised(i: u64, cov: &mut Cov) -> R {
    let mut x = i;
    let mut take = |n: u64| {
        let r = x % n;
        x /= n;
        r
    };
    let sit = take(SITS);
    let notify = take(2) == 1;
    let alone = take(2) == 1;
    let base = [0u16, 41, u16::MAX - 1][take(3) as usize];
    let kind = crate::codec::KINDS[take(5) as usize];
    let via_data = take(2) == 1;
    let mut w = World::new(&vec![0u32; CFGW], &BASE);
    w.config.notify_down_members = notify;
    w.kind = kind;
    let mut inst = Inst::new(w.inst_cfg())?;
    let inc = inst.peek_incarnation()?;
    let mut c = Ctx { w, inst, inc_pre: inc, inc, n: 0 };
    let mut g = Ghost::default();
    let run = |c: &mut Ctx, g: &mut Ghost, op: Op, p: Option<Pend>, cov: &mut Cov| -> Result<Step, String> {
        let st = c.step(op, p)?;
        monitor(g, &st, c, cov)?;
        Ok(st)
    };
    let m = Id::new(5, 3, 0);
    let other = Id::new(6, 0, 0);
    run(&mut c, &mut g, Op::Apply(vec![Member::new(m, base, State::Alive)], false), None, cov)?;
    // first round starts, gets no answer; second round raises the suspicion
    let mut timeout = None;
    for _ in 0..8 {
        let Some(k) = c.inst.earliest() else { break };
        if matches!(c.inst.pending[k].t, Timer::ChangeSuspectToDown { .. }) {
            break;
        }
        let p = c.inst.take_pending(k);
        c.inst.now = c.inst.now.max(p.due);
        run(&mut c, &mut g, Op::Fire(p.t.clone()), Some(p), cov)?;
        if let Some(k) = c.inst.pending.iter().position(|p| matches!(p.t, Timer::ChangeSuspectToDown { .. })) {
            timeout = Some(c.inst.take_pending(k));
            break;
        }
    }
    let Some(timeout) = timeout else {
        return Err("an unanswered probe raised no suspicion".into());
    };
    if !alone {
        run(&mut c, &mut g, Op::Apply(vec![Member::new(other, 0, State::Alive)], false), None, cov)?;
    }
    let news = |c: &mut Ctx, g: &mut Ghost, ms: Vec<Mem>, cov: &mut Cov| -> Result<Step, String> {
        let op = if via_data {
            // from a third member, header and all
            let from = Id::new(7, 0, 0);
            let d = build_packet(kind, &mk_header(from, 0, c.inst.id(), Message::Gossip), Some(&ms), &[]);
            Op::Data(d)
        } else {
            Op::Apply(ms, true)
        };
        run(c, g, op, None, cov)
    };
    let hdr = |c: &mut Ctx, g: &mut Ghost, id: Id, inc: u16, cov: &mut Cov| -> Result<Step, String> {
        let d = build_packet(kind, &mk_header(id, inc, c.inst.id(), Message::Gossip), None, &[]);
        run(c, g, Op::Data(d), None, cov)
    };
    let hi = base.saturating_add(1);
    let mut expect = false;
    match sit {
        0 => expect = true,
        // talks, but at the incarnation that was suspected
        1 => {
            hdr(&mut c, &mut g, m, base, cov)?;
            expect = true;
        }
        2 => {
            hdr(&mut c, &mut g, m, hi, cov)?;
        }
        3 => {
            news(&mut c, &mut g, vec![Member::new(m, base, State::Alive)], cov)?;
            expect = true;
        }
        4 => {
            news(&mut c, &mut g, vec![Member::new(m, hi, State::Alive)], cov)?;
        }
        // suspected anew at a higher incarnation: another timeout's business
        5 => {
            news(&mut c, &mut g, vec![Member::new(m, hi, State::Suspect)], cov)?;
        }
        6 => {
            news(&mut c, &mut g, vec![Member::new(m, base, State::Suspect)], cov)?;
            expect = true;
        }
        7 => {
            news(&mut c, &mut g, vec![Member::new(m, 0, State::Down)], cov)?;
        }
        8 => {
            hdr(&mut c, &mut g, m.with_gen(4), base, cov)?;
        }
        9 => {
            news(&mut c, &mut g, vec![Member::new(m.with_gen(4), base, State::Suspect)], cov)?;
        }
        10 => {
            hdr(&mut c, &mut g, m.with_gen(2), hi, cov)?;
            expect = true;
        }
        // a new epoch, with the suspicion still standing
        11 => {
            let id = c.inst.id();
            run(&mut c, &mut g, Op::ChangeId(id.with_gen(id.gen + 1)), None, cov)?;
            news(&mut c, &mut g, vec![Member::new(Id::new(7, 0, 0), 0, State::Alive)], cov)?;
        }
        12 => {
            run(&mut c, &mut g, Op::Leave, None, cov)?;
        }
        _ => {
            // Down, forgotten, learned again at the same incarnation: the record
            // shows the very same thing
            news(&mut c, &mut g, vec![Member::new(other, 0, State::Alive), Member::new(m, base, State::Down)], cov)?;
            let epoch = c.inst.epoch;
            run(&mut c, &mut g, Op::Fire(Timer::RemoveDown(m)), None, cov)?;
            news(&mut c, &mut g, vec![Member::new(m.with_gen(1), base, State::Alive)], cov)?;
            let _ = epoch;
        }
    }
    let st = run(&mut c, &mut g, Op::Fire(timeout.t.clone()), Some(timeout.clone()), cov)?;
    let down = st.notes().any(|n| *n == N::MemberDown(m));
    ensure!(
        down == expect,
        "situation {sit}: the timeout {} the member Down",
        if down { "turned" } else { "did not turn" }
    );
    let st = run(&mut c, &mut g, Op::Fire(timeout.t.clone()), Some(timeout), cov)?;
    ensure!(st.no_effect(), "the second firing of the timeout had an effect: {:?}", st.evs);
    cov.hit(if expect { "raised: unrefuted" } else { "raised: cancelled" });
    drain(&mut g, &mut c, cov)
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        level: "exploration",
        rule: "Two complete tables: (1) the timeout fired against every combination of record (none or generation x state x relative \
            incarnation), base incarnation, token, notify_down_members and other members; (2) a suspicion raised by a really failed \
            probe followed by every kind of evidence. Then random histories dense in suspicion timeouts and forget-timers, genuine, \
            late, repeated, reordered and made up. Non-trivial: a suspicion timeout fired or a record was forgotten.",
        assumptions: &[
            "timers made up by the harness are only judged when the current epoch's token is known from timers the instance issued",
        ],
        subs: vec![
            Sub { name: "table", quick: 0, thorough: 0, body: Body::Enum { n: table_n, f: table } },
            Sub { name: "raised", quick: 0, thorough: 0, body: Body::Enum { n: raised_n, f: raised } },
            Sub { name: "history", quick: 800_000, thorough: 30_000_000, body: Body::Tape { min: 1, max: 60, f: history } },
        ],
    }
}
