//! C01: membership knowledge is a join-semilattice.
use std::collections::BTreeMap;

use foca::{Member, Message, State};

use crate::codec::{build_packet, Kind, Mem};
use crate::drive::{drive, Ctx};
use crate::gen::{mk_header, Profile, BASE};
use crate::id::Id;
use crate::inst::{Inst, Op, Snap, Step};
use crate::model::{m_apply, overrides, recs_of, Model, Recs};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{Draw, Tape};
use crate::{ensure, gen};

/// equality of records up to the incarnation next to Down
pub fn same_rec(a: &Mem, b: &Mem) -> bool {
    a.id() == b.id()
        && a.state() == b.state()
        && (a.state() == State::Down || a.incarnation() == b.incarnation())
}

pub fn diff_recs(a: &Recs, b: &Recs) -> Option<String> {
    for (k, x) in a {
        match b.get(k) {
            None => return Some(format!("address {k}: {x:?} vs nothing")),
            Some(y) if !same_rec(x, y) => return Some(format!("address {k}: {x:?} vs {y:?}")),
            _ => {}
        }
    }
    b.iter()
        .find(|(k, _)| !a.contains_key(*k))
        .map(|(k, y)| format!("address {k}: nothing vs {y:?}"))
}

/// The join of a collection of updates, computed without any notion of order.
pub fn join(us: &[Mem]) -> Recs {
    let mut by: BTreeMap<u16, Vec<&Mem>> = Default::default();
    for u in us {
        by.entry(u.id().addr).or_default().push(u);
    }
    let mut out = Recs::new();
    for (a, v) in by {
        let win = v.iter().map(|m| (m.id().gen, m.id().mode)).max().unwrap();
        let top: Vec<&&Mem> = v.iter().filter(|m| (m.id().gen, m.id().mode) == win).collect();
        let id = *top[0].id();
        let m = if top.iter().any(|m| m.state() == State::Down) {
            Member::new(id, 0, State::Down)
        } else {
            let inc = top.iter().map(|m| m.incarnation()).max().unwrap();
            let sus = top.iter().any(|m| m.incarnation() == inc && m.state() == State::Suspect);
            Member::new(id, inc, if sus { State::Suspect } else { State::Alive })
        };
        out.insert(a, m);
    }
    out
}

/// Every record only moves forward, except for RemoveDown forgetting exactly
/// the Down identity it names.
pub fn forward(st: &Step) -> R {
    let pre = recs_of(&st.pre);
    let post = recs_of(&st.post);
    for (a, x) in &pre {
        match post.get(a) {
            None => {
                let forgotten = matches!(&st.op, Op::Fire(foca::Timer::RemoveDown(i)) if i == x.id())
                    && x.state() == State::Down;
                ensure!(forgotten, "record {x:?} vanished during {}", st.op.name());
            }
            Some(y) if x.id() == y.id() => {
                ensure!(
                    x == y || overrides(x, y),
                    "record went from {x:?} to {y:?} during {}",
                    st.op.name()
                );
            }
            Some(y) => {
                ensure!(
                    y.id().wins(x.id()),
                    "record {x:?} replaced by {y:?}, which does not win the address conflict"
                );
            }
        }
    }
    Ok(())
}

fn check_step(st: &Step, inc_pre: u16, kind: Kind, cov: &mut Cov) -> R {
    forward(st)?;
    let mut m = Model::new(&st.pre, inc_pre, st.conn_pre);
    // whether a defunct instance still acts on news of its death is C08's
    m.react_defunct = st.post.id != st.pre.id;
    if m.run(&st.op, kind, st.cfg_pre.max_packet_size.get()) {
        let post = recs_of(&st.post);
        if let Some(d) = diff_recs(&m.recs, &post) {
            return Err(format!("after {}: expected vs actual record, {d}", st.op.name()));
        }
        for (_, f) in &m.fates {
            match f {
                crate::model::Fate::New => cov.hit("update: new address"),
                crate::model::Fate::Kept => cov.hit("update: no news"),
                crate::model::Fate::Changed => cov.hit("update: moved forward"),
                crate::model::Fate::Lost => cov.hit("update: lost the address conflict"),
                crate::model::Fate::Renamed(_) => cov.hit("update: superseded the identity"),
            }
        }
        if m.fates.iter().any(|(_, f)| !matches!(f, crate::model::Fate::New)) {
            cov.nontrivial();
        }
    } else if st.pre.sorted() != st.post.sorted() {
        cov.hit("timer moved a record");
    }
    Ok(())
}

const P: Profile = Profile { custom_items: false, ..BASE };
/// what becomes of an own address that was given up is not third-party news
const STAYS: Profile = Profile { moves: false, ..P };

fn history(t: &Tape, cov: &mut Cov) -> R {
    drive(t, &P, cov, &mut |st, c, cov| check_step(st, c.inc_pre, c.inst.kind, cov)).map(|_| ())
}

/// own full state, without what concerns the current identity itself
fn own_state(s: &Snap) -> Vec<Mem> {
    s.recs.iter().filter(|m| *m.id() != s.id).cloned().collect()
}

fn reapply(t: &Tape, cov: &mut Cov) -> R {
    let mut c = drive(t, &P, cov, &mut |_, _, _| Ok(()))?;
    let mut dr = Draw::new(&t.cfg[14..]);
    let snap = c.inst.snap();
    let mut us = own_state(&snap);
    if us.len() > 1 {
        cov.nontrivial();
    }
    if us.len() > 1 && dr.below(2) == 1 {
        let k = dr.usize(us.len());
        us.rotate_left(k);
    }
    let rep = dr.range(1, 2);
    for _ in 0..rep {
        let st = c.step(Op::Apply(us.clone(), dr.below(2) == 0), None)?;
        ensure!(
            st.pre.sorted() == st.post.sorted(),
            "re-applying the own full state changed it: {:?} -> {:?}",
            st.pre.sorted(),
            st.post.sorted()
        );
        ensure!(st.pre.id == st.post.id, "re-applying the own full state changed the identity");
        ensure!(
            st.pre.upd_backlog == st.post.upd_backlog,
            "re-applying the own full state queued updates ({} -> {})",
            st.pre.upd_backlog,
            st.post.upd_backlog
        );
        for n in st.notes() {
            let ok = matches!(n, foca::OwnedNotification::Active) && st.conn_pre == crate::inst::Conn::Idle;
            ensure!(ok, "re-applying the own full state notified {n:?}");
        }
        ensure!(st.sends.is_empty(), "re-applying the own full state sent datagrams");
    }
    Ok(())
}

fn same_state(a: &Snap, b: &Snap) -> Option<String> {
    diff_recs(&recs_of(a), &recs_of(b))
}

/// The same collection of updates, delivered in different orders, batches,
/// multiplicities and through different channels.
fn orders(t: &Tape, cov: &mut Cov) -> R {
    let w = gen::World::new(&t.cfg, &P);
    let base = Inst::new(w.inst_cfg())?;
    let senders = [w.peer(1, 0), w.peer(2, 1)];
    let mut us: Vec<Mem> = vec![];
    for words in &t.ops {
        let mut dr = Draw::new(words);
        let id = if dr.chance(1, 10) {
            // an identity that bears the own address but is not the current one
            w.own.with_gen(w.own.gen + 1 + dr.below(2) as u16)
        } else {
            w.peer(1 + dr.below(w.n_addrs) as u16, dr.below(w.max_gen + 1) as u16)
        };
        let inc = match dr.weighted(&[4, 4, 2, 1]) {
            0 => 0,
            1 => dr.below(4) as u16,
            2 => u16::MAX - dr.below(2) as u16,
            _ => dr.word() as u16,
        };
        us.push(Member::new(id, inc, w.state(&mut dr)));
    }
    drop(base);
    let mut told = us.clone();
    let use_data = t.cfg[20] % 2 == 1;
    if use_data {
        for s in senders {
            told.push(Member::new(s, 0, State::Alive));
        }
    }
    let norm = |m: &Mem| {
        if m.id().addr == w.own.addr {
            Member::new(*m.id(), 0, State::Down)
        } else {
            m.clone()
        }
    };
    let want = join(&told.iter().map(norm).collect::<Vec<_>>());
    if want.len() < told.len() {
        cov.nontrivial();
    }
    for variant in 0..3u32 {
        let mut inst = Inst::new(w.inst_cfg())?;
        let words = [t.cfg[21] ^ variant.wrapping_mul(0x9E3779B9), t.cfg[22], variant];
        let mut dr = Draw::new(&words);
        let mut seq = us.clone();
        if variant > 0 {
            // duplicates, then a shuffle
            for _ in 0..dr.below(1 + us.len() as u32) {
                let k = dr.usize(us.len());
                seq.push(us[k].clone());
            }
            for i in (1..seq.len()).rev() {
                let j = dr.usize(i + 1);
                seq.swap(i, j);
            }
        }
        let mut chunks: Vec<Vec<Mem>> = vec![];
        let mut i = 0;
        while i < seq.len() {
            let n = (1 + dr.usize(6)).min(seq.len() - i);
            chunks.push(seq[i..i + n].to_vec());
            i += n;
        }
        let mut trusted = use_data;
        for (n, ch) in chunks.iter().enumerate() {
            // a datagram's updates only count while its sender is active, so
            // they are applied again through the API when it is not
            if trusted && (n as u32 + variant) % 2 == 0 {
                let s = senders[dr.usize(2)];
                let h = mk_header(s, 0, w.own, Message::Gossip);
                let d = build_packet(w.kind, &h, Some(ch), &[]);
                if d.len() <= w.config.max_packet_size.get() {
                    inst.step(Op::Data(d), None)?;
                }
            }
            inst.step(Op::Apply(ch.clone(), dr.below(2) == 0), None)?;
        }
        if trusted {
            for s in senders {
                inst.step(Op::Apply(vec![Member::new(s, 0, State::Alive)], true), None)?;
            }
            trusted = false;
        }
        let _ = trusted;
        let got = recs_of(&inst.snap());
        if let Some(d) = diff_recs(&want, &got) {
            return Err(format!("order {variant}: the join vs the resulting record, {d}"));
        }
        let active = inst.snap().active;
        ensure!(
            active.len() == want.values().filter(|m| m.state() != State::Down).count(),
            "order {variant}: {} members listed as active, want those of {want:?}",
            active.len()
        );
    }
    Ok(())
}

/// Two instances with separate histories exchange full states.
fn exchange(t: &Tape, cov: &mut Cov) -> R {
    let half = t.ops.len() / 2;
    let ta = Tape { cfg: t.cfg.clone(), ops: t.ops[..half].to_vec() };
    let tb = Tape { cfg: t.cfg.clone(), ops: t.ops[half..].to_vec() };
    let mut a = drive(&ta, &STAYS, cov, &mut |_, _, _| Ok(()))?;
    // B lives at another address of the same world
    let mut bc = Ctx::new(&tb, &STAYS)?;
    let b_addr = 1 + (t.cfg[23] % (bc.w.n_addrs + 1)) as u16;
    let b_own = bc.w.peer(b_addr, (t.cfg[19] % 3) as u16);
    bc.w.own = b_own;
    bc.inst = Inst::new(bc.w.inst_cfg())?;
    for words in &tb.ops {
        let Some((op, fired)) = bc.next(words, &STAYS) else { continue };
        bc.step(op, fired)?;
    }
    let b = &mut bc;
    let mut dr = Draw::new(&t.cfg[16..]);
    let simultaneous = dr.below(2) == 1;
    let (bra, brb) = (dr.below(2) == 0, dr.below(2) == 0);
    let sa = a.inst.snap();
    let sb0 = b.inst.snap();
    if sa.recs.len() > 1 && sb0.recs.len() > 1 {
        cov.nontrivial();
    }
    let mut su = sa.recs.clone();
    // a member says nothing about itself in its own state, so the exchange is
    // carried in any order
    if dr.below(2) == 1 {
        su.reverse();
    }
    let st = b.step(Op::Apply(su, bra), None)?;
    forward(&st)?;
    let sb = if simultaneous { sb0 } else { b.inst.snap() };
    let st = a.step(Op::Apply(sb.recs.clone(), brb), None)?;
    forward(&st)?;
    let third = |s: Snap| -> Recs {
        recs_of(&s)
            .into_iter()
            .filter(|(k, _)| *k != a.w.own.addr && *k != b_addr)
            .collect()
    };
    let (ra, rb) = (third(a.inst.snap()), third(b.inst.snap()));
    if let Some(d) = diff_recs(&ra, &rb) {
        return Err(format!("after exchanging full states the two instances disagree, {d}"));
    }
    cov.hit(if simultaneous { "exchange: simultaneous" } else { "exchange: one after the other" });
    Ok(())
}

/// Every sequence of updates over a small universe about one address.
const UNIVERSE: u64 = 2 * 3 * 3;
fn universe(i: u64, w: u8) -> Mem {
    let st = [State::Alive, State::Suspect, State::Down][(i % 3) as usize];
    let inc = [0u16, 1, u16::MAX][((i / 3) % 3) as usize];
    let gen = (i / 9) as u16;
    Member::new(Id::new(1, gen, w), inc, st)
}
fn seq_count(thorough: bool) -> u64 {
    let k = if thorough { 4 } else { 3 };
    (1..=k).map(|e| UNIVERSE.pow(e)).sum()
}
fn sequences(mut i: u64, cov: &mut Cov) -> R {
    let mut len = 1;
    while i >= UNIVERSE.pow(len) {
        i -= UNIVERSE.pow(len);
        len += 1;
    }
    let mut us = vec![];
    for _ in 0..len {
        us.push(universe(i % UNIVERSE, 0));
        i /= UNIVERSE;
    }
    if len > 1 {
        cov.nontrivial();
    }
    let want = join(&us);
    let mut cfg = foca::Config::simple();
    cfg.notify_down_members = len % 2 == 0;
    let mk = || {
        Inst::new(crate::inst::InstCfg {
            id: Id::new(0, 0, 0),
            config: cfg.clone(),
            seed: 1,
            kind: Kind::Fixed,
            handler: crate::handler::HandlerCfg::permissive(),
        })
    };
    // one batch; one call each; one datagram each, from somebody else
    let mut a = mk()?;
    a.step(Op::Apply(us.clone(), true), None)?;
    let mut b = mk()?;
    let mut r = Recs::new();
    for u in &us {
        let st = b.step(Op::Apply(vec![u.clone()], false), None)?;
        forward(&st)?;
        m_apply(&mut r, u);
    }
    let mut c = mk()?;
    let s = Id::new(2, 0, 0);
    for u in &us {
        let h = mk_header(s, 0, Id::new(0, 0, 0), Message::Gossip);
        let st = c.step(Op::Data(build_packet(Kind::Fixed, &h, Some(std::slice::from_ref(u)), &[])), None)?;
        forward(&st)?;
    }
    if let Some(d) = diff_recs(&want, &r) {
        return Err(format!("harness: reference fold disagrees with the join: {d}"));
    }
    for (inst, how) in [(&a, "one batch"), (&b, "separate calls"), (&c, "datagrams")] {
        let mut got = recs_of(&inst.snap());
        got.remove(&2);
        if let Some(d) = diff_recs(&want, &got) {
            return Err(format!("{us:?} as {how}: the join vs the record, {d}"));
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: "A case is a generated history (datagrams, apply_many, timers in and out of order, API calls) \
            or a collection of updates delivered in several orders. Non-trivial: at least one update met a record \
            already known for its address (history), two updates share an address (orders), more than one record \
            in the re-applied / exchanged states, sequences longer than one (exhaustive).",
        assumptions: &[
            "identities compare, renew and resolve conflicts as Identity documents (a strict total order per address)",
            "updates about the instance's own current identity are not membership records and are excluded from order-independence",
        ],
        subs: vec![
            Sub { name: "sequences", quick: 0, thorough: 0, body: Body::Enum { n: seq_count, f: sequences } },
            Sub { name: "orders", quick: 600_000, thorough: 20_000_000, body: Body::Tape { min: 1, max: 16, f: orders } },
            Sub { name: "history", quick: 250_000, thorough: 9_000_000, body: Body::Tape { min: 1, max: 50, f: history } },
            Sub { name: "reapply", quick: 160_000, thorough: 5_000_000, body: Body::Tape { min: 1, max: 40, f: reapply } },
            Sub { name: "exchange", quick: 120_000, thorough: 4_000_000, body: Body::Tape { min: 2, max: 60, f: exchange } },
        ],
    }
}
