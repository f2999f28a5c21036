//! C15: how often, how long and in which order membership updates are gossiped.
use std::collections::BTreeMap;

use foca::{Member, Message, OwnedNotification, State};

use crate::codec::{member_len, msg_name, piggybacks, Kind, Mem};
use crate::drive::{drive, pkt, Ctx};
use crate::ensure;
use crate::gen::{mk_header, Profile, BASE};
use crate::id::Id;
use crate::inst::{Conn, Ev, Op, Step};
use crate::model::{recs_of, Fate, Model};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::Tape;

#[derive(Clone, Debug)]
struct Entry {
    m: Mem,
    /// no encoding of the update is longer than this
    len: usize,
    left: u32,
    sent: bool,
}

pub struct Ghost {
    by: BTreeMap<u16, Entry>,
    partial: bool,
    replaced: bool,
    drained: u64,
}

fn longest(kind: Kind, m: &Mem) -> usize {
    if m.state() != State::Down {
        return member_len(kind, m);
    }
    // the incarnation next to Down carries no meaning
    [0, m.incarnation(), u16::MAX]
        .iter()
        .map(|i| member_len(kind, &Member::new(*m.id(), *i, State::Down)))
        .max()
        .unwrap()
}

fn same(a: &Mem, b: &Mem) -> bool {
    a.id() == b.id()
        && a.state() == b.state()
        && (a.state() == State::Down || a.incarnation() == b.incarnation())
}

impl Ghost {
    pub fn new() -> Self {
        Ghost { by: BTreeMap::new(), partial: false, replaced: false, drained: 0 }
    }
    fn accept(&mut self, kind: Kind, m: &Mem, max_tx: u8, cov: &mut Cov) {
        cov.hit("update accepted for broadcast");
        let e = Entry { m: m.clone(), len: longest(kind, m), left: max_tx as u32, sent: false };
        if let Some(old) = self.by.insert(m.id().addr, e) {
            if old.sent {
                cov.hit("partly disseminated update superseded");
                self.replaced = true;
            }
        }
    }

    fn datagram(&mut self, s: &crate::inst::Sent, max: usize, cov: &mut Cov) -> R {
        let p = pkt(s)?;
        let h = &p.header.message;
        if !piggybacks(h) || *h == Message::Feed {
            if !self.by.is_empty() {
                cov.hit("datagram that consumes nothing, with a backlog");
            }
            return Ok(());
        }
        let space = max.saturating_sub(p.header_len + 2);
        let mut inc: BTreeMap<u16, (u32, usize)> = BTreeMap::new();
        for (m, l) in p.updates.iter().zip(&p.update_lens) {
            let Some(e) = self.by.get(&m.id().addr) else {
                return Err(format!(
                    "{} to {:?} carries {m:?}: nothing pending for that address (never accepted, or sent max_transmissions times already)",
                    msg_name(h),
                    s.to
                ));
            };
            ensure!(
                same(&e.m, m),
                "{} to {:?} carries {m:?}, the latest accepted is {:?}",
                msg_name(h),
                s.to,
                e.m
            );
            ensure!(
                inc.insert(m.id().addr, (e.left, *l)).is_none(),
                "address {} twice in one datagram",
                m.id().addr
            );
        }
        for (a, e) in &self.by {
            if inc.contains_key(a) {
                continue;
            }
            let before: usize = inc.values().filter(|(r, _)| *r >= e.left).map(|(_, l)| *l).sum();
            let all: usize = inc.values().map(|(_, l)| *l).sum();
            ensure!(
                e.len > space.saturating_sub(before),
                "{} to {:?} ({} bytes for updates, {} used) omits {:?} ({} transmissions left, at most {} bytes): it fits {}; carried: {:?}",
                msg_name(h),
                s.to,
                space,
                all,
                e.m,
                e.left,
                e.len,
                if e.len <= space.saturating_sub(all) { "in the space left" } else { "before those with fewer transmissions left" },
                p.updates
            );
            cov.hit("update did not fit");
            if !inc.is_empty() {
                self.partial = true;
                cov.hit("partial fit");
            }
        }
        for a in inc.keys() {
            let e = self.by.get_mut(a).unwrap();
            e.left -= 1;
            e.sent = true;
            cov.hit("transmission");
            if e.left == 0 {
                self.by.remove(a);
                self.drained += 1;
                cov.hit("update done after max_transmissions");
            }
        }
        Ok(())
    }

    pub fn step(&mut self, st: &Step, inc_pre: u16, kind: Kind, cov: &mut Cov) -> R {
        let tx = st.cfg_pre.max_transmissions.get();
        let max = st.cfg_pre.max_packet_size.get();
        let mut cur = st.pre.id;
        let mut dead = st.conn_pre == Conn::Defunct;
        let mut takeovers = vec![];
        if matches!(st.op, Op::Data(_) | Op::Apply(..)) {
            let mut m = Model::new(&st.pre, inc_pre, st.conn_pre);
            m.run(&st.op, kind, max);
            takeovers = m.takeovers;
        }
        // what this call accepts for broadcast
        match &st.op {
            Op::Data(_) | Op::Apply(_, true) => {
                let mut m = Model::new(&st.pre, inc_pre, st.conn_pre);
                m.run(&st.op, kind, max);
                for (u, f) in &m.fates {
                    if matches!(f, Fate::New | Fate::Changed | Fate::Renamed(_)) {
                        self.accept(kind, u, tx, cov);
                    }
                }
            }
            Op::Apply(_, false) => {
                if st.pre.recs != st.post.recs {
                    cov.hit("changed records without broadcasting");
                }
            }
            Op::Fire(_) => {
                let (a, b) = (recs_of(&st.pre), recs_of(&st.post));
                for (k, y) in &b {
                    if a.get(k) != Some(y) {
                        self.accept(kind, y, tx, cov);
                    }
                }
            }
            Op::Leave if st.res.is_ok() => {
                self.accept(kind, &Member::new(cur, 0, State::Down), tx, cov);
            }
            Op::ChangeId(n) if st.res.is_ok() => {
                if !dead {
                    self.accept(kind, &Member::new(cur, 0, State::Down), tx, cov);
                }
                cur = *n;
                dead = false;
            }
            _ => {}
        }
        let mut sends = st.sends.iter().peekable();
        for (i, e) in st.evs.iter().enumerate() {
            let rename = |g: &mut Ghost, n: Id, cur: &mut Id, dead: &mut bool, cov: &mut Cov| {
                if n != *cur {
                    if !*dead {
                        g.accept(kind, &Member::new(*cur, 0, State::Down), tx, cov);
                    }
                    *cur = n;
                    *dead = false;
                    for (to, was) in &takeovers {
                        if *to == n && *was != n {
                            g.accept(kind, &Member::new(*was, 0, State::Down), tx, cov);
                            cov.hit("took over somebody's address");
                        }
                    }
                }
            };
            match e {
                Ev::Send { .. } => {
                    let Some(s) = sends.next_if(|s| s.at == i) else { continue };
                    let p = pkt(s)?;
                    rename(self, p.header.src, &mut cur, &mut dead, cov);
                    self.datagram(s, max, cov)?;
                }
                Ev::Note(OwnedNotification::Rejoin(n)) => rename(self, *n, &mut cur, &mut dead, cov),
                Ev::Note(OwnedNotification::Defunct) => dead = true,
                _ => {}
            }
        }
        ensure!(
            st.post.upd_backlog == self.by.len(),
            "{} updates in the backlog after {}, accounting says {}: {:?}",
            st.post.upd_backlog,
            st.op.name(),
            self.by.len(),
            self.by.values().collect::<Vec<_>>()
        );
        Ok(())
    }
}

fn finish(c: &mut Ctx, g: &mut Ghost, cov: &mut Cov) -> R {
    // drains what is left, in packets of the size at hand and roomy ones
    let kind = c.inst.kind;
    let mut run = |c: &mut Ctx, op: Op, cov: &mut Cov| -> R {
        let st = c.step(op, None)?;
        g.step(&st, c.inc_pre, kind, cov)
    };
    for _ in 0..3 {
        run(c, Op::Gossip, cov)?;
    }
    let mut cfg = c.inst.cfg.clone();
    cfg.max_packet_size = 16_000.try_into().unwrap();
    run(c, Op::SetConfig(cfg), cov)?;
    if c.inst.conn == Conn::Defunct {
        return Ok(());
    }
    // whoever asks gets an answer, with updates piggybacked
    let peer = Id::new(777, 0, 0);
    let mut left = 40;
    loop {
        let own = c.inst.id();
        let h = mk_header(peer, 0, own, Message::Ping(7));
        let d = crate::codec::build_packet(kind, &h, None, &[]);
        run(c, Op::Data(d), cov)?;
        left -= 1;
        if c.inst.foca.updates_backlog() == 0 {
            cov.hit("case drained to an empty backlog");
            break;
        }
        if left == 0 {
            break;
        }
    }
    for _ in 0..2 {
        run(c, Op::Gossip, cov)?;
    }
    Ok(())
}

const P: Profile = Profile {
    w: [40, 14, 3, 1, 2, 2, 12, 2, 12, 2, 1, 2, 2, 4, 1],
    self_last: true,
    tight: 1,
    ..BASE
};

const CROWD: Profile = Profile {
    w: [34, 10, 2, 1, 1, 2, 22, 2, 24, 2, 1, 1, 1, 2, 0],
    m: [10, 4, 3, 3, 3, 2, 4, 3, 10, 3, 1],
    self_last: true,
    tight: 2,
    max_addrs: 24,
    own_pct: 4,
    ..BASE
};

fn run(t: &Tape, p: &Profile, cov: &mut Cov) -> R {
    let mut g = Ghost::new();
    let mut c = drive(t, p, cov, &mut |st, c, cov| g.step(st, c.inc_pre, c.inst.kind, cov))?;
    finish(&mut c, &mut g, cov)?;
    if g.partial || g.replaced || g.drained > 0 {
        cov.nontrivial();
    }
    if g.partial {
        cov.hit("case with partial fits");
    }
    Ok(())
}

fn history(t: &Tape, cov: &mut Cov) -> R {
    run(t, &P, cov)
}
fn crowd(t: &Tape, cov: &mut Cov) -> R {
    run(t, &CROWD, cov)
}

/// One backlog of arbitrary sizes and remaining counts, datagrams of
/// arbitrary space.
fn space(t: &Tape, cov: &mut Cov) -> R {
    use crate::tape::Draw;
    let mut c = Ctx::new(t, &CROWD)?;
    let mut g = Ghost::new();
    let kind = c.inst.kind;
    let mut serial = 0u16;
    for words in &t.ops {
        let mut dr = Draw::new(words);
        let op = match dr.below(5) {
            0 | 1 => {
                let n = dr.range(1, 4);
                let v = (0..n)
                    .map(|_| {
                        serial += 1;
                        let a = 1 + dr.below(24) as u16;
                        Member::new(c.w.peer(a, dr.below(3) as u16), serial, State::Alive)
                    })
                    .collect();
                Op::Apply(v, dr.below(6) != 5)
            }
            2 => {
                let mut cfg = c.inst.cfg.clone();
                cfg.max_packet_size = (c.w.base_hdr + dr.range(0, 90) as usize).max(1).try_into().unwrap();
                if dr.below(3) == 0 {
                    cfg.max_transmissions = (1 + dr.below(6) as u8).try_into().unwrap();
                }
                Op::SetConfig(cfg)
            }
            3 => Op::Gossip,
            _ => {
                let s = c.inst.snap();
                let Some(m) = s.active.get(dr.usize(s.active.len().max(1))) else { continue };
                let msg = match dr.below(5) {
                    0 | 1 => Message::Ping(3),
                    2 => Message::Announce,
                    3 => Message::PingReq { target: c.w.peer(1, 0), probe_number: 1 },
                    _ => Message::IndirectPing { origin: c.w.peer(2, 0), probe_number: 1 },
                };
                let h = mk_header(*m.id(), 0, s.id, msg);
                let d = crate::codec::build_packet(kind, &h, None, &[]);
                if d.len() > c.inst.cfg.max_packet_size.get() {
                    continue;
                }
                Op::Data(d)
            }
        };
        let st = c.step(op, None)?;
        g.step(&st, c.inc_pre, kind, cov)?;
    }
    finish(&mut c, &mut g, cov)?;
    if g.partial {
        cov.nontrivial();
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        level: "exploration",
        rule: "A shadow backlog (latest accepted update per address, transmissions left) is kept from the inputs alone and compared with \
            updates_backlog() after every call and with the update section of every datagram: content, at most once per address, \
            nothing omitted that fits, precedence, exact lifetime. Non-trivial: some update was fully disseminated, superseded half-way, \
            or left out of a datagram that carried others.",
        assumptions: &[
            "updates about the instance itself come last within one datagram or batch",
            "what a timer accepts for broadcast is read off the change of the membership records",
            "an update whose encoding depends on an irrelevant incarnation next to Down is taken to be as long as it can be",
        ],
        subs: vec![
            Sub { name: "history", quick: 300_000, thorough: 10_000_000, body: Body::Tape { min: 1, max: 60, f: history } },
            Sub { name: "crowd", quick: 150_000, thorough: 5_000_000, body: Body::Tape { min: 1, max: 60, f: crowd } },
            Sub { name: "space", quick: 200_000, thorough: 8_000_000, body: Body::Tape { min: 2, max: 60, f: space } },
        ],
    }
}
