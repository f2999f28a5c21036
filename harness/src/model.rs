//! The membership rules written out from SWIM (section 4.2) and Foca's
//! documentation, independently of Foca's code: what a record becomes, and what
//! an instance has to do about news concerning itself.
use std::collections::BTreeMap;

use foca::{Member, Message, State};

use crate::codec::{wire_header, wire_member, Hdr, Kind, Mem};
use crate::id::{rejoin_target, Id};
use crate::inst::{Conn, Op, Snap};

pub fn is_active(m: &Mem) -> bool {
    m.state() != State::Down
}

/// Does `new` take over `old` for one and the same identity?
pub fn overrides(old: &Mem, new: &Mem) -> bool {
    let rank = |m: &Mem| (m.incarnation(), u8::from(m.state() == State::Suspect));
    if old.state() == State::Down {
        false
    } else if new.state() == State::Down {
        true
    } else {
        rank(new) > rank(old)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fate {
    /// first thing heard about the address
    New,
    Kept,
    Changed,
    /// the update's identity lost to the one on record
    Lost,
    Renamed(Id),
}

pub type Recs = BTreeMap<u16, Mem>;

pub fn recs_of(s: &Snap) -> Recs {
    s.recs.iter().map(|m| (m.id().addr, m.clone())).collect()
}

pub fn m_apply(recs: &mut Recs, upd: &Mem) -> Fate {
    match recs.get(&upd.id().addr) {
        None => {
            recs.insert(upd.id().addr, upd.clone());
            Fate::New
        }
        Some(old) if old.id() == upd.id() => {
            if overrides(old, upd) {
                recs.insert(upd.id().addr, upd.clone());
                Fate::Changed
            } else {
                Fate::Kept
            }
        }
        Some(old) => {
            if old.id().wins(upd.id()) {
                Fate::Lost
            } else {
                let o = *old.id();
                recs.insert(upd.id().addr, upd.clone());
                Fate::Renamed(o)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Trig {
    Rejoin(Id),
    Defunct,
}

#[derive(Clone, Debug)]
pub struct Accepted {
    pub header: Hdr,
    pub updates: Vec<Mem>,
    /// whole items found before the tail turned bad (if it did)
    pub items: Vec<Vec<u8>>,
    pub tail_ok: bool,
}

#[derive(Clone, Debug)]
pub enum Verdict {
    TooBig,
    BadHeader,
    OwnSource,
    BadFraming,
    NotForUs,
    BadMembers,
    Ok(Accepted),
}

impl Verdict {
    pub fn name(&self) -> &'static str {
        match self {
            Verdict::TooBig => "too big",
            Verdict::BadHeader => "undecodable header",
            Verdict::OwnSource => "own identity or address as source",
            Verdict::BadFraming => "malformed right after the header",
            Verdict::NotForUs => "not addressed to us",
            Verdict::BadMembers => "undecodable member list",
            Verdict::Ok(_) => "accepted",
        }
    }
    pub fn rejected(&self) -> bool {
        !matches!(self, Verdict::Ok(_))
    }
}

pub fn classify(kind: Kind, data: &[u8], own: &Id, max: usize) -> Verdict {
    if data.len() > max {
        return Verdict::TooBig;
    }
    let Ok((header, n)) = wire_header(kind, data) else {
        return Verdict::BadHeader;
    };
    if header.src.addr == own.addr {
        return Verdict::OwnSource;
    }
    let mut rest = &data[n..];
    if rest.len() == 1 || (header.message == Message::Announce && !rest.is_empty()) {
        return Verdict::BadFraming;
    }
    let for_us = header.dst == *own
        || (header.message == Message::Announce && header.dst.addr == own.addr);
    if !for_us {
        return Verdict::NotForUs;
    }
    let mut updates = vec![];
    if rest.len() >= 2 && header.message != Message::Broadcast {
        let n = u16::from_be_bytes([rest[0], rest[1]]);
        rest = &rest[2..];
        for _ in 0..n {
            match wire_member(kind, rest) {
                Ok((m, l)) => {
                    updates.push(m);
                    rest = &rest[l..];
                }
                Err(_) => return Verdict::BadMembers,
            }
        }
    }
    let mut items = vec![];
    let mut tail_ok = true;
    while !rest.is_empty() {
        if rest.len() < 3 {
            tail_ok = false;
            break;
        }
        let l = u16::from_be_bytes([rest[0], rest[1]]) as usize;
        if l == 0 || rest.len() < 2 + l {
            tail_ok = false;
            break;
        }
        items.push(rest[2..2 + l].to_vec());
        rest = &rest[2 + l..];
    }
    Verdict::Ok(Accepted { header, updates, items, tail_ok })
}

/// Predicts what one call does to the membership and to the instance itself.
pub struct Model {
    pub id: Id,
    /// own incarnation (exact when the caller knows it, else a lower bound)
    pub inc: u16,
    pub conn: Conn,
    pub recs: Recs,
    pub trigs: Vec<Trig>,
    /// triggers that happened while already Defunct: reacting is optional
    pub optional: Vec<bool>,
    pub fates: Vec<(Mem, Fate)>,
    /// active members whose address the instance took over by renewing, with
    /// the identity it renewed to
    pub takeovers: Vec<(Id, Id)>,
    /// incarnations of the suspicions about the own identity, in order, with
    /// the identity they were about
    pub suspicions: Vec<(Id, u16)>,
    pub sender_active: Option<bool>,
    /// whether a change of the own record's death was learned
    pub told_down: bool,
    /// whether news of its own death still move an instance that is Defunct
    pub react_defunct: bool,
}

impl Model {
    pub fn new(s: &Snap, inc: u16, conn: Conn) -> Self {
        Self {
            id: s.id,
            inc,
            conn,
            recs: recs_of(s),
            trigs: vec![],
            optional: vec![],
            fates: vec![],
            takeovers: vec![],
            suspicions: vec![],
            sender_active: None,
            told_down: false,
            react_defunct: true,
        }
    }
    pub fn num_active(&self) -> usize {
        self.recs.values().filter(|m| is_active(m)).count()
    }
    fn die(&mut self) {
        let was_defunct = self.conn == Conn::Defunct;
        if was_defunct && !self.react_defunct {
            return;
        }
        self.optional.push(was_defunct);
        match rejoin_target(&self.id) {
            Some(n) => {
                self.trigs.push(Trig::Rejoin(n));
                self.id = n;
                self.inc = 0;
                self.conn = Conn::Idle;
                if let Some(r) = self.recs.get_mut(&n.addr).filter(|r| is_active(r)) {
                    let was = *r.id();
                    *r = Member::new(was, 0, State::Down);
                    self.takeovers.push((n, was));
                }
            }
            None => {
                self.trigs.push(Trig::Defunct);
                self.conn = Conn::Defunct;
            }
        }
    }
    pub fn self_news(&mut self, inc: u16, st: State) {
        match st {
            State::Alive => {}
            State::Suspect => {
                self.suspicions.push((self.id, inc));
                if inc >= self.inc {
                    if inc == u16::MAX {
                        self.die();
                    } else {
                        self.inc = inc + 1;
                    }
                }
            }
            State::Down => {
                self.told_down = true;
                self.die();
            }
        }
    }
    pub fn update(&mut self, u: &Mem) {
        if *u.id() == self.id {
            self.self_news(u.incarnation(), u.state());
        } else {
            let u = if u.id().addr == self.id.addr {
                Member::new(*u.id(), 0, State::Down)
            } else {
                u.clone()
            };
            let f = m_apply(&mut self.recs, &u);
            self.fates.push((u, f));
        }
    }
    pub fn adjust(&mut self) {
        match self.conn {
            Conn::Idle if self.num_active() > 0 => self.conn = Conn::Active,
            Conn::Active if self.num_active() == 0 => self.conn = Conn::Idle,
            _ => {}
        }
    }
    pub fn many(&mut self, us: &[Mem]) {
        for u in us {
            self.update(u);
        }
        self.adjust();
    }
    pub fn data(&mut self, a: &Accepted) {
        let u = Member::new(a.header.src, a.header.src_incarnation, State::Alive);
        let f = m_apply(&mut self.recs, &u);
        self.fates.push((u, f));
        let active = f != Fate::Lost && is_active(&self.recs[&a.header.src.addr]);
        self.sender_active = Some(active);
        if active {
            self.many(&a.updates);
            if a.header.message == Message::TurnUndead {
                if self.conn == Conn::Active {
                    self.self_news(0, State::Down);
                } else if self.conn == Conn::Defunct {
                    // may be ignored: there is nothing left to learn
                    self.self_news(0, State::Down);
                }
            }
        } else if a.header.message == Message::TurnUndead {
            self.self_news(0, State::Down);
        }
    }
    /// Predicts data and apply_many; other calls are left to the caller.
    /// Returns false when `op` is not predicted.
    pub fn run(&mut self, op: &Op, kind: Kind, max: usize) -> bool {
        match op {
            Op::Data(d) => {
                if let Verdict::Ok(a) = classify(kind, d, &self.id.clone(), max) {
                    self.data(&a);
                }
                true
            }
            Op::Apply(us, _) => {
                self.many(us);
                true
            }
            _ => false,
        }
    }
}
