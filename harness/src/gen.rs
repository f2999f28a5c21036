//! Decodes tapes into worlds (identities, configuration, codec) and operations.
use std::num::{NonZeroU8, NonZeroUsize};
use std::time::Duration;

use foca::{Config, Header, Member, Message, PeriodicParams, State, Timer};

use crate::codec::{build_packet, header_len, member_len, piggybacks, Kind, Mem, Msg, KINDS};
use crate::handler::{HandlerCfg, N_REL};
use crate::id::{Id, MOVES, RENEW_NEXT, RENEW_NONE};
use crate::inst::{Inst, InstCfg, Op, Pend, Step};
use crate::tape::Draw;

pub const CLASSES: usize = 15;

/// What a check wants its histories to be made of.
#[derive(Clone, Copy)]
pub struct Profile {
    /// data, timer in order, timer out of order, timer again, crafted timer,
    /// announce, gossip, broadcast, apply_many, add_broadcast, leave,
    /// change_identity, reuse_down_identity, set_config, junk bytes
    pub w: [u32; CLASSES],
    /// message kinds: ping ack pingreq iping iack fack announce feed gossip broadcast turnundead
    pub m: [u32; 11],
    /// updates about the instance itself come last in a datagram or batch
    pub self_last: bool,
    /// suspicion timers may be fed to the instance repeatedly/crafted
    pub custom_items: bool,
    /// packet sizes: 0 roomy only, 1 roomy and tight, 2 mostly tight
    pub tight: u32,
    pub max_addrs: u32,
    /// percent of updates that concern an identity bearing the own address
    pub own_pct: u32,
    /// allow the handler to fail
    pub handler_errs: bool,
    /// datagrams whose broadcasts break off
    pub bad_tails: bool,
    pub handler: bool,
    /// own identities that renew to another address, too
    pub moves: bool,
}

pub const BASE: Profile = Profile {
    w: [48, 16, 4, 2, 2, 2, 3, 2, 6, 3, 1, 1, 2, 2, 0],
    m: [6, 8, 3, 3, 3, 6, 4, 3, 10, 3, 2],
    self_last: false,
    custom_items: true,
    tight: 1,
    max_addrs: 6,
    own_pct: 12,
    handler_errs: true,
    bad_tails: true,
    handler: true,
    moves: true,
};

pub struct World {
    pub kind: Kind,
    pub own: Id,
    pub n_addrs: u32,
    pub max_gen: u32,
    pub modes: Vec<u8>,
    pub config: Config,
    pub handler: HandlerCfg,
    pub seed: u64,
    pub base_hdr: usize,
    pub serial: u32,
    /// the last Ping this instance sent: target, number
    pub last_ping: Option<(Id, u8)>,
    pub asked: Vec<Id>,
}

fn d(ms: u64) -> Duration {
    Duration::from_millis(ms)
}
fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n.max(1)).unwrap()
}

impl World {
    pub fn new(w: &[u32], p: &Profile) -> World {
        let mut c = Draw::new(w);
        let kind = match c.weighted(&[4, 4, 2, 1, 2, 1]) {
            5 => Kind::Tiny,
            k => KINDS[k],
        };
        let n_addrs = c.range(1, p.max_addrs);
        let max_gen = c.range(0, 3);
        let len_rule = (c.below(6) as u8) << 2;
        let mut modes = vec![];
        // own renew behaviour first
        let own_mode = [RENEW_NONE, RENEW_NEXT, RENEW_NEXT, 2, 3][c.usize(5)] | len_rule;
        let own_mode = if own_mode & 3 == RENEW_NEXT && p.moves && c.chance(1, 12) { own_mode | MOVES } else { own_mode };
        modes.push(own_mode);
        for _ in 0..p.max_addrs {
            modes.push((c.below(4) as u8) | len_rule);
        }
        if kind == Kind::Tiny {
            modes.fill(RENEW_NONE);
        }
        let own = Id::new(0, c.below(3) as u16, modes[0]);
        let k = [1usize, 2, 3, 4, 1, 2, 3, 4, 2, 60][c.usize(10)];
        let max_tx = [1u8, 2, 3, 5, 10, 255][c.usize(6)];
        let s2d = [3000, 1, 400, 1500, 10_000][c.usize(5)];
        let rda = [20_000, 1000, 5000, 120_000][c.usize(4)];
        let notify = c.below(2) == 1;
        let per = |c: &mut Draw<'_>, f: &[u64]| {
            if c.below(2) == 1 {
                Some(PeriodicParams {
                    frequency: d(f[c.usize(f.len())]),
                    num_members: nz([1, 2, 3, 1, 2, 3, 1, 30, 1000][c.usize(9)]),
                })
            } else {
                None
            }
        };
        let pa = per(&mut c, &[30_000, 2000, 700]);
        let pad = per(&mut c, &[65_000, 3000, 900]);
        let pg = per(&mut c, &[200, 1000, 1500]);
        // largest header any identity of this world can produce
        let mut base_hdr = 0;
        let mut maxid = own;
        let moved = if own_mode & MOVES != 0 { 1000..1040 } else { 0..0 };
        for a in (0..=p.max_addrs as u16).chain(moved) {
            for g in 0..24 {
                let i = Id::new(a, g, modes[if a < 1000 { a as usize } else { 0 }]);
                let h = mk_header(i, u16::MAX, i, Message::PingReq { target: i, probe_number: 255 });
                let l = header_len(kind, &h);
                if l > base_hdr {
                    base_hdr = l;
                    maxid = i;
                }
            }
        }
        let ml = member_len(kind, &Member::new(maxid, u16::MAX, State::Down));
        let tight = match p.tight {
            0 => false,
            1 => c.chance(1, 3),
            _ => c.chance(4, 5),
        };
        let slack = match c.below(4) {
            0 => c.range(0, 6) as usize,
            1 => 2 + ml + c.usize(4),
            2 => 2 + ml * (1 + c.usize(5)) + c.usize(ml.max(1)),
            _ => c.range(0, 140) as usize,
        };
        let size = if tight {
            base_hdr + slack
        } else {
            [1400usize, 1400, 500, 4000, 1400, 1400, 500, 4000, 1400, 1400, 1400, 70_000][c.usize(12)]
        };
        let handler = if p.handler {
            HandlerCfg {
                rel: c.below(N_REL) as u8,
                policy: c.below(3) as u8,
                mask: if c.chance(1, 2) { c.word() as u16 } else { 0xffff },
                errs: p.handler_errs && c.chance(1, 3),
            }
        } else {
            HandlerCfg::permissive()
        };
        let seed = c.u64();
        let config = Config {
            probe_period: d(1500),
            probe_rtt: d(500),
            num_indirect_probes: nz(k),
            max_transmissions: NonZeroU8::new(max_tx).unwrap(),
            suspect_to_down_after: d(s2d),
            remove_down_after: d(rda),
            max_packet_size: nz(size),
            notify_down_members: notify,
            periodic_announce: pa,
            periodic_announce_to_down_members: pad,
            periodic_gossip: pg,
        };
        World {
            kind,
            own,
            n_addrs,
            max_gen,
            modes,
            config,
            handler,
            seed,
            base_hdr,
            serial: 0,
            last_ping: None,
            asked: vec![],
        }
    }

    pub fn inst_cfg(&self) -> InstCfg {
        InstCfg {
            id: self.own,
            config: self.config.clone(),
            seed: self.seed,
            kind: self.kind,
            handler: self.handler,
        }
    }

    /// follows the probe rounds so that plausible evidence can be made up
    pub fn observe(&mut self, st: &Step) {
        for s in &st.sends {
            if let Ok(p) = &s.pkt {
                match &p.header.message {
                    Message::Ping(n) => {
                        self.last_ping = Some((s.to, *n));
                        self.asked.clear();
                    }
                    Message::PingReq { .. } => self.asked.push(s.to),
                    _ => {}
                }
            }
        }
    }

    pub fn peer(&self, a: u16, g: u16) -> Id {
        Id::new(a, g, self.modes[(a as usize) % self.modes.len()])
    }

    /// an identity of another member: often exactly the one on record
    pub fn other(&self, dr: &mut Draw<'_>, inst: &Inst) -> Id {
        let own = inst.id();
        if own.mode & crate::id::MOVES != 0 && dr.chance(1, 5) {
            // somebody where the instance will move to, or was
            if let Some(next) = crate::id::rejoin_target(&own).filter(|n| n.addr != own.addr) {
                return match dr.below(4) {
                    0 | 1 => next,
                    2 => next.with_gen(dr.below(5) as u16),
                    _ => Id::new(next.addr, dr.below(3) as u16, 0),
                };
            }
        }
        let a = 1 + dr.below(self.n_addrs) as u16;
        let g = dr.below(self.max_gen + 1) as u16;
        if dr.below(2) == 0 {
            if let Some(m) = inst.foca.iter_membership_state().find(|m| m.id().addr == a) {
                return *m.id();
            }
        }
        self.peer(a, g)
    }

    /// an identity bearing the own address (0 = the current one)
    pub fn own_addr(&self, dr: &mut Draw<'_>, cur: Id) -> Id {
        match dr.below(4) {
            0 | 1 => cur,
            2 => cur.with_gen(cur.gen.saturating_sub(1 + dr.below(2) as u16)),
            _ => cur.with_gen(cur.gen.saturating_add(1 + dr.below(2) as u16)),
        }
    }

    pub fn inc(&self, dr: &mut Draw<'_>, inst: &Inst, id: &Id, own_inc: u16) -> u16 {
        let known = if *id == inst.id() {
            own_inc
        } else {
            inst.foca
                .iter_membership_state()
                .find(|m| m.id() == id)
                .map(|m| m.incarnation())
                .unwrap_or(0)
        };
        match dr.weighted(&[6, 6, 3, 2, 2, 1, 1, 1]) {
            0 => 0,
            1 => known,
            2 => known.saturating_add(1),
            3 => known.saturating_sub(1),
            4 => dr.range(0, 4) as u16,
            5 => u16::MAX - 1,
            6 => u16::MAX,
            _ => dr.word() as u16,
        }
    }

    pub fn state(&self, dr: &mut Draw<'_>) -> State {
        match dr.weighted(&[5, 4, 3]) {
            0 => State::Alive,
            1 => State::Suspect,
            _ => State::Down,
        }
    }

    pub fn member(&self, dr: &mut Draw<'_>, inst: &Inst, own_inc: u16, own_pct: u32) -> Mem {
        let id = if dr.chance(own_pct, 100) {
            self.own_addr(dr, inst.id())
        } else {
            self.other(dr, inst)
        };
        let inc = self.inc(dr, inst, &id, own_inc);
        let st = self.state(dr);
        Member::new(id, inc, st)
    }

    pub fn members(&self, dr: &mut Draw<'_>, inst: &Inst, own_inc: u16, p: &Profile, max: u32) -> Vec<Mem> {
        let n = dr.below(max + 1);
        let mut v: Vec<Mem> = (0..n).map(|_| self.member(dr, inst, own_inc, p.own_pct)).collect();
        if p.self_last {
            self.order_self_last(&mut v, inst.id());
        }
        v
    }

    /// keeps at most one update about the instance's own identity, at the end
    pub fn order_self_last(&self, v: &mut Vec<Mem>, own: Id) {
        let mut selfs: Vec<Mem> = v.iter().filter(|m| *m.id() == own).cloned().collect();
        v.retain(|m| *m.id() != own);
        if let Some(s) = selfs.pop() {
            v.push(s);
        }
    }

    pub fn item(&mut self, dr: &mut Draw<'_>, max_len: usize) -> Vec<u8> {
        let len = 1 + match dr.below(4) {
            0 => dr.usize(3),
            1 => dr.usize(8),
            2 => dr.usize(40),
            _ => dr.usize(max_len.max(1)),
        };
        let len = len.min(max_len.max(1));
        self.serial += 1;
        let mut v = vec![dr.below(12) as u8, dr.below(6) as u8];
        if self.handler.errs && dr.chance(1, 16) {
            v[0] = crate::handler::ERR_ITEM;
        }
        v.extend_from_slice(&self.serial.to_be_bytes());
        while v.len() < len {
            v.push(v.len() as u8);
        }
        v.truncate(len);
        v
    }

    pub fn message(&self, dr: &mut Draw<'_>, inst: &Inst, p: &Profile) -> Msg {
        let n = match self.last_ping {
            Some((_, n)) => match dr.weighted(&[8, 1, 1, 1]) {
                0 => n,
                1 => n.wrapping_sub(1),
                2 => n.wrapping_add(1),
                _ => dr.word() as u8,
            },
            None => dr.below(4) as u8,
        };
        let third = |dr: &mut Draw<'_>| {
            if dr.chance(1, 8) {
                self.own_addr(dr, inst.id())
            } else if dr.chance(1, 2) {
                match self.last_ping {
                    Some((t, _)) => t,
                    None => self.other(dr, inst),
                }
            } else {
                self.other(dr, inst)
            }
        };
        match dr.weighted(&p.m) {
            0 => Message::Ping(n),
            1 => Message::Ack(n),
            2 => Message::PingReq { target: third(dr), probe_number: n },
            3 => Message::IndirectPing { origin: third(dr), probe_number: n },
            4 => Message::IndirectAck { target: third(dr), probe_number: n },
            5 => Message::ForwardedAck { origin: third(dr), probe_number: n },
            6 => Message::Announce,
            7 => Message::Feed,
            8 => Message::Gossip,
            9 => Message::Broadcast,
            _ => Message::TurnUndead,
        }
    }

    pub fn data(&mut self, dr: &mut Draw<'_>, inst: &Inst, own_inc: u16, p: &Profile) -> Vec<u8> {
        let message = self.message(dr, inst, p);
        let mut src = self.other(dr, inst);
        // evidence usually comes from those it was asked from
        match &message {
            Message::Ack(_) if dr.below(3) != 2 => {
                if let Some((t, _)) = self.last_ping {
                    src = t;
                }
            }
            Message::ForwardedAck { .. } if dr.below(3) != 2 && !self.asked.is_empty() => {
                src = self.asked[dr.usize(self.asked.len())];
            }
            _ => {}
        }
        if dr.chance(1, 40) {
            src = self.own_addr(dr, inst.id());
        }
        let src_incarnation = self.inc(dr, inst, &src, own_inc);
        let dst = if dr.chance(1, 16) {
            if dr.below(3) == 0 {
                self.other(dr, inst)
            } else {
                self.own_addr(dr, inst.id())
            }
        } else {
            inst.id()
        };
        let max = inst.cfg.max_packet_size.get();
        let mut updates = if piggybacks(&message) && dr.below(4) != 0 {
            let mut u = self.members(dr, inst, own_inc, p, 5);
            if p.self_last {
                self.order_self_last(&mut u, inst.id());
            }
            Some(u)
        } else {
            None
        };
        let mut items = vec![];
        if p.custom_items && !matches!(message, Message::Announce | Message::TurnUndead) && dr.chance(1, 3) {
            let n = dr.range(1, 3);
            for _ in 0..n {
                items.push(self.item(dr, 60));
            }
        }
        let h = mk_header(src, src_incarnation, dst, message);
        if updates.is_none() && piggybacks(&h.message) && !items.is_empty() {
            updates = Some(vec![]);
        }
        // broadcasts that break off, now and then
        let tail: &[u8] = if p.bad_tails && !matches!(h.message, Message::Announce | Message::TurnUndead) && dr.chance(1, 24) {
            if updates.is_none() && piggybacks(&h.message) {
                updates = Some(vec![]);
            }
            [&[7u8][..], &[0, 0], &[0, 0, 0], &[0, 9, 1, 2], &[0, 0, 1, 2, 3], &[255, 255, 1, 2, 3]][dr.usize(6)]
        } else {
            &[]
        };
        loop {
            let mut b = build_packet(self.kind, &h, updates.as_deref(), &items);
            if b.len() <= max {
                if b.len() + tail.len() <= max {
                    b.extend_from_slice(tail);
                }
                return b;
            }
            if items.pop().is_some() {
                continue;
            }
            match &mut updates {
                Some(u) if !u.is_empty() => {
                    u.remove(0);
                }
                Some(_) => updates = None,
                None => return b,
            }
        }
    }

    /// Some(op) for the block, or None when the block has nothing to act upon
    pub fn op(&mut self, w: &[u32], inst: &mut Inst, own_inc: u16, p: &Profile) -> Option<(Op, Option<Pend>)> {
        let mut dr = Draw::new(w);
        let dr = &mut dr;
        let class = dr.weighted(&p.w);
        Some(match class {
            0 => (Op::Data(self.data(dr, inst, own_inc, p)), None),
            1 => {
                // next in deadline order, possibly late
                let i = inst.earliest()?;
                let pe = inst.take_pending(i);
                let late = match dr.below(6) {
                    5 => dr.range(0, 8_000_000) as u64,
                    4 => dr.range(0, 300_000) as u64,
                    _ => 0,
                };
                inst.now = inst.now.max(pe.due).saturating_add(late);
                (Op::Fire(pe.t.clone()), Some(pe))
            }
            2 => {
                if inst.pending.is_empty() {
                    return None;
                }
                let i = dr.usize(inst.pending.len());
                let pe = inst.take_pending(i);
                inst.now = inst.now.max(pe.due);
                (Op::Fire(pe.t.clone()), Some(pe))
            }
            3 => {
                if inst.spent.is_empty() {
                    return None;
                }
                let i = dr.usize(inst.spent.len());
                let pe = inst.spent[i].clone();
                (Op::Fire(pe.t.clone()), Some(pe))
            }
            4 => (Op::Fire(self.crafted_timer(dr, inst, own_inc)), None),
            5 => {
                let to = if dr.chance(1, 10) {
                    self.own_addr(dr, inst.id())
                } else {
                    self.other(dr, inst)
                };
                (Op::Announce(to), None)
            }
            6 => (Op::Gossip, None),
            7 => (Op::Broadcast, None),
            8 => {
                let v = self.members(dr, inst, own_inc, p, 6);
                (Op::Apply(v, dr.below(4) != 3), None)
            }
            9 => {
                let max = inst.cfg.max_packet_size.get().saturating_sub(self.base_hdr);
                let mut it = self.item(dr, max.clamp(1, 300));
                if max > 5000 && dr.chance(1, 6) {
                    // lengths that take both bytes of the prefix
                    let n = match dr.below(6) {
                        0 => 250 + dr.usize(12),
                        1 => 32_760 + dr.usize(16),
                        2 => 65_530 + dr.usize(6),
                        3 => 65_536 + dr.usize(3),
                        _ => 300 + dr.usize(66_000),
                    };
                    let fill = it.len() as u8;
                    it.resize(n.min(max), fill);
                }
                (Op::AddBc(it), None)
            }
            10 => (Op::Leave, None),
            11 => {
                let cur = inst.id();
                let to = match dr.below(4) {
                    // a later generation
                    0 | 1 => cur.with_gen(cur.gen.saturating_add(1)),
                    2 => cur.with_gen(dr.below(6) as u16),
                    _ => cur.with_gen(cur.gen.saturating_sub(1)),
                };
                (Op::ChangeId(to), None)
            }
            12 => (Op::Reuse, None),
            13 => (Op::SetConfig(self.new_config(dr, inst)), None),
            _ => {
                let n = dr.range(0, 40) as usize;
                let v = (0..n).map(|_| dr.word() as u8).collect();
                (Op::Data(v), None)
            }
        })
    }

    pub fn crafted_timer(&self, dr: &mut Draw<'_>, inst: &Inst, own_inc: u16) -> Timer<Id> {
        let token = match inst.token {
            Some((k, _)) => match dr.weighted(&[6, 1, 1, 1]) {
                0 => k,
                1 => k.wrapping_add(1),
                2 => k.wrapping_sub(1),
                _ => dr.below(256) as foca::TimerToken,
            },
            None => dr.below(3) as foca::TimerToken,
        };
        let id = match dr.below(8) {
            7 => self.own_addr(dr, inst.id()),
            6 => match self.last_ping {
                Some((t, _)) => t,
                None => self.other(dr, inst),
            },
            _ => self.other(dr, inst),
        };
        match dr.weighted(&[6, 3, 1, 1, 1, 1, 1]) {
            0 => Timer::ChangeSuspectToDown {
                member_id: id,
                incarnation: self.inc(dr, inst, &id, own_inc),
                token,
            },
            1 => Timer::RemoveDown(id),
            2 => Timer::SendIndirectProbe { probed_id: id, token },
            3 => Timer::ProbeRandomMember(token),
            4 => Timer::PeriodicAnnounce(token),
            5 => Timer::PeriodicAnnounceDown(token),
            _ => Timer::PeriodicGossip(token),
        }
    }

    /// a configuration `set_config` accepts, or (rarely) refuses
    pub fn new_config(&self, dr: &mut Draw<'_>, inst: &Inst) -> Config {
        let mut c = inst.cfg.clone();
        for _ in 0..dr.range(1, 3) {
            match dr.below(9) {
                0 => c.num_indirect_probes = nz(dr.range(1, 4) as usize),
                1 => c.max_transmissions = NonZeroU8::new([1u8, 2, 3, 7, 255][dr.usize(5)]).unwrap(),
                2 => c.suspect_to_down_after = d([3000, 1, 500, 9000][dr.usize(4)]),
                3 => c.remove_down_after = d([20_000, 500, 4000][dr.usize(3)]),
                4 => {
                    let base = self.base_hdr;
                    c.max_packet_size = nz(match dr.below(3) {
                        0 => 1400,
                        1 => base + dr.range(0, 80) as usize,
                        _ => base + dr.range(0, 2000) as usize,
                    });
                }
                5 => c.notify_down_members = !c.notify_down_members,
                6 => {
                    c.periodic_announce = match (&c.periodic_announce, dr.below(2)) {
                        (Some(_), 0) => Some(PeriodicParams { frequency: d(1300), num_members: nz(2) }),
                        (Some(_), _) => None,
                        (None, _) => None,
                    }
                }
                7 => {
                    c.periodic_gossip = match (&c.periodic_gossip, dr.below(2)) {
                        (Some(_), 0) => Some(PeriodicParams { frequency: d(350), num_members: nz(2) }),
                        (Some(_), _) => None,
                        (None, _) => None,
                    }
                }
                _ => {
                    c.periodic_announce_to_down_members = match (&c.periodic_announce_to_down_members, dr.below(2)) {
                        (Some(_), 0) => Some(PeriodicParams { frequency: d(1700), num_members: nz(1) }),
                        (Some(_), _) => None,
                        (None, _) => None,
                    }
                }
            }
        }
        if dr.chance(1, 10) {
            match dr.below(3) {
                0 => c.probe_period = d(1501),
                1 => c.probe_rtt = d(501),
                _ => {
                    if c.periodic_gossip.is_none() {
                        c.periodic_gossip = Some(PeriodicParams { frequency: d(350), num_members: nz(2) });
                    } else {
                        c.probe_rtt = d(499);
                    }
                }
            }
        }
        c
    }
}

pub fn mk_header(src: Id, inc: u16, dst: Id, message: Msg) -> Header<Id> {
    Header { src, src_incarnation: inc, dst, message }
}
