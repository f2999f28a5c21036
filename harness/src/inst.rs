//! One real Foca instance, driven through its public API only, with every
//! effect recorded and the state it exposes snapshotted around every call.
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Duration;

use foca::{Config, Foca, Notification, OwnedNotification, Runtime, Timer};
use rand::{rngs::SmallRng, SeedableRng};

use crate::codec::{parse_packet, AnyCodec, Kind, Mem, Packet};
use crate::handler::{Handler, HandlerCfg, Key};
use crate::id::Id;

pub type Log = Rc<RefCell<Vec<Ev>>>;
pub type Note = OwnedNotification<Id>;
pub type F = Foca<Id, AnyCodec, SmallRng, Handler>;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Send { to: Id, data: Vec<u8> },
    Timer { t: Timer<Id>, after: Duration },
    Note(Note),
    Item { data: Vec<u8>, sender: Option<Id>, key: Option<Key>, err: bool },
}

/// The recording runtime
pub struct Rt {
    pub log: Log,
}

impl Runtime<Id> for Rt {
    fn notify(&mut self, n: Notification<'_, Id>) {
        // notifications that only exist under `unstable-notifications` are
        // not part of what is checked, C08's comparison of runtimes excepted
        #[cfg(feature = "allfeat")]
        if ALL_NOTES.with(|a| a.borrow().is_some()) {
            let o = match &n {
                Notification::DataReceived(h) => Some(OwnedNotification::DataReceived((*h).clone())),
                Notification::DataSent(h) => Some(OwnedNotification::DataSent((*h).clone())),
                Notification::ProbeFailed(k, i) => Some(OwnedNotification::ProbeFailed(*k, **i)),
                _ => None,
            };
            if let Some(o) = o {
                all_notes(o);
                return;
            }
        }
        let n = match n {
            Notification::MemberUp(a) => OwnedNotification::MemberUp(*a),
            Notification::MemberDown(a) => OwnedNotification::MemberDown(*a),
            Notification::Rename(a, b) => OwnedNotification::Rename(*a, *b),
            Notification::Active => OwnedNotification::Active,
            Notification::Idle => OwnedNotification::Idle,
            Notification::Defunct => OwnedNotification::Defunct,
            Notification::Rejoin(a) => OwnedNotification::Rejoin(*a),
            #[allow(unreachable_patterns)]
            _ => return,
        };
        all_notes(n.clone());
        self.log.borrow_mut().push(Ev::Note(n));
    }
    fn send_to(&mut self, to: Id, data: &[u8]) {
        self.log.borrow_mut().push(Ev::Send { to, data: data.to_vec() });
    }
    fn submit_after(&mut self, t: Timer<Id>, after: Duration) {
        self.log.borrow_mut().push(Ev::Timer { t, after });
    }
}

thread_local! {
    /// every notification, when somebody wants them
    pub static ALL_NOTES: std::cell::RefCell<Option<Vec<Note>>> = const { std::cell::RefCell::new(None) };
}
fn all_notes(n: Note) {
    ALL_NOTES.with(|a| {
        if let Some(v) = a.borrow_mut().as_mut() {
            v.push(n);
        }
    });
}

pub struct NullRt;
impl Runtime<Id> for NullRt {
    fn notify(&mut self, _: Notification<'_, Id>) {}
    fn send_to(&mut self, _: Id, _: &[u8]) {}
    fn submit_after(&mut self, _: Timer<Id>, _: Duration) {}
}

#[derive(Clone, Debug)]
pub enum Op {
    Data(Vec<u8>),
    /// fire the timer; the pending entry (if any) was taken out by the driver
    Fire(Timer<Id>),
    Announce(Id),
    Gossip,
    Broadcast,
    Apply(Vec<Mem>, bool),
    AddBc(Vec<u8>),
    Leave,
    ChangeId(Id),
    Reuse,
    SetConfig(Config),
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Data(_) => "data",
            Op::Fire(t) => timer_name(t),
            Op::Announce(_) => "announce",
            Op::Gossip => "gossip",
            Op::Broadcast => "broadcast",
            Op::Apply(_, true) => "apply_many",
            Op::Apply(_, false) => "apply_many(no broadcast)",
            Op::AddBc(_) => "add_broadcast",
            Op::Leave => "leave_cluster",
            Op::ChangeId(_) => "change_identity",
            Op::Reuse => "reuse_down_identity",
            Op::SetConfig(_) => "set_config",
        }
    }
}

pub fn timer_name(t: &Timer<Id>) -> &'static str {
    match t {
        Timer::ProbeRandomMember(_) => "timer:ProbeRandomMember",
        Timer::SendIndirectProbe { .. } => "timer:SendIndirectProbe",
        Timer::ChangeSuspectToDown { .. } => "timer:ChangeSuspectToDown",
        Timer::PeriodicAnnounce(_) => "timer:PeriodicAnnounce",
        Timer::PeriodicAnnounceDown(_) => "timer:PeriodicAnnounceDown",
        Timer::PeriodicGossip(_) => "timer:PeriodicGossip",
        Timer::RemoveDown(_) => "timer:RemoveDown",
    }
}

pub fn timer_token(t: &Timer<Id>) -> Option<foca::TimerToken> {
    match t {
        Timer::ProbeRandomMember(k)
        | Timer::SendIndirectProbe { token: k, .. }
        | Timer::ChangeSuspectToDown { token: k, .. }
        | Timer::PeriodicAnnounce(k)
        | Timer::PeriodicAnnounceDown(k)
        | Timer::PeriodicGossip(k) => Some(*k),
        Timer::RemoveDown(_) => None,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrK {
    DataTooBig,
    Encode,
    Decode,
    MalformedPacket,
    CustomBroadcast,
    DataFromOurselves,
    IndirectForOurselves,
    SameIdentity,
    NotUndead,
    NotConnected,
    IncompleteProbeCycle,
    InvalidConfig,
    Other,
}

pub fn errk(e: &foca::Error) -> ErrK {
    use foca::Error as E;
    match e {
        E::DataTooBig => ErrK::DataTooBig,
        E::Encode(_) => ErrK::Encode,
        E::Decode(_) => ErrK::Decode,
        E::MalformedPacket => ErrK::MalformedPacket,
        E::CustomBroadcast(_) => ErrK::CustomBroadcast,
        E::DataFromOurselves => ErrK::DataFromOurselves,
        E::IndirectForOurselves => ErrK::IndirectForOurselves,
        E::SameIdentity => ErrK::SameIdentity,
        E::NotUndead => ErrK::NotUndead,
        E::NotConnected => ErrK::NotConnected,
        E::IncompleteProbeCycle => ErrK::IncompleteProbeCycle,
        E::InvalidConfig => ErrK::InvalidConfig,
        #[allow(unreachable_patterns)]
        _ => ErrK::Other,
    }
}

/// Ok(Some(b)) for add_broadcast, Ok(None) for the rest
pub type Res = Result<Option<bool>, ErrK>;

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub id: Id,
    /// as iterated
    pub recs: Vec<Mem>,
    pub active: Vec<Mem>,
    pub num: usize,
    pub upd_backlog: usize,
    pub cb_backlog: usize,
}

impl Snap {
    pub fn rec(&self, addr: u16) -> Option<&Mem> {
        self.recs.iter().find(|m| m.id().addr == addr)
    }
    pub fn is_active(&self, id: &Id) -> bool {
        self.active.iter().any(|m| m.id() == id)
    }
    pub fn sorted(&self) -> Vec<Mem> {
        let mut v = self.recs.clone();
        v.sort_by_key(|m| *m.id());
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Conn {
    Idle,
    Active,
    Defunct,
}

#[derive(Clone, Debug)]
pub struct Pend {
    pub t: Timer<Id>,
    pub due: u64,
    pub epoch: u32,
    pub seq: u64,
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub to: Id,
    pub data: Vec<u8>,
    pub pkt: Result<Packet, String>,
    /// index in evs
    pub at: usize,
}

pub struct Step {
    pub op: Op,
    /// the pending entry fired, when the timer was really issued
    pub fired: Option<Pend>,
    pub pre: Snap,
    pub post: Snap,
    pub cfg_pre: Config,
    pub res: Res,
    pub evs: Vec<Ev>,
    pub sends: Vec<Sent>,
    pub conn_pre: Conn,
    pub conn_post: Conn,
    pub epoch_pre: u32,
    pub epoch_post: u32,
}

impl Step {
    pub fn notes(&self) -> impl Iterator<Item = &Note> {
        self.evs.iter().filter_map(|e| match e {
            Ev::Note(n) => Some(n),
            _ => None,
        })
    }
    pub fn timers(&self) -> impl Iterator<Item = (&Timer<Id>, Duration)> {
        self.evs.iter().filter_map(|e| match e {
            Ev::Timer { t, after } => Some((t, *after)),
            _ => None,
        })
    }
    pub fn items(&self) -> impl Iterator<Item = &Ev> {
        self.evs.iter().filter(|e| matches!(e, Ev::Item { .. }))
    }
    /// nothing observable happened at all
    pub fn no_effect(&self) -> bool {
        self.evs.is_empty() && self.pre == self.post
    }
    pub fn describe(&self, kind: Kind) -> String {
        describe_op(&self.op, kind)
    }
}

pub fn describe_op(op: &Op, kind: Kind) -> String {
    match op {
        Op::Data(d) => match crate::codec::wire_header(kind, d) {
            Ok((h, n)) => format!("handle_data({h:?} + {} bytes: {:02x?})", d.len() - n, &d[n..d.len().min(n + 96)]),
            Err(_) => format!("handle_data({} undecodable bytes)", d.len()),
        },
        o => format!("{o:?}"),
    }
}

thread_local! {
    pub static IN_FOCA: Cell<bool> = const { Cell::new(false) };
    pub static TRACE: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs a call into foca. Err = it panicked.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_FOCA.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_FOCA.with(|c| c.set(false));
    r.map_err(|_| {
        let m = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
        format!("foca panicked: {m}")
    })
}

pub fn micros(d: Duration) -> u64 {
    u64::try_from(d.as_micros()).unwrap_or(u64::MAX)
}

pub struct InstCfg {
    pub id: Id,
    pub config: Config,
    pub seed: u64,
    pub kind: Kind,
    pub handler: HandlerCfg,
}

pub struct Inst {
    pub foca: F,
    pub log: Log,
    pub kind: Kind,
    pub cfg: Config,
    pub hcfg: HandlerCfg,
    pub conn: Conn,
    pub epoch: u32,
    pub pending: Vec<Pend>,
    /// last delivered timers, to be fed again as duplicates / stale
    pub spent: Vec<Pend>,
    pub now: u64,
    pub seq: u64,
    /// last token seen in a timer, with the epoch it belongs to
    pub token: Option<(foca::TimerToken, u32)>,
    pub steps: u64,
}

impl Inst {
    pub fn new(c: InstCfg) -> Result<Self, String> {
        let log: Log = Default::default();
        let config = c.config.clone();
        let hl = log.clone();
        let foca = guarded(|| {
            Foca::with_custom_broadcast(
                c.id,
                config,
                SmallRng::seed_from_u64(c.seed),
                AnyCodec(c.kind),
                Handler::new(c.handler, hl),
            )
        })?;
        Ok(Self {
            foca,
            log,
            kind: c.kind,
            cfg: c.config,
            hcfg: c.handler,
            conn: Conn::Idle,
            epoch: 0,
            pending: vec![],
            spent: vec![],
            now: 0,
            seq: 0,
            token: None,
            steps: 0,
        })
    }

    pub fn id(&self) -> Id {
        *self.foca.identity()
    }

    pub fn snap(&self) -> Snap {
        Snap {
            id: *self.foca.identity(),
            recs: self.foca.iter_membership_state().cloned().collect(),
            active: self.foca.iter_members().cloned().collect(),
            num: self.foca.num_members(),
            upd_backlog: self.foca.updates_backlog(),
            cb_backlog: self.foca.custom_broadcast_backlog(),
        }
    }

    /// (identity, incarnation) as carried by the headers of this instance:
    /// an Announce is sent into the void. It carries no updates and reads no
    /// randomness.
    pub fn peek_incarnation(&mut self) -> Result<u16, String> {
        let log: Log = Default::default();
        let mut rt = Rt { log: log.clone() };
        let dst = Id::new(60_000, 0, 0);
        let f = &mut self.foca;
        let wanted = ALL_NOTES.with(|a| a.borrow_mut().take());
        let r = guarded(|| f.announce(dst, &mut rt));
        ALL_NOTES.with(|a| *a.borrow_mut() = wanted);
        if let Err(e) = r? {
            return Err(format!("announce failed: {e:?}"));
        }
        for e in log.borrow().iter() {
            if let Ev::Send { data, .. } = e {
                let (h, _) = crate::codec::wire_header(self.kind, data)
                    .map_err(|e| format!("announce header does not decode: {e}"))?;
                return Ok(h.src_incarnation);
            }
        }
        Err("announce sent nothing".into())
    }

    /// Raw call: no bookkeeping beyond the log
    pub fn raw(&mut self, op: &Op) -> Result<Res, String> {
        let mut rt = Rt { log: self.log.clone() };
        let f = &mut self.foca;
        guarded(|| {
            let m = |r: Result<(), foca::Error>| r.map(|_| None).map_err(|e| errk(&e));
            match op {
                Op::Data(d) => m(f.handle_data(d, &mut rt)),
                Op::Fire(t) => m(f.handle_timer(t.clone(), &mut rt)),
                Op::Announce(d) => m(f.announce(*d, &mut rt)),
                Op::Gossip => m(f.gossip(&mut rt)),
                Op::Broadcast => m(f.broadcast(&mut rt)),
                Op::Apply(u, b) => m(f.apply_many(u.iter().cloned(), *b, &mut rt)),
                Op::AddBc(d) => f.add_broadcast(d).map(Some).map_err(|e| errk(&e)),
                Op::Leave => m(f.leave_cluster(&mut rt)),
                Op::ChangeId(i) => m(f.change_identity(*i, &mut rt)),
                Op::Reuse => m(f.reuse_down_identity()),
                Op::SetConfig(c) => m(f.set_config(c.clone())),
            }
        })
    }

    pub fn take_pending(&mut self, idx: usize) -> Pend {
        let p = self.pending.swap_remove(idx);
        self.spent.push(p.clone());
        if self.spent.len() > 24 {
            self.spent.remove(0);
        }
        p
    }

    /// index of the earliest pending timer (deadline, then Timer's own order,
    /// then issue order)
    pub fn earliest(&self) -> Option<usize> {
        let mut best: Option<usize> = None;
        for (i, p) in self.pending.iter().enumerate() {
            let better = match best {
                None => true,
                Some(b) => {
                    let q = &self.pending[b];
                    p.due.cmp(&q.due).then_with(|| p.t.cmp(&q.t)).then_with(|| p.seq.cmp(&q.seq)).is_lt()
                }
            };
            if better {
                best = Some(i);
            }
        }
        best
    }

    pub fn step(&mut self, op: Op, fired: Option<Pend>) -> Result<Step, String> {
        self.steps += 1;
        if tracing() {
            trace(format!("{:?} {}", self.id(), describe_op(&op, self.kind)));
        }
        let pre = self.snap();
        let conn_pre = self.conn;
        let epoch_pre = self.epoch;
        let cfg_pre = self.cfg.clone();
        self.log.borrow_mut().clear();
        let res = self
            .raw(&op)
            .map_err(|e| format!("{e} (in {})", describe_op(&op, self.kind)))?;
        let evs = std::mem::take(&mut *self.log.borrow_mut());
        match (&op, &res) {
            (Op::ChangeId(_), Ok(_)) | (Op::Reuse, Ok(_)) => {
                self.epoch += 1;
                self.conn = Conn::Idle;
            }
            (Op::SetConfig(c), Ok(_)) => self.cfg = c.clone(),
            _ => {}
        }
        let mut sends = vec![];
        for (at, e) in evs.iter().enumerate() {
            match e {
                Ev::Note(n) => match n {
                    OwnedNotification::Active => self.conn = Conn::Active,
                    OwnedNotification::Idle => {
                        self.conn = Conn::Idle;
                        self.epoch += 1;
                    }
                    OwnedNotification::Defunct => {
                        self.conn = Conn::Defunct;
                        self.epoch += 1;
                    }
                    OwnedNotification::Rejoin(_) => {
                        self.conn = Conn::Idle;
                        self.epoch += 1;
                    }
                    _ => {}
                },
                Ev::Timer { t, after } => {
                    self.seq += 1;
                    if let Some(k) = timer_token(t) {
                        self.token = Some((k, self.epoch));
                    }
                    self.pending.push(Pend {
                        t: t.clone(),
                        due: self.now.saturating_add(micros(*after)),
                        epoch: self.epoch,
                        seq: self.seq,
                    });
                }
                Ev::Send { to, data } => sends.push(Sent {
                    to: *to,
                    data: data.clone(),
                    pkt: parse_packet(self.kind, data),
                    at,
                }),
                Ev::Item { .. } => {}
            }
        }
        if tracing() {
            let mut s = String::new();
            for e in &evs {
                match e {
                    Ev::Send { to, data } => match parse_packet(self.kind, data) {
                        Ok(p) => s.push_str(&format!(
                            "\n      -> {to:?} {:?} inc={} {} updates {:?} items {:?}",
                            p.header.message, p.header.src_incarnation, p.updates.len(), p.updates, p.items
                        )),
                        Err(e) => s.push_str(&format!("\n      -> {to:?} MALFORMED {e}")),
                    },
                    e => s.push_str(&format!("\n      {e:?}")),
                }
            }
            trace(format!("      = {res:?}{s}"));
        }
        Ok(Step {
            op,
            fired,
            pre,
            post: self.snap(),
            cfg_pre,
            res,
            evs,
            sends,
            conn_pre,
            conn_post: self.conn,
            epoch_pre,
            epoch_post: self.epoch,
        })
    }
}


pub fn tracing() -> bool {
    TRACE.with(|t| t.borrow().is_some())
}
pub fn trace(s: String) {
    TRACE.with(|t| {
        if let Some(v) = t.borrow_mut().as_mut() {
            if v.len() < 4000 {
                v.push(s);
            }
        }
    });
}
