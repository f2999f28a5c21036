//! A cluster of real instances on a virtual clock: one event queue of
//! datagrams and timers, latency drawn per datagram.
use std::cmp::Reverse;
use std::collections::BinaryHeap;

use foca::{Config, Member, OwnedNotification, State, Timer};

use crate::codec::Kind;
use crate::handler::HandlerCfg;
use crate::id::Id;
use crate::inst::{describe_op, micros, trace, tracing, Ev, Inst, InstCfg, Note, Op, Res};
use crate::tape::{hash2, Draw};

pub struct Node {
    pub inst: Inst,
    pub up: bool,
    pub notes: Vec<(u64, Note)>,
}

#[derive(Debug, Clone)]
pub enum What {
    Deliver { from: usize, data: Vec<u8> },
    Fire(Timer<Id>),
}

pub struct Event {
    pub node: usize,
    pub what: What,
}

pub struct Sim {
    pub nodes: Vec<Node>,
    pub kind: Kind,
    pub config: Config,
    pub handler: HandlerCfg,
    pub now: u64,
    /// one-way latency is 1..=lat microseconds
    pub lat: u64,
    pub seed: u64,
    queue: BinaryHeap<Reverse<(u64, u8, u8, u64)>>,
    slab: std::collections::HashMap<u64, Event>,
    seq: u64,
    /// datagrams sent so far
    pub sent: u64,
    /// the datagram (by number) that gets lost
    pub lose: Option<u64>,
    pub lost: Option<String>,
    pub lost_kind: Option<&'static str>,
    /// side of each node while partitioned
    pub sides: Option<Vec<u8>>,
    pub delivered: u64,
}

/// One thing that happened at one node
pub struct Happened<'a> {
    pub node: usize,
    pub op: &'a Op,
    pub res: Res,
    pub evs: &'a [Ev],
}

impl Sim {
    pub fn new(kind: Kind, config: Config, lat: u64, seed: u64) -> Sim {
        Sim {
            nodes: vec![],
            kind,
            config,
            handler: HandlerCfg::permissive(),
            now: 0,
            lat: lat.max(1),
            seed,
            queue: Default::default(),
            slab: Default::default(),
            seq: 0,
            sent: 0,
            lose: None,
            lost: None,
            lost_kind: None,
            sides: None,
            delivered: 0,
        }
    }

    pub fn add(&mut self, id: Id) -> Result<usize, String> {
        let inst = Inst::new(InstCfg {
            id,
            config: self.config.clone(),
            seed: hash2(self.seed, id.addr as u64 + 77),
            kind: self.kind,
            handler: self.handler,
        })?;
        self.nodes.push(Node { inst, up: true, notes: vec![] });
        Ok(self.nodes.len() - 1)
    }

    pub fn find(&self, addr: u16) -> Option<usize> {
        self.nodes.iter().position(|n| n.inst.id().addr == addr)
    }

    fn push(&mut self, at: u64, class: u8, rank: u8, e: Event) {
        self.seq += 1;
        self.queue.push(Reverse((at, class, rank, self.seq)));
        self.slab.insert(self.seq, e);
    }

    pub fn cut(&self, a: usize, b: usize) -> bool {
        match &self.sides {
            Some(s) => s[a] != s[b],
            None => false,
        }
    }

    /// Makes a call on a node and puts its effects on the queue
    pub fn call(&mut self, node: usize, op: &Op, obs: &mut dyn FnMut(&Sim, &Happened<'_>) -> Result<(), String>) -> Result<Res, String> {
        let n = &mut self.nodes[node];
        n.inst.log.borrow_mut().clear();
        let res = n.inst.raw(op).map_err(|e| format!("{e} (in {})", describe_op(op, self.kind)))?;
        let evs = std::mem::take(&mut *n.inst.log.borrow_mut());
        let now = self.now;
        if tracing() {
            trace(format!("{:>10}us {:?} {} = {res:?}", now, n.inst.id(), describe_op(op, self.kind)));
        }
        for e in &evs {
            match e {
                Ev::Note(x) => {
                    if tracing() {
                        trace(format!("      {x:?}"));
                    }
                    self.nodes[node].notes.push((now, x.clone()))
                }
                Ev::Timer { t, after } => {
                    let rank = match t {
                        Timer::SendIndirectProbe { .. } => 0,
                        Timer::ProbeRandomMember(_) => 1,
                        Timer::ChangeSuspectToDown { .. } => 2,
                        Timer::PeriodicAnnounce(_) => 3,
                        Timer::PeriodicGossip(_) => 4,
                        Timer::RemoveDown(_) => 5,
                        Timer::PeriodicAnnounceDown(_) => 6,
                    };
                    let at = now.saturating_add(micros(*after));
                    self.push(at, 1, rank, Event { node, what: What::Fire(t.clone()) });
                }
                Ev::Send { to, data } => {
                    self.sent += 1;
                    let k = self.sent;
                    if tracing() {
                        let what = match crate::codec::parse_packet(self.kind, data) {
                            Ok(p) => format!("{:?} inc={} {:?}", p.header.message, p.header.src_incarnation, p.updates),
                            Err(e) => format!("malformed {e}"),
                        };
                        trace(format!("      #{k} -> {to:?} {what}{}", if self.lose == Some(k) { "   LOST" } else { "" }));
                    }
                    if self.lose == Some(k) {
                        self.lost = Some(match crate::codec::wire_header(self.kind, data) {
                            Ok((h, _)) => format!("{:?} from {:?} to {:?}", h.message, h.src, to),
                            Err(_) => "?".into(),
                        });
                        self.lost_kind = Some(crate::c04::lost_name(self.kind, data));
                        continue;
                    }
                    let Some(dst) = self.find(to.addr) else { continue };
                    if self.cut(node, dst) {
                        continue;
                    }
                    let lat = 1 + hash2(self.seed ^ 0xA11CE, k) % self.lat;
                    self.push(now + lat, 0, 0, Event { node: dst, what: What::Deliver { from: node, data: data.clone() } });
                }
                Ev::Item { .. } => {}
            }
        }
        obs(self, &Happened { node, op, res: res.clone(), evs: &evs })?;
        Ok(res)
    }

    /// Handles the next thing that is due no later than `t`
    pub fn step(&mut self, t: u64, obs: &mut dyn FnMut(&Sim, &Happened<'_>) -> Result<(), String>) -> Result<bool, String> {
        while let Some(Reverse((at, _, _, k))) = self.queue.peek().copied() {
            if at > t {
                break;
            }
            self.queue.pop();
            let e = self.slab.remove(&k).expect("queued");
            self.now = self.now.max(at);
            if !self.nodes[e.node].up {
                continue;
            }
            let op = match e.what {
                What::Deliver { from, data } => {
                    if self.cut(from, e.node) {
                        continue;
                    }
                    self.delivered += 1;
                    Op::Data(data)
                }
                What::Fire(t) => Op::Fire(t),
            };
            let _ = self.call(e.node, &op, obs)?;
            return Ok(true);
        }
        Ok(false)
    }

    /// Handles everything due up to and including `t`, then sets the clock to it.
    pub fn run_until(&mut self, t: u64, obs: &mut dyn FnMut(&Sim, &Happened<'_>) -> Result<(), String>) -> Result<(), String> {
        while self.step(t, obs)? {}
        self.now = self.now.max(t);
        Ok(())
    }

    /// whether every live instance lists exactly the other live ones, under
    /// their current identities, as active
    pub fn converged(&self) -> bool {
        self.missing().is_none()
    }
    pub fn missing(&self) -> Option<String> {
        let live: Vec<Id> = self.nodes.iter().filter(|n| n.up).map(|n| n.inst.id()).collect();
        for n in self.nodes.iter().filter(|n| n.up) {
            let me = n.inst.id();
            let mut c = 0;
            for m in n.inst.foca.iter_members() {
                c += 1;
                if !live.contains(m.id()) {
                    return Some(format!("{me:?} lists {m:?}, which is not there"));
                }
            }
            for l in &live {
                if *l != me && !n.inst.foca.iter_members().any(|m| m.id() == l) {
                    return Some(format!("{me:?} does not list {l:?}"));
                }
            }
            if c != live.len() - 1 {
                return Some(format!("{me:?} lists {c} members of {}", live.len() - 1));
            }
        }
        None
    }
    /// the same, and none of them suspected
    pub fn all_alive(&self) -> bool {
        self.converged()
            && self
                .nodes
                .iter()
                .filter(|n| n.up)
                .all(|n| n.inst.foca.iter_members().all(|m| m.state() == foca::State::Alive))
    }
}

pub fn no_obs(_: &Sim, _: &Happened<'_>) -> Result<(), String> {
    Ok(())
}

pub fn is_down_of(n: &Note, id: &Id) -> bool {
    matches!(n, OwnedNotification::MemberDown(x) if x == id)
}

/// Makes a cluster of the given members in which everybody lists everybody as
/// Alive, with some past behind it. None: it did not get there.
pub fn form(sim: &mut Sim, ids: &[Id], d: &mut Draw<'_>) -> Result<bool, String> {
    let period = micros(sim.config.probe_period);
    let n = ids.len();
    let joined = d.below(3) == 0;
    if joined {
        for (i, id) in ids.iter().enumerate() {
            let k = sim.add(*id)?;
            if i > 0 {
                let to = sim.nodes[d.usize(i)].inst.id();
                let _ = sim.call(k, &Op::Announce(to), &mut no_obs)?;
                let t = sim.now + [0, period / 3, period * 3][d.usize(3)];
                sim.run_until(t, &mut no_obs)?;
            }
        }
    } else {
        let all: Vec<Member<Id>> = ids.iter().map(|i| Member::alive(*i)).collect();
        for id in ids {
            sim.add(*id)?;
        }
        for k in 0..n {
            let mut v = all.clone();
            let off = d.usize(n);
            v.rotate_left(off);
            v.retain(|m| m.id() != &ids[k]);
            let t = sim.now + d.u64() % (1 + period / n as u64);
            sim.run_until(t, &mut no_obs)?;
            let _ = sim.call(k, &Op::Apply(v, false), &mut no_obs)?;
        }
    }
    // some past: suspicions that were refuted, identities that changed
    let past = [0, 0, 1, 3][d.usize(4)];
    // (who, notifications at the time): idle until it hears from somebody
    let mut changed: Vec<(usize, usize)> = vec![];
    for _ in 0..past {
        let t = sim.now + d.u64() % (2 * period);
        sim.run_until(t, &mut no_obs)?;
        let (a, b) = (d.usize(n), d.usize(n));
        if a == b {
            let id = sim.nodes[a].inst.id();
            let _ = sim.call(a, &Op::ChangeId(id.with_gen(id.gen + 1)), &mut no_obs)?;
            changed.push((a, sim.nodes[a].notes.len()));
        } else {
            let about = sim.nodes[b].inst.id();
            let inc = d.below(4) as u16;
            let _ = sim.call(a, &Op::Apply(vec![Member::new(about, inc, State::Suspect)], true), &mut no_obs)?;
        }
    }
    let mut tries = 0;
    loop {
        let active = |(k, from): &(usize, usize)| sim.nodes[*k].notes[*from..].iter().any(|(_, x)| matches!(x, OwnedNotification::Active));
        if sim.all_alive() && changed.iter().all(active) {
            break;
        }
        tries += 1;
        if tries > 40 * n {
            return Ok(false);
        }
        sim.run_until(sim.now + period / 2, &mut no_obs)?;
    }
    // some have been around for long
    if d.chance(1, 12 * n as u32 * n as u32) {
        let t = sim.now + period * (245 + d.below(70) as u64);
        sim.run_until(t, &mut no_obs)?;
    }
    // whatever is still in flight
    let t = sim.now + period * d.below(3) as u64 + d.u64() % period;
    sim.run_until(t, &mut no_obs)?;
    for n in sim.nodes.iter_mut() {
        n.notes.clear();
    }
    Ok(sim.all_alive())
}

/// Parameters of an Enum index: takes the next digit of base n
pub fn digit(i: &mut u64, n: u64) -> u64 {
    let r = *i % n;
    *i /= n;
    r
}
