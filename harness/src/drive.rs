//! Runs one generated history against one instance, calling a monitor after
//! every call.
use foca::{Member, Message, State, Timer};

use crate::codec::{build_packet, Packet};
use crate::gen::{mk_header, Profile, World};
use crate::inst::{Inst, Op, Pend, Sent, Step};
use crate::runner::{Cov, R};
use crate::tape::{hash2, Draw, Tape, CFGW};

pub struct Ctx {
    pub w: World,
    pub inst: Inst,
    /// own incarnation before / after the last call
    pub inc_pre: u16,
    pub inc: u16,
    pub n: usize,
}

impl Ctx {
    pub fn new(t: &Tape, p: &Profile) -> Result<Ctx, String> {
        let w = World::new(&t.cfg, p);
        let mut inst = Inst::new(w.inst_cfg())?;
        if crate::inst::tracing() {
            crate::inst::trace(format!(
                "instance {:?}, codec {:?}, handler {:?}, {:?}",
                w.own, w.kind, w.handler, w.config
            ));
        }
        let inc = inst.peek_incarnation()?;
        Ok(Ctx { w, inst, inc_pre: inc, inc, n: 0 })
    }
    /// a step with the bookkeeping the monitors rely on
    pub fn step(&mut self, op: Op, fired: Option<Pend>) -> Result<Step, String> {
        self.inc_pre = self.inc;
        let st = self.inst.step(op, fired)?;
        self.inc = self.inst.peek_incarnation()?;
        self.w.observe(&st);
        self.n += 1;
        Ok(st)
    }
    pub fn next(&mut self, words: &[u32], p: &Profile) -> Option<(Op, Option<Pend>)> {
        self.w.op(words, &mut self.inst, self.inc, p)
    }
}

pub fn drive(
    t: &Tape,
    p: &Profile,
    cov: &mut Cov,
    f: &mut dyn FnMut(&Step, &mut Ctx, &mut Cov) -> R,
) -> Result<Ctx, String> {
    let mut c = Ctx::new(t, p)?;
    age(t, &mut c, cov, f)?;
    crowd(t, &mut c, cov, f)?;
    for words in &t.ops {
        let Some((op, fired)) = c.next(words, p) else { continue };
        let st = c.step(op, fired)?;
        f(&st, &mut c, cov)?;
    }
    Ok(c)
}

/// Some instances have been around for a while: hundreds of probe rounds, all
/// of them answered, before the history proper
fn age(t: &Tape, c: &mut Ctx, cov: &mut Cov, f: &mut dyn FnMut(&Step, &mut Ctx, &mut Cov) -> R) -> R {
    let mut d = Draw::new(&t.cfg[CFGW - 2..]);
    if !d.chance(1, 100) {
        return Ok(());
    }
    let rounds = [256, 600, 250 + d.below(10), d.below(300), 120 + d.below(12)][d.usize(5)];
    let peers = 1 + d.below(c.w.n_addrs.min(3)) as u16;
    let v = (1..=peers).map(|a| Member::new(c.w.peer(a, 0), 0, State::Alive)).collect();
    let st = c.step(Op::Apply(v, true), None)?;
    f(&st, c, cov)?;
    let mut done = 0;
    while done < rounds {
        let Some(k) = c.inst.earliest() else { break };
        let p = c.inst.take_pending(k);
        c.inst.now = c.inst.now.max(p.due);
        let probe = matches!(p.t, Timer::ProbeRandomMember(_));
        let st = c.step(Op::Fire(p.t.clone()), Some(p))?;
        f(&st, c, cov)?;
        if !probe {
            continue;
        }
        done += 1;
        let Some((to, n)) = c.w.last_ping else { continue };
        let own = c.inst.id();
        let d = build_packet(c.w.kind, &mk_header(to, 0, own, Message::Ack(n)), Some(&[]), &[]);
        if d.len() <= c.inst.cfg.max_packet_size.get() {
            let st = c.step(Op::Data(d), None)?;
            f(&st, c, cov)?;
        }
    }
    cov.hit("aged by hundreds of probe rounds");
    Ok(())
}

/// Some know hundreds of members, and have as much to tell
fn crowd(t: &Tape, c: &mut Ctx, cov: &mut Cov, f: &mut dyn FnMut(&Step, &mut Ctx, &mut Cov) -> R) -> R {
    let mut d = Draw::new(&t.cfg[CFGW - 3..]);
    if !d.chance(1, 150) {
        return Ok(());
    }
    // (whose headers take a little more than usual)
    if c.inst.cfg.max_packet_size.get() < c.w.base_hdr + 80 {
        return Ok(());
    }
    c.w.base_hdr += 60;
    let mut d = Draw::new(&t.cfg[CFGW / 2..]);
    let n = [20, 70, 150, 300][d.usize(4)] + d.usize(10);
    let mut v = vec![];
    for k in 0..n {
        let a = 200 + k as u16;
        let s = [State::Alive, State::Alive, State::Suspect, State::Down][hash2(n as u64, k as u64) as usize % 4];
        v.push(Member::new(c.w.peer(a, 0), (hash2(k as u64, 5) % 3) as u16, s));
    }
    let loud = d.below(3) != 0;
    let parts = [1, 2, n][d.usize(3)];
    for part in v.chunks(n.div_ceil(parts)) {
        let st = c.step(Op::Apply(part.to_vec(), loud), None)?;
        f(&st, c, cov)?;
    }
    let items = [0, 0, 20, 100][d.usize(4)];
    for _ in 0..items {
        let max = 1 + d.usize(200);
        let max = max.min(c.inst.cfg.max_packet_size.get());
        let it = c.w.item(&mut d, max);
        let st = c.step(Op::AddBc(it), None)?;
        f(&st, c, cov)?;
    }
    cov.hit("hundreds of members from the start");
    Ok(())
}

pub fn pkt<'a>(s: &'a Sent) -> Result<&'a Packet, String> {
    s.pkt.as_ref().map_err(|e| format!("datagram to {:?} does not parse: {e}", s.to))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}
