//! C06: foca never panics on any input, schedule or configuration.
use std::num::{NonZeroU32, NonZeroU8, NonZeroUsize};
use std::time::Duration;

use bytes::{Buf, BufMut};
use foca::{AccumulatingRuntime, Config, Member, Message, PeriodicParams, Runtime, State, Timer};

use crate::codec::{build_packet, CErr, Kind, Mem, FAIL_NTH};
use crate::ensure;
use crate::gen::{mk_header, Profile, World, BASE};
use crate::handler::HandlerCfg;
use crate::id::Id;
use crate::inst::{describe_op, guarded, trace, tracing, Ev, F, Inst, InstCfg, Op, Pend, Rt};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{Draw, Tape};

const P: Profile = Profile {
    w: [40, 20, 6, 4, 8, 3, 3, 3, 8, 5, 3, 3, 4, 4, 4],
    m: [6, 8, 5, 5, 4, 6, 5, 4, 10, 5, 4],
    tight: 1,
    own_pct: 25,
    handler_errs: true,
    ..BASE
};

struct Faults;
impl Drop for Faults {
    fn drop(&mut self) {
        FAIL_NTH.with(|f| f.set(0));
        Id::set_weird(0, 0);
    }
}

fn extreme_size(dr: &mut Draw<'_>, base: usize) -> NonZeroUsize {
    let v = match dr.below(12) {
        0 => 1,
        1 => 1 + dr.usize(4),
        2 => base.saturating_sub(dr.usize(4)),
        3 | 4 => base + dr.usize(8),
        5 => base + dr.usize(80),
        6 => 1400,
        7 => 65_530 + dr.usize(16),
        8 => 1 << 20,
        9 => (1 << 20) + dr.usize(1000),
        10 => usize::MAX - dr.usize(4),
        _ => isize::MAX as usize + dr.usize(3) - 1,
    };
    NonZeroUsize::new(v.max(1)).unwrap()
}
fn extreme_n(dr: &mut Draw<'_>) -> NonZeroUsize {
    NonZeroUsize::new([1, 2, 3, 1000, u16::MAX as usize, u32::MAX as usize, isize::MAX as usize, usize::MAX][dr.usize(8)]).unwrap()
}
fn extreme_d(dr: &mut Draw<'_>) -> Duration {
    [
        Duration::from_millis(500),
        Duration::ZERO,
        Duration::from_nanos(1),
        Duration::from_secs(3),
        Duration::MAX,
        Duration::from_secs(u64::MAX),
    ][dr.usize(6)]
}
fn extreme_per(dr: &mut Draw<'_>) -> Option<PeriodicParams> {
    if dr.below(3) == 0 {
        None
    } else {
        Some(PeriodicParams { frequency: extreme_d(dr), num_members: extreme_n(dr) })
    }
}
fn extreme_config(dr: &mut Draw<'_>, base: usize) -> Config {
    let size = extreme_size(dr, base);
    let mut c = match dr.below(4) {
        0 => Config::simple(),
        1 => Config::new_lan(NonZeroU32::new(dr.word().max(1)).unwrap()),
        2 => Config::new_wan(NonZeroU32::new(dr.word().max(1)).unwrap()),
        _ => Config {
            probe_period: extreme_d(dr),
            probe_rtt: extreme_d(dr),
            num_indirect_probes: extreme_n(dr),
            max_transmissions: NonZeroU8::new([1, 2, 10, 254, 255][dr.usize(5)]).unwrap(),
            suspect_to_down_after: extreme_d(dr),
            remove_down_after: extreme_d(dr),
            max_packet_size: size,
            notify_down_members: dr.below(2) == 1,
            periodic_announce: extreme_per(dr),
            periodic_announce_to_down_members: extreme_per(dr),
            periodic_gossip: extreme_per(dr),
        },
    };
    c.max_packet_size = size;
    c
}

/// One instance, looked after by hand: nothing here relies on anything
/// succeeding.
struct Run {
    inst: Inst,
    w: World,
    inc: u16,
    acc: Option<AccumulatingRuntime<Id>>,
    ok: u64,
}

fn call<R2: Runtime<Id>>(f: &mut F, op: &Op, rt: R2) -> Result<(), foca::Error> {
    match op {
        Op::Data(d) => f.handle_data(d, rt),
        Op::Fire(t) => f.handle_timer(t.clone(), rt),
        Op::Announce(d) => f.announce(*d, rt),
        Op::Gossip => f.gossip(rt),
        Op::Broadcast => f.broadcast(rt),
        Op::Apply(u, b) => f.apply_many(u.iter().cloned(), *b, rt),
        Op::AddBc(d) => f.add_broadcast(d).map(|_| ()),
        Op::Leave => f.leave_cluster(rt),
        Op::ChangeId(i) => f.change_identity(*i, rt),
        Op::Reuse => f.reuse_down_identity(),
        Op::SetConfig(c) => f.set_config(c.clone()),
    }
}

impl Run {
    fn go(&mut self, op: Op, cov: &mut Cov) -> R {
        if tracing() {
            trace(describe_op(&op, self.w.kind));
        }
        self.inst.log.borrow_mut().clear();
        let f = &mut self.inst.foca;
        let acc = &mut self.acc;
        let log = self.inst.log.clone();
        let r = guarded(|| {
            match acc {
                Some(rt) => {
                    let r = call(f, &op, &mut *rt);
                    while let Some((to, data)) = rt.to_send() {
                        log.borrow_mut().push(Ev::Send { to, data: data.to_vec() });
                    }
                    while let Some((after, t)) = rt.to_schedule() {
                        log.borrow_mut().push(Ev::Timer { t, after });
                    }
                    while rt.to_notify().is_some() {}
                    r
                }
                None => call(f, &op, Rt { log: log.clone() }),
            }
            // errors are to be looked at
            .map_err(|e| format!("{e} {e:?}"))
        })
        .map_err(|e| format!("{e} (in {})", describe_op(&op, self.w.kind)))?;
        if r.is_ok() {
            self.ok += 1;
            if let Op::SetConfig(c) = &op {
                self.inst.cfg = c.clone();
            }
        } else {
            cov.hit("calls refused");
        }
        if tracing() {
            trace(format!("    = {r:?}"));
        }
        // reading is part of the API
        let f = &self.inst.foca;
        guarded(|| {
            let n = f.iter_members().count();
            let _ = (f.num_members(), f.updates_backlog(), f.custom_broadcast_backlog(), f.iter_membership_state().count(), n);
        })?;
        let evs = std::mem::take(&mut *self.inst.log.borrow_mut());
        for e in &evs {
            match e {
                Ev::Timer { t, after } => {
                    self.inst.seq += 1;
                    if let Some(k) = crate::inst::timer_token(t) {
                        self.inst.token = Some((k, 0));
                    }
                    if self.inst.pending.len() < 200 {
                        let due = self.inst.now.saturating_add(crate::inst::micros(*after));
                        self.inst.pending.push(Pend { t: t.clone(), due, epoch: 0, seq: self.inst.seq });
                    }
                }
                Ev::Send { to, data } => {
                    if let Ok((h, _)) = crate::codec::wire_header(self.w.kind, data) {
                        self.inc = h.src_incarnation;
                        match h.message {
                            Message::Ping(n) => {
                                self.w.last_ping = Some((*to, n));
                                self.w.asked.clear();
                            }
                            Message::PingReq { .. } => self.w.asked.push(*to),
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
}

fn mutate(dr: &mut Draw<'_>, b: &mut Vec<u8>, kind: Kind) {
    let hl = crate::codec::wire_header(kind, b).map(|(_, n)| n).unwrap_or(0);
    for _ in 0..dr.range(1, 3) {
        let n = b.len();
        match dr.below(8) {
            0 if n > 0 => {
                let i = dr.usize(n);
                b[i] = dr.word() as u8;
            }
            1 if n > 0 => {
                let i = dr.usize(n);
                b[i] ^= 1 << dr.below(8);
            }
            2 => b.truncate(dr.usize(n + 1)),
            3 => {
                for _ in 0..dr.range(1, 6) {
                    b.push([0, 0xff, dr.word() as u8][dr.usize(3)]);
                }
            }
            // right behind the header: the count, the first bytes
            4 if n > hl => {
                let i = hl + dr.usize((n - hl).min(3));
                b[i] = [0, 1, 0xff, dr.word() as u8][dr.usize(4)];
            }
            5 => b.truncate((hl + dr.usize(5)).min(n)),
            6 if n > 1 => {
                let i = dr.usize(n);
                b.remove(i);
            }
            _ => {
                let i = dr.usize(n + 1);
                b.insert(i, dr.word() as u8);
            }
        }
    }
}

fn fuzz(t: &Tape, cov: &mut Cov) -> R {
    let _f = Faults;
    let mut w = World::new(&t.cfg, &P);
    let mut dr = Draw::new(&t.cfg[4..]);
    let dr = &mut dr;
    let weird = dr.below(4) == 3;
    if weird {
        Id::set_weird(dr.below(5) as u8, dr.below(4) as u8);
        cov.hit("identities that make no sense");
    }
    if dr.below(3) == 2 {
        w.config = extreme_config(dr, w.base_hdr);
        cov.hit("extreme configuration");
    }
    if dr.below(4) == 3 {
        w.config.max_packet_size = extreme_size(dr, w.base_hdr);
        cov.hit("extreme packet size");
    }
    let acc = (dr.below(4) == 3).then(AccumulatingRuntime::new);
    if tracing() {
        trace(format!("instance {:?}, codec {:?}, weird {weird}, handler {:?}, {:?}", w.own, w.kind, w.handler, w.config));
    }
    let inst = Inst::new(w.inst_cfg())?;
    let mut r = Run { inst, w, inc: 0, acc, ok: 0 };
    let mut fired = 0u32;
    for words in &t.ops {
        let mut dr = Draw::new(&words[7..]);
        let dr = &mut dr;
        if dr.chance(1, 30) {
            // something goes wrong in the codec a little later
            FAIL_NTH.with(|f| f.set(1 + dr.below(6)));
            cov.hit("codec failures");
        }
        let bend = dr.below(16);
        let Run { inst, w, inc, .. } = &mut r;
        let Some((mut op, _)) = ({
            // what the generator looks up about the instance is real
            let op = w.op(words, inst, *inc, &P);
            op
        }) else {
            continue;
        };
        match (&mut op, bend) {
            (Op::Data(b), 0..=3) => mutate(dr, b, w.kind),
            (Op::SetConfig(c), 0..=7) => {
                let e = extreme_config(dr, w.base_hdr);
                if bend < 4 {
                    *c = Config { probe_period: c.probe_period, probe_rtt: c.probe_rtt, periodic_announce: None, periodic_announce_to_down_members: None, periodic_gossip: None, ..e };
                } else {
                    *c = e;
                }
            }
            (Op::ChangeId(i), 0..=5) => *i = Id::new(dr.below(5) as u16, dr.below(3) as u16, i.mode),
            (Op::Announce(i), 0..=3) => *i = inst.id(),
            (Op::AddBc(d), 0..=3) => {
                let n = [0, 1, 65_535, 65_536, 70_000, inst.cfg.max_packet_size.get().min(100_000)][dr.usize(6)];
                d.resize(n, 7);
            }
            (Op::AddBc(d), 4..=5) if !d.is_empty() => d[0] = 0xEE,
            (Op::Fire(Timer::ProbeRandomMember(_)), 0) | (Op::Leave | Op::Reuse, 0) => {
                // counters go around
                for _ in 0..dr.range(2, 300) {
                    r.go(op.clone(), cov)?;
                    let next = match dr.below(3) {
                        0 => Op::Reuse,
                        1 => match r.inst.earliest() {
                            Some(i) => Op::Fire(r.inst.take_pending(i).t),
                            None => Op::Reuse,
                        },
                        _ => {
                            let id = r.inst.id();
                            Op::ChangeId(id.with_gen(id.gen.wrapping_add(1)))
                        }
                    };
                    r.go(next, cov)?;
                    let m = r.w.peer(1, 0);
                    r.go(Op::Apply(vec![Member::new(m, 0, State::Alive)], true), cov)?;
                }
                cov.hit("bursts");
                continue;
            }
            _ => {}
        }
        if matches!(op, Op::Fire(_)) {
            fired += 1;
        }
        r.go(op, cov)?;
    }
    if fired > 0 && r.ok >= 5 {
        cov.nontrivial();
    }
    cov.add("calls accepted", r.ok);
    Ok(())
}

/// The same few things over and over: every counter there is goes around
fn long(t: &Tape, cov: &mut Cov) -> R {
    let mut w = World::new(&t.cfg, &P);
    let mut dr = Draw::new(&t.cfg[2..]);
    let dr = &mut dr;
    let pattern = dr.below(9);
    let rounds = match pattern {
        6 => [300, 66_000][dr.weighted(&[5, 1])],
        _ => [260, 300, 520, 1100][dr.usize(4)],
    };
    if dr.below(4) != 0 {
        w.config = Config { max_packet_size: w.config.max_packet_size, ..Config::simple() };
    }
    let acc = (dr.below(4) == 3).then(AccumulatingRuntime::new);
    if tracing() {
        trace(format!("instance {:?}, codec {:?}, {rounds} times pattern {pattern}, {:?}", w.own, w.kind, w.config));
    }
    let peers: Vec<Id> = (0..1 + dr.below(w.n_addrs)).map(|a| w.peer(1 + a as u16, 0)).collect();
    let inst = Inst::new(w.inst_cfg())?;
    let mut r = Run { inst, w, inc: 0, acc, ok: 0 };
    r.go(Op::Apply(peers.iter().map(|p| Member::new(*p, 0, State::Alive)).collect(), true), cov)?;
    let mut gen = 0u16;
    let mut extra = t.ops.iter();
    let every = 1 + dr.below(40);
    for n in 0..rounds {
        let me = r.inst.id();
        match pattern {
            // probe rounds: all answered, some, none
            0..=2 => {
                if let Some(i) = r.inst.earliest() {
                    let p = r.inst.take_pending(i);
                    r.inst.now = r.inst.now.max(p.due);
                    let probe = matches!(p.t, Timer::ProbeRandomMember(_));
                    r.go(Op::Fire(p.t), cov)?;
                    let answer = pattern == 0 || pattern == 1 && dr.below(3) != 0;
                    if let (true, true, Some((to, k))) = (probe, answer, r.w.last_ping) {
                        let inc = r.inst.foca.iter_members().find(|m| *m.id() == to).map_or(0, |m| m.incarnation().saturating_add(1));
                        let d = crate::codec::build_packet(r.w.kind, &crate::gen::mk_header(to, inc, me, Message::Ack(k)), Some(&[]), &[]);
                        r.go(Op::Data(d), cov)?;
                    }
                }
                if r.inst.foca.num_members() == 0 {
                    gen = gen.wrapping_add(1);
                    r.go(Op::Apply(vec![Member::new(r.w.peer(1, gen), 0, State::Alive)], true), cov)?;
                }
            }
            3 => {
                r.go(Op::Leave, cov)?;
                r.go(Op::Reuse, cov)?;
                r.go(Op::Apply(vec![], true), cov)?;
            }
            4 => r.go(Op::ChangeId(me.with_gen(me.gen.wrapping_add(1))), cov)?,
            // idle and active
            5 => {
                let v: Vec<_> = r.inst.foca.iter_members().map(|m| Member::new(*m.id(), 0, State::Down)).collect();
                r.go(Op::Apply(v, n % 3 != 0), cov)?;
                gen = gen.wrapping_add(1);
                r.go(Op::Apply(vec![Member::new(r.w.peer(1, gen), 0, State::Alive)], n % 2 != 0), cov)?;
            }
            // suspected at ever higher incarnations
            6 => {
                let d = [0, 0, 0, 1, 7, 300][dr.usize(6)];
                let inc = r.inc.saturating_add(d);
                r.go(Op::Apply(vec![Member::new(me, inc, State::Suspect)], true), cov)?;
                let _ = r.inst.peek_incarnation().map(|i| r.inc = i)?;
            }
            7 => {
                r.go(Op::AddBc(vec![(n % 7) as u8, 1, 2, 3]), cov)?;
                r.go([Op::Gossip, Op::Broadcast][dr.usize(2)].clone(), cov)?;
            }
            // a crowd: an address after the other
            _ => {
                let st = [State::Alive, State::Suspect, State::Down][dr.usize(3)];
                r.go(Op::Apply(vec![Member::new(Id::new(10 + (n % 40_000) as u16, 0, 0), 0, st)], true), cov)?;
                if n % 16 == 0 {
                    r.go(Op::Gossip, cov)?;
                }
            }
        }
        if n % every == every - 1 {
            if let Some(words) = extra.next() {
                let Run { inst, w, inc, .. } = &mut r;
                if let Some((op, _)) = w.op(words, inst, *inc, &P) {
                    r.go(op, cov)?;
                }
            }
        }
    }
    cov.hit("rounds of a long run");
    cov.nontrivial();
    cov.add("calls accepted", r.ok);
    Ok(())
}

/// Nothing but bytes, against an instance that knows a few members
fn bytes(t: &Tape, cov: &mut Cov) -> R {
    let _f = Faults;
    let mut w = World::new(&t.cfg, &P);
    w.handler.errs = false;
    if w.config.max_packet_size.get() < 400 {
        w.config.max_packet_size = NonZeroUsize::new(400).unwrap();
    }
    let inst = Inst::new(w.inst_cfg())?;
    let mut r = Run { inst, w, inc: 0, acc: None, ok: 0 };
    let seedm: Vec<Mem> = (1..4).map(|a| Member::new(r.w.peer(a, 0), 0, State::Alive)).collect();
    r.go(Op::Apply(seedm, true), cov)?;
    for words in &t.ops {
        let mut dr = Draw::new(words);
        let dr = &mut dr;
        let own = r.inst.id();
        let mut b = match dr.below(5) {
            0 => (0..dr.usize(60)).map(|_| dr.word() as u8).collect(),
            1 => vec![[0u8, 0xff, 0x80, 1, 0xfb][dr.usize(5)]; dr.usize(60)],
            // header of a known member, then noise
            2 => {
                let m = r.w.message(dr, &r.inst, &P);
                let h = mk_header(r.w.peer(1 + dr.below(3) as u16, 0), dr.word() as u16, own, m);
                let mut b = build_packet(r.w.kind, &h, None, &[]);
                for _ in 0..dr.usize(30) {
                    b.push(dr.word() as u8);
                }
                b
            }
            _ => {
                let inc = r.inc;
                let Run { inst, w, .. } = &mut r;
                w.data(dr, inst, inc, &P)
            }
        };
        if dr.below(3) != 0 {
            mutate(dr, &mut b, r.w.kind);
        }
        r.go(Op::Data(b), cov)?;
    }
    if r.ok > 2 {
        cov.nontrivial();
    }
    Ok(())
}

/// Sizes that need real memory: items beyond what a 16-bit length can say,
/// more members and updates than a 16-bit count can say.
const BIG: u64 = 26;
fn big(i: u64, cov: &mut Cov) -> R {
    cov.nontrivial();
    let kind = [Kind::Fixed, Kind::Var, Kind::Postcard, Kind::BincodeStd][(i % 4) as usize];
    let own = Id::new(0, 0, 1);
    let mk = |size: usize, n: usize| -> Result<Inst, String> {
        let mut config = Config::simple();
        config.max_packet_size = NonZeroUsize::new(size).unwrap();
        config.num_indirect_probes = NonZeroUsize::new(n).unwrap();
        Inst::new(InstCfg { id: own, config, seed: i, kind, handler: HandlerCfg::permissive() })
    };
    let peer = |a: u32| Id::new(1 + (a % 65_000) as u16, (a / 65_000) as u16, 0);
    let hand = |inst: &mut Inst, op: Op| -> Result<Vec<(Id, Vec<u8>)>, String> {
        inst.log.borrow_mut().clear();
        let what = op.name();
        let r = inst.raw(&op).map_err(|e| format!("{e} (in {what}, packets of {}, codec {kind:?})", inst.cfg.max_packet_size))?;
        let sends = inst
            .log
            .borrow()
            .iter()
            .filter_map(|e| match e {
                Ev::Send { to, data } => Some((*to, data.clone())),
                _ => None,
            })
            .collect();
        if tracing() {
            trace(format!("{what} = {r:?}"));
        }
        Ok(sends)
    };
    let alive = |a: u32| Member::new(peer(a), 0, State::Alive);
    match i {
        0..=17 => {
            // items
            let size = [60_000, 65_535, 65_536, 65_537, 66_000, 70_000, 140_000, 1 << 20, usize::MAX][(i % 9) as usize];
            let mut inst = mk(size, 3)?;
            hand(&mut inst, Op::Apply(vec![alive(0), alive(1)], true))?;
            for n in [65_533usize, 65_534, 65_535, 65_536, 65_537, 70_000, 131_073] {
                let mut it = vec![n as u8, 1];
                it.resize(n, if i < 9 { 3 } else { 0 });
                hand(&mut inst, Op::AddBc(it))?;
                for op in [Op::Gossip, Op::Broadcast] {
                    for (to, data) in hand(&mut inst, op)? {
                        // whatever is sent is received
                        let mut config = Config::simple();
                        config.max_packet_size = NonZeroUsize::new(size).unwrap();
                        let mut p = Inst::new(InstCfg { id: to, config, seed: i, kind, handler: HandlerCfg::permissive() })?;
                        hand(&mut p, Op::Data(data))?;
                    }
                }
            }
        }
        18..=21 => {
            // members
            let inst = mk([400_000, 1 << 20, 4 << 20, usize::MAX][(i - 18) as usize], usize::MAX)?;
            let n = 65_534 + [0u32, 1, 2, 5000][(i - 18) as usize] + 2;
            let v: Vec<Member<Wide>> = (0..n).map(|a| Member::new(wide(a), 0, State::Alive)).collect();
            let mut f = guarded(|| {
                foca::Foca::new(
                    Wide(u32::MAX),
                    inst.cfg.clone(),
                    <rand::rngs::SmallRng as rand::SeedableRng>::seed_from_u64(i),
                    WideCodec,
                )
            })?;
            guarded(|| f.apply_many(v.into_iter(), false, &mut AccumulatingRuntime::new()).map_err(|e| format!("{e:?}")))??;
            ensure!(f.num_members() == n as usize, "{} members of {n}", f.num_members());
            let mut out = AccumulatingRuntime::new();
            let ask = wide_packet(Wide(7), Wide(u32::MAX), Message::Announce);
            let r = guarded(|| f.handle_data(&ask, &mut out).map_err(|e| format!("{e:?}")))
                .map_err(|e| format!("{e} (answering Announce with {n} active members, packets of {})", inst.cfg.max_packet_size))?;
            r?;
            if let Some((_, b)) = out.to_send() {
                let cnt = u16::from_be_bytes([b[11], b[12]]) as usize;
                ensure!(13 + cnt * 7 == b.len(), "a Feed of {} bytes that announces {cnt} members", b.len());
            }
            inst.log.borrow_mut().clear();
            guarded(|| {
                let _ = f.gossip(&mut out);
                let _ = f.broadcast(&mut out);
                let _ = f.leave_cluster(&mut out);
            })?;
        }
        _ => {
            // pending updates
            let mut cfg = Config::simple();
            cfg.max_packet_size = NonZeroUsize::new(2 << 20).unwrap();
            let mut f = guarded(|| {
                foca::Foca::new(Wide(u32::MAX), cfg, <rand::rngs::SmallRng as rand::SeedableRng>::seed_from_u64(i), WideCodec)
            })?;
            let n = [65_535u32, 65_536, 65_540, 66_000][(i - 22) as usize];
            let v: Vec<_> = (0..n).map(|a| Member::new(wide(a), 0, State::Alive)).collect();
            let mut out = AccumulatingRuntime::new();
            guarded(|| f.apply_many(v.into_iter(), true, &mut out).map_err(|e| format!("{e:?}")))??;
            guarded(|| f.gossip(&mut out).map_err(|e| format!("{e:?}")))??;
            let mut sent = 0;
            while let Some((_, b)) = out.to_send() {
                let cnt = u16::from_be_bytes([b[11], b[12]]) as usize;
                ensure!(13 + cnt * 7 == b.len(), "a Gossip of {} bytes that announces {cnt} members", b.len());
                sent += 1;
            }
            ensure!(sent > 0, "gossip sent nothing");
        }
    }
    Ok(())
}

/// 32-bit addresses, for crowds
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Wide(u32);
impl foca::Identity for Wide {
    type Addr = u32;
    fn renew(&self) -> Option<Self> {
        None
    }
    fn addr(&self) -> u32 {
        self.0
    }
    fn win_addr_conflict(&self, _: &Self) -> bool {
        false
    }
}
fn wide(a: u32) -> Wide {
    Wide(a)
}
#[derive(Clone, Copy)]
struct WideCodec;
fn wide_packet(src: Wide, dst: Wide, m: Message<Wide>) -> Vec<u8> {
    let mut v = vec![];
    foca::Codec::encode_header(&mut WideCodec, &foca::Header { src, src_incarnation: 0, dst, message: m }, &mut v).unwrap();
    v
}
fn room(b: &impl BufMut, n: usize) -> Result<(), CErr> {
    if b.remaining_mut() < n {
        Err(CErr("full".into()))
    } else {
        Ok(())
    }
}
fn left(b: &impl Buf, n: usize) -> Result<(), CErr> {
    if b.remaining() < n {
        Err(CErr("short".into()))
    } else {
        Ok(())
    }
}
impl foca::Codec<Wide> for WideCodec {
    type Error = CErr;
    fn encode_header(&mut self, h: &foca::Header<Wide>, mut b: impl BufMut) -> Result<(), CErr> {
        room(&b, 11)?;
        b.put_u32(h.src.0);
        b.put_u16(h.src_incarnation);
        b.put_u32(h.dst.0);
        b.put_u8(match h.message {
            Message::Announce => 0,
            Message::Feed => 1,
            Message::Gossip => 2,
            Message::Broadcast => 3,
            Message::TurnUndead => 4,
            _ => 5,
        });
        Ok(())
    }
    fn decode_header(&mut self, mut b: impl Buf) -> Result<foca::Header<Wide>, CErr> {
        left(&b, 11)?;
        let src = Wide(b.get_u32());
        let src_incarnation = b.get_u16();
        let dst = Wide(b.get_u32());
        let message = match b.get_u8() {
            0 => Message::Announce,
            1 => Message::Feed,
            2 => Message::Gossip,
            3 => Message::Broadcast,
            4 => Message::TurnUndead,
            _ => return Err(CErr("kind".into())),
        };
        Ok(foca::Header { src, src_incarnation, dst, message })
    }
    fn encode_member(&mut self, m: &Member<Wide>, mut b: impl BufMut) -> Result<(), CErr> {
        room(&b, 7)?;
        b.put_u32(m.id().0);
        b.put_u16(m.incarnation());
        b.put_u8(match m.state() {
            State::Alive => 0,
            State::Suspect => 1,
            State::Down => 2,
        });
        Ok(())
    }
    fn decode_member(&mut self, mut b: impl Buf) -> Result<Member<Wide>, CErr> {
        left(&b, 7)?;
        let id = Wide(b.get_u32());
        let inc = b.get_u16();
        let st = match b.get_u8() {
            0 => State::Alive,
            1 => State::Suspect,
            2 => State::Down,
            _ => return Err(CErr("state".into())),
        };
        Ok(Member::new(id, inc, st))
    }
}

/// As little as a codec can put on the wire: four identities, no incarnation,
/// a header of one byte (`hdr`) or none at all
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Nib(u8);
impl foca::Identity for Nib {
    type Addr = u8;
    fn renew(&self) -> Option<Self> {
        None
    }
    fn addr(&self) -> u8 {
        self.0
    }
    fn win_addr_conflict(&self, _: &Self) -> bool {
        false
    }
}
#[derive(Clone, Copy)]
struct NibCodec {
    hdr: bool,
    member: bool,
}
impl foca::Codec<Nib> for NibCodec {
    type Error = CErr;
    fn encode_header(&mut self, h: &foca::Header<Nib>, mut b: impl BufMut) -> Result<(), CErr> {
        if self.hdr {
            room(&b, 1)?;
            let m = match h.message {
                Message::Ping(_) => 0,
                Message::Ack(_) => 1,
                Message::Announce => 2,
                Message::Feed => 3,
                Message::Gossip => 4,
                Message::Broadcast => 5,
                Message::TurnUndead => 6,
                _ => 7,
            };
            b.put_u8(h.src.0 << 6 | h.dst.0 << 4 | m);
        }
        Ok(())
    }
    fn decode_header(&mut self, mut b: impl Buf) -> Result<foca::Header<Nib>, CErr> {
        let x = if self.hdr {
            left(&b, 1)?;
            b.get_u8()
        } else {
            // everybody says the same all the time
            1 << 6 | 2
        };
        let message = match x & 15 {
            0 => Message::Ping(0),
            1 => Message::Ack(0),
            2 => Message::Announce,
            3 => Message::Feed,
            4 => Message::Gossip,
            5 => Message::Broadcast,
            6 => Message::TurnUndead,
            _ => return Err(CErr("kind".into())),
        };
        Ok(foca::Header { src: Nib(x >> 6), src_incarnation: 0, dst: Nib((x >> 4) & 3), message })
    }
    fn encode_member(&mut self, m: &Member<Nib>, mut b: impl BufMut) -> Result<(), CErr> {
        if self.member {
            room(&b, 1)?;
            b.put_u8(m.id().0);
        }
        Ok(())
    }
    fn decode_member(&mut self, mut b: impl Buf) -> Result<Member<Nib>, CErr> {
        if self.member {
            left(&b, 1)?;
            Ok(Member::new(Nib(b.get_u8() & 3), 0, State::Alive))
        } else {
            Ok(Member::new(Nib(1), 0, State::Alive))
        }
    }
}

fn tiny(t: &Tape, cov: &mut Cov) -> R {
    let mut d = Draw::new(&t.cfg);
    let codec = NibCodec { hdr: d.below(2) == 0, member: d.below(2) == 0 };
    let codec_hdr = codec.hdr;
    let mut cfg = Config::simple();
    let top = [8, 1400][d.usize(2)];
    cfg.max_packet_size = NonZeroUsize::new(1 + d.usize(top)).unwrap();
    cfg.notify_down_members = d.below(2) == 0;
    if tracing() {
        trace(format!("header {} byte, member {} byte, packets of {}", codec.hdr as u8, codec.member as u8, cfg.max_packet_size));
    }
    let mut f = guarded(|| {
        foca::Foca::new(Nib(0), cfg, <rand::rngs::SmallRng as rand::SeedableRng>::seed_from_u64(d.u64()), codec)
    })?;
    let mut out = AccumulatingRuntime::new();
    let mut pend: Vec<Timer<Nib>> = vec![];
    let mut sent = 0;
    for w in &t.ops {
        let mut d = Draw::new(w);
        let d = &mut d;
        // errors can be looked at, too
        let told = |r: Result<bool, foca::Error>| {
            if let Err(e) = r {
                let _ = format!("{e} {e:?} {:?}", std::error::Error::source(&e).map(|s| s.to_string()));
                assert!(e == e && (e == foca::Error::NotUndead) == (foca::Error::NotUndead == e));
            }
        };
        guarded(|| match d.below(9) {
            8 => {
                let n = d.usize(12);
                told(f.add_broadcast(&vec![d.word() as u8; n]));
                // somebody else does use them
                let mut b = vec![];
                let h = foca::Header { src: Nib(1), src_incarnation: 0, dst: Nib(0), message: Message::Broadcast };
                if foca::Codec::encode_header(&mut NibCodec { hdr: codec_hdr, member: true }, &h, &mut b).is_ok() {
                    b.extend([0, d.below(3) as u8, 5, 5, 5]);
                    b.truncate(b.len() - d.usize(4));
                    told(f.handle_data(&b, &mut out).map(|_| true));
                }
            }
            0 | 1 | 2 => {
                let n = d.usize(6);
                let b: Vec<u8> = (0..n).map(|_| if d.below(2) == 0 { d.word() as u8 } else { 1 << 6 | d.below(7) as u8 }).collect();
                if tracing() {
                    trace(format!("handle_data({b:02x?})"));
                }
                let _ = f.handle_data(&b, &mut out);
            }
            3 => {
                let v: Vec<_> = (0..d.usize(5))
                    .map(|_| Member::new(Nib(d.below(4) as u8), d.below(3) as u16, [State::Alive, State::Suspect, State::Down][d.usize(3)]))
                    .collect();
                if tracing() {
                    trace(format!("apply_many({v:?})"));
                }
                let _ = f.apply_many(v.into_iter(), d.below(4) != 0, &mut out);
            }
            4 | 5 if !pend.is_empty() => {
                let t = pend.swap_remove(d.usize(pend.len()));
                if tracing() {
                    trace(format!("{t:?}"));
                }
                let _ = f.handle_timer(t, &mut out);
            }
            6 => {
                let _ = f.gossip(&mut out);
            }
            _ => {
                let _ = f.announce(Nib(d.below(4) as u8), &mut out);
            }
        })?;
        while let Some((_, t)) = out.to_schedule() {
            pend.push(t);
        }
        while out.to_send().is_some() {
            sent += 1;
        }
        while out.to_notify().is_some() {}
    }
    if sent > 2 {
        cov.nontrivial();
    }
    Ok(())
}

// ---- configuration constructors --------------------------------------------

const BLOCK: u64 = 1 << 16;
// ---------------------------------------------------------------------------
// the identities foca itself brings along: socket addresses

trait Host: foca::Identity<Addr = Self> + Copy + std::fmt::Debug {
    fn nth(i: u32) -> Self;
}
impl Host for std::net::SocketAddrV4 {
    fn nth(i: u32) -> Self {
        Self::new(std::net::Ipv4Addr::from(0x0a00_0000 | i), i as u16)
    }
}
impl Host for std::net::SocketAddrV6 {
    fn nth(i: u32) -> Self {
        Self::new(std::net::Ipv6Addr::from(u128::from(i) << 64), i as u16, i, 0)
    }
}
impl Host for std::net::SocketAddr {
    fn nth(i: u32) -> Self {
        if i % 2 == 0 {
            std::net::SocketAddrV4::nth(i).into()
        } else {
            std::net::SocketAddrV6::nth(i).into()
        }
    }
}

fn hosts<T: Host, C: foca::Codec<T> + Clone>(t: &Tape, codec: C, cov: &mut Cov) -> R
where
    C::Error: std::error::Error + Send + Sync + 'static,
{
    type Node<T, C> = foca::Foca<T, C, rand::rngs::SmallRng, foca::NoCustomBroadcast>;
    let mut d = Draw::new(&t.cfg);
    let n = 2 + d.usize(2);
    let mut nodes: Vec<Node<T, C>> = vec![];
    for i in 0..n {
        let mut c = extreme_config(&mut d, 30);
        if d.below(3) != 0 {
            c.max_packet_size = NonZeroUsize::new(1400).unwrap();
        }
        let rng = <rand::rngs::SmallRng as rand::SeedableRng>::seed_from_u64(d.u64());
        let codec = codec.clone();
        nodes.push(guarded(|| foca::Foca::new(T::nth(i as u32), c, rng, codec))?);
    }
    let mut mail: Vec<(T, Vec<u8>)> = vec![];
    let mut timers: Vec<(usize, Timer<T>)> = vec![];
    let mut out = AccumulatingRuntime::new();
    let mut good = 0;
    for w in &t.ops {
        let mut d = Draw::new(w);
        let k = d.usize(n);
        let who = |d: &mut Draw<'_>| T::nth(d.below(5));
        let member = |d: &mut Draw<'_>| {
            let s = [State::Alive, State::Suspect, State::Down][d.usize(3)];
            Member::new(who(d), [0, 1, 2, u16::MAX][d.usize(4)], s)
        };
        let own = *nodes[k].identity();
        let f = &mut nodes[k];
        let r: Result<(), foca::Error> = match d.below(13) {
            0..=3 => {
                let data = if !mail.is_empty() && d.below(3) != 0 {
                    let i = d.usize(mail.len());
                    mail[i].1.clone()
                } else {
                    let third = who(&mut d);
                    let p = d.below(4) as u8;
                    let message = match d.below(11) {
                        0 => Message::Ping(p),
                        1 => Message::Ack(p),
                        2 => Message::PingReq { target: third, probe_number: p },
                        3 => Message::IndirectPing { origin: third, probe_number: p },
                        4 => Message::IndirectAck { target: third, probe_number: p },
                        5 => Message::ForwardedAck { origin: third, probe_number: p },
                        6 => Message::Announce,
                        7 => Message::Feed,
                        8 => Message::Gossip,
                        9 => Message::Broadcast,
                        _ => Message::TurnUndead,
                    };
                    let piggy = !matches!(message, Message::Announce | Message::TurnUndead | Message::Broadcast);
                    let dst = if d.below(8) == 0 { who(&mut d) } else { own };
                    let h = foca::Header { src: who(&mut d), src_incarnation: d.below(3) as u16, dst, message };
                    let mut b = vec![];
                    let mut c = codec.clone();
                    let _ = c.encode_header(&h, &mut b);
                    if piggy {
                        let m = d.below(5);
                        b.put_u16(m as u16);
                        for _ in 0..m {
                            let _ = c.encode_member(&member(&mut d), &mut b);
                        }
                    }
                    b
                };
                guarded(|| f.handle_data(&data, &mut out))?
            }
            4..=6 => {
                if timers.is_empty() {
                    continue;
                }
                let i = d.usize(timers.len());
                let (k, e) = if d.below(8) == 0 { timers[i].clone() } else { timers.swap_remove(i) };
                let f = &mut nodes[k];
                let r = guarded(|| f.handle_timer(e, &mut out))?;
                while let Some((_, e)) = out.to_schedule() {
                    timers.push((k, e));
                }
                r
            }
            7 => {
                let v: Vec<_> = (0..1 + d.below(5)).map(|_| member(&mut d)).collect();
                let b = d.below(2) == 0;
                guarded(|| f.apply_many(v.into_iter(), b, &mut out))?
            }
            8 => {
                let to = who(&mut d);
                guarded(|| f.announce(to, &mut out))?
            }
            9 => guarded(|| f.gossip(&mut out))?,
            10 => {
                let to = who(&mut d);
                guarded(|| f.change_identity(to, &mut out))?
            }
            11 => guarded(|| f.leave_cluster(&mut out))?,
            _ => guarded(|| f.reuse_down_identity())?,
        };
        good += u32::from(r.is_ok());
        let up = guarded(|| nodes[k].iter_members().count())?;
        ensure!(up == nodes[k].num_members(), "{up} members listed, num_members() is {}", nodes[k].num_members());
        while let Some((to, b)) = out.to_send() {
            mail.push((to, b.to_vec()));
            if mail.len() > 40 {
                mail.remove(0);
            }
        }
        while let Some((_, e)) = out.to_schedule() {
            timers.push((k, e));
        }
        while let Some(note) = out.to_notify() {
            if matches!(note, foca::OwnedNotification::MemberDown(_)) {
                cov.hit("sockets: member down");
            }
        }
    }
    if good >= 5 {
        cov.nontrivial();
    }
    Ok(())
}

fn sockets(t: &Tape, cov: &mut Cov) -> R {
    use std::net::{SocketAddr, SocketAddrV4, SocketAddrV6};
    let which = t.cfg.last().copied().unwrap_or(0) % 6;
    let std = foca::BincodeCodec(bincode::config::standard());
    match which {
        0 => hosts::<SocketAddr, _>(t, foca::PostcardCodec, cov),
        1 => hosts::<SocketAddr, _>(t, std, cov),
        2 => hosts::<SocketAddrV4, _>(t, foca::PostcardCodec, cov),
        3 => hosts::<SocketAddrV4, _>(t, std, cov),
        4 => hosts::<SocketAddrV6, _>(t, foca::PostcardCodec, cov),
        _ => hosts::<SocketAddrV6, _>(t, std, cov),
    }
}

fn conf_n(thorough: bool) -> u64 {
    if thorough {
        BLOCK
    } else {
        // 1/256th of it
        BLOCK / 256 + 64
    }
}
fn conf_one(n: u32) -> R {
    let Some(nz) = NonZeroU32::new(n) else { return Ok(()) };
    for f in [Config::new_lan, Config::new_wan] {
        std::hint::black_box(f(nz));
    }
    Ok(())
}
/// each index is a block of cluster sizes; thorough: all of them
fn conf(i: u64, cov: &mut Cov) -> R {
    cov.nontrivial();
    let last = Inner::default();
    let r = guarded(|| {
        let run = |n: u32| {
            last.0.set(n);
            conf_one(n)
        };
        // 40503 is odd: a permutation of the blocks, so that any prefix of it
        // is spread over the whole range
        let k = i.wrapping_mul(40_503) % BLOCK;
        let base = (k * BLOCK) as u32;
        for o in 0..BLOCK as u32 {
            run(base | o)?;
        }
        // powers of two and ten and their neighbours
        for p in 0..32 {
            for n in [1u32 << p, 10u32.saturating_pow(p % 10)] {
                for d in 0..3u32 {
                    run(n.saturating_add(d).saturating_sub(1))?;
                }
            }
        }
        for o in 0..200 {
            run(u32::MAX - o)?;
            run(o)?;
        }
        Ok::<(), String>(())
    });
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("{e} (configuration for a cluster of {})", last.0.get())),
    }
}
#[derive(Default)]
struct Inner(std::cell::Cell<u32>);

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        rule: "Call, timer, byte and configuration fuzzing with every call under catch_unwind and an allocation guard, in three builds             (debug assertions and overflow checks; none, as shipped; all features). Non-trivial: calls were accepted and timers             fired / several datagrams were accepted.",
        assumptions: &[
            "a 64-bit platform; stack overflows and hangs end the run without a verdict",
            "an allocation above 2 GiB requested by foca counts as an abort",
        ],
        subs: vec![
            Sub { name: "fuzz", quick: 700_000, thorough: 30_000_000, body: Body::Tape { min: 1, max: 70, f: fuzz } },
            Sub { name: "bytes", quick: 400_000, thorough: 16_000_000, body: Body::Tape { min: 1, max: 30, f: bytes } },
            Sub { name: "tiny", quick: 300_000, thorough: 4_000_000, body: Body::Tape { min: 1, max: 30, f: tiny } },
            Sub { name: "sockets", quick: 200_000, thorough: 8_000_000, body: Body::Tape { min: 1, max: 60, f: sockets } },
            Sub { name: "long", quick: 20_000, thorough: 300_000, body: Body::Tape { min: 0, max: 20, f: long } },
            Sub { name: "big", quick: 0, thorough: 0, body: Body::Enum { n: |_| BIG, f: big } },
            Sub { name: "configs", quick: 0, thorough: 0, body: Body::Enum { n: conf_n, f: conf } },
        ],
    }
}
