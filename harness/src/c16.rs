//! C16: custom broadcasts.
use std::collections::HashSet;

use foca::{Invalidates, Member, Message, State};

use crate::codec::{build_packet, msg_name, Kind, Mem};
use crate::drive::{drive, pkt, Ctx};
use crate::ensure;
use crate::gen::{mk_header, Profile, BASE};
use crate::handler::{HandlerCfg, Key};
use crate::id::Id;
use crate::inst::{Conn, ErrK, Ev, Inst, InstCfg, Op, Sent, Step};
use crate::model::{classify, Model, Verdict};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{hash2, Draw, Tape, CFGW};

struct Entry {
    data: Vec<u8>,
    key: Key,
    left: u32,
    sent: bool,
}

#[derive(Default)]
struct Ghost {
    items: Vec<Entry>,
    /// no longer to be seen: (bytes, why)
    gone: HashSet<Vec<u8>>,
    nontrivial: bool,
}

impl Ghost {
    fn accept(&mut self, data: &[u8], key: Key, max_tx: u8, cov: &mut Cov) {
        let mut i = 0;
        while i < self.items.len() {
            if key.invalidates(&self.items[i].key) {
                let e = self.items.remove(i);
                cov.hit("item invalidated");
                if e.sent {
                    cov.hit("partly disseminated item invalidated");
                }
                self.gone.insert(e.data);
                self.nontrivial = true;
            } else {
                i += 1;
            }
        }
        self.gone.remove(data);
        self.items.push(Entry { data: data.to_vec(), key, left: max_tx as u32, sent: false });
    }

    fn datagram(&mut self, s: &Sent, h: &HandlerCfg, cov: &mut Cov) -> R {
        let p = pkt(s)?;
        let what = msg_name(&p.header.message);
        if !h.eligible(&s.to) {
            ensure!(
                p.items.is_empty(),
                "{what} to {:?} carries {} items although the handler excludes that member",
                s.to,
                p.items.len()
            );
            if !self.items.is_empty() {
                cov.hit("excluded recipient while items are pending");
            }
            return Ok(());
        }
        if matches!(p.header.message, Message::Announce | Message::TurnUndead) {
            ensure!(p.items.is_empty(), "{what} carries custom broadcasts");
            return Ok(());
        }
        let mut used = HashSet::new();
        for it in &p.items {
            ensure!(used.insert(it.clone()), "{what} to {:?} carries {it:02x?} twice", s.to);
            let Some(k) = self.items.iter().position(|e| e.data == *it) else {
                return Err(format!(
                    "{what} to {:?} carries {it:02x?}, {}",
                    s.to,
                    if self.gone.contains(it) {
                        "which was invalidated"
                    } else {
                        "which is not pending (never accepted as such, or sent max_transmissions times already)"
                    }
                ));
            };
            let e = &mut self.items[k];
            e.left -= 1;
            e.sent = true;
            self.nontrivial = true;
            cov.hit(match p.header.message {
                Message::Broadcast => "item sent on Broadcast",
                Message::Feed => "item sent on Feed",
                Message::Gossip => "item sent on Gossip",
                _ => "item sent on another kind",
            });
            if e.left == 0 {
                cov.hit("item done after max_transmissions");
                self.items.remove(k);
            }
        }
        if !self.items.is_empty() && p.items.is_empty() {
            cov.hit("pending items, none in the datagram");
        }
        Ok(())
    }

    fn step(&mut self, st: &Step, inc_pre: u16, c: &Ctx, cov: &mut Cov) -> R {
        let kind = c.inst.kind;
        let h = &c.inst.hcfg;
        // what the handler must have been given
        let seen: Vec<(&Vec<u8>, &Option<Id>)> = st
            .evs
            .iter()
            .filter_map(|e| match e {
                Ev::Item { data, sender, .. } => Some((data, sender)),
                _ => None,
            })
            .collect();
        // what comes after an item the handler fails on may be left out
        let failed = matches!(st.evs.iter().rev().find(|e| matches!(e, Ev::Item { .. })), Some(Ev::Item { err: true, .. }));
        if failed {
            cov.hit("handler failed");
        }
        match &st.op {
            Op::Data(d) => match classify(kind, d, &st.pre.id, st.cfg_pre.max_packet_size.get()) {
                Verdict::Ok(a) => {
                    let mut m = Model::new(&st.pre, inc_pre, st.conn_pre);
                    m.data(&a);
                    let active = m.sender_active == Some(true);
                    for (i, (d, s)) in seen.iter().enumerate() {
                        ensure!(
                            **s == Some(a.header.src),
                            "item {i} handed over with sender {s:?}, the datagram is from {:?}",
                            a.header.src
                        );
                        ensure!(
                            a.items.get(i) == Some(*d),
                            "the handler was given {d:02x?} as item {i}, the datagram holds {:02x?}",
                            a.items
                        );
                    }
                    // a tail that breaks off may be refused altogether, a dead
                    // sender may be ignored altogether
                    if active && a.tail_ok {
                        ensure!(
                            seen.len() == a.items.len() || failed,
                            "{} items received, {} given to the handler",
                            a.items.len(),
                            seen.len()
                        );
                        cov.add("item received", seen.len() as u64);
                    }
                }
                v => ensure!(seen.is_empty(), "the handler was given items of a datagram that is {}", v.name()),
            },
            Op::AddBc(d) => {
                if d.is_empty() || d.len() > st.cfg_pre.max_packet_size.get() || d.len() > 65_535 {
                    ensure!(seen.is_empty(), "the handler was given an item add_broadcast refuses");
                } else if !matches!(st.res, Err(ErrK::DataTooBig)) {
                    ensure!(
                        seen.len() == 1 && seen[0].0 == d && seen[0].1.is_none(),
                        "add_broadcast({d:02x?}): the handler was given {seen:02x?}"
                    );
                    let accepted = st.evs.iter().any(|e| matches!(e, Ev::Item { key: Some(_), .. }));
                    ensure!(
                        st.res == if failed { Err(ErrK::CustomBroadcast) } else { Ok(Some(accepted)) },
                        "add_broadcast returned {:?}, the handler accepted: {accepted}",
                        st.res
                    );
                }
            }
            _ => ensure!(seen.is_empty(), "{} made the handler receive {seen:02x?}", st.op.name()),
        }
        let backlog_pre = self.items.len();
        let mut sends = st.sends.iter().peekable();
        let mut dsts = HashSet::new();
        for (i, e) in st.evs.iter().enumerate() {
            match e {
                Ev::Item { data, key: Some(k), .. } => self.accept(data, *k, st.cfg_pre.max_transmissions.get(), cov),
                Ev::Send { .. } => {
                    let Some(s) = sends.next_if(|s| s.at == i) else { continue };
                    if matches!(st.op, Op::Broadcast) {
                        let p = pkt(s)?;
                        ensure!(
                            p.header.message == Message::Broadcast,
                            "broadcast() sent a {}",
                            msg_name(&p.header.message)
                        );
                        ensure!(p.updates.is_empty() && !p.has_section, "Broadcast with member updates");
                        ensure!(!self.items.is_empty(), "broadcast() goes on although the backlog is drained");
                        ensure!(h.eligible(&s.to), "broadcast() to {:?}, which the handler excludes", s.to);
                        ensure!(st.pre.is_active(&s.to), "broadcast() to {:?}, not an active member", s.to);
                        ensure!(dsts.insert(s.to), "broadcast() picked {:?} twice", s.to);
                    }
                    self.datagram(s, h, cov)?;
                }
                _ => {}
            }
        }
        if matches!(st.op, Op::Broadcast) {
            if backlog_pre == 0 {
                ensure!(st.sends.is_empty(), "broadcast() with an empty backlog sent something");
                cov.hit("broadcast() with an empty backlog");
            } else {
                let eligible = st.pre.active.iter().filter(|m| h.eligible(m.id())).count();
                let k = st.cfg_pre.num_indirect_probes.get();
                ensure!(
                    st.sends.len() <= k.min(eligible),
                    "broadcast() sent {} datagrams, num_indirect_probes={k}, {eligible} eligible",
                    st.sends.len()
                );
                // it has to fit, though: a header the packet has no room for
                // makes the call fail
                if st.res.is_ok() {
                    ensure!(
                        !st.sends.is_empty() || eligible == 0,
                        "broadcast() reached nobody out of {eligible} eligible members"
                    );
                }
                cov.hit(if eligible == 0 {
                    "broadcast() with nobody eligible"
                } else if self.items.is_empty() {
                    "broadcast() drained the backlog"
                } else {
                    "broadcast() with items left"
                });
            }
        }
        ensure!(
            st.post.cb_backlog == self.items.len(),
            "{} items in the backlog after {}, accounting says {}",
            st.post.cb_backlog,
            st.op.name(),
            self.items.len()
        );
        Ok(())
    }
}

/// The other end: an instance with the destination's identity and a handler
/// that takes it all.
fn deliver(kind: Kind, s: &Sent, max: usize, base: &foca::Config, cov: &mut Cov) -> R {
    let p = pkt(s)?;
    if p.items.is_empty() || s.to.addr == p.header.src.addr {
        return Ok(());
    }
    let mut config = base.clone();
    config.max_packet_size = max.try_into().map_err(|_| "zero packet size".to_string())?;
    let mut peer = Inst::new(InstCfg {
        id: s.to,
        config,
        seed: 5,
        kind,
        handler: HandlerCfg::permissive(),
    })?;
    let st = peer.step(Op::Data(s.data.clone()), None)?;
    let seen: Vec<(Vec<u8>, Option<Id>)> = st
        .evs
        .iter()
        .filter_map(|e| match e {
            Ev::Item { data, sender, .. } => Some((data.clone(), *sender)),
            _ => None,
        })
        .collect();
    let want: Vec<(Vec<u8>, Option<Id>)> = p.items.iter().map(|i| (i.clone(), Some(p.header.src))).collect();
    ensure!(
        seen == want,
        "{} from {:?}: the receiving handler saw {seen:02x?}, sent were {want:02x?} ({:?})",
        msg_name(&p.header.message),
        p.header.src,
        st.res
    );
    cov.hit("datagram with items delivered");
    Ok(())
}

fn finish(c: &mut Ctx, g: &mut Ghost, cov: &mut Cov) -> R {
    let mut cfg = c.inst.cfg.clone();
    cfg.max_packet_size = 8_000_000.try_into().unwrap();
    let st = c.step(Op::SetConfig(cfg), None)?;
    g.step(&st, c.inc_pre, c, cov)?;
    if c.inst.conn == Conn::Defunct {
        return Ok(());
    }
    // someone eligible keeps talking to us
    let Some(a) = (700u16..716).find(|a| c.inst.hcfg.eligible(&Id::new(*a, 0, 0))) else {
        return Ok(());
    };
    let peer = Id::new(a, 0, 0);
    let rounds = 255 * 5;
    for i in 0..rounds {
        if c.inst.foca.custom_broadcast_backlog() == 0 {
            cov.hit("case drained to an empty backlog");
            return Ok(());
        }
        let own = c.inst.id();
        let msg = if i % 2 == 0 { Message::Ping(7) } else { Message::Announce };
        let d = build_packet(c.inst.kind, &mk_header(peer, 0, own, msg), None, &[]);
        let st = c.step(Op::Data(d), None)?;
        g.step(&st, c.inc_pre, c, cov)?;
        if c.inst.conn != Conn::Active {
            return Ok(());
        }
    }
    Err(format!(
        "{} items still pending after {rounds} roomy datagrams to an eligible member",
        c.inst.foca.custom_broadcast_backlog()
    ))
}

const P: Profile = Profile {
    w: [40, 8, 2, 1, 1, 1, 8, 16, 6, 30, 1, 1, 2, 4, 0],
    m: [8, 3, 2, 3, 3, 2, 6, 3, 10, 10, 2],
    tight: 1,
    ..BASE
};
const TIGHT: Profile = Profile { tight: 2, max_addrs: 12, ..P };

fn run(t: &Tape, p: &Profile, cov: &mut Cov) -> R {
    let mut g = Ghost::default();
    let mut probe = 0u32;
    let mut c = drive(t, p, cov, &mut |st, c, cov| {
        g.step(st, c.inc_pre, c, cov)?;
        for s in &st.sends {
            if s.pkt.as_ref().is_ok_and(|p| !p.items.is_empty()) {
                probe += 1;
                if probe % 8 == 1 {
                    deliver(c.inst.kind, s, st.cfg_pre.max_packet_size.get(), &c.w.config, cov)?;
                }
            }
        }
        Ok(())
    })?;
    finish(&mut c, &mut g, cov)?;
    if g.nontrivial {
        cov.nontrivial();
    }
    Ok(())
}
fn history(t: &Tape, cov: &mut Cov) -> R {
    run(t, &P, cov)
}
fn tight(t: &Tape, cov: &mut Cov) -> R {
    run(t, &TIGHT, cov)
}

/// A backlog of items of arbitrary sizes next to a backlog of updates, sent
/// in packets of arbitrary size; every datagram is handed to its receiver.
fn space(t: &Tape, cov: &mut Cov) -> R {
    let mut c = Ctx::new(t, &TIGHT)?;
    let mut g = Ghost::default();
    let mut serial = 0u16;
    for words in &t.ops {
        let mut dr = Draw::new(words);
        let room = c.inst.cfg.max_packet_size.get().saturating_sub(c.w.base_hdr);
        let op = match dr.below(8) {
            0 => {
                let v = (0..dr.range(1, 4))
                    .map(|_| {
                        serial += 1;
                        Member::new(c.w.peer(1 + dr.below(12) as u16, dr.below(3) as u16), serial, State::Alive)
                    })
                    .collect();
                Op::Apply(v, dr.below(3) != 2)
            }
            1 => {
                let mut cfg = c.inst.cfg.clone();
                cfg.max_packet_size = (c.w.base_hdr + dr.range(0, 120) as usize).max(1).try_into().unwrap();
                Op::SetConfig(cfg)
            }
            2 | 3 => {
                // sizes around what is left
                let len = match dr.below(3) {
                    0 => dr.range(1, 12) as usize,
                    1 => room.saturating_sub(dr.usize(8)).max(1),
                    _ => dr.range(1, room.max(1) as u32) as usize,
                };
                let it = c.w.item(&mut dr, len.max(1));
                let mut it = it;
                while it.len() < len {
                    it.push(dr.word() as u8);
                }
                it.truncate(len.max(1));
                Op::AddBc(it)
            }
            4 => Op::Broadcast,
            5 => Op::Gossip,
            _ => {
                let s = c.inst.snap();
                let Some(m) = s.active.get(dr.usize(s.active.len().max(1))) else { continue };
                let msg = match dr.below(4) {
                    0 => Message::Ping(3),
                    1 => Message::Announce,
                    2 => Message::PingReq { target: c.w.peer(1, 0), probe_number: 1 },
                    _ => Message::IndirectPing { origin: c.w.peer(2, 0), probe_number: 1 },
                };
                let d = build_packet(c.inst.kind, &mk_header(*m.id(), 0, s.id, msg), None, &[]);
                if d.len() > c.inst.cfg.max_packet_size.get() {
                    continue;
                }
                Op::Data(d)
            }
        };
        let st = c.step(op, None)?;
        g.step(&st, c.inc_pre, &c, cov)?;
        for s in &st.sends {
            deliver(c.inst.kind, s, st.cfg_pre.max_packet_size.get(), &c.w.config, cov)?;
        }
    }
    finish(&mut c, &mut g, cov)?;
    if g.nontrivial {
        cov.nontrivial();
    }
    Ok(())
}

/// Far more items than what fits a datagram, most of them received by the
/// dozen, of all sizes
fn backlog(t: &Tape, cov: &mut Cov) -> R {
    let mut c = Ctx::new(t, &P)?;
    let mut g = Ghost::default();
    let mut d = Draw::new(&t.cfg[CFGW / 2..]);
    let mut h = c.inst.hcfg;
    h.rel = [2, 2, 0, 4, 5][d.usize(5)];
    h.policy = 1;
    h.errs = false;
    let mut cfg = c.inst.cfg.clone();
    cfg.max_packet_size = [1400, 8000, 65_000][d.usize(3)].try_into().unwrap();
    c.w.handler = h;
    c.w.config = cfg.clone();
    c.inst = Inst::new(InstCfg { id: c.w.own, config: cfg, seed: d.u64(), kind: c.inst.kind, handler: h })?;
    c.inc = c.inst.peek_incarnation()?;
    let peers: Vec<Member<Id>> = (1..=1 + d.below(6) as u16).map(|a| Member::new(c.w.peer(a, 0), 0, State::Alive)).collect();
    let st = c.step(Op::Apply(peers.clone(), d.below(2) == 0), None)?;
    g.step(&st, c.inc_pre, &c, cov)?;
    let mut most = 0;
    for words in &t.ops {
        let mut dr = Draw::new(words);
        let max = c.inst.cfg.max_packet_size.get();
        let from = *peers[dr.usize(peers.len())].id();
        let own = c.inst.id();
        let op = match dr.below(8) {
            0 => Op::Broadcast,
            1 => Op::Gossip,
            2 => {
                let msg = [Message::Ping(3), Message::Announce][dr.usize(2)].clone();
                Op::Data(build_packet(c.inst.kind, &mk_header(from, 0, own, msg), None, &[]))
            }
            3 => {
                let len = 1 + dr.usize(300);
                Op::AddBc(c.w.item(&mut dr, len))
            }
            k => {
                let msg = if k == 4 { Message::Broadcast } else { Message::Gossip };
                let hdr = mk_header(from, 0, own, msg.clone());
                let many = 1 + dr.usize(40);
                let len = [3, 20, 120, 900][dr.usize(4)];
                let mut items = vec![];
                let mut room = max.saturating_sub(c.w.base_hdr + 40);
                for i in 0..many {
                    let mut it = c.w.item(&mut dr, len);
                    it.resize(it.len().max(1 + hash2(i as u64, words[0] as u64) as usize % len), 7);
                    if it.len() + 2 > room {
                        break;
                    }
                    room -= it.len() + 2;
                    items.push(it);
                }
                let none: &[Mem] = &[];
                let ups = (msg != Message::Broadcast).then_some(none);
                let d = build_packet(c.inst.kind, &hdr, ups, &items);
                if d.len() > max {
                    continue;
                }
                Op::Data(d)
            }
        };
        let st = c.step(op, None)?;
        g.step(&st, c.inc_pre, &c, cov)?;
        most = most.max(c.inst.foca.custom_broadcast_backlog());
    }
    if most >= 30 {
        cov.hit("30 or more items pending");
    }
    if most >= 200 {
        cov.hit("200 or more items pending");
    }
    finish(&mut c, &mut g, cov)?;
    if g.nontrivial {
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// what foca brings along: byte slices as keys, a handler that lets everybody
// have everything

const KEYS: [&[u8]; 10] = [b"", b"a", b"ab", b"abc", b"b", b"ba", b"\0", b"ab\0", b"\0\0", b"A"];
struct Slices;
impl<T> foca::BroadcastHandler<T> for Slices {
    type Key = &'static [u8];
    type Error = std::fmt::Error;
    fn receive_item(&mut self, data: &[u8], _: Option<&T>) -> Result<Option<&'static [u8]>, std::fmt::Error> {
        Ok(KEYS.get(data[0] as usize).copied())
    }
}

fn slices(t: &Tape, cov: &mut Cov) -> R {
    use foca::{AccumulatingRuntime, Codec, Header, PostcardCodec};
    use std::net::{Ipv4Addr, SocketAddrV4};
    type Host = SocketAddrV4;
    let host = |n: u32| Host::new(Ipv4Addr::from(0x0a00_0000 + n), 7000);
    let mut d = Draw::new(&t.cfg);
    let mut cfg = foca::Config::simple();
    cfg.max_transmissions = (1 + d.below(4) as u8).try_into().unwrap();
    cfg.num_indirect_probes = (1 + d.usize(3)).try_into().unwrap();
    cfg.max_packet_size = [1400usize, 60, 40][d.usize(3)].try_into().unwrap();
    let tx = u32::from(cfg.max_transmissions.get());
    let max = cfg.max_packet_size.get();
    let rng = <rand::rngs::SmallRng as rand::SeedableRng>::seed_from_u64(d.u64());
    let mut f = foca::Foca::with_custom_broadcast(host(0), cfg, rng, PostcardCodec, Slices);
    let mut out = AccumulatingRuntime::new();
    let n = 1 + d.below(4);
    let mut codec = PostcardCodec;
    // (key, bytes, transmissions left)
    let mut model: Vec<(u8, Vec<u8>, u32)> = vec![];
    let mut serial = 0u16;
    for w in &t.ops {
        let mut d = Draw::new(w);
        let d = &mut d;
        let accept = |model: &mut Vec<(u8, Vec<u8>, u32)>, item: &[u8]| -> bool {
            if usize::from(item[0]) >= KEYS.len() {
                return false;
            }
            model.retain(|(k, _, _)| KEYS[usize::from(*k)] != KEYS[usize::from(item[0])]);
            model.push((item[0], item.to_vec(), tx));
            true
        };
        let mut item = || {
            serial += 1;
            let mut v = vec![d.below(12) as u8];
            v.extend(serial.to_be_bytes());
            v.extend(std::iter::repeat_n(7, d.usize(9)));
            v
        };
        match (item(), d.below(8)) {
            (it, 0..=2) => {
                let got = crate::inst::guarded(|| f.add_broadcast(&it))?.map_err(|e| format!("add_broadcast({it:?}): {e:?}"))?;
                let want = accept(&mut model, &it);
                ensure!(got == want, "add_broadcast({it:?}) returned {got}");
            }
            (it, 3) => {
                let from = host(1 + d.below(n));
                let mut b = vec![];
                codec
                    .encode_header(&Header { src: from, src_incarnation: 0, dst: host(0), message: Message::Broadcast }, &mut b)
                    .unwrap();
                b.extend((it.len() as u16).to_be_bytes());
                b.extend(&it);
                if b.len() <= max {
                    crate::inst::guarded(|| f.handle_data(&b, &mut out))?.map_err(|e| format!("Broadcast with {it:?}: {e:?}"))?;
                    accept(&mut model, &it);
                }
            }
            (_, 4 | 5) => {
                let _ = crate::inst::guarded(|| f.broadcast(&mut out))?;
            }
            (_, 6) => {
                let _ = crate::inst::guarded(|| f.gossip(&mut out))?;
            }
            _ => {
                let m = Member::new(host(1 + d.below(n)), d.below(2) as u16, [State::Alive, State::Suspect][d.usize(2)]);
                let _ = crate::inst::guarded(|| f.apply_many(std::iter::once(m), true, &mut out))?;
            }
        }
        while let Some((to, data)) = out.to_send() {
            let mut b: &[u8] = &data;
            let h: Header<Host> = codec.decode_header(&mut b).map_err(|e| format!("header: {e:?}"))?;
            if !matches!(h.message, Message::Announce | Message::TurnUndead | Message::Broadcast) && b.len() >= 2 {
                let count = bytes::Buf::get_u16(&mut b);
                for _ in 0..count {
                    let _: Member<Host> = codec.decode_member(&mut b).map_err(|e| format!("member: {e:?}"))?;
                }
            }
            let mut seen = HashSet::new();
            while !b.is_empty() {
                ensure!(b.len() > 2, "stray bytes {b:?}");
                let len = usize::from(bytes::Buf::get_u16(&mut b));
                ensure!(len > 0 && len <= b.len(), "item of {len} bytes, {} left", b.len());
                let it = &b[..len];
                ensure!(seen.insert(it), "{it:?} sent twice in one datagram");
                match model.iter_mut().find(|(_, x, _)| x == it) {
                    Some((_, _, left)) if *left > 0 => *left -= 1,
                    Some(_) => return Err(format!("{it:?} sent to {to} more than {tx} times")),
                    None => return Err(format!("{it:?} sent to {to} although its key {:?} is not pending with these bytes", KEYS.get(it[0] as usize))),
                }
                cov.hit("item sent");
                cov.nontrivial();
                b = &b[len..];
            }
        }
        model.retain(|(_, _, left)| *left > 0);
        while out.to_schedule().is_some() {}
        while out.to_notify().is_some() {}
        ensure!(
            f.custom_broadcast_backlog() == model.len(),
            "{} items pending, expected {:?}",
            f.custom_broadcast_backlog(),
            model
        );
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        level: "exploration",
        rule: "A shadow backlog is kept from the handler's own answers and compared with custom_broadcast_backlog() after every call and \
            with the tail of every datagram; receive_item calls are compared with the tails received; emitted datagrams are handed to a \
            receiver. Non-trivial: an item was transmitted or invalidated.",
        assumptions: &["items that come after one the handler fails on, in the same datagram, may be left out"],
        subs: vec![
            Sub { name: "history", quick: 300_000, thorough: 9_000_000, body: Body::Tape { min: 1, max: 60, f: history } },
            Sub { name: "tight", quick: 150_000, thorough: 5_000_000, body: Body::Tape { min: 1, max: 60, f: tight } },
            Sub { name: "backlog", quick: 10_000, thorough: 300_000, body: Body::Tape { min: 1, max: 60, f: backlog } },
            Sub { name: "slices", quick: 60_000, thorough: 2_000_000, body: Body::Tape { min: 2, max: 60, f: slices } },
            Sub { name: "space", quick: 150_000, thorough: 5_000_000, body: Body::Tape { min: 2, max: 60, f: space } },
        ],
    }
}
