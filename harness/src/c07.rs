//! C07: what goes out on the wire.
use std::collections::BTreeSet;

use foca::{Config, Member, Message, OwnedNotification, State};

use crate::codec::{build_packet, carries_items, msg_name, piggybacks, Kind, KINDS};
use crate::drive::{drive, pkt};
use crate::ensure;
use crate::gen::{mk_header, Profile, World, BASE};
use crate::handler::HandlerCfg;
use crate::id::Id;
use crate::inst::{ErrK, Inst, InstCfg, Op, Sent, Step};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{Draw, Tape};

/// An instance that is whoever the datagram is for.
pub fn receiver(kind: Kind, to: Id, max: usize, base: &Config) -> Result<Inst, String> {
    let mut config = base.clone();
    config.max_packet_size = max.max(1).try_into().unwrap();
    Inst::new(InstCfg { id: to, config, seed: 5, kind, handler: HandlerCfg::permissive() })
}

pub fn deliver(kind: Kind, s: &Sent, max: usize, base: &Config, cov: &mut Cov) -> R {
    let p = pkt(s)?;
    if s.to.addr == p.header.src.addr {
        return Ok(());
    }
    let mut r = receiver(kind, s.to, max, base)?;
    let st = r.step(Op::Data(s.data.clone()), None)?;
    ensure!(
        !matches!(
            st.res,
            Err(ErrK::Decode | ErrK::MalformedPacket | ErrK::DataTooBig | ErrK::CustomBroadcast)
        ),
        "{} for {:?} ({} bytes, {} updates, {} items) refused by its receiver: {:?}",
        msg_name(&p.header.message),
        s.to,
        p.len,
        p.updates.len(),
        p.items.len(),
        st.res
    );
    cov.hit("datagram accepted by its receiver");
    Ok(())
}

pub fn wellformed(st: &Step, inc_pre: u16, inc: u16, exact: bool, cov: &mut Cov) -> R {
    let max = st.cfg_pre.max_packet_size.get();
    let mut ids: BTreeSet<Id> = [st.pre.id, st.post.id].into();
    for n in st.notes() {
        if let OwnedNotification::Rejoin(i) = n {
            ids.insert(*i);
        }
    }
    let mut cur = st.pre.id;
    if matches!(st.op, Op::ChangeId(_)) && st.res.is_ok() {
        cur = st.post.id;
    }
    let mut left: BTreeSet<Id> = BTreeSet::new();
    for s in &st.sends {
        let what = match &s.pkt {
            Ok(p) => msg_name(&p.header.message),
            Err(_) => "datagram",
        };
        ensure!(
            s.data.len() <= max,
            "{what} to {:?} is {} bytes, max_packet_size is {max}",
            s.to,
            s.data.len()
        );
        let p = pkt(s)?;
        let h = &p.header;
        ensure!(h.dst == s.to, "{what} handed over for {:?} is addressed to {:?}", s.to, h.dst);
        if h.src != cur {
            ensure!(
                ids.contains(&h.src) && !left.contains(&h.src),
                "{what} claims to come from {:?}, the sender is {cur:?} (then {:?})",
                h.src,
                st.post.id
            );
            left.insert(cur);
            cur = h.src;
        }
        if h.src == st.post.id && exact {
            ensure!(
                h.src_incarnation == inc,
                "{what} carries incarnation {}, the sender's is {inc} (was {inc_pre})",
                h.src_incarnation
            );
        } else if h.src == st.pre.id && st.pre.id != st.post.id {
            ensure!(
                h.src_incarnation >= inc_pre,
                "{what} carries incarnation {}, the sender's was {inc_pre}",
                h.src_incarnation
            );
        }
        match &h.message {
            m if piggybacks(m) => {
                if !p.has_section {
                    ensure!(
                        p.header_len + 2 >= max,
                        "{what} has no member section although {} bytes were left",
                        max - p.header_len
                    );
                    cov.hit("no room for a member section");
                } else {
                    if p.header_len + 2 < max && p.len == max {
                        cov.hit("filled to the last byte");
                    }
                    match (p.updates.is_empty(), p.items.is_empty()) {
                        (true, true) => cov.hit("section: empty"),
                        (false, true) => cov.hit("section: updates"),
                        (true, false) => cov.hit("section: items"),
                        (false, false) => cov.hit("section: updates and items"),
                    }
                }
            }
            m if carries_items(m) => cov.hit(if p.items.is_empty() { "Broadcast, empty" } else { "Broadcast with items" }),
            _ => cov.hit("header only kind"),
        }
        if h.message == Message::Feed {
            let mut seen = BTreeSet::new();
            for m in &p.updates {
                ensure!(*m.id() != h.dst, "Feed to {:?} lists the receiver", h.dst);
                ensure!(*m.id() != h.src, "Feed from {:?} lists the sender", h.src);
                ensure!(m.state() != State::Down, "Feed lists {m:?}");
                ensure!(seen.insert(*m.id()), "Feed lists {:?} twice", m.id());
                ensure!(
                    st.post.active.iter().any(|x| x == m),
                    "Feed lists {m:?}, on record as {:?}",
                    st.post.rec(m.id().addr)
                );
            }
            let total = st.post.active.iter().filter(|m| *m.id() != h.dst).count();
            cov.hit(if seen.len() == total { "Feed with every member" } else { "Feed with some members" });
        }
    }
    Ok(())
}

const P: Profile = Profile {
    w: [44, 14, 3, 1, 1, 3, 8, 8, 10, 12, 1, 2, 2, 5, 0],
    m: [7, 5, 4, 4, 4, 3, 9, 3, 10, 3, 2],
    self_last: true,
    tight: 1,
    ..BASE
};
const TIGHT: Profile = Profile { tight: 2, max_addrs: 20, ..P };

fn run(t: &Tape, p: &Profile, cov: &mut Cov) -> R {
    let mut n = 0u32;
    drive(t, p, cov, &mut |st, c, cov| {
        wellformed(st, c.inc_pre, c.inc, true, cov)?;
        for s in &st.sends {
            cov.nontrivial();
            n += 1;
            if n % 6 == 1 {
                deliver(c.inst.kind, s, st.cfg_pre.max_packet_size.get(), &c.w.config, cov)?;
            }
        }
        Ok(())
    })
    .map(|_| ())
}
fn history(t: &Tape, cov: &mut Cov) -> R {
    run(t, &P, cov)
}
fn tight(t: &Tape, cov: &mut Cov) -> R {
    run(t, &TIGHT, cov)
}

/// One state (members, updates, items), one trigger, every packet size from
/// just-a-header upwards.
fn sweep(t: &Tape, cov: &mut Cov) -> R {
    let w0 = World::new(&t.cfg, &TIGHT);
    let mut dr0 = Draw::new(&t.cfg[8..]);
    let kind = w0.kind;
    let msg = dr0.below(7);
    let step = 1 + dr0.usize(2);
    let span = 24 + dr0.usize(90);
    let mut size = w0.base_hdr;
    while size <= w0.base_hdr + span {
        let mut w = World::new(&t.cfg, &TIGHT);
        w.config.max_packet_size = 8000.try_into().unwrap();
        let mut inst = Inst::new(w.inst_cfg())?;
        let mut serial = 0;
        for words in &t.ops {
            let mut dr = Draw::new(words);
            let op = if dr.below(3) < 2 {
                let v = (0..dr.range(1, 3))
                    .map(|_| {
                        serial += 1;
                        let st = if dr.below(5) == 4 { State::Down } else { State::Alive };
                        Member::new(w.peer(1 + dr.below(20) as u16, dr.below(3) as u16), serial, st)
                    })
                    .collect();
                Op::Apply(v, dr.below(3) != 2)
            } else {
                Op::AddBc(w.item(&mut dr, 40))
            };
            inst.step(op, None)?;
        }
        let mut cfg = inst.cfg.clone();
        cfg.max_packet_size = size.max(1).try_into().unwrap();
        inst.step(Op::SetConfig(cfg), None)?;
        let own = inst.id();
        let peer = w.peer(21, 0);
        let op = match msg {
            0 => Op::Gossip,
            1 => Op::Broadcast,
            2 | 3 => Op::Data(build_packet(kind, &mk_header(peer, 0, own, Message::Announce), None, &[])),
            4 => Op::Data(build_packet(kind, &mk_header(peer, 0, own, Message::Ping(200)), None, &[])),
            5 => Op::Data(build_packet(
                kind,
                &mk_header(peer, 0, own, Message::PingReq { target: w.peer(3, 1), probe_number: 1 }),
                None,
                &[],
            )),
            _ => Op::Leave,
        };
        if let Op::Data(d) = &op {
            if d.len() > size {
                size += step;
                continue;
            }
        }
        let inc = inst.peek_incarnation()?;
        let st = inst.step(op, None)?;
        let inc2 = inst.peek_incarnation()?;
        wellformed(&st, inc, inc2, true, cov)?;
        for s in &st.sends {
            cov.nontrivial();
            deliver(kind, s, size, &w.config, cov)?;
        }
        size += step;
    }
    Ok(())
}

/// Large packets and large clusters.
fn large(t: &Tape, cov: &mut Cov) -> R {
    let mut dr = Draw::new(&t.cfg);
    let kind = KINDS[dr.usize(KINDS.len())];
    let size = [65_535usize, 65_536, 60_000, 20_000, 9000, 3000][dr.usize(6)] + dr.usize(40);
    let rule = (dr.below(6) as u8) << 2;
    let n = dr.range(200, 7000) as u16;
    let mut config = Config::simple();
    config.max_packet_size = size.try_into().unwrap();
    config.max_transmissions = (1 + dr.below(3) as u8).try_into().unwrap();
    let own = Id::new(0, 0, rule);
    let mut inst = Inst::new(InstCfg {
        id: own,
        config: config.clone(),
        seed: dr.u64(),
        kind,
        handler: HandlerCfg::permissive(),
    })?;
    let mut v = vec![];
    for a in 1..=n {
        let st = match dr.below(12) {
            0 => State::Down,
            1 => State::Suspect,
            _ => State::Alive,
        };
        v.push(Member::new(Id::new(a, dr.below(4) as u16, rule), dr.word() as u16 >> dr.below(16), st));
    }
    inst.step(Op::Apply(v, true), None)?;
    for i in 0..dr.range(0, 6) {
        let len = dr.range(1, 30_000.min(size as u32 - 1)) as usize;
        let mut d = vec![(i * 7) as u8; len];
        if len > 1 {
            d[1] = i as u8;
        }
        inst.step(Op::AddBc(d), None)?;
    }
    for words in &t.ops {
        let mut dr = Draw::new(words);
        let peer = Id::new(1 + dr.below(n as u32 + 50) as u16, 5, rule);
        let op = match dr.below(5) {
            0 => Op::Gossip,
            1 => Op::Broadcast,
            2 => Op::Data(build_packet(kind, &mk_header(peer, 0, own, Message::Ping(9)), None, &[])),
            _ => Op::Data(build_packet(kind, &mk_header(peer, 0, own, Message::Announce), None, &[])),
        };
        let inc = inst.peek_incarnation()?;
        let st = inst.step(op, None)?;
        wellformed(&st, inc, inc, true, cov)?;
        for s in st.sends.iter().take(2) {
            cov.nontrivial();
            deliver(kind, s, size, &config, cov)?;
            if pkt(s)?.updates.len() > 1000 {
                cov.hit("more than 1000 members in one datagram");
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "Every datagram is read by a strict parser written from the statement (it does not use foca's codecs), its header compared \
            with the sender's identity and incarnation, Feeds with the member list; datagrams are handed to an instance bearing the \
            destination's identity. Non-trivial: at least one datagram was emitted.",
        assumptions: &[
            "a message kind that piggybacks may leave out its member section when at most 2 bytes are left after the header",
            "updates about the instance itself come last within one datagram or batch (so that its incarnation while sending is known)",
        ],
        subs: vec![
            Sub { name: "history", quick: 300_000, thorough: 9_000_000, body: Body::Tape { min: 1, max: 60, f: history } },
            Sub { name: "tight", quick: 150_000, thorough: 5_000_000, body: Body::Tape { min: 1, max: 60, f: tight } },
            Sub { name: "sweep", quick: 8_000, thorough: 300_000, body: Body::Tape { min: 1, max: 40, f: sweep } },
            Sub { name: "large", quick: 400, thorough: 12_000, body: Body::Tape { min: 1, max: 6, f: large } },
        ],
    }
}
