//! C10: incarnation discipline, self-refutation and reaction to one's own death.
use std::collections::BTreeMap;

use foca::{Config, Member, Message, OwnedNotification as N, State};

use crate::codec::piggybacks;
use crate::drive::{drive, pkt, Ctx};
use crate::ensure;
use crate::gen::{Profile, BASE};
use crate::id::Id;
use crate::inst::{Conn, Op, Step};
use crate::model::{classify, Model, Verdict};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::Tape;

#[derive(Default)]
struct Ghost {
    /// highest incarnation told for each identity
    told: BTreeMap<Id, u16>,
    /// the current identity is known to be dead
    dead: bool,
    /// an old identity that still has to be gossiped as Down
    owed: Option<Id>,
}

fn tell(g: &mut Ghost, id: &Id, inc: u16) {
    let e = g.told.entry(*id).or_insert(0);
    *e = (*e).max(inc);
}

fn monitor(g: &mut Ghost, st: &Step, c: &Ctx, cov: &mut Cov) -> R {
    let kind = c.inst.kind;
    let max = st.cfg_pre.max_packet_size.get();
    let (v0, v1) = (c.inc_pre, c.inc);
    match &st.op {
        Op::Data(d) => {
            if let Verdict::Ok(a) = classify(kind, d, &st.pre.id, max) {
                tell(g, &a.header.src, a.header.src_incarnation);
                for m in &a.updates {
                    tell(g, m.id(), m.incarnation());
                }
            }
        }
        Op::Apply(us, _) => {
            for m in us {
                tell(g, m.id(), m.incarnation());
            }
        }
        _ => {}
    }

    // its own identities, some of which have another address
    tell(g, &st.pre.id, v0);
    for n in st.notes() {
        if let N::Rejoin(id) = n {
            tell(g, id, 0);
        }
    }

    // --- own incarnation -------------------------------------------------
    let mut m = Model::new(&st.pre, v0, st.conn_pre);
    m.run(&st.op, kind, max);
    let switched = st.pre.id != st.post.id;
    let reset = switched || matches!((&st.op, &st.res), (Op::Reuse, Ok(_)));
    let about = |id: Id| m.suspicions.iter().filter(move |(i, _)| *i == id).map(|(_, s)| *s).max();
    let base = if reset { 0 } else { v0 };
    let worst = about(st.post.id);
    match worst {
        Some(s) if s >= base => {
            cov.hit("suspicion to refute");
            cov.nontrivial();
            if st.conn_post != Conn::Defunct {
                ensure!(
                    v1 > s,
                    "suspected at incarnation {s} while at {base}, but carries on at incarnation {v1}"
                );
            } else {
                ensure!(v1 >= base, "incarnation went from {base} to {v1}");
            }
        }
        w => {
            if w.is_some() {
                cov.hit("stale suspicion");
            }
            ensure!(
                v1 == base,
                "incarnation is {v1} after {} ({}), expected {base}: nothing suspected it at {base} or above",
                st.op.name(),
                if reset { "new identity" } else { "same identity" }
            );
        }
    }
    // headers of what was sent meanwhile
    let mut last: BTreeMap<Id, u16> = Default::default();
    for s in &st.sends {
        let h = &pkt(s)?.header;
        let e = last.entry(h.src).or_insert(0);
        ensure!(
            h.src_incarnation >= *e,
            "{:?} sent with incarnation {} after one with {e}",
            h.message,
            h.src_incarnation
        );
        *e = h.src_incarnation;
        if h.src == st.pre.id && !(matches!(st.op, Op::Reuse)) {
            ensure!(
                h.src_incarnation >= v0,
                "{:?} sent with incarnation {}, lower than {v0}",
                h.message,
                h.src_incarnation
            );
        }
    }
    if let (Some(s), Some(last)) = (worst, st.sends.last()) {
        let h = &pkt(last)?.header;
        if s >= base && m.suspicions.len() == 1 && !switched && st.conn_post != Conn::Defunct {
            ensure!(
                h.src_incarnation > s,
                "{:?} carries incarnation {} after a suspicion at {s}",
                h.message,
                h.src_incarnation
            );
        }
    }

    // --- what it tells about others --------------------------------------
    for s in &st.sends {
        let p = pkt(s)?;
        for u in &p.updates {
            if u.id().addr == st.post.id.addr || u.id().addr == st.pre.id.addr {
                continue;
            }
            match g.told.get(u.id()) {
                None => return Err(format!("tells about {u:?}, an identity nobody told it about")),
                Some(t) => ensure!(
                    u.incarnation() <= *t,
                    "tells about {:?} at incarnation {} but was told {t} at most",
                    u.id(),
                    u.incarnation()
                ),
            }
        }
    }

    // --- its own death ----------------------------------------------------
    let mut cur = st.pre.id;
    for n in st.notes() {
        match n {
            N::Rejoin(new) => {
                ensure!(new != &cur, "Rejoin with the same identity {new:?}");
                ensure!(new.wins(&cur), "Rejoin({new:?}) does not win against {cur:?}");
                ensure!(
                    crate::id::rejoin_target(&cur) == Some(*new),
                    "Rejoin({new:?}) but {cur:?} renews to {:?}",
                    crate::id::rejoin_target(&cur)
                );
                cur = *new;
                g.dead = false;
                cov.hit("rejoined");
            }
            N::Defunct => {
                g.dead = true;
                cov.hit("defunct");
            }
            _ => {}
        }
    }
    let changed_by_api = matches!((&st.op, &st.res), (Op::ChangeId(_), Ok(_)));
    if changed_by_api || matches!((&st.op, &st.res), (Op::Reuse, Ok(_))) {
        g.dead = false;
    }
    if !changed_by_api {
        ensure!(cur == st.post.id, "identity changed from {:?} to {:?} without Rejoin", st.pre.id, st.post.id);
    }
    if m.trigs.iter().zip(&m.optional).any(|(_, o)| !*o) {
        cov.nontrivial();
        ensure!(
            switched || st.conn_post == Conn::Defunct,
            "learned that {:?} is dead and carries on as if nothing happened",
            st.pre.id
        );
    }
    if g.dead {
        ensure!(st.conn_post != Conn::Active, "active under the dead identity {:?}", st.post.id);
    }
    if st.conn_pre == Conn::Defunct && st.conn_post == Conn::Defunct {
        for s in &st.sends {
            let h = &pkt(s)?.header;
            ensure!(
                matches!(
                    h.message,
                    Message::Announce | Message::Gossip | Message::Broadcast | Message::TurnUndead
                ),
                "defunct but sends {:?}",
                h.message
            );
        }
    }
    // the old identity has to be gossiped as Down
    for s in &st.sends {
        let p = pkt(s)?;
        if !matches!(p.header.message, Message::Feed) {
            for u in &p.updates {
                if Some(*u.id()) == g.owed && u.state() == State::Down {
                    g.owed = None;
                }
            }
        }
    }
    // news about another identity of the own address take its place
    let own_news = m.fates.iter().any(|(u, f)| {
        let old = g.owed.map_or(st.pre.id.addr, |o| o.addr);
        [st.post.id.addr, st.pre.id.addr, old].contains(&u.id().addr) && !matches!(f, crate::model::Fate::Kept | crate::model::Fate::Lost)
    });
    if own_news || matches!(st.op, Op::Leave) {
        g.owed = None;
    }
    if switched && st.conn_pre == Conn::Defunct {
        // should it be told again that this one is Down, that takes the place of
        // whatever was pending about the address
        g.owed = None;
    }
    if switched && st.conn_pre != Conn::Defunct {
        // the latest switch takes the place of what was pending about the address;
        // several switches in one call: not followed
        g.owed = None;
        let prev = match m.trigs.len() {
            0 | 1 => Some(st.pre.id),
            _ => None,
        };
        if let Some(prev) = prev {
            let seen = st.sends.iter().any(|s| {
                s.pkt.as_ref().is_ok_and(|p| {
                    p.updates.iter().any(|u| *u.id() == prev && u.state() == State::Down)
                })
            });
            if seen {
                cov.hit("old identity gossiped as Down at once");
            } else if !own_news {
                g.owed = Some(prev);
            }
        }
    }
    Ok(())
}

const P: Profile = Profile {
    w: [46, 14, 4, 1, 2, 2, 3, 1, 10, 2, 2, 3, 4, 2, 0],
    m: [6, 6, 3, 3, 3, 4, 4, 3, 12, 3, 5],
    own_pct: 35,
    ..BASE
};

fn history(t: &Tape, cov: &mut Cov) -> R {
    let mut g = Ghost::default();
    let mut c = drive(t, &P, cov, &mut |st, c, cov| monitor(&mut g, st, c, cov))?;
    // give it the chance to pay what it owes: a roomy packet, somebody to talk to
    let Some(owed) = g.owed else { return Ok(()) };
    cov.hit("old identity still to be gossiped at the end");
    cov.nontrivial();
    let cfg = Config { max_packet_size: 16_000.try_into().unwrap(), ..c.inst.cfg.clone() };
    let peer = Id::new(777, 0, 0);
    for op in [
        Op::SetConfig(cfg),
        Op::Apply(vec![Member::new(peer, 0, State::Alive)], false),
        Op::Gossip,
    ] {
        let st = c.step(op, None)?;
        ensure!(st.res.is_ok(), "{} failed: {:?}", st.op.name(), st.res);
        for s in &st.sends {
            let p = pkt(s)?;
            if piggybacks(&p.header.message) && p.updates.iter().any(|u| *u.id() == owed && u.state() == State::Down) {
                return Ok(());
            }
        }
    }
    Err(format!("abandoned the identity {owed:?} without ever gossiping it as Down"))
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        level: "exploration",
        rule: "A case is a generated history rich in news about the instance itself (suspicions and Down at any incarnation, \
            TurnUndead, older and newer identities of its address), changes of identity and leave/reuse. The own incarnation \
            is read from a datagram header before and after every call. Non-trivial: a suspicion had to be refuted, the \
            instance learned about its own death, or an abandoned identity was still to be gossiped at the end.",
        assumptions: &["TurnUndead datagrams carry nothing after the header, as every instance sends them (C07)"],
        subs: vec![Sub {
            name: "history",
            quick: 400_000,
            thorough: 16_000_000,
            body: Body::Tape { min: 1, max: 50, f: history },
        }],
    }
}
