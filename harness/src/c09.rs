//! C09: one record per address, identities only move forward, the own address
//! is never active, superseded or Down senders are not listened to.
use std::collections::{BTreeMap, BTreeSet};

use foca::{Message, OwnedNotification as N, State, Timer};

use crate::codec::Mem;
use crate::drive::{drive, Ctx};
use crate::ensure;
use crate::gen::{Profile, BASE};
use crate::id::Id;
use crate::inst::{Op, Step};
use crate::model::{classify, recs_of, Verdict};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::Tape;

#[derive(Default)]
struct Ghost {
    told: BTreeSet<u16>,
    superseded: BTreeMap<u16, BTreeSet<Id>>,
}

fn monitor(g: &mut Ghost, st: &Step, c: &Ctx, cov: &mut Cov) -> R {
    let max = st.cfg_pre.max_packet_size.get();
    // what this call told the instance
    let mut verdict = None;
    match &st.op {
        Op::Data(d) => {
            let v = classify(c.inst.kind, d, &st.pre.id, max);
            if let Verdict::Ok(a) = &v {
                g.told.insert(a.header.src.addr);
                g.told.extend(a.updates.iter().map(|m| m.id().addr));
            }
            verdict = Some(v);
        }
        Op::Apply(us, _) => g.told.extend(us.iter().map(|m| m.id().addr)),
        _ => {}
    }
    let pre = recs_of(&st.pre);
    let post = recs_of(&st.post);
    ensure!(
        post.len() == st.post.recs.len(),
        "two records share an address after {}: {:?}",
        st.op.name(),
        st.post.recs
    );
    for m in &st.post.recs {
        ensure!(g.told.contains(&m.id().addr), "record {m:?} for an address it was never told about");
    }
    for m in st.post.active.iter() {
        ensure!(
            m.id().addr != st.post.id.addr,
            "own address listed as active: {m:?} (identity {:?})",
            st.post.id
        );
    }
    // replacement of identities
    let mut cur: BTreeMap<u16, Id> = pre.iter().map(|(a, m)| (*a, *m.id())).collect();
    for n in st.notes() {
        match n {
            N::Rename(a, b) => {
                ensure!(a.addr == b.addr, "Rename({a:?}, {b:?}) across addresses");
                ensure!(b.wins(a), "Rename({a:?}, {b:?}): the new identity does not win the address conflict");
                if let Some(k) = cur.get(&a.addr) {
                    ensure!(k == a, "Rename({a:?}, {b:?}) but the identity on record was {k:?}");
                }
                cur.insert(a.addr, *b);
                g.superseded.entry(a.addr).or_default().insert(*a);
                cov.hit("identity superseded");
                cov.nontrivial();
            }
            N::MemberUp(i) => {
                let k = cur.entry(i.addr).or_insert(*i);
                ensure!(k == i, "MemberUp({i:?}) but the identity on record is {k:?}");
            }
            _ => {}
        }
    }
    for (a, m) in &post {
        if let Some(k) = cur.get(a) {
            ensure!(
                k == m.id(),
                "address {a}: identity on record is {:?}, the notifications say {k:?}",
                m.id()
            );
        }
        if let Some(s) = g.superseded.get(a) {
            ensure!(!s.contains(m.id()), "fell back to {:?}, which had been superseded", m.id());
        }
    }
    for a in pre.keys() {
        if !post.contains_key(a) {
            g.superseded.remove(a);
            cov.hit("address forgotten");
        }
    }
    // discarded payloads
    if let Some(Verdict::Ok(a)) = &verdict {
        let src = a.header.src;
        let unwanted = match pre.get(&src.addr) {
            Some(m) if *m.id() == src => (m.state() == State::Down).then_some("Down"),
            Some(m) => m.id().wins(&src).then_some("superseded"),
            None => None,
        };
        if let Some(why) = unwanted {
            cov.nontrivial();
            cov.hit(if why == "Down" { "sender is Down" } else { "sender is superseded" });
            let undead = a.header.message == Message::TurnUndead;
            // renewing to the address of a known member brings that one down
            let taken = (undead && st.post.id.addr != st.pre.id.addr).then_some(st.post.id.addr);
            let rest = |v: Vec<Mem>| -> Vec<Mem> { v.into_iter().filter(|m| Some(m.id().addr) != taken).collect() };
            ensure!(
                rest(st.pre.sorted()) == rest(st.post.sorted()),
                "a datagram sent by the {why} identity {src:?} changed the membership: {:?} -> {:?}",
                st.pre.sorted(),
                st.post.sorted()
            );
            ensure!(
                st.items().count() == 0,
                "custom broadcasts of the {why} identity {src:?} reached the handler"
            );
            let mut timers = st.timers().filter(|(t, _)| {
                !matches!(t, Timer::RemoveDown(i) if Some(i.addr) == taken)
            });
            ensure!(timers.next().is_none(), "a datagram of the {why} identity {src:?} scheduled timers");
            for n in st.notes() {
                let ok = undead
                    && (matches!(n, N::Rejoin(_) | N::Defunct)
                        || matches!(n, N::MemberDown(i) if Some(i.addr) == taken));
                ensure!(ok, "a datagram of the {why} identity {src:?} led to {n:?}");
            }
            if !undead {
                ensure!(
                    st.pre.id == st.post.id && c.inc == c.inc_pre,
                    "a datagram of the {why} identity {src:?} changed the own identity or incarnation"
                );
                ensure!(
                    st.pre.upd_backlog == st.post.upd_backlog,
                    "a datagram of the {why} identity {src:?} queued updates"
                );
            }
            for s in &st.sends {
                let p = crate::drive::pkt(s)?;
                let ok = match &p.header.message {
                    Message::TurnUndead => s.to == src,
                    // rejoining
                    Message::Gossip | Message::Announce => undead,
                    _ => false,
                };
                ensure!(
                    ok,
                    "a datagram of the {why} identity {src:?} was answered with {:?} to {:?}",
                    p.header.message,
                    s.to
                );
            }
        }
    }
    Ok(())
}

const P: Profile = Profile {
    w: [52, 14, 6, 2, 3, 1, 2, 1, 8, 2, 1, 2, 2, 2, 0],
    max_addrs: 4,
    own_pct: 15,
    ..BASE
};

fn history(t: &Tape, cov: &mut Cov) -> R {
    let mut g = Ghost::default();
    drive(t, &P, cov, &mut |st, c, cov| monitor(&mut g, st, c, cov)).map(|_| ())
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        level: "exploration",
        rule: "A case is a generated history over few addresses with several generations each. Non-trivial: an identity \
            was superseded, or a superseded or Down identity sent a datagram that was otherwise acceptable.",
        assumptions: &["win_addr_conflict is a strict total order among identities of one address"],
        subs: vec![Sub {
            name: "history",
            quick: 500_000,
            thorough: 20_000_000,
            body: Body::Tape { min: 1, max: 60, f: history },
        }],
    }
}
