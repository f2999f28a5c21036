//! C19: nothing goes to an identity bearing the own address.
use foca::{Member, Message, State, Timer};

use crate::codec::{build_packet, msg_name, Kind};
use crate::drive::{drive, pkt};
use crate::ensure;
use crate::gen::{mk_header, Profile, World, BASE};
use crate::id::Id;
use crate::inst::{Inst, Op, Step};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{Draw, Tape};

fn monitor(st: &Step, cov: &mut Cov) -> R {
    let aliased = st
        .post
        .recs
        .iter()
        .chain(st.pre.recs.iter())
        .any(|m| m.id().addr == st.post.id.addr || m.id().addr == st.pre.id.addr);
    for s in &st.sends {
        let p = pkt(s)?;
        let h = &p.header;
        if matches!(h.message, Message::IndirectPing { .. } | Message::ForwardedAck { .. }) {
            cov.hit("relay (outside the guarantee)");
            continue;
        }
        // the one place where the caller picks the destination
        if matches!(st.op, Op::Announce(_)) {
            continue;
        }
        ensure!(
            s.to.addr != h.src.addr,
            "{} from {:?} sent to {:?}, its own address (during {})",
            msg_name(&h.message),
            h.src,
            s.to,
            st.op.name()
        );
        if aliased {
            cov.nontrivial();
            cov.hit(match &st.op {
                Op::Fire(Timer::PeriodicAnnounceDown(_)) => "announce to Down members, own address on record",
                Op::Fire(Timer::ProbeRandomMember(_)) => "probe, own address on record",
                Op::Fire(Timer::SendIndirectProbe { .. }) => "indirect probe, own address on record",
                Op::Fire(_) => "other timer, own address on record",
                Op::Data(_) => "reply, own address on record",
                _ => "API call, own address on record",
            });
        }
    }
    Ok(())
}

const P: Profile = Profile {
    w: [40, 26, 4, 1, 4, 1, 6, 4, 10, 6, 1, 6, 3, 2, 0],
    m: [6, 4, 5, 4, 4, 4, 5, 3, 10, 3, 5],
    own_pct: 45,
    max_addrs: 4,
    // would renew to identities it was told about
    moves: false,
    ..BASE
};

fn history(t: &Tape, cov: &mut Cov) -> R {
    drive(t, &P, cov, &mut |st, _, cov| monitor(st, cov)).map(|_| ())
}

/// The instance has been around under many identities; every periodic task is
/// on and is let run.
fn echoes(t: &Tape, cov: &mut Cov) -> R {
    let mut w = World::new(&t.cfg, &P);
    let on = |f: u64, n: usize| {
        Some(foca::PeriodicParams {
            frequency: std::time::Duration::from_millis(f),
            num_members: n.try_into().unwrap(),
        })
    };
    let mut dr = Draw::new(&t.cfg[5..]);
    w.config.periodic_announce = on(700, 1 + dr.usize(3));
    w.config.periodic_announce_to_down_members = on(600, 1 + dr.usize(3));
    w.config.periodic_gossip = on(500, 1 + dr.usize(3));
    w.config.max_packet_size = 1400.try_into().unwrap();
    w.config.notify_down_members = dr.below(4) != 0;
    let kind: Kind = w.kind;
    let mut inst = Inst::new(w.inst_cfg())?;
    for words in &t.ops {
        let mut dr = Draw::new(words);
        let own = inst.id();
        let echo = own.with_gen([own.gen, own.gen.saturating_sub(1), own.gen + 1, own.gen + 2][dr.usize(4)]);
        let peer = w.peer(1 + dr.below(3) as u16, dr.below(2) as u16);
        let state = [State::Alive, State::Suspect, State::Down][dr.usize(3)];
        let op = match dr.below(14) {
            0 | 1 => Op::Apply(
                vec![
                    Member::new(echo, dr.below(3) as u16, state),
                    Member::new(peer, 0, State::Alive),
                    Member::new(w.peer(2, 0), 0, [State::Alive, State::Down][dr.usize(2)]),
                ],
                true,
            ),
            2 => {
                let h = mk_header(peer, 0, own, Message::Gossip);
                Op::Data(build_packet(kind, &h, Some(&[Member::new(echo, 0, state)]), &[]))
            }
            3 => Op::ChangeId(own.with_gen(own.gen + 1)),
            4 => Op::ChangeId(Id::new(own.addr, own.gen.saturating_sub(1), own.mode)),
            5 => Op::Reuse,
            13 => {
                // moves to an address somebody was using
                let to = Id::new(1 + dr.below(3) as u16, dr.below(4) as u16, own.mode);
                if to == own {
                    continue;
                }
                if inst.snap().is_active(&to) {
                    cov.hit("became somebody it knows");
                }
                cov.hit("moved to another address");
                Op::ChangeId(to)
            }
            6 => Op::Gossip,
            7 => {
                let h = mk_header(peer, 0, own, Message::TurnUndead);
                Op::Data(build_packet(kind, &h, None, &[]))
            }
            _ => {
                let Some(i) = inst.earliest() else { continue };
                let p = inst.take_pending(i);
                inst.now = inst.now.max(p.due);
                let st = inst.step(Op::Fire(p.t.clone()), Some(p))?;
                monitor(&st, cov)?;
                continue;
            }
        };
        let st = inst.step(op, None)?;
        monitor(&st, cov)?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: "Destination address vs source address of every datagram, in histories full of older and newer identities of the own \
            address, with every combination of periodic tasks. Non-trivial: something was sent while an identity bearing the own \
            address was on record.",
        assumptions: &[
            "an instance does not take up an identity that it lists as another active member",
            "IndirectPing and ForwardedAck (relays) and announce() (the caller picks the destination) are outside the guarantee",
        ],
        subs: vec![
            Sub { name: "history", quick: 500_000, thorough: 16_000_000, body: Body::Tape { min: 1, max: 60, f: history } },
            Sub { name: "echoes", quick: 300_000, thorough: 9_000_000, body: Body::Tape { min: 2, max: 50, f: echoes } },
        ],
    }
}
