//! C12: a probe succeeds only on genuine evidence; indirect probing is routed
//! correctly.
use std::collections::BTreeSet;

use foca::{Member, Message, State, Timer};

use crate::codec::{build_packet, msg_name, Mem, KINDS};
use crate::drive::{drive, pkt, Ctx};
use crate::ensure;
use crate::gen::{mk_header, Profile, World, BASE};
use crate::id::{Id, RENEW_NEXT};
use crate::inst::{Conn, ErrK, Inst, InstCfg, Op, Step};
use crate::model::{classify, is_active, recs_of, Model, Verdict};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{Draw, Tape, CFGW};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Proof {
    No,
    Yes,
}

#[derive(Clone, Debug)]
struct Round {
    /// as on record when the ping was sent
    target: Mem,
    number: u8,
    asked: BTreeSet<Id>,
    direct: Proof,
    indirect: Proof,
}

#[derive(Default)]
struct Ghost {
    round: Option<Round>,
    last_number: Option<u8>,
}

fn probe_timer(g: &mut Ghost, st: &Step, cov: &mut Cov) -> R {
    // the round that ends here
    let over = g.round.take();
    let suspicions: Vec<_> = st
        .timers()
        .filter_map(|(t, d)| match t {
            Timer::ChangeSuspectToDown { member_id, incarnation, .. } => Some((*member_id, *incarnation, d)),
            _ => None,
        })
        .collect();
    let pre = recs_of(&st.pre);
    let post = recs_of(&st.post);
    let unchanged = pre == post;
    if st.res == Err(ErrK::IncompleteProbeCycle) {
        cov.hit("round cut short by timers out of order");
    } else {
        match &over {
            None => {
                ensure!(
                    unchanged && suspicions.is_empty(),
                    "no round was in flight, yet {:?} -> {:?}, timeouts {suspicions:?}",
                    st.pre.sorted(),
                    st.post.sorted()
                );
            }
            Some(r) => {
                let best = if r.direct == Proof::Yes || r.indirect == Proof::Yes {
                    Proof::Yes
                } else {
                    Proof::No
                };
                cov.nontrivial();
                match best {
                    Proof::Yes => {
                        cov.hit(if r.direct == Proof::Yes { "round: direct ack" } else { "round: forwarded ack" });
                        ensure!(
                            unchanged && suspicions.is_empty(),
                            "{:?} proved to be there in round {}, yet {:?} -> {:?}, timeouts {suspicions:?}",
                            r.target.id(),
                            r.number,
                            st.pre.sorted(),
                            st.post.sorted()
                        );
                    }
                    Proof::No => {
                        let id = *r.target.id();
                        let rec = st.pre.rec(id.addr);
                        let due = rec.is_some_and(|m| {
                            *m.id() == id && is_active(m) && m.incarnation() <= r.target.incarnation()
                        });
                        let mut want = pre.clone();
                        if due {
                            cov.hit("round: no evidence, suspected");
                            let inc = r.target.incarnation();
                            want.insert(id.addr, Member::new(id, inc, State::Suspect));
                            ensure!(
                                suspicions == vec![(id, inc, st.cfg_pre.suspect_to_down_after)],
                                "{:?} failed round {}: scheduled {suspicions:?}, expected one timeout for incarnation {inc}",
                                r.target,
                                r.number
                            );
                        } else {
                            cov.hit("round: no evidence, nothing to suspect anymore");
                            ensure!(
                                suspicions.len() <= 1
                                    && suspicions.iter().all(|s| {
                                        // (moot when it is about an incarnation that was left behind)
                                        s.0 == id && rec.is_none_or(|m| *m.id() != id || !is_active(m) || m.incarnation() > s.1)
                                    }),
                                "{:?} failed round {} but is {rec:?}: timeouts {suspicions:?}",
                                r.target,
                                r.number
                            );
                        }
                        ensure!(
                            post == want,
                            "{:?} failed round {} with {rec:?} on record: {:?} -> {:?}",
                            r.target,
                            r.number,
                            st.pre.sorted(),
                            st.post.sorted()
                        );
                    }
                }
            }
        }
    }
    // the round that starts here
    let mut pings = vec![];
    for s in &st.sends {
        match pkt(s)?.header.message {
            Message::Ping(n) => pings.push((s.to, n)),
            ref m => return Err(format!("a probe timer sent {m:?} to {:?}", s.to)),
        }
    }
    if st.pre.active.is_empty() {
        return Ok(());
    }
    ensure!(pings.len() == 1, "a probe timer sent {} pings", pings.len());
    let (to, n) = pings[0];
    ensure!(st.post.is_active(&to) && to.addr != st.post.id.addr, "pinged {to:?}, which is not an active member");
    ensure!(g.last_number != Some(n), "probe number {n} used twice in a row");
    g.last_number = Some(n);
    g.round = Some(Round {
        target: st.post.rec(to.addr).cloned().unwrap_or_else(|| Member::new(to, 0, State::Alive)),
        number: n,
        asked: Default::default(),
        direct: Proof::No,
        indirect: Proof::No,
    });
    Ok(())
}

fn indirect_timer(g: &mut Ghost, st: &Step, probed: &Id, live: bool, cov: &mut Cov) -> R {
    let mut asked = vec![];
    for s in &st.sends {
        match &pkt(s)?.header.message {
            Message::PingReq { target, probe_number } => asked.push((s.to, *target, *probe_number)),
            m => return Err(format!("an indirect probe timer sent {m:?} to {:?}", s.to)),
        }
    }
    ensure!(st.timers().count() == 0, "an indirect probe timer scheduled {:?}", st.evs);
    let k = st.cfg_pre.num_indirect_probes.get();
    let due = live
        && match &g.round {
            Some(r) => {
                r.target.id() == probed && r.direct != Proof::Yes && r.indirect != Proof::Yes && st.pre.is_active(probed)
            }
            None => false,
        };
    if !due {
        cov.hit("indirect timer: nothing to ask");
        ensure!(
            asked.is_empty(),
            "asked {asked:?} although there was nothing to ask about {probed:?} (round {:?})",
            g.round
        );
        return Ok(());
    }
    let Some(r) = g.round.as_mut() else { return Ok(()) };
    let cands = st.pre.active.iter().filter(|m| m.id() != probed).count();
    let want = k.min(cands);
    ensure!(
        asked.len() <= want && (want == 0 || !asked.is_empty()),
        "{} helpers asked about {probed:?}, num_indirect_probes is {k} with {cands} candidates",
        asked.len()
    );
    cov.nontrivial();
    cov.hit(if want == 0 { "indirect timer: nobody to ask" } else { "indirect timer: asked" });
    let mut seen = BTreeSet::new();
    for (to, target, n) in asked {
        ensure!(seen.insert(to), "{to:?} asked twice");
        ensure!(to != *probed && to.addr != probed.addr, "asked {to:?} about itself");
        ensure!(st.pre.is_active(&to), "asked {to:?}, which is not active");
        ensure!(
            target == *probed && n == r.number,
            "asked about {target:?} number {n}, the round is about {probed:?} number {}",
            r.number
        );
        r.asked.insert(to);
    }
    Ok(())
}

fn received(g: &mut Ghost, st: &Step, v: &Verdict, c: &Ctx, cov: &mut Cov) -> R {
    let Verdict::Ok(a) = v else {
        return Ok(());
    };
    let h = &a.header;
    let mut m = Model::new(&st.pre, c.inc_pre, st.conn_pre);
    m.data(a);
    let heard = m.sender_active == Some(true);
    let clean = a.tail_ok && !st.evs.iter().any(|e| matches!(e, crate::inst::Ev::Item { err: true, .. }));
    let up = st.conn_post == Conn::Active && st.pre.id == st.post.id;
    // evidence
    if heard && st.epoch_pre == st.epoch_post && st.conn_post == Conn::Active {
        if !clean {
            cov.hit("datagram whose broadcasts break off or are refused");
        }
        if let Some(r) = g.round.as_mut() {
            match &h.message {
                Message::Ack(n) => {
                    let who = h.src == *r.target.id();
                    match (who, *n == r.number) {
                        (true, true) => {
                            cov.hit("evidence: ack of the target");
                            r.direct = Proof::Yes;
                        }
                        (true, false) => cov.hit("not evidence: ack with another number"),
                        (false, true) => cov.hit("not evidence: ack of somebody else"),
                        _ => {}
                    }
                }
                Message::ForwardedAck { origin, probe_number } if *origin != st.pre.id => {
                    let who = r.asked.contains(&h.src);
                    match (who, *probe_number == r.number) {
                        (true, true) => {
                            cov.hit("evidence: forwarded ack of a helper");
                            r.indirect = Proof::Yes;
                        }
                        (true, false) => cov.hit("not evidence: forwarded with another number"),
                        (false, true) => cov.hit("not evidence: forwarded by somebody not asked"),
                        _ => {}
                    }
                }
                _ => {}
            }
        }
    }
    // replies
    let own = st.pre.id;
    let mut want: Option<(Id, Message<Id>)> = None;
    let mut refuse = false;
    let mut free = false;
    match &h.message {
        Message::Ping(n) => want = Some((h.src, Message::Ack(*n))),
        Message::PingReq { target, probe_number } => {
            refuse = *target == own;
            free = target.addr == own.addr && !refuse;
            want = Some((*target, Message::IndirectPing { origin: h.src, probe_number: *probe_number }));
        }
        Message::IndirectPing { origin, probe_number } => {
            refuse = *origin == own;
            free = origin.addr == own.addr && !refuse;
            want = Some((h.src, Message::IndirectAck { target: *origin, probe_number: *probe_number }));
        }
        Message::IndirectAck { target, probe_number } => {
            refuse = *target == own;
            free = target.addr == own.addr && !refuse;
            want = Some((*target, Message::ForwardedAck { origin: h.src, probe_number: *probe_number }));
        }
        Message::ForwardedAck { origin, .. } => refuse = *origin == own,
        _ => {}
    }
    let mut got = vec![];
    for s in &st.sends {
        let m = &pkt(s)?.header.message;
        if matches!(
            m,
            Message::Ack(_) | Message::IndirectPing { .. } | Message::IndirectAck { .. } | Message::ForwardedAck { .. }
        ) {
            got.push((s.to, m.clone()));
        }
    }
    if heard && st.pre.id != st.post.id {
        // renewed by what came along: who is named is a matter of taste now
        cov.hit("request that made the instance renew");
        return Ok(());
    }
    if !heard || refuse {
        ensure!(
            got.is_empty(),
            "answered {:?} of {:?} ({}) with {got:?}",
            h.message,
            h.src,
            if refuse { "names this very instance" } else { "not active" }
        );
        if refuse && heard && up {
            cov.hit("relay naming itself refused");
            cov.nontrivial();
            ensure!(
                st.res == Err(ErrK::IndirectForOurselves) || (!clean && st.res.is_err()),
                "{:?} names this very instance, result {:?}",
                h.message,
                st.res
            );
        }
        return Ok(());
    }
    ensure!(
        got.len() <= 1 && got.iter().all(|x| Some(x) == want.as_ref()),
        "{:?} of {:?} was answered with {got:?}, expected {want:?}",
        h.message,
        h.src
    );
    // the sender may have been taken down, or this instance moved on, by what
    // came along with the request
    let must = up && !free && st.post.is_active(&h.src);
    if must {
        if let Some(w) = &want {
            ensure!(got.first() == Some(w), "{:?} of {:?} was not answered with {w:?}", h.message, h.src);
            cov.hit("request answered");
        }
    }
    if st.conn_post == Conn::Defunct {
        ensure!(got.is_empty(), "defunct, yet answers {:?} with {got:?}", h.message);
    }
    Ok(())
}

fn monitor(g: &mut Ghost, st: &Step, c: &Ctx, cov: &mut Cov) -> R {
    let live = st.fired.as_ref().is_some_and(|p| p.epoch == st.epoch_pre);
    let mut quiet = true;
    match &st.op {
        Op::Fire(Timer::ProbeRandomMember(_)) if live && st.conn_pre == Conn::Active => {
            probe_timer(g, st, cov)?;
            quiet = false;
        }
        Op::Fire(Timer::SendIndirectProbe { probed_id, .. }) => {
            indirect_timer(g, st, probed_id, live && st.conn_pre == Conn::Active, cov)?;
            quiet = false;
        }
        Op::Data(d) => {
            let v = classify(c.inst.kind, d, &st.pre.id, st.cfg_pre.max_packet_size.get());
            received(g, st, &v, c, cov)?;
            if v.rejected() {
                ensure!(st.sends.is_empty(), "{} ({}) was answered", st.op.name(), v.name());
            }
        }
        _ => {
            for s in &st.sends {
                let m = &pkt(s)?.header.message;
                ensure!(
                    matches!(
                        m,
                        Message::Announce | Message::Gossip | Message::Broadcast | Message::TurnUndead
                    ),
                    "{} sent {}",
                    st.op.name(),
                    msg_name(m)
                );
            }
        }
    }
    if quiet {
        for s in &st.sends {
            let m = &pkt(s)?.header.message;
            ensure!(
                !matches!(m, Message::Ping(_) | Message::PingReq { .. }),
                "{} sent {m:?} to {:?}",
                st.op.name(),
                s.to
            );
        }
    }
    if st.epoch_pre != st.epoch_post || st.conn_post != Conn::Active {
        if g.round.take().is_some() {
            cov.hit("round aborted");
        }
    }
    Ok(())
}

const P: Profile = Profile {
    w: [44, 40, 0, 0, 0, 1, 1, 1, 6, 1, 1, 1, 1, 1, 0],
    m: [6, 22, 4, 4, 4, 18, 3, 2, 8, 2, 1],
    own_pct: 5,
    max_addrs: 6,
    ..BASE
};
const P_ANY: Profile = Profile { w: [44, 30, 10, 0, 0, 1, 1, 1, 6, 1, 1, 1, 1, 1, 0], handler_errs: true, ..P };

fn in_order(t: &Tape, cov: &mut Cov) -> R {
    let mut g = Ghost::default();
    drive(t, &P, cov, &mut |st, c, cov| monitor(&mut g, st, c, cov)).map(|_| ())
}
fn any_order(t: &Tape, cov: &mut Cov) -> R {
    let mut g = Ghost::default();
    drive(t, &P_ANY, cov, &mut |st, c, cov| monitor(&mut g, st, c, cov)).map(|_| ())
}

// ---------------------------------------------------------------------------
// real instances all along the relay, with datagrams lost or late at each hop

struct Net {
    insts: Vec<Inst>,
    w: World,
}

impl Net {
    fn find(&self, id: &Id) -> Option<usize> {
        self.insts.iter().position(|i| i.id().addr == id.addr)
    }
    /// delivers and returns what came out; no automatic delivery
    fn deliver(&mut self, to: &Id, data: &[u8]) -> Result<Vec<(Id, Vec<u8>)>, String> {
        let Some(k) = self.find(to) else { return Ok(vec![]) };
        let st = self.insts[k].step(Op::Data(data.to_vec()), None)?;
        ensure!(st.res.is_ok(), "{:?} could not take {}: {:?}", to, st.describe(self.w.kind), st.res);
        // refutations that come along are lost
        Ok(st
            .sends
            .iter()
            .filter(|s| !s.pkt.as_ref().is_ok_and(|p| p.header.message == Message::Gossip))
            .map(|s| (s.to, s.data.clone()))
            .collect())
    }
}

/// did a round about `at_ping` without evidence end as it has to?
fn failed_as_due(at_ping: &Option<Mem>, st: &Step) -> R {
    let Some(p) = at_ping else { return Err("pinged somebody unknown".into()) };
    let timeouts = st.timers().filter(|(t, _)| matches!(t, Timer::ChangeSuspectToDown { .. })).count();
    let pre = st.pre.rec(p.id().addr);
    let post = st.post.rec(p.id().addr);
    if pre.is_some_and(|m| m.incarnation() > p.incarnation()) {
        ensure!(pre == post, "refuted meanwhile, yet {pre:?} -> {post:?}");
    } else {
        ensure!(
            timeouts == 1 && post == Some(&Member::new(*p.id(), p.incarnation(), State::Suspect)),
            "no evidence of {p:?}, yet {pre:?} -> {post:?} with {timeouts} timeouts"
        );
    }
    Ok(())
}

fn one(v: Vec<(Id, Vec<u8>)>, what: &str) -> Result<(Id, Vec<u8>), String> {
    let n = v.len();
    match v.into_iter().next() {
        Some(x) if n == 1 => Ok(x),
        _ => Err(format!("expected exactly one reply to {what}, got {n}")),
    }
}

/// Sends one request down the chain, stopping after `stop` deliveries.
/// Returns the datagram that was not delivered, if any.
fn chain(net: &mut Net, first: (Id, Vec<u8>), stop: usize, names: &[&str]) -> Result<Option<(Id, Vec<u8>)>, String> {
    let mut cur = first;
    for hop in 0..names.len() {
        if hop == stop {
            return Ok(Some(cur));
        }
        let out = net.deliver(&cur.0, &cur.1)?;
        if hop + 1 == names.len() {
            ensure!(out.is_empty(), "{} was answered", names[hop]);
            return Ok(None);
        }
        cur = one(out, names[hop])?;
    }
    Ok(None)
}

const RELAY: [&str; 4] = ["PingReq", "IndirectPing", "IndirectAck", "ForwardedAck"];
const DIRECT: [&str; 2] = ["Ping", "Ack"];

fn relay(t: &Tape, cov: &mut Cov) -> R {
    let mut w = World::new(&t.cfg, &Profile { tight: 0, ..BASE });
    let mut dr = Draw::new(&t.ops[0]);
    let n = dr.range(2, 6) as usize;
    let base_inc = [0u16, 1, 300][dr.usize(3)];
    w.config.periodic_announce = None;
    w.config.periodic_gossip = None;
    w.config.periodic_announce_to_down_members = None;
    let ids: Vec<Id> = (0..n as u16).map(|a| w.peer(a, 0)).collect();
    let mut insts = vec![];
    for (k, id) in ids.iter().enumerate() {
        let mut i = Inst::new(InstCfg {
            id: *id,
            config: w.config.clone(),
            seed: w.seed ^ k as u64,
            kind: w.kind,
            handler: w.handler,
        })?;
        let others: Vec<Mem> = ids
            .iter()
            .filter(|o| *o != id)
            .map(|o| Member::new(*o, if k == 0 { base_inc } else { 0 }, State::Alive))
            .collect();
        i.step(Op::Apply(others, false), None)?;
        insts.push(i);
    }
    let mut net = Net { insts, w };
    let k = net.w.config.num_indirect_probes.get();
    let mut late: Vec<(Id, Vec<u8>)> = vec![];
    let mut late_acks = 0;
    for (round, words) in t.ops.iter().enumerate() {
        let mut dr = Draw::new(words);
        let _ = (dr.word(), dr.word());
        // --- the ping
        let next = |net: &mut Net, probe: bool| -> Result<Option<Step>, String> {
            let o = &mut net.insts[0];
            let k = o.pending.iter().position(|p| {
                p.epoch == o.epoch
                    && match p.t {
                        Timer::ProbeRandomMember(_) => probe,
                        Timer::SendIndirectProbe { .. } => !probe,
                        _ => false,
                    }
            });
            let Some(k) = k else { return Ok(None) };
            let p = o.take_pending(k);
            o.now = o.now.max(p.due);
            Ok(Some(o.step(Op::Fire(p.t.clone()), Some(p))?))
        };
        let Some(st) = next(&mut net, true)? else {
            return Err(format!("round {round}: no probe timer outstanding"));
        };
        ensure!(st.res.is_ok(), "round {round}: {:?}", st.res);
        let ping = match st.sends.first() {
            Some(s) if st.sends.len() == 1 => (s.to, s.data.clone()),
            _ => return Err(format!("round {round}: {} datagrams from a probe timer", st.sends.len())),
        };
        let target = ping.0;
        let at_ping = st.post.rec(target.addr).cloned();
        let number = match pkt(&st.sends[0])?.header.message {
            Message::Ping(n) => n,
            ref m => return Err(format!("{m:?} from a probe timer")),
        };
        // what is late from earlier rounds arrives now or never
        for (to, d) in std::mem::take(&mut late) {
            if dr.below(2) == 0 {
                // its incarnation may refute, but the round it answers is over
                net.deliver(&to, &d)?;
                late_acks += 1;
            }
        }
        let direct = dr.usize(6);
        let mut proof = false;
        let mut held: Option<(Id, Vec<u8>)> = None;
        match direct {
            // never gets there / answer lost
            0 => {}
            1 => {
                chain(&mut net, ping, 1, &DIRECT)?;
            }
            // in time
            2 => {
                chain(&mut net, ping, 2, &DIRECT)?;
                proof = true;
                cov.hit("relay: direct ack in time");
            }
            // after the indirect probes were sent, still within the round
            3 => held = chain(&mut net, ping, 1, &DIRECT)?,
            // after the round
            _ => {
                if let Some(x) = chain(&mut net, ping, 1, &DIRECT)? {
                    late.push(x);
                }
            }
        }
        let in_time = proof;
        let Some(st) = next(&mut net, false)? else {
            return Err(format!("round {round}: no indirect probe timer outstanding"));
        };
        ensure!(st.res.is_ok(), "round {round}: {:?}", st.res);
        let reqs: Vec<(Id, Vec<u8>)> = st.sends.iter().map(|s| (s.to, s.data.clone())).collect();
        let want = if in_time { 0 } else { k.min(n - 2) };
        ensure!(
            reqs.len() == want,
            "round {round}: {} helpers asked, expected {want} (n={n}, k={k}, ack in time: {in_time})",
            reqs.len()
        );
        for s in &st.sends {
            ensure!(
                pkt(s)?.header.message == (Message::PingReq { target, probe_number: number }),
                "{:?} instead of PingReq about {target:?} number {number}",
                pkt(s)?.header.message
            );
        }
        for r in reqs {
            let helper = r.0;
            match dr.usize(8) {
                h @ 0..=3 => {
                    // lost at that hop
                    chain(&mut net, r, h, &RELAY)?;
                }
                4..=5 => {
                    // the final hop late
                    if let Some(x) = chain(&mut net, r, 3, &RELAY)? {
                        late.push(x);
                    }
                }
                _ => {
                    let last = chain(&mut net, r, 3, &RELAY)?;
                    let Some((to, d)) = last else { return Err("the relay ended early".into()) };
                    let (h, _) = crate::codec::wire_header(net.w.kind, &d).map_err(|e| e.0)?;
                    ensure!(
                        to == ids[0]
                            && h.src == helper
                            && h.message == (Message::ForwardedAck { origin: target, probe_number: number }),
                        "the relay via {helper:?} about {target:?} number {number} ended with {h:?} for {to:?}"
                    );
                    net.deliver(&to, &d)?;
                    proof = true;
                    cov.hit("relay: complete");
                }
            }
        }
        if let Some((to, d)) = held {
            net.deliver(&to, &d)?;
            proof = true;
            cov.hit("relay: direct ack after the indirect probes");
        }
        // --- the verdict comes with the next probe timer; look, but let the
        // next iteration do the firing when there is one
        let o = &mut net.insts[0];
        let pos = o.pending.iter().position(|p| p.epoch == o.epoch && matches!(p.t, Timer::ProbeRandomMember(_)));
        let Some(pos) = pos else { return Err("the probe loop is gone".into()) };
        let rec = o.snap().rec(target.addr).cloned();
        let p = o.take_pending(pos);
        o.now = o.now.max(p.due);
        let st = o.step(Op::Fire(p.t.clone()), Some(p))?;
        let timeouts = st.timers().filter(|(t, _)| matches!(t, Timer::ChangeSuspectToDown { .. })).count();
        cov.nontrivial();
        if proof {
            ensure!(
                timeouts == 0 && recs_of(&st.pre) == recs_of(&st.post),
                "round {round}: {target:?} proved to be there, yet {rec:?} -> {:?}",
                st.post.rec(target.addr)
            );
        } else {
            cov.hit("relay: no evidence in time");
            failed_as_due(&at_ping, &st).map_err(|e| format!("round {round}: {e}"))?;
        }
        // the round just started is lost altogether: late evidence of the one
        // before must not help
        let Some(s) = st.sends.first() else { return Err("no ping".into()) };
        let at_ping2 = st.post.rec(s.to.addr).cloned();
        for (to, d) in std::mem::take(&mut late) {
            if dr.below(2) == 0 {
                net.deliver(&to, &d)?;
                late_acks += 1;
            }
        }
        let Some(st) = next(&mut net, false)? else { return Err("no indirect probe timer".into()) };
        ensure!(st.sends.len() == k.min(n - 2), "late evidence of another round stopped the indirect probes");
        let Some(st) = next(&mut net, true)? else { return Err("no probe timer".into()) };
        failed_as_due(&at_ping2, &st).map_err(|e| format!("round {round}, only evidence of the round before: {e}"))?;
        // and leave the next one proven, so that the loop starts clean
        let Some(s) = st.sends.first() else { return Err("no ping".into()) };
        let ping = (s.to, s.data.clone());
        chain(&mut net, ping, 2, &DIRECT)?;
        next(&mut net, false)?;
    }
    if late_acks > 0 {
        cov.hit("relay: late evidence");
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// every probe number, with every kind of evidence

const SCRIPTS: u64 = 14;
fn numbers_n(thorough: bool) -> u64 {
    SCRIPTS * if thorough { 64 } else { 8 }
}

/// Four times around the probe numbers, one kind of evidence after the other
/// (another one first in each case).
fn numbers(i: u64, cov: &mut Cov) -> R {
    let variant = i / SCRIPTS;
    let mut w = World::new(&vec![0u32; CFGW], &BASE);
    w.kind = KINDS[(variant % 5) as usize];
    w.own = Id::new(0, 0, RENEW_NEXT);
    w.config.max_packet_size = std::num::NonZeroUsize::new(1400).unwrap();
    w.config.num_indirect_probes = std::num::NonZeroUsize::new(1 + (variant % 3) as usize).unwrap();
    w.config.periodic_announce = None;
    w.config.periodic_gossip = None;
    w.config.periodic_announce_to_down_members = None;
    w.seed = i;
    let inst = Inst::new(w.inst_cfg())?;
    let mut c = Ctx { w, inst, inc_pre: 0, inc: 0, n: 0 };
    let n = 3 + (variant % 4) as u16;
    let mut g = Ghost::default();
    let all = (1..=n).map(|a| Member::new(Id::new(a, 0, 0), 0, State::Alive)).collect();
    let st = c.step(Op::Apply(all, false), None)?;
    monitor(&mut g, &st, &c, cov)?;
    for round in 0..1030u64 {
        let fire = |c: &mut Ctx, g: &mut Ghost, cov: &mut Cov, probe: bool| -> R {
            let k = c.inst.pending.iter().position(|p| match p.t {
                Timer::ProbeRandomMember(_) => probe,
                Timer::SendIndirectProbe { .. } => !probe,
                _ => false,
            });
            let Some(k) = k else { return Err(format!("round {round}: a probe timer is missing")) };
            let p = c.inst.take_pending(k);
            c.inst.now = c.inst.now.max(p.due);
            let st = c.step(Op::Fire(p.t.clone()), Some(p))?;
            monitor(g, &st, c, cov).map_err(|e| format!("round {round}: {e}"))
        };
        fire(&mut c, &mut g, cov, true)?;
        let Some((target, number)) = c.w.last_ping else { return Err(format!("round {round}: no ping")) };
        let script = (i + round) % SCRIPTS;
        // late: after the indirect probes were sent
        if matches!(script, 2..) {
            fire(&mut c, &mut g, cov, false)?;
        }
        let asked = c.w.asked.clone();
        let other = (1..=n).map(|a| Id::new(a, 0, 0)).find(|m| *m != target && !asked.contains(m));
        let direct = |n: u8| Some((target, Message::Ack(n)));
        let helped = |k: usize, n: u8| asked.get(k).map(|h| (*h, Message::ForwardedAck { origin: target, probe_number: n }));
        let said = match script {
            0 | 2 => direct(number),
            1 | 3 => None,
            4 => helped(0, number),
            5 => asked.len().checked_sub(1).and_then(|k| helped(k, number)),
            6 => other.map(|o| (o, Message::ForwardedAck { origin: target, probe_number: number })),
            7 => direct(number.wrapping_sub(1)),
            8 => direct(number.wrapping_add(1)),
            9 => other.map(|o| (o, Message::Ack(number))),
            10 => helped(0, number.wrapping_sub(1)),
            11 => helped(0, number.wrapping_add(1)),
            12 => direct(0),
            _ => helped(0, 0),
        };
        if let Some((from, m)) = said {
            let inc = c.inst.snap().rec(from.addr).map_or(0, |m| m.incarnation());
            let d = build_packet(c.w.kind, &mk_header(from, inc, c.inst.id(), m), Some(&[]), &[]);
            let st = c.step(Op::Data(d), None)?;
            monitor(&mut g, &st, &c, cov).map_err(|e| format!("round {round}: {e}"))?;
        }
        if script < 2 {
            fire(&mut c, &mut g, cov, false)?;
        }
        // whoever is suspected refutes
        let back: Vec<Mem> = c
            .inst
            .foca
            .iter_members()
            .filter(|m| m.state() == State::Suspect)
            .map(|m| Member::new(*m.id(), m.incarnation() + 1, State::Alive))
            .collect();
        if !back.is_empty() {
            let st = c.step(Op::Apply(back, false), None)?;
            monitor(&mut g, &st, &c, cov)?;
        }
        c.inst.pending.retain(|p| !matches!(p.t, Timer::ChangeSuspectToDown { .. }));
    }
    cov.hit("four times around the probe numbers");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        level: "exploration",
        rule: "A ghost of the probe round (target, number, helpers asked, evidence) is kept along generated histories with plausible and \
            implausible acks, and says what each probe timer, indirect timer and datagram must lead to. In `relay`, 2 to 6 real \
            instances run rounds in which every hop may lose or delay its datagram. Non-trivial: a round ended, helpers were asked, or a \
            relay naming the instance was refused. In `numbers` an instance goes four times around the 8-bit probe numbers with 14 kinds of \
            evidence, each of them at every number.",
        assumptions: &[
            "what is wrong with the custom broadcasts of a datagram makes no difference to the message it carries",
            "a request whose own updates take its sender down, or change this instance's identity, may or may not be answered",
            "a timeout scheduled for a member that could not be suspected anymore is harmless (C11) and tolerated",
        ],
        subs: vec![
            Sub { name: "numbers", quick: 0, thorough: 0, body: Body::Enum { n: numbers_n, f: numbers } },
            Sub { name: "history", quick: 700_000, thorough: 24_000_000, body: Body::Tape { min: 1, max: 70, f: in_order } },
            Sub { name: "any-order", quick: 250_000, thorough: 8_000_000, body: Body::Tape { min: 1, max: 60, f: any_order } },
            Sub { name: "relay", quick: 500_000, thorough: 15_000_000, body: Body::Tape { min: 1, max: 6, f: relay } },
        ],
    }
}
