//! C08: notifications mirror membership and connection state;
//! AccumulatingRuntime yields the very same effects.
use std::collections::BTreeSet;

use foca::{AccumulatingRuntime, Foca, OwnedNotification as N};
use rand::{rngs::SmallRng, SeedableRng};

use crate::codec::AnyCodec;
use crate::drive::{drive, Ctx};
use crate::ensure;
use crate::gen::{Profile, BASE};
use crate::handler::Handler;
use crate::id::Id;
use crate::inst::{ALL_NOTES, guarded, Conn, Ev, Log, Op, Step, F};
use crate::model::{Model, Trig};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{Draw, Tape};

#[derive(Default)]
pub struct Mirror {
    pub up: BTreeSet<Id>,
}

impl Mirror {
    pub fn note(&mut self, n: &N<Id>) -> R {
        match n {
            N::MemberUp(i) => ensure!(self.up.insert(*i), "MemberUp({i:?}) for a member already up"),
            N::MemberDown(i) => ensure!(self.up.remove(i), "MemberDown({i:?}) for a member that is not up"),
            N::Rename(a, b) => {
                if self.up.remove(a) {
                    ensure!(self.up.insert(*b), "Rename({a:?}, {b:?}): the new identity is already up");
                }
            }
            _ => {}
        }
        Ok(())
    }
}

pub fn trigs(st: &Step) -> Vec<Trig> {
    st.notes()
        .filter_map(|n| match n {
            N::Rejoin(i) => Some(Trig::Rejoin(*i)),
            N::Defunct => Some(Trig::Defunct),
            _ => None,
        })
        .collect()
}

fn monitor(m: &mut Mirror, st: &Step, c: &Ctx, cov: &mut Cov) -> R {
    let mut conn = st.conn_pre;
    if matches!((&st.op, &st.res), (Op::ChangeId(_) | Op::Reuse, Ok(_))) {
        conn = Conn::Idle;
    }
    for n in st.notes() {
        m.note(n)?;
        match n {
            N::Active => {
                ensure!(conn == Conn::Idle, "Active notified while {conn:?}");
                ensure!(!m.up.is_empty(), "Active notified without any active member");
                conn = Conn::Active;
                cov.hit("Active");
            }
            N::Idle => {
                ensure!(conn == Conn::Active, "Idle notified while {conn:?}");
                ensure!(m.up.is_empty(), "Idle notified while {:?} are up", m.up);
                conn = Conn::Idle;
                cov.hit("Idle");
            }
            N::Defunct => {
                conn = Conn::Defunct;
                cov.hit("Defunct");
            }
            N::Rejoin(i) => {
                conn = Conn::Idle;
                cov.hit("Rejoin");
                ensure!(*i != st.pre.id, "Rejoin notified with the identity held before");
            }
            N::MemberUp(_) => cov.hit("MemberUp"),
            N::MemberDown(_) => {
                cov.hit("MemberDown");
                cov.nontrivial();
            }
            N::Rename(..) => {
                cov.hit("Rename");
                cov.nontrivial();
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
    let set: BTreeSet<Id> = st.post.active.iter().map(|x| *x.id()).collect();
    ensure!(
        set == m.up,
        "after {} the notifications add up to {:?} but iter_members() yields {set:?}",
        st.op.name(),
        m.up
    );
    ensure!(
        st.post.num == set.len() && st.post.active.len() == set.len(),
        "num_members() is {} but iter_members() yields {} members",
        st.post.num,
        st.post.active.len()
    );
    ensure!(
        conn != Conn::Active || !set.is_empty(),
        "the last active member disappeared in {} without Idle",
        st.op.name()
    );
    if let Some(N::Rejoin(i)) = st.notes().filter(|n| matches!(n, N::Rejoin(_))).last() {
        ensure!(*i == st.post.id, "Rejoin({i:?}) but the identity is {:?}", st.post.id);
    }
    // Defunct / Rejoin exactly when learned or declared
    let got = trigs(st);
    let max = st.cfg_pre.max_packet_size.get();
    match &st.op {
        Op::Leave => ensure!(got == [Trig::Defunct], "leave_cluster notified {got:?}"),
        Op::Data(_) | Op::Apply(..) => {
            let mut want = vec![];
            let mut ok = false;
            for react in [true, false] {
                let mut m = Model::new(&st.pre, c.inc_pre, st.conn_pre);
                m.react_defunct = react;
                m.run(&st.op, c.inst.kind, max);
                ok |= m.trigs == got && m.id == st.post.id;
                want.push(m.trigs);
                if st.conn_pre != Conn::Defunct && !want[0].contains(&Trig::Defunct) {
                    break;
                }
            }
            ensure!(
                ok,
                "{}: expected {:?}, notified {got:?} (identity {:?} -> {:?})",
                st.op.name(),
                want[0],
                st.pre.id,
                st.post.id
            );
            if !got.is_empty() {
                cov.nontrivial();
            }
        }
        Op::ChangeId(_) | Op::Reuse | Op::Fire(_) | _ => {
            ensure!(got.is_empty(), "{} notified {got:?}", st.op.name());
            if !matches!(st.op, Op::ChangeId(_)) {
                ensure!(st.pre.id == st.post.id, "{} changed the identity", st.op.name());
            }
        }
    }
    Ok(())
}

const P: Profile = BASE;

fn history(t: &Tape, cov: &mut Cov) -> R {
    let mut m = Mirror::default();
    drive(t, &P, cov, &mut |st, c, cov| monitor(&mut m, st, c, cov)).map(|_| ())
}

/// A twin of the same instance hands its effects to an AccumulatingRuntime,
/// drained only now and then.
fn accumulating(t: &Tape, cov: &mut Cov) -> R {
    let mut c = Ctx::new(t, &P)?;
    let log: Log = Default::default();
    let ic = c.w.inst_cfg();
    let mut twin: F = guarded(|| {
        Foca::with_custom_broadcast(
            ic.id,
            ic.config.clone(),
            SmallRng::seed_from_u64(ic.seed),
            AnyCodec(ic.kind),
            Handler::new(ic.handler, log.clone()),
        )
    })?;
    let mut acc: AccumulatingRuntime<Id> = AccumulatingRuntime::new();
    let (mut sends, mut timers, mut notes) = (vec![], vec![], vec![]);
    for words in &t.ops {
        let Some((op, fired)) = c.next(words, &P) else { continue };
        ALL_NOTES.with(|a| *a.borrow_mut() = Some(vec![]));
        let st = c.step(op, fired);
        let all = ALL_NOTES.with(|a| a.borrow_mut().take()).unwrap_or_default();
        let st = st?;
        for e in &st.evs {
            match e {
                Ev::Send { to, data } => sends.push((*to, data.clone())),
                Ev::Timer { t, after } => timers.push((*after, t.clone())),
                Ev::Note(_) | Ev::Item { .. } => {}
            }
        }
        notes.extend(all);
        let r = guarded(|| {
            let m = |r: Result<(), foca::Error>| r.map(|_| None).map_err(|e| crate::inst::errk(&e));
            match &st.op {
                Op::Data(d) => m(twin.handle_data(d, &mut acc)),
                Op::Fire(t) => m(twin.handle_timer(t.clone(), &mut acc)),
                Op::Announce(d) => m(twin.announce(*d, &mut acc)),
                Op::Gossip => m(twin.gossip(&mut acc)),
                Op::Broadcast => m(twin.broadcast(&mut acc)),
                Op::Apply(u, b) => m(twin.apply_many(u.iter().cloned(), *b, &mut acc)),
                Op::AddBc(d) => twin.add_broadcast(d).map(Some).map_err(|e| crate::inst::errk(&e)),
                Op::Leave => m(twin.leave_cluster(&mut acc)),
                Op::ChangeId(i) => m(twin.change_identity(*i, &mut acc)),
                Op::Reuse => m(twin.reuse_down_identity()),
                Op::SetConfig(c) => m(twin.set_config(c.clone())),
            }
        })?;
        ensure!(r == st.res, "{}: {:?} directly, {r:?} with AccumulatingRuntime", st.op.name(), st.res);
        let n = sends.len() + timers.len() + notes.len();
        ensure!(acc.backlog() == n, "AccumulatingRuntime holds {} effects, {n} were produced", acc.backlog());
        if n > 3 {
            cov.nontrivial();
        }
        let mut dr = Draw::new(&words[8..]);
        if dr.below(3) != 0 {
            continue;
        }
        drain(&mut acc, &mut sends, &mut timers, &mut notes, &mut dr)?;
    }
    let mut dr = Draw::new(&t.cfg[3..]);
    while acc.backlog() > 0 || !(sends.is_empty() && timers.is_empty() && notes.is_empty()) {
        drain(&mut acc, &mut sends, &mut timers, &mut notes, &mut dr)?;
        drain(&mut acc, &mut sends, &mut timers, &mut notes, &mut Draw::new(&[0, 0, 0]))?;
        ensure!(
            acc.backlog() == sends.len() + timers.len() + notes.len(),
            "AccumulatingRuntime lost or made up effects"
        );
    }
    ensure!(
        acc.to_send().is_none() && acc.to_schedule().is_none() && acc.to_notify().is_none(),
        "an empty AccumulatingRuntime yields effects"
    );
    Ok(())
}

type Q<T> = Vec<T>;
fn drain(
    acc: &mut AccumulatingRuntime<Id>,
    sends: &mut Q<(Id, Vec<u8>)>,
    timers: &mut Q<(std::time::Duration, foca::Timer<Id>)>,
    notes: &mut Q<N<Id>>,
    dr: &mut Draw<'_>,
) -> R {
    let all = |dr: &mut Draw<'_>, n: usize| if dr.below(4) == 0 { n } else { dr.usize(n + 1) };
    for _ in 0..all(dr, sends.len()) {
        let want = sends.remove(0);
        let got = acc.to_send().map(|(i, b)| (i, b.to_vec()));
        ensure!(got.as_ref() == Some(&want), "to_send() yields {got:02x?}, directly {want:02x?}");
    }
    for _ in 0..all(dr, timers.len()) {
        let want = timers.remove(0);
        let got = acc.to_schedule();
        ensure!(got.as_ref() == Some(&want), "to_schedule() yields {got:?}, directly {want:?}");
    }
    for _ in 0..all(dr, notes.len()) {
        let want = notes.remove(0);
        let got = acc.to_notify();
        ensure!(got.as_ref() == Some(&want), "to_notify() yields {got:?}, directly {want:?}");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "exploration",
        rule: "A case is a generated history of datagrams, timers (in order, out of order, repeated, made up) and API calls \
            against one instance; the replayed notifications, the reference membership model and a twin driven through \
            AccumulatingRuntime are compared after every call. Non-trivial: a member went down or was renamed, or the \
            instance became Defunct / rejoined (history); more than three effects were queued at once (accumulating).",
        assumptions: &["TurnUndead datagrams carry nothing after the header, as every instance sends them (C07)"],
        subs: vec![
            Sub { name: "history", quick: 600_000, thorough: 20_000_000, body: Body::Tape { min: 1, max: 60, f: history } },
            Sub { name: "accumulating", quick: 160_000, thorough: 5_000_000, body: Body::Tape { min: 1, max: 60, f: accumulating } },
        ],
    }
}
