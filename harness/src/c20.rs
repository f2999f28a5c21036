//! C20: the bundled codecs round-trip exactly and fail cleanly.
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

use bytes::{Buf, BufMut, Bytes};
use foca::{BincodeCodec, Codec, Config, Foca, Header, Identity, Member, Message, Notification, PostcardCodec, Runtime, State, Timer};
use rand::{rngs::SmallRng, SeedableRng};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

use crate::ensure;
use crate::inst::{guarded, trace, tracing};
use crate::runner::{Body, Cov, Prop, Sub, R};
use crate::tape::{Draw, Tape};

// ---- identity shapes -------------------------------------------------------

trait Shape: Serialize + DeserializeOwned + Clone + PartialEq + Debug {
    const NAME: &'static str;
    fn gen(d: &mut Draw<'_>) -> Self;
}

fn num(d: &mut Draw<'_>) -> u64 {
    match d.below(8) {
        0 => 0,
        1 => 1,
        2 => d.below(300) as u64,
        3 => [250, 251, 252, 127, 128, 255, 256, 16383, 16384, 65535, 65536][d.usize(11)],
        4 => u32::MAX as u64 + d.below(2) as u64,
        5 => u64::MAX - d.below(2) as u64,
        6 => d.word() as u64,
        _ => d.u64(),
    }
}
/// lengths beyond what fits an ordinary datagram
fn large(d: &mut Draw<'_>) -> usize {
    [511, 512, 513, 1024, 1400, 1500, 4096, 16_383, 16_384, 65_500, 65_535, 65_536, 70_000, 140_000][d.usize(14)]
}
fn text(d: &mut Draw<'_>) -> String {
    let n = match d.below(64) {
        63 => large(d),
        k if k % 4 == 0 => 0,
        k if k % 4 == 1 => d.usize(6),
        k if k % 4 == 2 => d.usize(40),
        _ => [127, 128, 129, 249, 250, 251, 255, 256, 300][d.usize(9)],
    };
    let alphabet = ['a', 'z', '0', '.', ':', '\0', 'é', '中', '🦀', ' '];
    let mut s = String::new();
    let ascii = d.below(2) == 0;
    for i in 0..n {
        s.push(if ascii { (b'a' + (i % 26) as u8) as char } else { alphabet[d.usize(alphabet.len())] });
    }
    s
}

/// nothing on the wire at all
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Unit;
impl Shape for Unit {
    const NAME: &'static str = "zero-sized";
    fn gen(_: &mut Draw<'_>) -> Self {
        Unit
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Small {
    addr: u16,
    bump: u8,
    ok: bool,
    x: i16,
}
impl Shape for Small {
    const NAME: &'static str = "small";
    fn gen(d: &mut Draw<'_>) -> Self {
        Small { addr: num(d) as u16, bump: num(d) as u8, ok: d.below(2) == 1, x: num(d) as i16 }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Sock {
    addr: SocketAddr,
    bump: u64,
}
impl Shape for Sock {
    const NAME: &'static str = "socket address";
    fn gen(d: &mut Draw<'_>) -> Self {
        let ip = if d.below(2) == 0 {
            IpAddr::V4(Ipv4Addr::from(d.word()))
        } else {
            IpAddr::V6(Ipv6Addr::from(((d.u64() as u128) << 64) | d.u64() as u128))
        };
        Sock { addr: SocketAddr::new(ip, d.word() as u16), bump: num(d) }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Named {
    name: String,
    gen: u32,
}
impl Shape for Named {
    const NAME: &'static str = "string";
    fn gen(d: &mut Draw<'_>) -> Self {
        Named { name: text(d), gen: num(d) as u32 }
    }
}

/// goes through serialize_bytes / deserialize_byte_buf
#[derive(Clone, Debug, PartialEq)]
struct Blob(Vec<u8>);
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = Blob;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<Blob, E> {
                Ok(Blob(v.to_vec()))
            }
            fn visit_byte_buf<E: serde::de::Error>(self, v: Vec<u8>) -> Result<Blob, E> {
                Ok(Blob(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}
impl Shape for Blob {
    const NAME: &'static str = "byte string";
    fn gen(d: &mut Draw<'_>) -> Self {
        let n = match d.below(60) {
            59 => large(d),
            k if k % 3 == 0 => d.usize(5),
            k if k % 3 == 1 => d.usize(20),
            _ => [250, 251, 128, 127][d.usize(4)],
        };
        Blob((0..n).map(|i| if i < 300 { d.word() as u8 } else { i as u8 }).collect())
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Tree {
    Leaf,
    One(u32),
    Pair(Option<u64>, i128),
    Rec { tags: Vec<u16>, attrs: BTreeMap<u8, String>, c: char, f: u32 },
    Boxed(Box<Tree>),
}
impl Shape for Tree {
    const NAME: &'static str = "nested enum";
    fn gen(d: &mut Draw<'_>) -> Self {
        fn go(d: &mut Draw<'_>, depth: u32) -> Tree {
            match d.below(if depth < 3 { 5 } else { 4 }) {
                0 => Tree::Leaf,
                1 => Tree::One(num(d) as u32),
                2 => Tree::Pair(
                    if d.below(2) == 0 { None } else { Some(num(d)) },
                    num(d) as i128 * if d.below(2) == 0 { 1 } else { -(1 << 60) },
                ),
                3 => Tree::Rec {
                    tags: (0..[d.below(5), d.below(5), d.below(5), 130, 260][d.usize(5)]).map(|_| num(d) as u16).collect(),
                    attrs: (0..d.below(3)).map(|_| (d.word() as u8, { let mut s = text(d); while s.len() > 20 { s.pop(); } s })).collect(),
                    c: ['a', 'é', '中', '🦀'][d.usize(4)],
                    f: d.word(),
                },
                _ => Tree::Boxed(Box::new(go(d, depth + 1))),
            }
        }
        go(d, 0)
    }
}

// ---- what is encoded -------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Thing<T> {
    H(Header<T>),
    M(Member<T>),
}

fn gen_thing<T: Shape>(d: &mut Draw<'_>) -> Thing<T> {
    if d.below(3) == 0 {
        return Thing::M(Member::new(
            T::gen(d),
            num(d) as u16,
            [State::Alive, State::Suspect, State::Down][d.usize(3)],
        ));
    }
    let n = num(d) as u8;
    let message = match d.below(11) {
        0 => Message::Ping(n),
        1 => Message::Ack(n),
        2 => Message::PingReq { target: T::gen(d), probe_number: n },
        3 => Message::IndirectPing { origin: T::gen(d), probe_number: n },
        4 => Message::IndirectAck { target: T::gen(d), probe_number: n },
        5 => Message::ForwardedAck { origin: T::gen(d), probe_number: n },
        6 => Message::Announce,
        7 => Message::Feed,
        8 => Message::Gossip,
        9 => Message::Broadcast,
        _ => Message::TurnUndead,
    };
    Thing::H(Header { src: T::gen(d), src_incarnation: num(d) as u16, dst: T::gen(d), message })
}

fn enc<T: Shape, C: Codec<T>>(c: &mut C, t: &Thing<T>, b: impl BufMut) -> Result<Result<(), String>, String> {
    guarded(|| {
        match t {
            Thing::H(h) => c.encode_header(h, b),
            Thing::M(m) => c.encode_member(m, b),
        }
        .map_err(|e| format!("{e:?} {e}"))
    })
}
fn dec<T: Shape, C: Codec<T>>(c: &mut C, header: bool, b: impl Buf) -> Result<Result<Thing<T>, String>, String> {
    guarded(|| {
        if header {
            c.decode_header(b).map(Thing::H)
        } else {
            c.decode_member(b).map(Thing::M)
        }
        .map_err(|e| format!("{e:?} {e}"))
    })
}

fn is_h<T>(t: &Thing<T>) -> bool {
    matches!(t, Thing::H(_))
}

/// everything about one sequence of values on one codec
fn exact<T: Shape, C: Codec<T>>(c: &mut C, name: &str, d: &mut Draw<'_>, cov: &mut Cov) -> R {
    let k = 1 + d.usize(3);
    let things: Vec<Thing<T>> = (0..k).map(|_| gen_thing(d)).collect();
    if tracing() {
        trace(format!("{name}: {things:?}"));
    }
    let mut buf = vec![];
    let mut ends = vec![];
    for t in &things {
        enc(c, t, &mut buf)?.map_err(|e| format!("{name}: {t:?} does not encode into a growing buffer: {e}"))?;
        ends.push(buf.len());
    }
    let whole = buf.len();
    // the same through a borrowed codec
    let mut again = vec![];
    for t in &things {
        let mut cc = &mut *c;
        enc::<T, &mut C>(&mut cc, t, &mut again)?.map_err(|e| format!("&mut {name}: {t:?} does not encode: {e}"))?;
    }
    ensure!(again == buf, "{name}: {things:?} encode differently through &mut");
    // followed by more data
    let trail = d.usize(24);
    let style = d.below(3);
    for _ in 0..trail {
        buf.push(match style {
            0 => 0,
            1 => 0xff,
            _ => d.word() as u8,
        });
    }
    // one after the other out of one cursor, with different kinds of cursor
    let mut s: &[u8] = &buf;
    let mut b = Bytes::copy_from_slice(&buf);
    let mut by_ref = buf.as_slice();
    for (t, end) in things.iter().zip(&ends) {
        for which in 0..3 {
            let (r, left) = match which {
                0 => (dec(c, is_h(t), &mut s)?, s.len()),
                1 => (dec(c, is_h(t), &mut b)?, b.remaining()),
                _ => {
                    // through the blanket implementation for &mut codecs
                    let mut cc = &mut *c;
                    (dec::<T, &mut C>(&mut cc, is_h(t), &mut by_ref)?, by_ref.len())
                }
            };
            match r {
                Err(e) => return Err(format!("{name}: {t:?} encoded, then failed to decode: {e}")),
                Ok(v) => ensure!(v == *t, "{name}: {t:?} decoded as {v:?}"),
            }
            ensure!(
                left == buf.len() - end,
                "{name}: decoding {t:?} left {left} bytes instead of {}",
                buf.len() - end
            );
        }
    }
    if whole > 65_535 {
        cov.hit("longer than 65535 bytes");
    }
    if trail > 0 {
        cov.hit("followed by further data");
        cov.nontrivial();
    }
    // not enough space: every size
    let t = &things[0];
    let len = ends[0];
    let full = &buf[..len];
    let every = len <= 96;
    let mut size = 0;
    while size <= len {
        let fits = size == len;
        // an appending buffer with a limit, as foca uses it
        let mut v = vec![0x5Au8; 3];
        let r = enc(c, t, (&mut v).limit(size))?;
        ensure!(r.is_ok() == fits, "{name}: {t:?} takes {len} bytes but encoding into {size} gave {r:?}");
        ensure!(v.len() <= 3 + size, "{name}: wrote {} bytes into a buffer limited to {size}", v.len() - 3);
        ensure!(v[..3] == [0x5A; 3], "{name}: bytes before the cursor changed");
        if fits {
            ensure!(v[3..] == *full, "{name}: {t:?} encodes differently into an exactly sized buffer");
        }
        // a plain slice
        let mut v = vec![0xA5u8; size + 2];
        let r = {
            let (mut a, _) = v.split_at_mut(size);
            enc(c, t, &mut a)?
        };
        ensure!(r.is_ok() == fits, "{name}: {t:?} takes {len} bytes but encoding into a slice of {size} gave {r:?}");
        ensure!(v[size..] == [0xA5; 2], "{name}: wrote past the end");
        if fits {
            ensure!(v[..size] == *full, "{name}: {t:?} encodes differently into a slice");
        }
        // truncated input
        if !fits {
            let mut s = &full[..size];
            let r = dec::<T, C>(c, is_h(t), &mut s)?;
            ensure!(r.is_err(), "{name}: {t:?} cut to {size} of its {len} bytes decoded as {r:?}");
        }
        size += if every || size + 40 >= len || size < 24 { 1 } else { 1 + d.usize(9.max(len / 40)) };
    }
    if len > 0 {
        cov.hit("short buffers and truncations");
    }
    // arrangements of bytes nobody encoded
    for _ in 0..4 {
        let mut bytes: Vec<u8> = match d.below(4) {
            0 => (0..d.usize(40)).map(|_| d.word() as u8).collect(),
            1 => vec![[0u8, 0xff, 0x80, 0xfd, 0xfc, 0xfb, 1][d.usize(7)]; d.usize(40)],
            _ => buf[..whole].to_vec(),
        };
        if !bytes.is_empty() {
            for _ in 0..d.below(4) {
                let i = d.usize(bytes.len());
                match d.below(4) {
                    0 => bytes[i] = d.word() as u8,
                    1 => bytes[i] ^= 1 << d.below(8),
                    2 => {
                        // a length far beyond the data
                        let v = [0xfcu8, 0xfd, 0xff, 0xfb, 0x7f, 0x80][d.usize(6)];
                        for b in bytes[i..].iter_mut().take(1 + d.usize(9)) {
                            *b = v;
                        }
                    }
                    _ => {
                        bytes.truncate(i);
                        if bytes.is_empty() {
                            break;
                        }
                    }
                }
            }
        }
        let header = d.below(2) == 0;
        let mut s: &[u8] = &bytes;
        match dec::<T, C>(c, header, &mut s).map_err(|e| format!("{name}: decoding {bytes:02x?} (header: {header}): {e}"))? {
            Err(_) => cov.hit("foreign bytes refused"),
            Ok(v) => {
                cov.hit("foreign bytes decoded");
                let used = bytes.len() - s.len();
                // nothing but the bytes used matters
                let mut alone = &bytes[..used];
                let again = dec::<T, C>(c, header, &mut alone)?;
                ensure!(
                    again.as_ref().ok() == Some(&v) && alone.is_empty(),
                    "{name}: {bytes:02x?} decodes as {v:?} using {used} bytes; those alone give {again:?}"
                );
                let mut out = vec![];
                enc(c, &v, &mut out)?.map_err(|e| format!("{name}: decoded {v:?} does not encode: {e}"))?;
                let mut o: &[u8] = &out;
                let again = dec::<T, C>(c, header, &mut o)?;
                ensure!(again.as_ref().ok() == Some(&v) && o.is_empty(), "{name}: {v:?} re-encoded decodes as {again:?}");
            }
        }
    }
    Ok(())
}

fn on_codecs<T: Shape>(d: &mut Draw<'_>, cov: &mut Cov) -> R {
    use bincode::config as bc;
    cov.hit(T::NAME);
    match d.below(8) {
        0 => exact::<T, _>(&mut BincodeCodec(bc::standard()), "bincode standard", d, cov),
        1 => exact::<T, _>(&mut BincodeCodec(bc::legacy()), "bincode legacy", d, cov),
        2 => exact::<T, _>(&mut BincodeCodec(bc::standard().with_big_endian()), "bincode big endian", d, cov),
        3 => exact::<T, _>(
            &mut BincodeCodec(bc::standard().with_big_endian().with_fixed_int_encoding()),
            "bincode big endian fixed",
            d,
            cov,
        ),
        4 => exact::<T, _>(&mut BincodeCodec(bc::standard().with_limit::<4_000_000>()), "bincode limited", d, cov),
        _ => exact::<T, _>(&mut PostcardCodec, "postcard", d, cov),
    }
}

fn exactness(t: &Tape, cov: &mut Cov) -> R {
    for w in &t.ops {
        let mut d = Draw::new(w);
        let d = &mut d;
        match d.below(7) {
            0 => on_codecs::<Small>(d, cov)?,
            1 => on_codecs::<Sock>(d, cov)?,
            2 => on_codecs::<Named>(d, cov)?,
            3 => on_codecs::<Blob>(d, cov)?,
            4 => on_codecs::<Tree>(d, cov)?,
            5 => on_codecs::<crate::id::Id>(d, cov)?,
            _ => on_codecs::<Unit>(d, cov)?,
        }
    }
    Ok(())
}
impl Shape for crate::id::Id {
    const NAME: &'static str = "harness identity";
    fn gen(d: &mut Draw<'_>) -> Self {
        crate::id::Id::new(num(d) as u16, num(d) as u16, d.word() as u8)
    }
}

// ---- mid-feed --------------------------------------------------------------

impl Identity for Named {
    type Addr = String;
    fn renew(&self) -> Option<Self> {
        None
    }
    fn addr(&self) -> String {
        self.name.clone()
    }
    fn win_addr_conflict(&self, o: &Self) -> bool {
        self.gen > o.gen
    }
}

#[derive(Default)]
struct Out(Vec<(Named, Vec<u8>)>);
impl Runtime<Named> for Out {
    fn notify(&mut self, _: Notification<'_, Named>) {}
    fn send_to(&mut self, to: Named, data: &[u8]) {
        self.0.push((to, data.to_vec()));
    }
    fn submit_after(&mut self, _: Timer<Named>, _: std::time::Duration) {}
}

/// independent reader of one value
trait Wire: Codec<Named, Error: std::error::Error + Send> + Copy {
    fn take<V: DeserializeOwned>(&self, b: &[u8]) -> Result<(V, usize), String>;
    fn put<V: Serialize>(&self, v: &V) -> Vec<u8>;
}
impl Wire for PostcardCodec {
    fn take<V: DeserializeOwned>(&self, b: &[u8]) -> Result<(V, usize), String> {
        postcard::take_from_bytes(b).map(|(v, r)| (v, b.len() - r.len())).map_err(|e| format!("{e:?}"))
    }
    fn put<V: Serialize>(&self, v: &V) -> Vec<u8> {
        let mut b = [0u8; 4096];
        postcard::to_slice(v, &mut b).unwrap().to_vec()
    }
}
impl<O: bincode::config::Config> Wire for BincodeCodec<O> {
    fn take<V: DeserializeOwned>(&self, b: &[u8]) -> Result<(V, usize), String> {
        bincode::serde::decode_from_slice(b, self.0).map_err(|e| format!("{e:?}"))
    }
    fn put<V: Serialize>(&self, v: &V) -> Vec<u8> {
        bincode::serde::encode_to_vec(v, self.0).unwrap()
    }
}

fn feed_on<C: Wire>(codec: C, cname: &str, t: &Tape, d: &mut Draw<'_>, cov: &mut Cov) -> R {
    let me = Named { name: "me".into(), gen: 1 };
    let asker = Named { name: "asker".into(), gen: 0 };
    let mut members: Vec<Member<Named>> = vec![];
    for (i, w) in t.ops.iter().enumerate() {
        let mut d = Draw::new(w);
        let n = [d.usize(4), d.usize(30), 100 + d.usize(60)][d.weighted(&[4, 4, 1])];
        let mut name = format!("{i}-");
        for k in 0..n {
            name.push((b'a' + (k % 26) as u8) as char);
        }
        let st = [State::Alive, State::Alive, State::Suspect, State::Down][d.usize(4)];
        members.push(Member::new(Named { name, gen: num(&mut d) as u32 }, num(&mut d) as u16, st));
    }
    let ping = d.below(3) == 0;
    let ask = Header {
        src: asker.clone(),
        src_incarnation: 0,
        dst: me.clone(),
        message: if ping { Message::Ping(3) } else { Message::Announce },
    };
    let ask = codec.put(&ask);
    let reply = Header {
        src: me.clone(),
        src_incarnation: 0,
        dst: asker.clone(),
        message: if ping { Message::Ack(3) } else { Message::Feed },
    };
    let hl = codec.put(&reply).len();
    let total: usize = members.iter().map(|m| codec.put(m).len()).sum();
    let seed = d.u64();
    let start = hl.max(ask.len());
    let mut size = start;
    while size <= start + total + 60 {
        let mut cfg = Config::simple();
        cfg.max_packet_size = size.try_into().unwrap();
        let mut out = Out::default();
        let mut f = guarded(|| Foca::new(me.clone(), cfg.clone(), SmallRng::seed_from_u64(seed), codec))?;
        guarded(|| f.apply_many(members.iter().cloned(), ping, Out::default()))?
            .map_err(|e| format!("apply_many: {e:?}"))?;
        // what the reply may draw from
        guarded(|| f.handle_data(&ask, &mut out))?.map_err(|e| format!("{cname}, packets of {size}: {e:?}"))?;
        let Some((to, b)) = out.0.iter().find(|(to, _)| *to == asker) else {
            return Err(format!("{cname}: nothing sent back"));
        };
        ensure!(b.len() <= size, "{cname}: a datagram of {} bytes, packets are at most {size}", b.len());
        let (h, used) = codec.take::<Header<Named>>(b).map_err(|e| format!("{cname}: header {e}"))?;
        ensure!(h == reply && h.dst == *to, "{cname}: {h:?} instead of {reply:?}");
        let mut rest = &b[used..];
        let mut got: Vec<Member<Named>> = vec![];
        if !rest.is_empty() {
            ensure!(rest.len() >= 2, "{cname}, packets of {size}: a stray byte after the header");
            let n = u16::from_be_bytes([rest[0], rest[1]]);
            rest = &rest[2..];
            for i in 0..n {
                let (m, used) = codec
                    .take::<Member<Named>>(rest)
                    .map_err(|e| format!("{cname}, packets of {size}: member {i} of {n} in the {} bytes of {:?}: {e}", b.len(), h.message))?;
                rest = &rest[used..];
                got.push(m);
            }
            ensure!(rest.is_empty(), "{cname}, packets of {size}: {} stray bytes after {n} members of a {:?}", rest.len(), h.message);
        }
        for (i, m) in got.iter().enumerate() {
            ensure!(!got[..i].contains(m), "{cname}: {m:?} listed twice");
            let known = members.contains(m) || (ping && *m.id() == asker);
            ensure!(known, "{cname}: {m:?} listed, never heard of");
            if !ping {
                ensure!(m.state() != State::Down, "{cname}: the Feed lists {m:?}");
            }
        }
        let active = members.iter().filter(|m| m.state() != State::Down).count();
        if !ping && got.len() < active {
            cov.hit("feed cut short by the packet size");
            cov.nontrivial();
        }
        if ping && got.len() < members.len() {
            cov.hit("ack cut short by the packet size");
            cov.nontrivial();
        }
        // and the peer takes it
        let mut peer = guarded(|| Foca::new(asker.clone(), cfg.clone(), SmallRng::seed_from_u64(1), codec))?;
        let r = guarded(|| peer.handle_data(b, Out::default()))?;
        ensure!(r.is_ok(), "{cname}, packets of {size}: the asker refuses the {:?}: {r:?}", h.message);
        size += if total < 120 { 1 } else { 1 + d.usize(1 + total / 60) };
    }
    Ok(())
}

fn feeds(t: &Tape, cov: &mut Cov) -> R {
    use bincode::config as bc;
    let mut d = Draw::new(&t.cfg);
    let d = &mut d;
    match d.below(5) {
        0 => feed_on(BincodeCodec(bc::standard()), "bincode standard", t, d, cov),
        1 => feed_on(BincodeCodec(bc::legacy()), "bincode legacy", t, d, cov),
        2 => feed_on(BincodeCodec(bc::standard().with_big_endian()), "bincode big endian", t, d, cov),
        _ => feed_on(PostcardCodec, "postcard", t, d, cov),
    }
}

// ---- every small value -----------------------------------------------------

/// every incarnation of every state and every probe number of every message
fn small_n(_: bool) -> u64 {
    65536 * 3 + 256 * 6 + 65536
}
fn small(i: u64, cov: &mut Cov) -> R {
    use bincode::config as bc;
    cov.nontrivial();
    let id = Small { addr: i as u16, bump: (i >> 3) as u8, ok: i % 2 == 0, x: -(i as i16 / 2) };
    let t: Thing<Small> = if i < 65536 * 3 {
        Thing::M(Member::new(id, i as u16, [State::Alive, State::Suspect, State::Down][(i >> 16) as usize]))
    } else {
        let j = i - 65536 * 3;
        let (n, k, inc) = if j < 256 * 6 { (j as u8, j >> 8, 0) } else { (7, 6 + j % 5, (j - 256 * 6) as u16) };
        let message = match k {
            0 => Message::Ping(n),
            1 => Message::Ack(n),
            2 => Message::PingReq { target: id.clone(), probe_number: n },
            3 => Message::IndirectPing { origin: id.clone(), probe_number: n },
            4 => Message::IndirectAck { target: id.clone(), probe_number: n },
            5 => Message::ForwardedAck { origin: id.clone(), probe_number: n },
            6 => Message::Announce,
            7 => Message::Feed,
            8 => Message::Gossip,
            9 => Message::Broadcast,
            _ => Message::TurnUndead,
        };
        Thing::H(Header { src: id.clone(), src_incarnation: inc, dst: id, message })
    };
    fn one<C: Codec<Small>>(c: &mut C, t: &Thing<Small>) -> R {
        let mut b = vec![];
        enc(c, t, &mut b)?.map_err(|e| format!("{t:?}: {e}"))?;
        let end = b.len();
        b.extend_from_slice(&[1, 0, 0xff]);
        let mut s: &[u8] = &b;
        let r = dec::<Small, C>(c, is_h(t), &mut s)?;
        ensure!(r.as_ref().ok() == Some(t), "{t:?} decoded as {r:?}");
        ensure!(s.len() == b.len() - end, "{t:?}: {} bytes left", s.len());
        let mut s = &b[..end - 1];
        ensure!(dec::<Small, C>(c, is_h(t), &mut s)?.is_err(), "{t:?} decoded without its last byte");
        let mut v = vec![];
        ensure!(enc(c, t, (&mut v).limit(end - 1))?.is_err(), "{t:?} encoded with a byte missing");
        Ok(())
    }
    one(&mut BincodeCodec(bc::standard()), &t)?;
    one(&mut BincodeCodec(bc::legacy()), &t)?;
    one(&mut PostcardCodec, &t)
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        level: "exploration",
        rule: "Headers and members over seven identity shapes (zero-sized, small, socket address, string, byte string, nested enum, \
            the harness' own) on six codec configurations: round trip out of a longer buffer, every short buffer, every truncation, \
            foreign bytes; every incarnation and probe number exhaustively; feeds and acks at every packet size. Non-trivial: \
            something followed the value in the buffer / the reply did not fit whole.",
        assumptions: &["input buffers are contiguous, as the Codec contract lets implementations assume"],
        subs: vec![
            Sub { name: "exactness", quick: 400_000, thorough: 12_000_000, body: Body::Tape { min: 1, max: 4, f: exactness } },
            Sub { name: "feeds", quick: 60_000, thorough: 2_000_000, body: Body::Tape { min: 1, max: 14, f: feeds } },
            Sub { name: "small", quick: 0, thorough: 0, body: Body::Enum { n: small_n, f: small } },
        ],
    }
}
