//! Codecs under which the histories run, and the independent wire parser.
use bytes::{Buf, BufMut};
use foca::{BincodeCodec, Codec, Header, Member, Message, PostcardCodec, State};

use crate::id::Id;

pub type Mem = Member<Id>;
pub type Hdr = Header<Id>;
pub type Msg = Message<Id>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// hand written, fixed length, checks the space first
    Fixed,
    /// hand written, variable length, writes as it goes (errors half way)
    Var,
    BincodeStd,
    BincodeLegacy,
    Postcard,
    /// hand written, packs what is common into a single byte
    Tiny,
}

pub const KINDS: [Kind; 5] = [
    Kind::Fixed,
    Kind::Var,
    Kind::BincodeStd,
    Kind::BincodeLegacy,
    Kind::Postcard,
];

#[derive(Debug)]
pub struct CErr(pub String);
impl std::fmt::Display for CErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for CErr {}

#[derive(Clone, Copy, Debug)]
pub struct AnyCodec(pub Kind);

type R<T> = Result<T, CErr>;
fn short<T>() -> R<T> {
    Err(CErr("short".into()))
}
fn e<E: std::fmt::Debug>(err: E) -> CErr {
    CErr(format!("{err:?}"))
}

struct W<B> {
    b: B,
}
impl<B: BufMut> W<B> {
    fn u8(&mut self, v: u8) -> R<()> {
        if self.b.remaining_mut() < 1 {
            return short();
        }
        self.b.put_u8(v);
        Ok(())
    }
    fn u16(&mut self, v: u16) -> R<()> {
        self.u8((v >> 8) as u8)?;
        self.u8(v as u8)
    }
    fn var(&mut self, v: u16) -> R<()> {
        if v < 0x80 {
            self.u8(v as u8)
        } else {
            self.u8(0x80 | (v & 0x7f) as u8)?;
            self.u16(v >> 7)
        }
    }
}
struct Rd<B> {
    b: B,
}
impl<B: Buf> Rd<B> {
    fn u8(&mut self) -> R<u8> {
        if self.b.remaining() < 1 {
            return short();
        }
        Ok(self.b.get_u8())
    }
    fn u16(&mut self) -> R<u16> {
        if self.b.remaining() < 2 {
            return short();
        }
        Ok(self.b.get_u16())
    }
    fn var(&mut self) -> R<u16> {
        let a = self.u8()?;
        if a & 0x80 == 0 {
            return Ok(a as u16);
        }
        let hi = self.u16()?;
        if hi > (u16::MAX >> 7) {
            return Err(CErr("var".into()));
        }
        let v = (a & 0x7f) as u16 | (hi << 7);
        if v < 0x80 {
            return Err(CErr("noncanonical".into()));
        }
        Ok(v)
    }
}

fn put_id<B: BufMut>(w: &mut W<B>, id: &Id, var: bool) -> R<()> {
    if var {
        w.var(id.addr)?;
        w.var(id.gen)?;
        w.u8(id.mode)?;
        for i in 0..id.pad() {
            w.u8(0xA0 ^ i as u8)?;
        }
        Ok(())
    } else {
        w.u16(id.addr)?;
        w.u16(id.gen)?;
        w.u8(id.mode)
    }
}
fn get_id<B: Buf>(r: &mut Rd<B>, var: bool) -> R<Id> {
    if var {
        let id = Id::new(r.var()?, r.var()?, r.u8()?);
        for i in 0..id.pad() {
            if r.u8()? != 0xA0 ^ i as u8 {
                return Err(CErr("pad".into()));
            }
        }
        Ok(id)
    } else {
        Ok(Id::new(r.u16()?, r.u16()?, r.u8()?))
    }
}
fn put_member<B: BufMut>(w: &mut W<B>, m: &Mem, var: bool) -> R<()> {
    w.u8(match m.state() {
        State::Alive => 1,
        State::Suspect => 2,
        State::Down => 3,
    })?;
    w.u16(m.incarnation())?;
    put_id(w, m.id(), var)
}
fn get_member<B: Buf>(r: &mut Rd<B>, var: bool) -> R<Mem> {
    let st = match r.u8()? {
        1 => State::Alive,
        2 => State::Suspect,
        3 => State::Down,
        _ => return Err(CErr("state".into())),
    };
    let inc = r.u16()?;
    Ok(Member::new(get_id(r, var)?, inc, st))
}
fn put_header<B: BufMut>(w: &mut W<B>, h: &Hdr, var: bool) -> R<()> {
    put_id(w, &h.src, var)?;
    w.u16(h.src_incarnation)?;
    put_id(w, &h.dst, var)?;
    match &h.message {
        Message::Ping(n) => {
            w.u8(1)?;
            w.u8(*n)
        }
        Message::Ack(n) => {
            w.u8(2)?;
            w.u8(*n)
        }
        Message::PingReq { target, probe_number } => {
            w.u8(3)?;
            put_id(w, target, var)?;
            w.u8(*probe_number)
        }
        Message::IndirectPing { origin, probe_number } => {
            w.u8(4)?;
            put_id(w, origin, var)?;
            w.u8(*probe_number)
        }
        Message::IndirectAck { target, probe_number } => {
            w.u8(5)?;
            put_id(w, target, var)?;
            w.u8(*probe_number)
        }
        Message::ForwardedAck { origin, probe_number } => {
            w.u8(6)?;
            put_id(w, origin, var)?;
            w.u8(*probe_number)
        }
        Message::Announce => w.u8(7),
        Message::Feed => w.u8(8),
        Message::Gossip => w.u8(9),
        Message::Broadcast => w.u8(10),
        Message::TurnUndead => w.u8(11),
    }
}
fn get_header<B: Buf>(r: &mut Rd<B>, var: bool) -> R<Hdr> {
    let src = get_id(r, var)?;
    let src_incarnation = r.u16()?;
    let dst = get_id(r, var)?;
    let message = match r.u8()? {
        1 => Message::Ping(r.u8()?),
        2 => Message::Ack(r.u8()?),
        3 => Message::PingReq { target: get_id(r, var)?, probe_number: r.u8()? },
        4 => Message::IndirectPing { origin: get_id(r, var)?, probe_number: r.u8()? },
        5 => Message::IndirectAck { target: get_id(r, var)?, probe_number: r.u8()? },
        6 => Message::ForwardedAck { origin: get_id(r, var)?, probe_number: r.u8()? },
        7 => Message::Announce,
        8 => Message::Feed,
        9 => Message::Gossip,
        10 => Message::Broadcast,
        11 => Message::TurnUndead,
        _ => return Err(CErr("msg".into())),
    };
    Ok(Header { src, src_incarnation, dst, message })
}

/// the five kinds of message without any contents of their own
fn plain(k: u8) -> Option<Msg> {
    Some(match k {
        0 => Message::Announce,
        1 => Message::Feed,
        2 => Message::Gossip,
        3 => Message::Broadcast,
        4 => Message::TurnUndead,
        _ => return None,
    })
}
fn first(id: &Id, n: u16) -> bool {
    id.addr < n && id.gen == 0 && id.mode == 0
}
fn put_header_tiny<B: BufMut>(w: &mut W<B>, h: &Hdr) -> R<()> {
    if first(&h.src, 4) && first(&h.dst, 4) && h.src_incarnation == 0 {
        if let Some(k) = (0..5).find(|k| plain(*k).as_ref() == Some(&h.message)) {
            return w.u8((h.src.addr as u8) << 5 | (h.dst.addr as u8) << 3 | k);
        }
    }
    w.u8(0x80)?;
    put_header(w, h, true)
}
fn get_header_tiny<B: Buf>(r: &mut Rd<B>) -> R<Hdr> {
    let b = r.u8()?;
    if b == 0x80 {
        return get_header(r, true);
    }
    let (src, dst) = (Id::new((b >> 5) as u16, 0, 0), Id::new((b >> 3 & 3) as u16, 0, 0));
    match plain(b & 7) {
        Some(message) if b < 0x80 => Ok(Header { src, src_incarnation: 0, dst, message }),
        _ => Err(CErr("tiny".into())),
    }
}
fn put_member_tiny<B: BufMut>(w: &mut W<B>, m: &Mem) -> R<()> {
    if first(m.id(), 32) && m.incarnation() == 0 {
        let s = match m.state() {
            State::Alive => 0,
            State::Suspect => 1,
            State::Down => 2,
        };
        return w.u8(s << 5 | m.id().addr as u8);
    }
    w.u8(0x80)?;
    put_member(w, m, true)
}
fn get_member_tiny<B: Buf>(r: &mut Rd<B>) -> R<Mem> {
    let b = r.u8()?;
    let s = match b >> 5 {
        0 => State::Alive,
        1 => State::Suspect,
        2 => State::Down,
        4 if b == 0x80 => return get_member(r, true),
        _ => return Err(CErr("tiny".into())),
    };
    Ok(Member::new(Id::new((b & 31) as u16, 0, 0), 0, s))
}

thread_local! {
    /// nth encode/decode that fails from now on (0: never), for C06 only
    pub static FAIL_NTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
fn faulty() -> R<()> {
    FAIL_NTH.with(|f| match f.get() {
        0 => Ok(()),
        1 => {
            f.set(0);
            Err(CErr("as told".into()))
        }
        n => {
            f.set(n - 1);
            Ok(())
        }
    })
}

impl Codec<Id> for AnyCodec {
    type Error = CErr;

    fn encode_header(&mut self, h: &Hdr, buf: impl BufMut) -> R<()> {
        faulty()?;
        match self.0 {
            Kind::Fixed => {
                let mut tmp = Vec::with_capacity(24);
                put_header(&mut W { b: &mut tmp }, h, false)?;
                let mut buf = buf;
                if buf.remaining_mut() < tmp.len() {
                    return short();
                }
                buf.put_slice(&tmp);
                Ok(())
            }
            Kind::Var => put_header(&mut W { b: buf }, h, true),
            Kind::BincodeStd => BincodeCodec(bincode::config::standard())
                .encode_header(h, buf)
                .map_err(e),
            Kind::BincodeLegacy => BincodeCodec(bincode::config::legacy())
                .encode_header(h, buf)
                .map_err(e),
            Kind::Postcard => PostcardCodec.encode_header(h, buf).map_err(e),
            Kind::Tiny => put_header_tiny(&mut W { b: buf }, h),
        }
    }
    fn decode_header(&mut self, buf: impl Buf) -> R<Hdr> {
        faulty()?;
        match self.0 {
            Kind::Fixed => get_header(&mut Rd { b: buf }, false),
            Kind::Var => get_header(&mut Rd { b: buf }, true),
            Kind::BincodeStd => BincodeCodec(bincode::config::standard())
                .decode_header(buf)
                .map_err(e),
            Kind::BincodeLegacy => BincodeCodec(bincode::config::legacy())
                .decode_header(buf)
                .map_err(e),
            Kind::Postcard => PostcardCodec.decode_header(buf).map_err(e),
            Kind::Tiny => get_header_tiny(&mut Rd { b: buf }),
        }
    }
    fn encode_member(&mut self, m: &Mem, buf: impl BufMut) -> R<()> {
        faulty()?;
        match self.0 {
            Kind::Fixed => {
                let mut tmp = Vec::with_capacity(12);
                put_member(&mut W { b: &mut tmp }, m, false)?;
                let mut buf = buf;
                if buf.remaining_mut() < tmp.len() {
                    return short();
                }
                buf.put_slice(&tmp);
                Ok(())
            }
            Kind::Var => put_member(&mut W { b: buf }, m, true),
            Kind::BincodeStd => BincodeCodec(bincode::config::standard())
                .encode_member(m, buf)
                .map_err(e),
            Kind::BincodeLegacy => BincodeCodec(bincode::config::legacy())
                .encode_member(m, buf)
                .map_err(e),
            Kind::Postcard => PostcardCodec.encode_member(m, buf).map_err(e),
            Kind::Tiny => put_member_tiny(&mut W { b: buf }, m),
        }
    }
    fn decode_member(&mut self, buf: impl Buf) -> R<Mem> {
        faulty()?;
        match self.0 {
            Kind::Fixed => get_member(&mut Rd { b: buf }, false),
            Kind::Var => get_member(&mut Rd { b: buf }, true),
            Kind::BincodeStd => BincodeCodec(bincode::config::standard())
                .decode_member(buf)
                .map_err(e),
            Kind::BincodeLegacy => BincodeCodec(bincode::config::legacy())
                .decode_member(buf)
                .map_err(e),
            Kind::Postcard => PostcardCodec.decode_member(buf).map_err(e),
            Kind::Tiny => get_member_tiny(&mut Rd { b: buf }),
        }
    }
}

// ---------------------------------------------------------------------------
// The harness' own reading and writing of the wire: never goes through the
// codecs bundled with foca.

fn wire_take<T>(kind: Kind, data: &[u8]) -> R<(T, usize)>
where
    T: serde::de::DeserializeOwned,
{
    match kind {
        Kind::BincodeStd => {
            bincode::serde::decode_from_slice(data, bincode::config::standard().with_limit::<65536>())
                .map_err(e)
        }
        Kind::BincodeLegacy => {
            bincode::serde::decode_from_slice(data, bincode::config::legacy().with_limit::<65536>())
                .map_err(e)
        }
        Kind::Postcard => {
            let (v, rest) = postcard::take_from_bytes::<T>(data).map_err(e)?;
            Ok((v, data.len() - rest.len()))
        }
        _ => unreachable!(),
    }
}

fn wire_put<T: serde::Serialize>(kind: Kind, v: &T, out: &mut Vec<u8>) {
    match kind {
        Kind::BincodeStd => {
            bincode::serde::encode_into_std_write(v, out, bincode::config::standard()).unwrap();
        }
        Kind::BincodeLegacy => {
            bincode::serde::encode_into_std_write(v, out, bincode::config::legacy()).unwrap();
        }
        Kind::Postcard => {
            let mut tmp = [0u8; 256];
            let s = postcard::to_slice(v, &mut tmp).unwrap();
            out.extend_from_slice(s);
        }
        _ => unreachable!(),
    }
}

pub fn wire_header(kind: Kind, data: &[u8]) -> R<(Hdr, usize)> {
    match kind {
        Kind::Fixed | Kind::Var => {
            let mut s = data;
            let h = get_header(&mut Rd { b: &mut s }, kind == Kind::Var)?;
            Ok((h, data.len() - s.len()))
        }
        Kind::Tiny => {
            let mut s = data;
            let h = get_header_tiny(&mut Rd { b: &mut s })?;
            Ok((h, data.len() - s.len()))
        }
        _ => wire_take(kind, data),
    }
}
pub fn wire_member(kind: Kind, data: &[u8]) -> R<(Mem, usize)> {
    match kind {
        Kind::Fixed | Kind::Var => {
            let mut s = data;
            let h = get_member(&mut Rd { b: &mut s }, kind == Kind::Var)?;
            Ok((h, data.len() - s.len()))
        }
        Kind::Tiny => {
            let mut s = data;
            let h = get_member_tiny(&mut Rd { b: &mut s })?;
            Ok((h, data.len() - s.len()))
        }
        _ => wire_take(kind, data),
    }
}
pub fn put_header_wire(kind: Kind, h: &Hdr, out: &mut Vec<u8>) {
    match kind {
        Kind::Fixed | Kind::Var => put_header(&mut W { b: out }, h, kind == Kind::Var).unwrap(),
        Kind::Tiny => put_header_tiny(&mut W { b: out }, h).unwrap(),
        _ => wire_put(kind, h, out),
    }
}
pub fn put_member_wire(kind: Kind, m: &Mem, out: &mut Vec<u8>) {
    match kind {
        Kind::Fixed | Kind::Var => put_member(&mut W { b: out }, m, kind == Kind::Var).unwrap(),
        Kind::Tiny => put_member_tiny(&mut W { b: out }, m).unwrap(),
        _ => wire_put(kind, m, out),
    }
}
pub fn member_len(kind: Kind, m: &Mem) -> usize {
    let mut v = Vec::new();
    put_member_wire(kind, m, &mut v);
    v.len()
}
pub fn header_len(kind: Kind, h: &Hdr) -> usize {
    let mut v = Vec::new();
    put_header_wire(kind, h, &mut v);
    v.len()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Packet {
    pub header: Hdr,
    /// bytes taken by the header
    pub header_len: usize,
    /// whether a member section (count included) is there
    pub has_section: bool,
    pub updates: Vec<Mem>,
    /// encoded length of each update
    pub update_lens: Vec<usize>,
    pub items: Vec<Vec<u8>>,
    pub len: usize,
}

/// message kinds that carry a member section
pub fn piggybacks(m: &Msg) -> bool {
    !matches!(m, Message::Announce | Message::TurnUndead | Message::Broadcast)
}
/// message kinds that may carry custom broadcasts
pub fn carries_items(m: &Msg) -> bool {
    !matches!(m, Message::Announce | Message::TurnUndead)
}

pub fn msg_name(m: &Msg) -> &'static str {
    match m {
        Message::Ping(_) => "Ping",
        Message::Ack(_) => "Ack",
        Message::PingReq { .. } => "PingReq",
        Message::IndirectPing { .. } => "IndirectPing",
        Message::IndirectAck { .. } => "IndirectAck",
        Message::ForwardedAck { .. } => "ForwardedAck",
        Message::Announce => "Announce",
        Message::Feed => "Feed",
        Message::Gossip => "Gossip",
        Message::Broadcast => "Broadcast",
        Message::TurnUndead => "TurnUndead",
    }
}

/// Strict grammar of what an instance may emit.
pub fn parse_packet(kind: Kind, data: &[u8]) -> Result<Packet, String> {
    let (header, hl) = wire_header(kind, data).map_err(|e| format!("header: {e}"))?;
    let mut rest = &data[hl..];
    let mut p = Packet {
        header,
        header_len: hl,
        has_section: false,
        updates: vec![],
        update_lens: vec![],
        items: vec![],
        len: data.len(),
    };
    if !carries_items(&p.header.message) {
        if !rest.is_empty() {
            return Err(format!(
                "{} carries {} bytes after the header",
                msg_name(&p.header.message),
                rest.len()
            ));
        }
        return Ok(p);
    }
    if rest.is_empty() {
        return Ok(p);
    }
    if piggybacks(&p.header.message) {
        if rest.len() < 2 {
            return Err("one stray byte after the header".into());
        }
        let n = u16::from_be_bytes([rest[0], rest[1]]);
        rest = &rest[2..];
        p.has_section = true;
        for i in 0..n {
            let (m, l) = wire_member(kind, rest).map_err(|e| format!("member {i} of {n}: {e}"))?;
            p.updates.push(m);
            p.update_lens.push(l);
            rest = &rest[l..];
        }
    }
    while !rest.is_empty() {
        if rest.len() < 3 {
            return Err(format!("{} stray bytes in the broadcast tail", rest.len()));
        }
        let l = u16::from_be_bytes([rest[0], rest[1]]) as usize;
        if l == 0 {
            return Err("empty broadcast item".into());
        }
        if rest.len() < 2 + l {
            return Err(format!("item announces {l} bytes, {} left", rest.len() - 2));
        }
        p.items.push(rest[2..2 + l].to_vec());
        rest = &rest[2 + l..];
    }
    Ok(p)
}

pub fn build_packet(kind: Kind, h: &Hdr, updates: Option<&[Mem]>, items: &[Vec<u8>]) -> Vec<u8> {
    let mut out = Vec::new();
    put_header_wire(kind, h, &mut out);
    if let Some(u) = updates {
        out.extend_from_slice(&(u.len() as u16).to_be_bytes());
        for m in u {
            put_member_wire(kind, m, &mut out);
        }
    }
    for it in items {
        out.extend_from_slice(&(it.len() as u16).to_be_bytes());
        out.extend_from_slice(it);
    }
    out
}
