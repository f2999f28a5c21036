//! Broadcast handler whose acceptance, invalidation relation and recipient
//! predicate are picked by the generator. Records every item it is given.
use foca::{BroadcastHandler, Invalidates};
use std::collections::{HashMap, HashSet};

use crate::id::Id;
use crate::inst::{Ev, Log};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Key {
    pub rel: u8,
    pub key: u8,
    pub ver: u8,
}

/// items starting with this make the handler fail, if it may
pub const ERR_ITEM: u8 = 0xEE;

pub const N_REL: u32 = 6;

impl Invalidates for Key {
    fn invalidates(&self, other: &Self) -> bool {
        match self.rel {
            // one value per key
            0 => self.key == other.key,
            // newer or equal versions only
            1 => self.key == other.key && self.ver >= other.ver,
            // nothing ever does
            2 => false,
            // the last one wins it all
            3 => true,
            // asymmetric: prefix-like
            4 => self.key <= other.key,
            // arbitrary but fixed relation (irreflexive, not transitive)
            _ => (self.key ^ other.key).count_ones() == 1,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct HandlerCfg {
    pub rel: u8,
    /// 0: newer versions of a key only, 1: everything not seen, 2: keys < 128 only
    pub policy: u8,
    /// bit (addr % 16) says whether that member gets broadcast data
    pub mask: u16,
    /// whether `ERR_ITEM`s make the handler fail
    pub errs: bool,
}

impl HandlerCfg {
    pub fn permissive() -> Self {
        Self { rel: 2, policy: 1, mask: 0xffff, errs: false }
    }
    pub fn eligible(&self, id: &Id) -> bool {
        (self.mask >> (id.addr % 16)) & 1 == 1
    }
    pub fn key_of(&self, data: &[u8]) -> Key {
        Key {
            rel: self.rel,
            key: data.first().copied().unwrap_or(0) & 0x0f,
            ver: data.get(1).copied().unwrap_or(0),
        }
    }
}

pub struct Handler {
    pub cfg: HandlerCfg,
    pub log: Log,
    latest: HashMap<u8, u8>,
    seen: HashSet<Vec<u8>>,
}

impl Handler {
    pub fn new(cfg: HandlerCfg, log: Log) -> Self {
        Self { cfg, log, latest: Default::default(), seen: Default::default() }
    }
}

#[derive(Debug)]
pub struct HErr;
impl std::fmt::Display for HErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("handler refused")
    }
}
impl std::error::Error for HErr {}

impl BroadcastHandler<Id> for Handler {
    type Key = Key;
    type Error = HErr;

    fn receive_item(&mut self, data: &[u8], sender: Option<&Id>) -> Result<Option<Key>, HErr> {
        let k = self.cfg.key_of(data);
        let res = if self.cfg.errs && data.first() == Some(&ERR_ITEM) {
            Err(HErr)
        } else if !k.invalidates(&k) && self.seen.contains(data) {
            Ok(None)
        } else {
            let ok = match self.cfg.policy {
                0 => self.latest.get(&k.key).map_or(true, |v| k.ver > *v),
                1 => true,
                _ => k.key < 8,
            };
            if ok {
                self.latest.insert(k.key, k.ver);
                self.seen.insert(data.to_vec());
                Ok(Some(k))
            } else {
                Ok(None)
            }
        };
        self.log.borrow_mut().push(Ev::Item {
            data: data.to_vec(),
            sender: sender.copied(),
            key: match &res {
                Ok(Some(k)) => Some(*k),
                _ => None,
            },
            err: res.is_err(),
        });
        res
    }

    fn should_add_broadcast_data(&self, m: &Id) -> bool {
        self.cfg.eligible(m)
    }
}
