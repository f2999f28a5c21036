//! The identity type used by the generated histories.
use foca::Identity;
use serde::{Deserialize, Serialize};

/// `mode` low 2 bits: what `renew()` yields. Bits 2..: how long the identity is
/// on the wire with the variable-length codec.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Id {
    pub addr: u16,
    pub gen: u16,
    pub mode: u8,
}

pub const RENEW_NONE: u8 = 0;
pub const RENEW_NEXT: u8 = 1;
pub const RENEW_SAME: u8 = 2;
pub const RENEW_LOSING: u8 = 3;
/// on top of RENEW_NEXT: the next identity has another address, too
pub const MOVES: u8 = 0x20;

impl Id {
    pub const fn new(addr: u16, gen: u16, mode: u8) -> Self {
        Self { addr, gen, mode }
    }
    pub fn with_gen(self, gen: u16) -> Self {
        Self { gen, ..self }
    }
    pub fn pad(&self) -> usize {
        // varies per address and per generation
        let rule = (self.mode >> 2 & 7) as usize;
        match rule {
            0 => 0,
            r => (self.addr as usize * 5 + self.gen as usize * 3 + r) % (3 * r + 1),
        }
    }
    pub fn set_weird(conflict: u8, renew: u8) {
        WEIRD.with(|w| w.set((conflict, renew)));
    }
    /// strict total order among identities sharing an address
    pub fn wins(&self, other: &Self) -> bool {
        (self.gen, self.mode) > (other.gen, other.mode)
    }
}

thread_local! {
    /// (address conflict, renewal): identities whose methods make no sense,
    /// for C06 only. (0, 0) everywhere else
    static WEIRD: std::cell::Cell<(u8, u8)> = const { std::cell::Cell::new((0, 0)) };
}

impl Identity for Id {
    type Addr = u16;

    fn renew(&self) -> Option<Self> {
        match WEIRD.with(|w| w.get().1) {
            0 => {}
            1 => return Some(Id::new(self.addr ^ 1, self.gen.wrapping_add(1), self.mode)),
            2 => return Some(Id::new(self.addr, self.gen.wrapping_mul(31).wrapping_add(7) % 5, self.mode)),
            _ => return Some(Id::new(self.gen % 4, self.addr, self.mode)),
        }
        match self.mode & 3 {
            RENEW_NEXT => {
                let addr = if self.mode & MOVES == 0 { self.addr } else { self.gen % 1000 + 1001 };
                self.gen.checked_add(1).map(|g| Id::new(addr, g, self.mode))
            }
            RENEW_SAME => Some(*self),
            RENEW_LOSING => self.gen.checked_sub(1).map(|g| self.with_gen(g)),
            _ => None,
        }
    }
    fn addr(&self) -> u16 {
        self.addr
    }
    fn win_addr_conflict(&self, adversary: &Self) -> bool {
        match WEIRD.with(|w| w.get().0) {
            0 => {}
            1 => return true,
            2 => return false,
            3 => return !self.wins(adversary),
            _ => return (self.gen.wrapping_mul(7) ^ adversary.gen) & 1 == 0,
        }
        // no conflict at all: some say yes to that
        if self == adversary {
            return self.mode & 3 == RENEW_SAME;
        }
        self.wins(adversary)
    }
}

/// What a correct instance may do when it has to abandon identity `id`
pub fn rejoin_target(id: &Id) -> Option<Id> {
    id.renew().filter(|n| n != id && n.wins(id))
}
