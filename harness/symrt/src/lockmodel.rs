//! The locking rules (property L01) as a reference for the protocol harnesses.
use super::bytes_eq;

#[derive(Clone, Default)]
pub struct Held {
    pub ex: bool,
    pub sh: Option<Vec<u8>>,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Why {
    Ok,
    Already,
    Locked,
}
#[derive(Clone)]
pub struct Model {
    pub h: Vec<Held>,
}
impl Model {
    pub fn new(n: usize) -> Self {
        Model { h: vec![Held::default(); n] }
    }
    pub fn ex_other(&self, me: usize) -> bool {
        self.h.iter().enumerate().any(|(i, h)| i != me && h.ex)
    }
    pub fn any_ex(&self) -> bool {
        self.h.iter().any(|h| h.ex)
    }
    pub fn n_sh(&self) -> u32 {
        self.h.iter().filter(|h| h.sh.is_some()).count() as u32
    }
    pub fn sh_other(&self, me: usize) -> bool {
        self.h.iter().enumerate().any(|(i, h)| i != me && h.sh.is_some())
    }
    pub fn key(&self) -> Option<&Vec<u8>> {
        self.h.iter().find_map(|h| h.sh.as_ref())
    }
    pub fn may_use(&self, me: usize) -> bool {
        if self.h[me].ex {
            return true;
        }
        !self.ex_other(me) && (self.h[me].sh.is_some() || !self.sh_other(me))
    }
    /// An empty key asks for the exclusive lock.
    pub fn want(&self, me: usize, key: &[u8]) -> Why {
        if key.is_empty() {
            self.want_ex(me)
        } else {
            self.want_sh(me, key)
        }
    }
    pub fn grant(&mut self, me: usize, key: &[u8]) {
        if key.is_empty() {
            self.h[me].ex = true
        } else {
            self.h[me].sh = Some(key.to_vec())
        }
    }
    pub fn want_ex(&self, me: usize) -> Why {
        if self.h[me].ex {
            Why::Already
        } else if self.any_ex() || (self.n_sh() > 0 && self.h[me].sh.is_none()) {
            Why::Locked
        } else {
            Why::Ok
        }
    }
    pub fn want_sh(&self, me: usize, key: &[u8]) -> Why {
        if self.h[me].sh.is_some() {
            return Why::Already;
        }
        match self.key() {
            Some(k) => {
                if bytes_eq(k, key) {
                    Why::Ok
                } else {
                    Why::Locked
                }
            }
            None => {
                if self.h[me].ex {
                    Why::Already
                } else if self.any_ex() {
                    Why::Locked
                } else {
                    Why::Ok
                }
            }
        }
    }
    pub fn release(&mut self, me: usize) -> Held {
        std::mem::take(&mut self.h[me])
    }
    pub fn holds(&self, me: usize) -> bool {
        self.h[me].ex || self.h[me].sh.is_some()
    }
}
