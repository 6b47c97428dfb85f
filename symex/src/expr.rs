//! Symbolic bit-vector expressions with structural hashing, constant folding
//! and light simplification.
use crate::ir::{Bin, Pred};
use std::collections::HashMap;
use std::sync::Arc;

pub fn mask(bits: u32) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1u64 << bits) - 1
    }
}
pub fn sext64(v: u64, bits: u32) -> u64 {
    if bits == 0 || bits >= 64 {
        v
    } else {
        let s = 64 - bits;
        (((v << s) as i64) >> s) as u64
    }
}

/// Constant of arbitrary width (little-endian 64-bit limbs)
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bits {
    pub w: u32,
    pub l: Vec<u64>,
}
impl Bits {
    pub fn zero(w: u32) -> Self {
        Bits { w, l: vec![0; ((w + 63) / 64) as usize] }
    }
    pub fn from_u64(v: u64, w: u32) -> Self {
        let mut b = Self::zero(w);
        b.l[0] = v;
        b.norm()
    }
    pub fn from_u128(v: u128, w: u32) -> Self {
        let mut b = Self::zero(w);
        b.l[0] = v as u64;
        if b.l.len() > 1 {
            b.l[1] = (v >> 64) as u64;
        }
        b.norm()
    }
    pub fn norm(mut self) -> Self {
        let r = self.w % 64;
        if r != 0 {
            let k = self.l.len() - 1;
            self.l[k] &= mask(r);
        }
        self
    }
    pub fn mul_small(&self, k: u64) -> Self {
        let mut c = 0u128;
        let mut r = self.clone();
        for x in r.l.iter_mut() {
            let t = *x as u128 * k as u128 + c;
            *x = t as u64;
            c = t >> 64;
        }
        r.norm()
    }
    pub fn add(&self, o: &Bits) -> Self {
        let mut c = 0u128;
        let mut r = self.clone();
        for (x, y) in r.l.iter_mut().zip(o.l.iter()) {
            let t = *x as u128 + *y as u128 + c;
            *x = t as u64;
            c = t >> 64;
        }
        r.norm()
    }
    pub fn sub(&self, o: &Bits) -> Self {
        let mut n = o.clone();
        for x in n.l.iter_mut() {
            *x = !*x;
        }
        let n = n.norm();
        self.add(&n).add(&Bits::from_u64(1, self.w))
    }
    pub fn bit(&self, i: u32) -> bool {
        (self.l[(i / 64) as usize] >> (i % 64)) & 1 == 1
    }
    pub fn set(&mut self, i: u32) {
        self.l[(i / 64) as usize] |= 1 << (i % 64)
    }
    pub fn extract(&self, lo: u32, w: u32) -> Bits {
        let mut b = Bits::zero(w);
        for i in 0..w {
            if lo + i < self.w && self.bit(lo + i) {
                b.set(i)
            }
        }
        b
    }
    pub fn to_le_bytes(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.l.iter().flat_map(|x| x.to_le_bytes()).collect();
        v.truncate(((self.w + 7) / 8) as usize);
        v
    }
    pub fn u128(&self) -> u128 {
        self.l[0] as u128 | ((*self.l.get(1).unwrap_or(&0) as u128) << 64)
    }
}

pub type VarSet = [u64; 4];

#[derive(Debug)]
pub enum N {
    Wide(Bits),
    Var(u32),
    Bin(Bin, V, V),
    Eq(V, V, u32),
    Ult(V, V, u32),
    Ule(V, V, u32),
    Slt(V, V, u32),
    Sle(V, V, u32),
    Not(V),
    ZExt(V, u32),
    SExt(V, u32),
    /// value, its width, low bit
    Extract(V, u32, u32),
    /// hi, lo, width of lo
    Concat(V, V, u32),
    Ite(V, V, V),
}

#[derive(Debug)]
pub struct Node {
    pub n: N,
    pub w: u32,
    pub h: u128,
    pub vars: VarSet,
}

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(Arc<Node>),
    Agg(Arc<Vec<V>>),
}

fn mix(h: u128, x: u128) -> u128 {
    const K1: u64 = 0x9E3779B97F4A7C15;
    const K2: u64 = 0xD6E8FEB86659FD93;
    let a = (h as u64) ^ (x as u64).wrapping_mul(K1);
    let b = ((h >> 64) as u64) ^ ((x >> 64) as u64).wrapping_add(0x1234567).wrapping_mul(K2);
    let m1 = (a as u128).wrapping_mul(K2 as u128);
    let m2 = (b as u128).wrapping_mul(K1 as u128);
    let lo = ((m1 as u64) ^ ((m1 >> 64) as u64)).wrapping_add(b.rotate_left(23));
    let hi = ((m2 as u64) ^ ((m2 >> 64) as u64)).wrapping_add(a.rotate_left(41));
    let lo2 = lo ^ hi.rotate_left(17).wrapping_mul(K1);
    ((hi as u128) << 64) | lo2 as u128
}

impl V {
    pub fn konst(b: Bits) -> V {
        if b.w <= 64 {
            V::C(b.l[0])
        } else {
            mk(b.w, N::Wide(b))
        }
    }
    pub fn as_c(&self) -> Result<u64, String> {
        match self {
            V::C(c) => Ok(*c),
            V::E(n) => match &n.n {
                N::Wide(b) if b.l.iter().skip(1).all(|x| *x == 0) => Ok(b.l[0]),
                _ => Err("not a constant".into()),
            },
            _ => Err("not a scalar constant".into()),
        }
    }
    pub fn as_bits(&self) -> Result<Bits, String> {
        match self {
            V::C(c) => Ok(Bits::from_u64(*c, 64)),
            V::E(n) => match &n.n {
                N::Wide(b) => Ok(b.clone()),
                _ => Err("not a constant".into()),
            },
            _ => Err("not a scalar constant".into()),
        }
    }
    pub fn cbits(&self, w: u32) -> Option<Bits> {
        match self {
            V::C(c) => Some(Bits::from_u64(*c, w)),
            V::E(n) => match &n.n {
                N::Wide(b) => Some(b.clone()),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn is_sym(&self) -> bool {
        match self {
            V::C(_) => false,
            V::E(n) => !matches!(n.n, N::Wide(_)),
            V::Agg(v) => v.iter().any(|x| x.is_sym()),
        }
    }
    pub fn h(&self) -> u128 {
        match self {
            V::C(c) => mix(0x5151, *c as u128),
            V::E(n) => n.h,
            V::Agg(v) => v.iter().fold(77, |h, x| mix(h, x.h())),
        }
    }
    pub fn vars(&self) -> VarSet {
        match self {
            V::E(n) => n.vars,
            _ => [0; 4],
        }
    }
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::C(a), V::C(b)) => a == b,
            (V::E(a), V::E(b)) => a.h == b.h,
            _ => false,
        }
    }
}

pub fn vs_or(a: VarSet, b: VarSet) -> VarSet {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn vs_hit(a: &VarSet, b: &VarSet) -> bool {
    (a[0] & b[0]) | (a[1] & b[1]) | (a[2] & b[2]) | (a[3] & b[3]) != 0
}

fn mk(w: u32, n: N) -> V {
    let (tag, hs, vars): (u128, [u128; 3], VarSet) = match &n {
        N::Wide(b) => (1, [b.l.iter().fold(3, |h, x| mix(h, *x as u128)), 0, 0], [0; 4]),
        N::Var(i) => {
            let mut s = [0; 4];
            let k = (*i % 256) as usize;
            s[k / 64] |= 1 << (k % 64);
            (2, [*i as u128, 0, 0], s)
        }
        N::Bin(o, a, b) => (16 + *o as u128, [a.h(), b.h(), 0], vs_or(a.vars(), b.vars())),
        N::Eq(a, b, ow) => (3, [a.h(), b.h(), *ow as u128], vs_or(a.vars(), b.vars())),
        N::Ult(a, b, ow) => (4, [a.h(), b.h(), *ow as u128], vs_or(a.vars(), b.vars())),
        N::Ule(a, b, ow) => (5, [a.h(), b.h(), *ow as u128], vs_or(a.vars(), b.vars())),
        N::Slt(a, b, ow) => (6, [a.h(), b.h(), *ow as u128], vs_or(a.vars(), b.vars())),
        N::Sle(a, b, ow) => (7, [a.h(), b.h(), *ow as u128], vs_or(a.vars(), b.vars())),
        N::Not(a) => (8, [a.h(), 0, 0], a.vars()),
        N::ZExt(a, f) => (9, [a.h(), *f as u128, 0], a.vars()),
        N::SExt(a, f) => (10, [a.h(), *f as u128, 0], a.vars()),
        N::Extract(a, f, lo) => (11, [a.h(), *f as u128, *lo as u128], a.vars()),
        N::Concat(a, b, lw) => (12, [a.h(), b.h(), *lw as u128], vs_or(a.vars(), b.vars())),
        N::Ite(c, a, b) => (13, [c.h(), a.h(), b.h()], vs_or(c.vars(), vs_or(a.vars(), b.vars()))),
    };
    let mut h = mix(tag.wrapping_mul(0x1000003) ^ 0xabcdef, w as u128 + 7);
    for x in hs {
        h = mix(h, x);
    }
    V::E(Arc::new(Node { n, w, h, vars }))
}

pub fn var(id: u32, w: u32) -> V {
    mk(w, N::Var(id))
}

fn node(v: &V) -> Option<&N> {
    match v {
        V::E(n) => Some(&n.n),
        _ => None,
    }
}

fn wide_bin(op: Bin, a: &Bits, b: &Bits) -> Option<Bits> {
    let w = a.w;
    if w > 128 {
        let mut r = a.clone();
        match op {
            Bin::And => r.l.iter_mut().zip(&b.l).for_each(|(x, y)| *x &= y),
            Bin::Or => r.l.iter_mut().zip(&b.l).for_each(|(x, y)| *x |= y),
            Bin::Xor => r.l.iter_mut().zip(&b.l).for_each(|(x, y)| *x ^= y),
            Bin::Add => return Some(a.add(b)),
            Bin::Sub => return Some(a.sub(b)),
            Bin::LShr => {
                let s = b.l[0] as u32;
                return Some(if s >= w { Bits::zero(w) } else { a.extract(s, w) });
            }
            Bin::Shl => {
                let s = b.l[0] as u32;
                let mut r = Bits::zero(w);
                for i in s..w {
                    if a.bit(i - s) {
                        r.set(i)
                    }
                }
                return Some(r);
            }
            _ => return None,
        }
        return Some(r);
    }
    let x = a.u128();
    let y = b.u128();
    let sx = |v: u128| -> i128 {
        if w < 128 {
            let s = 128 - w;
            ((v << s) as i128) >> s
        } else {
            v as i128
        }
    };
    let r = match op {
        Bin::Add => x.wrapping_add(y),
        Bin::Sub => x.wrapping_sub(y),
        Bin::Mul => x.wrapping_mul(y),
        Bin::UDiv => {
            if y == 0 {
                return None;
            }
            x / y
        }
        Bin::URem => {
            if y == 0 {
                return None;
            }
            x % y
        }
        Bin::SDiv => {
            if y == 0 {
                return None;
            }
            sx(x).wrapping_div(sx(y)) as u128
        }
        Bin::SRem => {
            if y == 0 {
                return None;
            }
            sx(x).wrapping_rem(sx(y)) as u128
        }
        Bin::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Bin::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Bin::AShr => {
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            (sx(x) >> s) as u128
        }
        Bin::And => x & y,
        Bin::Or => x | y,
        Bin::Xor => x ^ y,
    };
    Some(Bits::from_u128(r, w))
}

pub fn cbin(op: Bin, w: u32, x: u64, y: u64) -> Option<u64> {
    let m = mask(w);
    let r = match op {
        Bin::Add => x.wrapping_add(y),
        Bin::Sub => x.wrapping_sub(y),
        Bin::Mul => x.wrapping_mul(y),
        Bin::UDiv => {
            if y == 0 {
                return None;
            }
            x / y
        }
        Bin::URem => {
            if y == 0 {
                return None;
            }
            x % y
        }
        Bin::SDiv => {
            if y == 0 {
                return None;
            }
            (sext64(x, w) as i64).wrapping_div(sext64(y, w) as i64) as u64
        }
        Bin::SRem => {
            if y == 0 {
                return None;
            }
            (sext64(x, w) as i64).wrapping_rem(sext64(y, w) as i64) as u64
        }
        Bin::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        Bin::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        Bin::AShr => {
            let s = if y >= w as u64 { w - 1 } else { y as u32 };
            ((sext64(x, w) as i64) >> s) as u64
        }
        Bin::And => x & y,
        Bin::Or => x | y,
        Bin::Xor => x ^ y,
    };
    Some(r & m)
}

/// Known-zero upper part: number of significant low bits of `v` (of width w)
fn sig_bits(v: &V, w: u32) -> u32 {
    match v {
        V::C(c) => 64 - c.leading_zeros(),
        V::E(n) => match &n.n {
            N::ZExt(a, f) => sig_bits(a, *f),
            N::Concat(hi, _, lw) => {
                if let V::C(0) = hi {
                    *lw
                } else {
                    sig_bits(hi, w - lw) + lw
                }
            }
            N::Bin(Bin::And, a, b) => sig_bits(a, w).min(sig_bits(b, w)),
            N::Bin(Bin::Or | Bin::Xor, a, b) => sig_bits(a, w).max(sig_bits(b, w)),
            N::Bin(Bin::LShr, a, V::C(s)) => sig_bits(a, w).saturating_sub(*s as u32),
            N::Bin(Bin::URem, _, V::C(s)) if *s > 0 => (64 - (*s - 1).leading_zeros()).min(w),
            N::Ite(_, a, b) => sig_bits(a, w).max(sig_bits(b, w)),
            N::Wide(b) => {
                let mut k = b.w;
                while k > 0 && !b.bit(k - 1) {
                    k -= 1
                }
                k
            }
            _ => w,
        },
        _ => w,
    }
}

/// Mask of bits possibly set (w <= 64)
fn maybe_ones(v: &V, w: u32) -> u64 {
    match v {
        V::C(c) => *c,
        V::E(n) if n.w <= 64 => match &n.n {
            N::ZExt(a, f) => maybe_ones(a, *f),
            N::Concat(hi, lo, lw) if *lw < 64 => (maybe_ones(hi, w - lw) << lw) | maybe_ones(lo, *lw),
            N::Bin(Bin::And, a, b) => maybe_ones(a, w) & maybe_ones(b, w),
            N::Bin(Bin::Or | Bin::Xor, a, b) => maybe_ones(a, w) | maybe_ones(b, w),
            N::Bin(Bin::Shl, a, V::C(s)) if *s < 64 => (maybe_ones(a, w) << s) & mask(w),
            N::Bin(Bin::LShr, a, V::C(s)) if *s < 64 => maybe_ones(a, w) >> s,
            N::Ite(_, a, b) => maybe_ones(a, w) | maybe_ones(b, w),
            _ => mask(w),
        },
        _ => mask(w),
    }
}

pub fn bin(op: Bin, w: u32, a: &V, b: &V) -> Option<V> {
    if let (V::C(x), V::C(y)) = (a, b) {
        if w <= 64 {
            return cbin(op, w, *x, *y).map(V::C);
        }
    }
    if w > 64 {
        if let (Some(x), Some(y)) = (a.cbits(w), b.cbits(w)) {
            return wide_bin(op, &x, &y).map(V::konst);
        }
    }
    let full = mask(w);
    // commutative: constant to the right
    let (a, b) = match (op, a) {
        (Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor, V::C(_)) => (b, a),
        _ => (a, b),
    };
    match (op, b) {
        (Bin::Add | Bin::Sub | Bin::Or | Bin::Xor | Bin::Shl | Bin::LShr | Bin::AShr, V::C(0)) => return Some(a.clone()),
        (Bin::And | Bin::Mul, V::C(0)) => return Some(V::C(0)),
        (Bin::Mul | Bin::UDiv | Bin::SDiv, V::C(1)) => return Some(a.clone()),
        (Bin::URem, V::C(1)) => return Some(V::C(0)),
        (Bin::And, V::C(c)) if w <= 64 && *c == full => return Some(a.clone()),
        (Bin::Or, V::C(c)) if w <= 64 && *c == full => return Some(V::C(full)),
        (Bin::Shl | Bin::LShr, V::C(s)) if *s >= w as u64 => return Some(V::C(0)).map(|z| zero_of(w, z)),
        _ => {}
    }
    if a.same(b) {
        match op {
            Bin::And | Bin::Or => return Some(a.clone()),
            Bin::Xor | Bin::Sub => return Some(zero_of(w, V::C(0))),
            _ => {}
        }
    }
    if w == 1 {
        match (op, b) {
            (Bin::Xor, V::C(1)) | (Bin::Add, V::C(1)) => return Some(not(a)),
            (Bin::Xor, _) => return Some(not(&cmp(Pred::Eq, 1, a, b))),
            _ => {}
        }
        // boolean absorption
        if let (Bin::And, Some(N::Not(x))) = (op, node(b)) {
            if x.same(a) {
                return Some(V::C(0));
            }
        }
        if let (Bin::Or, Some(N::Not(x))) = (op, node(b)) {
            if x.same(a) {
                return Some(V::C(1));
            }
        }
    }
    // structure
    match op {
        Bin::Shl => {
            if let V::C(s) = b {
                let s = *s as u32;
                // a << s == concat(extract(a, 0, w-s), 0:s)
                let hi = extract(a, w, 0, w - s);
                return Some(concat(&hi, w - s, &zero_of(s, V::C(0)), s));
            }
        }
        Bin::LShr => {
            if let V::C(s) = b {
                let s = *s as u32;
                return Some(zext(&extract(a, w, s, w - s), w - s, w));
            }
        }
        Bin::And => {
            if let V::C(c) = b {
                // low mask
                if c & (c + 1) == 0 && w <= 64 {
                    let k = 64 - c.leading_zeros();
                    return Some(zext(&extract(a, w, 0, k), k, w));
                }
                if w <= 64 && maybe_ones(a, w) & c == 0 {
                    return Some(V::C(0));
                }
                if w <= 64 && maybe_ones(a, w) & !c & full == 0 {
                    return Some(a.clone());
                }
                // narrow to significant bits
                let k = 64 - c.leading_zeros();
                if w <= 64 && k < w {
                    let n = bin(Bin::And, k, &extract(a, w, 0, k), &V::C(*c))?;
                    return Some(zext(&n, k, w));
                }
                // (x & c1) & c2
                if let Some(N::Bin(Bin::And, x, V::C(c1))) = node(a) {
                    return bin(Bin::And, w, x, &V::C(c1 & c));
                }
            }
        }
        Bin::Or | Bin::Add | Bin::Xor => {
            // disjoint bits: build a concat
            if w <= 64 {
                let ma = maybe_ones(a, w);
                let mb = maybe_ones(b, w);
                if ma & mb == 0 && ma != 0 && mb != 0 {
                    let (hi, lo, mh, ml) = if ma > mb { (a, b, ma, mb) } else { (b, a, mb, ma) };
                    let k = 64 - ml.leading_zeros();
                    if mh & mask(k) == 0 && k < w {
                        let h = extract(hi, w, k, w - k);
                        let l = extract(lo, w, 0, k);
                        return Some(concat(&h, w - k, &l, k));
                    }
                    // interleaved pieces (byte assembly): split at byte boundaries of concat
                    if let (Some(N::Concat(..)), true) = (node(hi), op != Bin::Xor || true) {
                        // split at lowest boundary where both parts are well defined
                        let kb = if w % 8 == 0 && w > 8 { 8 } else { 0 };
                        if kb > 0 {
                            let mut parts: Vec<(V, u32)> = vec![];
                            let mut ok = true;
                            for i in 0..w / 8 {
                                let x = extract(a, w, i * 8, 8);
                                let y = extract(b, w, i * 8, 8);
                                let p = match (&x, &y) {
                                    (V::C(0), _) => y,
                                    (_, V::C(0)) => x,
                                    (V::C(p), V::C(q)) => V::C(p | q),
                                    _ => {
                                        ok = false;
                                        break;
                                    }
                                };
                                parts.push((p, 8));
                            }
                            if ok {
                                let mut it = parts.into_iter();
                                let (mut acc, mut aw) = it.next().unwrap();
                                for (p, pw) in it {
                                    acc = concat(&p, pw, &acc, aw);
                                    aw += pw;
                                }
                                return Some(acc);
                            }
                        }
                    }
                }
            }
            if op == Bin::Add {
                if let V::C(c) = b {
                    if let Some(N::Bin(Bin::Add, x, V::C(c1))) = node(a) {
                        if w <= 64 {
                            return bin(Bin::Add, w, x, &V::C(c1.wrapping_add(*c) & full));
                        }
                    }
                }
            }
        }
        Bin::Sub => {
            if let V::C(c) = b {
                if w <= 64 {
                    return bin(Bin::Add, w, a, &V::C(c.wrapping_neg() & full));
                }
            }
            // (x + y) - y
            if let Some(N::Bin(Bin::Add, x, y)) = node(a) {
                if y.same(b) {
                    return Some(x.clone());
                }
                if x.same(b) {
                    return Some(y.clone());
                }
            }
        }
        Bin::Mul => {
            if let V::C(c) = b {
                if c.is_power_of_two() && w <= 64 {
                    return bin(Bin::Shl, w, a, &V::C(c.trailing_zeros() as u64));
                }
            }
        }
        Bin::UDiv => {
            if let V::C(c) = b {
                if c.is_power_of_two() && w <= 64 {
                    return bin(Bin::LShr, w, a, &V::C(c.trailing_zeros() as u64));
                }
            }
        }
        Bin::URem => {
            if let V::C(c) = b {
                if c.is_power_of_two() && w <= 64 {
                    return bin(Bin::And, w, a, &V::C(c - 1));
                }
            }
        }
        _ => {}
    }
    // push through ite of constants
    if let (Some(N::Ite(c, V::C(x), V::C(y))), V::C(k)) = (node(a), b) {
        if w <= 64 {
            if let (Some(p), Some(q)) = (cbin(op, w, *x, *k), cbin(op, w, *y, *k)) {
                return Some(ite(c, w, &V::C(p), &V::C(q)));
            }
        }
    }
    Some(mk(w, N::Bin(op, a.clone(), b.clone())))
}

fn zero_of(w: u32, _z: V) -> V {
    if w <= 64 {
        V::C(0)
    } else {
        V::konst(Bits::zero(w))
    }
}

pub fn not(a: &V) -> V {
    match a {
        V::C(c) => V::C(c ^ 1),
        V::E(n) => match &n.n {
            N::Not(x) => x.clone(),
            N::Ult(x, y, w) => mk(1, N::Ule(y.clone(), x.clone(), *w)),
            N::Ule(x, y, w) => mk(1, N::Ult(y.clone(), x.clone(), *w)),
            N::Slt(x, y, w) => mk(1, N::Sle(y.clone(), x.clone(), *w)),
            N::Sle(x, y, w) => mk(1, N::Slt(y.clone(), x.clone(), *w)),
            _ => mk(1, N::Not(a.clone())),
        },
        _ => panic!("not agg"),
    }
}

pub fn ccmp(p: Pred, w: u32, x: u64, y: u64) -> bool {
    let sx = sext64(x, w) as i64;
    let sy = sext64(y, w) as i64;
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Sgt => sx > sy,
        Pred::Sge => sx >= sy,
        Pred::Slt => sx < sy,
        Pred::Sle => sx <= sy,
    }
}

pub fn cmp(p: Pred, w: u32, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        if w <= 64 {
            return V::C(ccmp(p, w, *x, *y) as u64);
        }
    }
    if w > 64 {
        if let (Some(x), Some(y)) = (a.cbits(w), b.cbits(w)) {
            if w <= 128 {
                let (x, y) = (x.u128(), y.u128());
                let s = 128 - w;
                let (sx, sy) = (((x << s) as i128), ((y << s) as i128));
                return V::C(match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Sgt => sx > sy,
                    Pred::Sge => sx >= sy,
                    Pred::Slt => sx < sy,
                    Pred::Sle => sx <= sy,
                } as u64);
            } else if matches!(p, Pred::Eq | Pred::Ne) {
                return V::C(((x == y) == (p == Pred::Eq)) as u64);
            }
        }
    }
    match p {
        Pred::Ne => return not(&cmp(Pred::Eq, w, a, b)),
        Pred::Ugt => return cmp(Pred::Ult, w, b, a),
        Pred::Uge => return cmp(Pred::Ule, w, b, a),
        Pred::Sgt => return cmp(Pred::Slt, w, b, a),
        Pred::Sge => return cmp(Pred::Sle, w, b, a),
        _ => {}
    }
    if a.same(b) {
        return V::C(matches!(p, Pred::Eq | Pred::Ule | Pred::Sle) as u64);
    }
    // narrow both sides when high bits are known zero
    if w <= 64 {
        let k = sig_bits(a, w).max(sig_bits(b, w)).max(1);
        let signed = matches!(p, Pred::Slt | Pred::Sle);
        if k < w {
            // unsigned compare is the same on k bits; signed becomes unsigned as the sign bit is 0
            let q = match p {
                Pred::Slt => Pred::Ult,
                Pred::Sle => Pred::Ule,
                p => p,
            };
            return cmp(q, k, &extract(a, w, 0, k), &extract(b, w, 0, k));
        }
        let _ = signed;
        // one side constant out of range of the other
        if let V::C(c) = b {
            let ka = sig_bits(a, w);
            if ka < w && *c > mask(ka) {
                match p {
                    Pred::Eq => return V::C(0),
                    Pred::Ult | Pred::Ule => return V::C(1),
                    _ => {}
                }
            }
            match (p, *c) {
                (Pred::Ult, 0) => return V::C(0),
                (Pred::Ule, c) if c == mask(w) => return V::C(1),
                (Pred::Ule, 0) => return cmp(Pred::Eq, w, a, b),
                (Pred::Ult, 1) => return cmp(Pred::Eq, w, a, &V::C(0)),
                _ => {}
            }
        }
        if let V::C(c) = a {
            let kb = sig_bits(b, w);
            if kb < w && *c > mask(kb) {
                match p {
                    Pred::Eq | Pred::Ult | Pred::Ule => return V::C(0),
                    _ => {}
                }
            }
            match (p, *c) {
                (Pred::Ule, 0) => return V::C(1),
                (Pred::Ult, c) if c == mask(w) => return V::C(0),
                (Pred::Ult, 0) => return not(&cmp(Pred::Eq, w, b, &V::C(0))),
                (Pred::Eq, _) => return cmp(Pred::Eq, w, b, a),
                _ => {}
            }
        }
        if p == Pred::Eq {
            if let V::C(c) = b {
                if w == 1 {
                    return if *c == 1 { a.clone() } else { not(a) };
                }
                match node(a) {
                    Some(N::Ite(g, x, y)) => match (x, y) {
                        (V::C(x), V::C(y)) => {
                            return match (x == c, y == c) {
                                (true, true) => V::C(1),
                                (true, false) => g.clone(),
                                (false, true) => not(g),
                                (false, false) => V::C(0),
                            }
                        }
                        (V::C(x), y) if x != c => {
                            let e = cmp(Pred::Eq, w, y, b);
                            return bin(Bin::And, 1, &not(g), &e).unwrap();
                        }
                        (x, V::C(y)) if y != c => {
                            let e = cmp(Pred::Eq, w, x, b);
                            return bin(Bin::And, 1, g, &e).unwrap();
                        }
                        _ => {}
                    },
                    Some(N::Concat(hi, lo, lw)) => {
                        let h = cmp(Pred::Eq, w - lw, hi, &V::C(c >> lw));
                        let l = cmp(Pred::Eq, *lw, lo, &V::C(c & mask(*lw)));
                        return bin(Bin::And, 1, &h, &l).unwrap();
                    }
                    Some(N::Bin(Bin::Add, x, V::C(k))) => {
                        return cmp(Pred::Eq, w, x, &V::C(c.wrapping_sub(*k) & mask(w)));
                    }
                    Some(N::Bin(Bin::Xor, x, V::C(k))) => {
                        return cmp(Pred::Eq, w, x, &V::C(c ^ k));
                    }
                    Some(N::SExt(x, f)) => {
                        if sext64(*c & mask(*f), *f) & mask(w) != *c {
                            return V::C(0);
                        }
                        return cmp(Pred::Eq, *f, x, &V::C(c & mask(*f)));
                    }
                    _ => {}
                }
            } else {
                // concat vs concat with the same split
                if let (Some(N::Concat(h1, l1, w1)), Some(N::Concat(h2, l2, w2))) = (node(a), node(b)) {
                    if w1 == w2 {
                        let h = cmp(Pred::Eq, w - w1, h1, h2);
                        let l = cmp(Pred::Eq, *w1, l1, l2);
                        return bin(Bin::And, 1, &h, &l).unwrap();
                    }
                }
                // canonical order
                if a.h() > b.h() {
                    return mk(1, N::Eq(b.clone(), a.clone(), w));
                }
            }
        }
        // ite of constants vs constant
        if let (Some(N::Ite(g, V::C(x), V::C(y))), V::C(c)) = (node(a), b) {
            return ite(g, 1, &V::C(ccmp(p, w, *x, *c) as u64), &V::C(ccmp(p, w, *y, *c) as u64));
        }
        if let (V::C(c), Some(N::Ite(g, V::C(x), V::C(y)))) = (a, node(b)) {
            return ite(g, 1, &V::C(ccmp(p, w, *c, *x) as u64), &V::C(ccmp(p, w, *c, *y) as u64));
        }
    }
    mk(
        1,
        match p {
            Pred::Eq => N::Eq(a.clone(), b.clone(), w),
            Pred::Ult => N::Ult(a.clone(), b.clone(), w),
            Pred::Ule => N::Ule(a.clone(), b.clone(), w),
            Pred::Slt => N::Slt(a.clone(), b.clone(), w),
            _ => N::Sle(a.clone(), b.clone(), w),
        },
    )
}

pub fn zext(a: &V, from: u32, to: u32) -> V {
    if from >= to {
        return a.clone();
    }
    match a {
        V::C(c) => {
            if to <= 64 {
                V::C(*c)
            } else {
                V::konst(Bits::from_u64(*c, to))
            }
        }
        V::E(n) => match &n.n {
            N::Wide(b) => V::konst(b.extract(0, to)),
            N::ZExt(x, f) => zext(x, *f, to),
            N::Concat(V::C(0), x, lw) => zext(x, *lw, to),
            N::Ite(c, V::C(x), V::C(y)) if to <= 64 => ite(c, to, &V::C(*x), &V::C(*y)),
            _ => mk(to, N::ZExt(a.clone(), from)),
        },
        _ => panic!("zext agg"),
    }
}

pub fn sext(a: &V, from: u32, to: u32) -> V {
    if from >= to {
        return a.clone();
    }
    match a {
        V::C(c) => {
            if to <= 64 {
                V::C(sext64(*c, from) & mask(to))
            } else {
                let mut b = Bits::from_u64(sext64(*c, from), to);
                if from > 0 && (c >> (from - 1)) & 1 == 1 {
                    for x in b.l.iter_mut().skip(1) {
                        *x = u64::MAX;
                    }
                }
                V::konst(b.norm())
            }
        }
        V::E(n) => match &n.n {
            N::Wide(b) => {
                let mut r = b.extract(0, to);
                if b.bit(from - 1) {
                    for i in from..to {
                        r.set(i)
                    }
                }
                V::konst(r)
            }
            N::ZExt(x, f) if *f < from => zext(x, *f, to),
            N::SExt(x, f) => sext(x, *f, to),
            _ if from == 1 && to <= 64 => ite(a, to, &V::C(mask(to)), &V::C(0)),
            _ => mk(to, N::SExt(a.clone(), from)),
        },
        _ => panic!("sext agg"),
    }
}

/// Bits lo..lo+len of a (width w)
pub fn extract(a: &V, w: u32, lo: u32, len: u32) -> V {
    if lo == 0 && len == w {
        return a.clone();
    }
    match a {
        V::C(c) => {
            if lo >= 64 {
                return V::C(0);
            }
            V::C((c >> lo) & mask(len))
        }
        V::E(n) => match &n.n {
            N::Wide(b) => V::konst(b.extract(lo, len)),
            N::ZExt(x, f) => {
                if lo >= *f {
                    zero_of(len, V::C(0))
                } else if lo + len <= *f {
                    extract(x, *f, lo, len)
                } else {
                    zext(&extract(x, *f, lo, f - lo), f - lo, len)
                }
            }
            N::SExt(x, f) if lo + len <= *f => extract(x, *f, lo, len),
            N::Extract(x, xw, l2) => extract(x, *xw, lo + l2, len),
            N::Concat(hi, l, lw) => {
                if lo >= *lw {
                    extract(hi, w - lw, lo - lw, len)
                } else if lo + len <= *lw {
                    extract(l, *lw, lo, len)
                } else {
                    let ll = lw - lo;
                    let a = extract(l, *lw, lo, ll);
                    let b = extract(hi, w - lw, 0, len - ll);
                    concat(&b, len - ll, &a, ll)
                }
            }
            N::Bin(op @ (Bin::And | Bin::Or | Bin::Xor), x, y) => bin(*op, len, &extract(x, w, lo, len), &extract(y, w, lo, len)).unwrap(),
            N::Bin(op @ (Bin::Add | Bin::Sub | Bin::Mul), x, y) if lo == 0 && len <= 64 => {
                bin(*op, len, &extract(x, w, 0, len), &extract(y, w, 0, len)).unwrap()
            }
            N::Ite(c, x, y) => {
                let a = extract(x, w, lo, len);
                let b = extract(y, w, lo, len);
                ite(c, len, &a, &b)
            }
            _ => mk(len, N::Extract(a.clone(), w, lo)),
        },
        _ => panic!("extract agg"),
    }
}

pub fn concat(hi: &V, hw: u32, lo: &V, lw: u32) -> V {
    if hw == 0 {
        return lo.clone();
    }
    if lw == 0 {
        return hi.clone();
    }
    let w = hw + lw;
    match (hi, lo) {
        (V::C(h), V::C(l)) if w <= 64 => return V::C((h << lw) | l),
        _ => {}
    }
    if w > 64 {
        if let (Some(h), Some(l)) = (hi.cbits(hw), lo.cbits(lw)) {
            let mut r = l.extract(0, w);
            for i in 0..hw {
                if h.bit(i) {
                    r.set(lw + i)
                }
            }
            return V::konst(r);
        }
    }
    if let V::C(0) = hi {
        return zext(lo, lw, w);
    }
    // adjacent extracts
    if let (Some(N::Extract(a, aw, al)), Some(N::Extract(b, _, bl))) = (node(hi), node(lo)) {
        if a.same(b) && *al == bl + lw {
            return extract(a, *aw, *bl, w);
        }
    }
    // hi = extract(x, lw..), lo = x-ish: extract(x,0,lw) was simplified when lw == width
    if let (Some(N::Extract(a, aw, al)), Some(N::Concat(h2, l2, l2w))) = (node(hi), node(lo)) {
        if let Some(N::Extract(b, _, bl)) = node(h2) {
            if a.same(b) && *al == bl + (lw - l2w) {
                let m = extract(a, *aw, *bl, hw + lw - l2w);
                return concat(&m, hw + lw - l2w, l2, *l2w);
            }
        }
    }
    // right-assoc normal form: concat(concat(a,b),c) -> concat(a, concat(b,c))
    if let Some(N::Concat(a, b, bw)) = node(hi) {
        let inner = concat(b, *bw, lo, lw);
        return concat(a, hw - bw, &inner, bw + lw);
    }
    // merging constants: concat(C, concat(C2, x))
    if let (V::C(h), Some(N::Concat(V::C(h2), l2, l2w))) = (hi, node(lo)) {
        let mw = w - l2w;
        if mw <= 64 {
            let c = V::C((h << (lw - l2w)) | h2);
            return mk(w, N::Concat(c, l2.clone(), *l2w));
        }
    }
    // hi extension of a zext
    mk(w, N::Concat(hi.clone(), lo.clone(), lw))
}

pub fn ite(c: &V, w: u32, a: &V, b: &V) -> V {
    match c {
        V::C(0) => return b.clone(),
        V::C(_) => return a.clone(),
        _ => {}
    }
    if a.same(b) {
        return a.clone();
    }
    if let Some(N::Not(x)) = node(c) {
        return ite(x, w, b, a);
    }
    if w == 1 {
        match (a, b) {
            (V::C(1), V::C(0)) => return c.clone(),
            (V::C(0), V::C(1)) => return not(c),
            (V::C(1), x) => return bin(Bin::Or, 1, c, x).unwrap(),
            (V::C(0), x) => return bin(Bin::And, 1, &not(c), x).unwrap(),
            (x, V::C(0)) => return bin(Bin::And, 1, c, x).unwrap(),
            (x, V::C(1)) => return bin(Bin::Or, 1, &not(c), x).unwrap(),
            _ => {}
        }
    }
    if let Some(N::Ite(c2, x, _)) = node(a) {
        if c2.same(c) {
            return ite(c, w, x, b);
        }
    }
    if let Some(N::Ite(c2, _, y)) = node(b) {
        if c2.same(c) {
            return ite(c, w, a, y);
        }
    }
    mk(w, N::Ite(c.clone(), a.clone(), b.clone()))
}

/// Evaluate under a model. Missing variables are 0.
pub struct Ev<'a> {
    pub model: &'a [u64],
    memo: HashMap<u128, u64>,
    n: u32,
}
impl<'a> Ev<'a> {
    pub fn new(model: &'a [u64]) -> Self {
        Ev { model, memo: HashMap::new(), n: 0 }
    }
    pub fn wide(&mut self, v: &V, w: u32) -> Bits {
        match v {
            V::C(c) => Bits::from_u64(*c, w),
            V::E(n) if n.w <= 64 => Bits::from_u64(self.get(v), w),
            V::E(n) => match &n.n {
                N::Wide(b) => b.clone(),
                N::ZExt(x, f) => self.wide(x, *f).extract(0, w),
                N::SExt(x, f) => {
                    let b = self.wide(x, *f);
                    let mut r = b.extract(0, w);
                    if b.bit(f - 1) {
                        for i in *f..w {
                            r.set(i)
                        }
                    }
                    r
                }
                N::Extract(x, xw, lo) => self.wide(x, *xw).extract(*lo, w),
                N::Concat(h, l, lw) => {
                    let hb = self.wide(h, w - lw);
                    let lb = self.wide(l, *lw);
                    let mut r = lb.extract(0, w);
                    for i in 0..(w - lw) {
                        if hb.bit(i) {
                            r.set(lw + i)
                        }
                    }
                    r
                }
                N::Ite(c, a, b) => {
                    if self.get(c) != 0 {
                        self.wide(a, w)
                    } else {
                        self.wide(b, w)
                    }
                }
                N::Bin(op, a, b) => {
                    let (x, y) = (self.wide(a, w), self.wide(b, w));
                    wide_bin(*op, &x, &y).unwrap_or(Bits::zero(w))
                }
                _ => Bits::zero(w),
            },
            _ => Bits::zero(w),
        }
    }
    pub fn get(&mut self, v: &V) -> u64 {
        match v {
            V::C(c) => *c,
            V::E(n) => {
                self.n += 1;
                let memo = self.n > 64;
                if memo {
                    if let Some(x) = self.memo.get(&n.h) {
                        return *x;
                    }
                }
                let w = n.w;
                let r = match &n.n {
                    N::Wide(b) => b.l[0],
                    N::Var(i) => *self.model.get(*i as usize).unwrap_or(&0),
                    N::Bin(op, a, b) => {
                        let x = self.get(a);
                        let y = self.get(b);
                        match cbin(*op, w, x, y) {
                            Some(r) => r,
                            // SMT-LIB semantics for division by zero
                            None => match op {
                                Bin::UDiv => mask(w),
                                Bin::URem | Bin::SRem => x,
                                _ => {
                                    if sext64(x, w) as i64 >= 0 {
                                        mask(w)
                                    } else {
                                        1
                                    }
                                }
                            },
                        }
                    }
                    N::Eq(a, b, ow) if *ow > 64 => (self.wide(a, *ow) == self.wide(b, *ow)) as u64,
                    N::Ult(a, b, ow) if *ow > 64 => (self.wide(a, *ow).u128() < self.wide(b, *ow).u128()) as u64,
                    N::Ule(a, b, ow) if *ow > 64 => (self.wide(a, *ow).u128() <= self.wide(b, *ow).u128()) as u64,
                    N::Slt(_, _, ow) | N::Sle(_, _, ow) if *ow > 64 => {
                        let (N::Slt(a, b, _) | N::Sle(a, b, _)) = &n.n else { unreachable!() };
                        let s = 128 - ow;
                        let x = (self.wide(a, *ow).u128() << s) as i128;
                        let y = (self.wide(b, *ow).u128() << s) as i128;
                        (if matches!(n.n, N::Slt(..)) { x < y } else { x <= y }) as u64
                    }
                    N::Eq(a, b, _) => (self.get(a) == self.get(b)) as u64,
                    N::Ult(a, b, _) => (self.get(a) < self.get(b)) as u64,
                    N::Ule(a, b, _) => (self.get(a) <= self.get(b)) as u64,
                    N::Slt(a, b, ow) => ((sext64(self.get(a), *ow) as i64) < (sext64(self.get(b), *ow) as i64)) as u64,
                    N::Sle(a, b, ow) => ((sext64(self.get(a), *ow) as i64) <= (sext64(self.get(b), *ow) as i64)) as u64,
                    N::Not(a) => self.get(a) ^ 1,
                    N::ZExt(a, f) => {
                        if *f > 64 {
                            self.wide(a, *f).l[0]
                        } else {
                            self.get(a)
                        }
                    }
                    N::SExt(a, f) => sext64(self.get(a), *f) & mask(w),
                    N::Extract(a, aw, lo) => {
                        if *aw > 64 {
                            self.wide(a, *aw).extract(*lo, w).l[0]
                        } else {
                            (self.get(a) >> lo) & mask(w)
                        }
                    }
                    N::Concat(h, l, lw) => {
                        let a = self.get(h);
                        let b = self.get(l);
                        ((a << lw) | b) & mask(w)
                    }
                    N::Ite(c, a, b) => {
                        if self.get(c) != 0 {
                            self.get(a)
                        } else {
                            self.get(b)
                        }
                    }
                };
                if memo {
                    self.memo.insert(n.h, r);
                }
                r
            }
            V::Agg(_) => panic!("eval agg"),
        }
    }
}

pub fn hash_mix(a: u128, b: u128) -> u128 {
    mix(a, b)
}
