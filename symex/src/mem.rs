//! Copy-on-write flat memory with per-byte symbolic contents.
use crate::expr::*;
use crate::ir::{Module, Ty, GBASE};
use std::sync::Arc;

pub const HBASE: u64 = 0x4000_0000;
pub const SBASE: u64 = 0x7000_0000_0000;
pub const SSIZE: u64 = 8 << 20;
const PG: u64 = 256;
const CH: usize = 64;

#[derive(Clone)]
pub struct Page {
    data: [u8; PG as usize],
    sym: Option<Box<Vec<Option<(Arc<Node>, u8)>>>>,
}
impl Page {
    fn zero() -> Page {
        Page { data: [0; PG as usize], sym: None }
    }
}

type Chunk = Vec<Option<Arc<Page>>>;

const L2: usize = 64;
type Table = Vec<Option<Arc<Chunk>>>;

/// Three-level copy-on-write page table
#[derive(Clone, Default)]
struct Region {
    tabs: Vec<Option<Arc<Table>>>,
}
impl Region {
    #[inline]
    fn page(&self, off: u64) -> Option<&Page> {
        let p = (off / PG) as usize;
        let c = p / CH;
        let t = self.tabs.get(c / L2)?.as_ref()?;
        t[c % L2].as_ref()?[p % CH].as_deref()
    }
    fn page_mut(&mut self, off: u64, init: impl FnOnce() -> Page) -> &mut Page {
        let p = (off / PG) as usize;
        let c = p / CH;
        if self.tabs.len() <= c / L2 {
            self.tabs.resize(c / L2 + 1, None);
        }
        let t = self.tabs[c / L2].get_or_insert_with(|| Arc::new(vec![None; L2]));
        let t = Arc::make_mut(t);
        let ch = t[c % L2].get_or_insert_with(|| Arc::new(vec![None; CH]));
        let ch = Arc::make_mut(ch);
        let pg = ch[p % CH].get_or_insert_with(|| Arc::new(init()));
        Arc::make_mut(pg)
    }
}

#[derive(Clone)]
pub struct Mem {
    glob: Region,
    heap: Region,
    stack: Region,
    pub heap_top: u64,
    pub sp: u64,
    /// heap objects in address order (address, size)
    pub objs: Arc<Vec<(u64, u64)>>,
    pub live: i64,
}

pub enum Obj {
    Global,
    Heap,
    Stack,
}

impl Mem {
    pub fn new() -> Self {
        Mem {
            glob: Region::default(),
            heap: Region::default(),
            stack: Region::default(),
            heap_top: HBASE,
            sp: 0,
            objs: Arc::new(vec![]),
            live: 0,
        }
    }
    fn check(&self, m: &Module, a: u64, n: u64) -> Result<u8, String> {
        let e = a.wrapping_add(n);
        if a >= HBASE && e <= self.heap_top && e >= a {
            return Ok(1);
        }
        if a >= SBASE && e <= SBASE + SSIZE {
            return Ok(2);
        }
        if a >= GBASE && e <= GBASE + m.image.len() as u64 {
            return Ok(0);
        }
        Err(format!("wild memory access at {a:#x} size {n}"))
    }
    fn rd_page(&self, k: u8, a: u64) -> (Option<&Page>, u64) {
        match k {
            0 => (self.glob.page(a - GBASE), a - GBASE),
            1 => (self.heap.page(a - HBASE), a - HBASE),
            _ => (self.stack.page(a - SBASE), a - SBASE),
        }
    }
    fn wr_page(&mut self, m: &Module, k: u8, a: u64) -> &mut Page {
        match k {
            0 => {
                let base = ((a - GBASE) / PG * PG) as usize;
                self.glob.page_mut(a - GBASE, || {
                    let mut p = Page::zero();
                    let e = (base + PG as usize).min(m.image.len());
                    p.data[..e - base].copy_from_slice(&m.image[base..e]);
                    p
                })
            }
            1 => self.heap.page_mut(a - HBASE, Page::zero),
            _ => self.stack.page_mut(a - SBASE, Page::zero),
        }
    }
    pub fn byte(&self, m: &Module, a: u64) -> Result<V, String> {
        let k = self.check(m, a, 1)?;
        let (p, off) = self.rd_page(k, a);
        Ok(match p {
            Some(p) => {
                let i = (off % PG) as usize;
                if let Some(s) = &p.sym {
                    if let Some((n, b)) = &s[i] {
                        return Ok(extract(&V::E(n.clone()), n.w, *b as u32 * 8, 8.min(n.w)));
                    }
                }
                V::C(p.data[i] as u64)
            }
            None if k == 0 => V::C(m.image[off as usize] as u64),
            None => V::C(0),
        })
    }
    fn raw(&self, m: &Module, a: u64) -> Result<(u8, Option<(Arc<Node>, u8)>), String> {
        let k = self.check(m, a, 1)?;
        let (p, off) = self.rd_page(k, a);
        Ok(match p {
            Some(p) => {
                let i = (off % PG) as usize;
                (p.data[i], p.sym.as_ref().and_then(|s| s[i].clone()))
            }
            None if k == 0 => (m.image[off as usize], None),
            None => (0, None),
        })
    }
    pub fn set_byte(&mut self, m: &Module, a: u64, c: u8) -> Result<(), String> {
        let k = self.check(m, a, 1)?;
        let p = self.wr_page(m, k, a);
        let i = (a % PG) as usize;
        p.data[i] = c;
        if let Some(s) = &mut p.sym {
            s[i] = None;
        }
        Ok(())
    }
    fn set_sym(&mut self, m: &Module, a: u64, n: Arc<Node>, b: u8) -> Result<(), String> {
        let k = self.check(m, a, 1)?;
        let p = self.wr_page(m, k, a);
        let i = (a % PG) as usize;
        let s = p.sym.get_or_insert_with(|| Box::new(vec![None; PG as usize]));
        s[i] = Some((n, b));
        Ok(())
    }
    /// Concrete integer load if no byte is symbolic
    #[inline]
    fn fast(&self, k: u8, a: u64, n: usize, m: &Module) -> Option<u64> {
        let (p, off) = self.rd_page(k, a);
        let i = (off % PG) as usize;
        if i + n > PG as usize {
            return None;
        }
        let d: &[u8] = match p {
            Some(p) => {
                if let Some(s) = &p.sym {
                    if s[i..i + n].iter().any(|x| x.is_some()) {
                        return None;
                    }
                }
                &p.data[i..i + n]
            }
            None if k == 0 => &m.image[off as usize..off as usize + n],
            None => return Some(0),
        };
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(d);
        Some(u64::from_le_bytes(b))
    }
    pub fn load_int(&self, m: &Module, a: u64, w: u32) -> Result<V, String> {
        let n = ((w + 7) / 8) as u64;
        let k = self.check(m, a, n)?;
        if n <= 8 {
            if let Some(x) = self.fast(k, a, n as usize, m) {
                return Ok(V::C(x & mask(w)));
            }
        }
        // whole node?
        let (_, first) = self.raw(m, a)?;
        if let Some((nd, 0)) = &first {
            if (nd.w == (n * 8) as u32 || nd.w == w) && (nd.w + 7) / 8 == n as u32 {
                let mut ok = true;
                for i in 1..n {
                    match self.raw(m, a + i)?.1 {
                        Some((x, b)) if x.h == nd.h && b as u64 == i => {}
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    let v = V::E(nd.clone());
                    return Ok(if nd.w == w { v } else { extract(&v, nd.w, 0, w) });
                }
            }
        }
        let mut acc = V::C(0);
        let mut aw = 0;
        for i in 0..n {
            let b = self.byte(m, a + i)?;
            let b = if let V::E(x) = &b {
                if x.w < 8 {
                    zext(&b, x.w, 8)
                } else {
                    b
                }
            } else {
                b
            };
            acc = if aw == 0 { b } else { concat(&b, 8, &acc, aw) };
            aw += 8;
        }
        Ok(extract(&acc, aw, 0, w))
    }
    pub fn store_int(&mut self, m: &Module, a: u64, w: u32, v: &V) -> Result<(), String> {
        let n = ((w + 7) / 8) as u64;
        let k = self.check(m, a, n)?;
        match v {
            V::C(c) => {
                let i = (a % PG) as usize;
                if n <= 8 && i + n as usize <= PG as usize {
                    let p = self.wr_page(m, k, a);
                    p.data[i..i + n as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]);
                    if let Some(s) = &mut p.sym {
                        for x in &mut s[i..i + n as usize] {
                            *x = None;
                        }
                    }
                    return Ok(());
                }
                let b = c.to_le_bytes();
                for j in 0..n {
                    self.set_byte(m, a + j, if j < 8 { b[j as usize] } else { 0 })?;
                }
            }
            V::E(nd) => {
                if let N::Wide(b) = &nd.n {
                    let by = b.to_le_bytes();
                    for j in 0..n {
                        self.set_byte(m, a + j, by[j as usize])?;
                    }
                    return Ok(());
                }
                // decompose concats so that constant bytes stay constant
                let simple = !matches!(nd.n, N::Concat(..) | N::ZExt(..) | N::Extract(..) | N::Ite(..));
                if simple || w < 8 {
                    for j in 0..n {
                        self.set_sym(m, a + j, nd.clone(), j as u8)?;
                    }
                } else {
                    for j in 0..n {
                        let len = 8.min(w - j as u32 * 8);
                        match extract(v, w, j as u32 * 8, len) {
                            V::C(c) => self.set_byte(m, a + j, c as u8)?,
                            V::E(x) => match &x.n {
                                // keep a reference to the wide source when possible
                                N::Extract(V::E(src), _, lo) if lo % 8 == 0 && len == 8 => self.set_sym(m, a + j, src.clone(), (*lo / 8) as u8)?,
                                _ => self.set_sym(m, a + j, x, 0)?,
                            },
                            _ => unreachable!(),
                        }
                    }
                }
            }
            V::Agg(_) => return Err("store aggregate as int".into()),
        }
        Ok(())
    }
    pub fn load(&self, m: &Module, a: u64, t: &Ty) -> Result<V, String> {
        if t.is_scalar() {
            return self.load_int(m, a, t.bits());
        }
        if let Ty::Vector(n, e) = t {
            if e.bits() % 8 != 0 {
                let x = self.load_int(m, a, *n as u32 * e.bits())?;
                return Ok(V::Agg(Arc::new(
                    (0..*n as u32).map(|i| extract(&x, *n as u32 * e.bits(), i * e.bits(), e.bits())).collect(),
                )));
            }
        }
        let mut v = vec![];
        for (o, et) in t.elems() {
            v.push(self.load(m, a + o, &et)?);
        }
        Ok(V::Agg(Arc::new(v)))
    }
    pub fn store(&mut self, m: &Module, a: u64, t: &Ty, v: &V) -> Result<(), String> {
        if t.is_scalar() {
            return self.store_int(m, a, t.bits(), v);
        }
        if let Ty::Vector(n, e) = t {
            if e.bits() % 8 != 0 {
                let V::Agg(x) = v else { return Err("store vec".into()) };
                let eb = e.bits();
                let mut acc = x[0].clone();
                let mut aw = eb;
                for y in x.iter().skip(1) {
                    acc = concat(y, eb, &acc, aw);
                    aw += eb;
                }
                return self.store_int(m, a, *n as u32 * eb, &acc);
            }
        }
        let V::Agg(x) = v else { return Err(format!("store {t:?}")) };
        for ((o, et), y) in t.elems().into_iter().zip(x.iter()) {
            self.store(m, a + o, &et, y)?;
        }
        Ok(())
    }
    pub fn copy(&mut self, m: &Module, d: u64, s: u64, n: u64) -> Result<(), String> {
        if n == 0 || d == s {
            return Ok(());
        }
        let ks = self.check(m, s, n)?;
        self.check(m, d, n)?;
        // snapshot then write
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut syms: Vec<(u64, Arc<Node>, u8)> = vec![];
        let mut i = 0;
        while i < n {
            let (p, off) = self.rd_page(ks, s + i);
            let st = (off % PG) as usize;
            let len = (PG as usize - st).min((n - i) as usize);
            match p {
                Some(p) => {
                    buf.extend_from_slice(&p.data[st..st + len]);
                    if let Some(sy) = &p.sym {
                        for (j, x) in sy[st..st + len].iter().enumerate() {
                            if let Some((nd, b)) = x {
                                syms.push((i + j as u64, nd.clone(), *b));
                            }
                        }
                    }
                }
                None if ks == 0 => buf.extend_from_slice(&m.image[off as usize..off as usize + len]),
                None => buf.resize(buf.len() + len, 0),
            }
            i += len as u64;
        }
        self.write(m, d, &buf)?;
        for (o, nd, b) in syms {
            self.set_sym(m, d + o, nd, b)?;
        }
        Ok(())
    }
    pub fn write(&mut self, m: &Module, d: u64, buf: &[u8]) -> Result<(), String> {
        let n = buf.len() as u64;
        if n == 0 {
            return Ok(());
        }
        let kd = self.check(m, d, n)?;
        let mut i = 0;
        while i < n {
            let st = ((d + i) % PG) as usize;
            let len = (PG as usize - st).min((n - i) as usize);
            let p = self.wr_page(m, kd, d + i);
            p.data[st..st + len].copy_from_slice(&buf[i as usize..i as usize + len]);
            if let Some(sy) = &mut p.sym {
                for x in &mut sy[st..st + len] {
                    *x = None;
                }
            }
            i += len as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, m: &Module, d: u64, v: &V, n: u64) -> Result<(), String> {
        match v {
            V::C(c) => {
                // avoid touching pages that are already absent and zero
                if *c == 0 && n > 4096 {
                    let k = self.check(m, d, n)?;
                    let mut i = 0;
                    while i < n {
                        let st = (d + i) % PG;
                        let len = (PG - st).min(n - i);
                        let (p, _) = self.rd_page(k, d + i);
                        if p.is_some() || k == 0 {
                            self.write(m, d + i, &vec![0; len as usize])?;
                        }
                        i += len;
                    }
                    return Ok(());
                }
                self.write(m, d, &vec![*c as u8; n as usize])
            }
            V::E(nd) => {
                for i in 0..n {
                    self.set_sym(m, d + i, nd.clone(), 0)?;
                }
                Ok(())
            }
            _ => Err("memset agg".into()),
        }
    }
    pub fn alloc(&mut self, n: u64, al: u64) -> u64 {
        let al = al.max(16);
        let a = (self.heap_top + 32 + al - 1) / al * al;
        self.heap_top = a + n + 16;
        Arc::make_mut(&mut self.objs).push((a, n));
        self.live += n as i64;
        a
    }
    pub fn obj_size(&self, a: u64) -> Option<u64> {
        match self.objs.binary_search_by_key(&a, |x| x.0) {
            Ok(i) => Some(self.objs[i].1),
            Err(_) => None,
        }
    }
    /// Object containing the address: (start, size)
    pub fn object(&self, m: &Module, a: u64) -> Option<(u64, u64)> {
        if a >= GBASE && a < GBASE + m.image.len() as u64 {
            let i = match m.globals.binary_search_by_key(&a, |g| g.addr) {
                Ok(i) => i,
                Err(0) => return None,
                Err(i) => i - 1,
            };
            let g = &m.globals[i];
            return if a < g.addr + g.size { Some((g.addr, g.size)) } else { None };
        }
        if a >= HBASE && a < self.heap_top {
            let i = match self.objs.binary_search_by_key(&a, |x| x.0) {
                Ok(i) => i,
                Err(0) => return None,
                Err(i) => i - 1,
            };
            let (s, n) = self.objs[i];
            return if a < s + n { Some((s, n)) } else { None };
        }
        None
    }
}
