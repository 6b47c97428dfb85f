//! Plain-loop replacement for the `memchr` crate (no CPU feature detection, no SIMD).
#![no_std]
pub fn memchr(n: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == n {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memrchr(n: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == n {
            return Some(i);
        }
    }
    None
}
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    h.iter().position(|x| *x == a || *x == b)
}
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    h.iter().position(|x| *x == a || *x == b || *x == c)
}
pub fn memrchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    h.iter().rposition(|x| *x == a || *x == b)
}
pub fn memchr_iter(n: u8, h: &[u8]) -> impl Iterator<Item = usize> + '_ {
    h.iter().enumerate().filter(move |x| *x.1 == n).map(|x| x.0)
}
pub mod memmem {
    pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
        if n.is_empty() {
            return Some(0);
        }
        h.windows(n.len()).position(|w| w == n)
    }
}
