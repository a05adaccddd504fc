//! Trit helpers. The harness keeps trits as plain byte vectors (`0`, `1`, `2`).

use crate::rt::{Ctx, Rng};
use iota_mam::spongos::Spongos;
use iota_mam::trits::{TritSlice, Trits};

pub type Tv = Vec<u8>;

pub fn to_trits(v: &[u8]) -> Trits {
    Trits::from_slice(TritSlice::from_slice(v.len(), v))
}
pub fn from_slice(s: TritSlice) -> Tv {
    let mut v = vec![0u8; s.size()];
    s.get_trits(&mut v);
    v
}
pub fn from_trits(t: &Trits) -> Tv {
    from_slice(t.slice())
}
pub fn slice(v: &[u8]) -> TritSlice {
    TritSlice::from_slice(v.len(), v)
}

pub fn rand_tv(r: &mut Rng, n: usize) -> Tv {
    let mut v = Vec::with_capacity(n);
    let mut x = 0u64;
    for i in 0..n {
        if i % 40 == 0 {
            x = r.next() >> 1;
        }
        v.push((x % 3) as u8);
        x /= 3;
    }
    v
}

/// Trits of a given size: random, or one of the structured patterns.
pub fn data(c: &mut Ctx, n: usize) -> Tv {
    let k = c.weighted(&[8, 1, 1, 1, 1, 1]);
    match k {
        0 => {
            let mut r = c.bulk();
            rand_tv(&mut r, n)
        }
        1 => vec![0; n],
        2 => vec![1; n],
        3 => vec![2; n],
        4 => (0..n).map(|i| (i % 3) as u8).collect(),
        _ => {
            // zeros with a single odd trit
            let mut v = vec![0; n];
            if n > 0 {
                let i = c.below(n);
                v[i] = 1 + c.below(2) as u8;
            }
            v
        }
    }
}

/// Random trits only.
pub fn rdata(c: &mut Ctx, n: usize) -> Tv {
    let mut r = c.bulk();
    rand_tv(&mut r, n)
}

pub const SIZES: &[usize] = &[0, 1, 2, 3, 4, 9, 26, 27, 80, 81, 82, 161, 162, 242, 243, 244, 483, 484, 485, 486, 487, 488, 729, 971, 972, 973, 1458, 1459];

/// A size with emphasis on block boundaries.
pub fn size(c: &mut Ctx, max: usize) -> usize {
    match c.weighted(&[3, 4, 2]) {
        0 => c.below(40.min(max + 1)),
        1 => (*c.pick(SIZES)).min(max),
        _ => c.below(max + 1),
    }
}

pub fn put_int(v: i64, n: usize) -> Tv {
    // balanced ternary, least significant trit first
    let mut x = v;
    let mut o = Vec::with_capacity(n);
    for _ in 0..n {
        let r = x.rem_euclid(3);
        o.push(r as u8);
        x = if r == 2 { (x + 1) / 3 } else { (x - r) / 3 };
    }
    o
}
pub fn get_int(t: &[u8]) -> i64 {
    let mut m = 1i64;
    let mut v = 0i64;
    for x in t {
        v += m * (if *x == 2 { -1 } else { *x as i64 });
        m *= 3;
    }
    v
}

/// A long squeeze from a copy: equal fingerprints mean equal behaviour from here on.
/// `commit` is part of the fingerprint so that the position in the block counts as well.
pub fn fp(s: &Spongos) -> Tv {
    let mut c = s.fork();
    let mut f = from_trits(&c.squeeze_trits(500));
    c.commit();
    f.extend(from_trits(&c.squeeze_trits(243)));
    f
}

pub fn hex(t: &[u8]) -> String {
    // short form for logs
    let h = crate::rt::hbytes(t);
    format!("{}#{:08x}", t.len(), h as u32)
}

pub fn nonzero_stripped(t: &[u8]) -> &[u8] {
    let mut n = t.len();
    while n > 0 && t[n - 1] == 0 {
        n -= 1;
    }
    &t[..n]
}

/// Longest common run test: does any window of `w` trits of `needle` occur in `hay`?
pub fn shares_window(hay: &[u8], needle: &[u8], w: usize) -> Option<usize> {
    if needle.len() < w || hay.len() < w {
        return None;
    }
    let pack = |x: &[u8]| -> Vec<u64> {
        // rolling hash of windows
        const B: u64 = 1_000_003;
        let mut pw = 1u64;
        for _ in 0..w {
            pw = pw.wrapping_mul(B);
        }
        let mut h = 0u64;
        let mut out = Vec::new();
        for i in 0..x.len() {
            h = h.wrapping_mul(B).wrapping_add(x[i] as u64 + 1);
            if i >= w {
                h = h.wrapping_sub(pw.wrapping_mul(x[i - w] as u64 + 1));
            }
            if i + 1 >= w {
                out.push(h);
            }
        }
        out
    };
    let set: std::collections::HashMap<u64, usize> = pack(hay).into_iter().enumerate().map(|(i, h)| (h, i)).collect();
    for (i, h) in pack(needle).into_iter().enumerate() {
        if let Some(j) = set.get(&h) {
            if hay[*j..*j + w] == needle[i..i + w] {
                return Some(i);
            }
        }
    }
    None
}
