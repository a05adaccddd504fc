//! Field programs (W01): random sequences of field commands written by one node and read by
//! others from intact, altered and truncated copies, and by readers running other programs.
//! A reader built on the reference implementation decides which of those must fail.

use crate::refm;
use crate::rt::*;
use crate::util::*;
use iota_mam::app::core::MsgId;
use iota_mam::mss;
use iota_mam::ntru;
use iota_mam::pb3::{self, Absorb, Mask};
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::{TritSlice, TritSliceMut, Trits};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    T3(i8),
    T6(i16),
    T9(i16),
    T18(i32),
    OneOf(i8),
    Size(usize),
    Repeated(usize),
    Trytes(Tv),
    N(Tv),
    /// a message identifier (only absorbed)
    Id(Tv),
    MssPk(Tv),
    NtruPk(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Absorb(Val),
    Mask(Val),
    External(Tv),
    Commit,
    Mac,
    Join(usize),
    /// 0: squeeze+sign in one call, 1: in two calls
    Sig(u8),
    /// key, recipient, nonce
    Kem(Tv, usize, Tv),
    Fork(Vec<Cmd>),
}

pub const SIZE_MAX: usize = 2_026_277_576_509_488_133;

pub struct Link {
    pub id: Tv,
    pub s: Spongos,
    pub r: refm::Sponge,
}
pub struct Env {
    pub links: Vec<Link>,
    pub mss: Vec<(mss::PrivateKey, refm::Mss)>,
    pub ntru: Vec<(ntru::PrivateKey, ntru::PublicKey, refm::Ntru)>,
    pub prng_key: Tv,
}

fn vlen(v: &Val) -> usize {
    match v {
        Val::T3(_) | Val::OneOf(_) => 3,
        Val::T6(_) => 6,
        Val::T9(_) => 9,
        Val::T18(_) => 18,
        Val::Size(n) | Val::Repeated(n) => refm::size_enc(*n).len(),
        Val::Trytes(x) => refm::size_enc(x.len() / 3).len() + x.len(),
        Val::N(x) | Val::Id(x) | Val::MssPk(x) => x.len(),
        Val::NtruPk(_) => 9216,
    }
}
fn vsizeof(v: &Val) -> usize {
    use iota_mam::pb3::TrintField;
    match v {
        Val::T3(_) => pb3::sizeof_tryte(),
        Val::OneOf(_) => pb3::sizeof_oneof(),
        Val::T6(_) => pb3::sizeof_trint(),
        Val::T9(_) => pb3::sizeof_trint9(),
        Val::T18(_) => pb3::Trint18::sizeof(),
        Val::Size(n) if *n % 2 == 0 => pb3::Size(*n).sizeof(),
        Val::Size(n) => pb3::sizeof_sizet(*n),
        Val::Repeated(n) => pb3::sizeof_repeated(*n),
        Val::Trytes(x) if x.first() == Some(&1) => pb3::Trytes::sizeof(x.len() / 3),
        Val::Trytes(x) => pb3::sizeof_trytes(x.len() / 3),
        Val::N(x) | Val::Id(x) | Val::MssPk(x) => pb3::sizeof_ntrytes(x.len() / 3),
        Val::NtruPk(_) => pb3::sizeof_ntrytes(ntru::PK_SIZE / 3),
    }
}
fn clen(e: &Env, c: &Cmd) -> usize {
    match c {
        Cmd::Absorb(v) | Cmd::Mask(v) => vlen(v),
        Cmd::External(_) | Cmd::Commit => 0,
        Cmd::Mac => 243,
        Cmd::Join(_) => 81,
        Cmd::Sig(_) => 18 + 13122 + 243 * e.mss[0].1.height,
        Cmd::Kem(..) => 9216,
        Cmd::Fork(p) => p.iter().map(|c| clen(e, c)).sum(),
    }
}
fn csizeof(e: &Env, c: &Cmd) -> usize {
    match c {
        Cmd::Absorb(v) | Cmd::Mask(v) => vsizeof(v),
        Cmd::External(_) | Cmd::Commit => 0,
        Cmd::Mac => pb3::mac::sizeof_mac(),
        Cmd::Join(_) => pb3::join::sizeof_join(),
        Cmd::Sig(_) => pb3::mssig::sizeof_mssig(&e.mss[0].0),
        Cmd::Kem(..) => pb3::ntrukem::sizeof_ntrukem(),
        Cmd::Fork(p) => p.iter().map(|c| csizeof(e, c)).sum(),
    }
}

// ------------------------------------------------------------------ library side

fn write_val(e: &Env, v: &Val, mask: bool, s: &mut Spongos, b: &mut TritSliceMut) {
    macro_rules! go {
        ($x:expr) => {{
            let x = $x;
            if mask {
                x.wrap_mask(s, b)
            } else {
                x.wrap_absorb(s, b)
            }
        }};
    }
    match v {
        Val::T3(x) => go!(pb3::tryte(*x)),
        Val::OneOf(x) => go!(pb3::oneof(*x)),
        Val::T6(x) => go!(pb3::Trint6(*x)),
        Val::T9(x) => go!(pb3::Trint9(*x)),
        Val::T18(x) => go!(pb3::Trint18(*x)),
        Val::Size(n) => go!(pb3::Size(*n)),
        Val::Repeated(n) => go!(pb3::repeated(*n)),
        Val::Trytes(x) => go!(pb3::Trytes(to_trits(x))),
        Val::Id(x) if !mask => MsgId::sim_from_trits(to_trits(x)).wrap_absorb(s, b),
        Val::N(x) | Val::Id(x) => go!(to_trits(x)),
        Val::MssPk(x) => {
            // a public key value can only be had by reading one
            let t = to_trits(x);
            let mut q = Spongos::init();
            let mut i = t.slice();
            let k = mss::PublicKey::unwrap_absorb_sized(&mut q, &mut i).expect("key from trits");
            go!(k)
        }
        Val::NtruPk(i) => go!(e.ntru[*i].1.clone()),
    }
}

pub fn write(e: &Env, p: &[Cmd], s: &mut Spongos, b: &mut TritSliceMut) {
    for c in p {
        match c {
            Cmd::Absorb(v) => write_val(e, v, false, s, b),
            Cmd::Mask(v) => write_val(e, v, true, s, b),
            Cmd::External(x) => s.absorb(slice(x)),
            Cmd::Commit => s.commit(),
            Cmd::Mac => pb3::mac::wrap_mac(s, b),
            Cmd::Join(l) => pb3::join::wrap_join(slice(&e.links[*l].id), &mut e.links[*l].s.clone(), s, b),
            Cmd::Sig(0) => pb3::mssig::squeeze_wrap_mssig(&e.mss[0].0, s, b),
            Cmd::Sig(_) => {
                let h = pb3::mssig::squeeze_mss_hash(s);
                pb3::mssig::wrap_mssig(h.slice(), &e.mss[0].0, s, b)
            }
            Cmd::Kem(k, i, n) => {
                let pr = PRNG::init(slice(&e.prng_key));
                pb3::ntrukem::wrap_ntrukem(slice(k), &e.ntru[*i].1, &pr, slice(n), s, b)
            }
            Cmd::Fork(q) => {
                let mut f = s.fork();
                write(e, q, &mut f, b)
            }
        }
    }
}

/// How the reader differs from the writer in what it holds.
#[derive(Clone, Default)]
pub struct Other {
    pub mss_pk: bool,
    pub ntru: bool,
    pub mss_near: Option<usize>,
}

fn read_val(e: &Env, v: &Val, mask: bool, sized: bool, s: &mut Spongos, b: &mut TritSlice) -> Option<Val> {
    macro_rules! go {
        ($t:ty, $z:expr) => {{
            if sized {
                (if mask { <$t>::unwrap_mask_sized(s, b) } else { <$t>::unwrap_absorb_sized(s, b) }).ok()
            } else {
                let mut x: $t = $z;
                (if mask { x.unwrap_mask(s, b) } else { x.unwrap_absorb(s, b) }).ok().map(|_| x)
            }
        }};
    }
    Some(match v {
        Val::T3(_) => Val::T3(go!(pb3::Trint3, pb3::tryte(1))?.0),
        Val::OneOf(_) => Val::OneOf(go!(pb3::OneOf, pb3::oneof(1))?.0),
        Val::T6(_) => Val::T6(go!(pb3::Trint6, pb3::Trint6(1))?.0),
        Val::T9(_) => Val::T9(go!(pb3::Trint9, pb3::Trint9(-1))?.0),
        Val::T18(_) => Val::T18(go!(pb3::Trint18, pb3::Trint18(7))?.0),
        Val::Size(_) => Val::Size(go!(pb3::Size, pb3::Size(5))?.0),
        Val::Repeated(_) => Val::Repeated(go!(pb3::Repeated, pb3::repeated(5))?.0),
        Val::Trytes(_) => Val::Trytes(from_trits(&go!(pb3::Trytes, pb3::Trytes(Trits::zero(3)))?.0)),
        Val::N(x) => {
            let mut t = to_trits(&vec![1; x.len()]);
            (if mask { t.unwrap_mask(s, b) } else { t.unwrap_absorb(s, b) }).ok()?;
            Val::N(from_trits(&t))
        }
        Val::Id(_) if !mask => {
            let id = if sized {
                MsgId::unwrap_absorb_sized(s, b).ok()?
            } else {
                let mut id = MsgId::sim_from_trits(Trits::zero(81));
                id.unwrap_absorb(s, b).ok()?;
                id
            };
            // identifiers are looked up by value
            let t = crate::codec::id_trits(&id);
            let mut m = std::collections::HashMap::new();
            m.insert(MsgId::sim_from_trits(to_trits(&t)), 1);
            if m.get(&id) != Some(&1) {
                return None;
            }
            Val::Id(t)
        }
        Val::Id(_) => {
            let mut t = Trits::zero(81);
            t.unwrap_mask(s, b).ok()?;
            Val::Id(from_trits(&t))
        }
        Val::MssPk(_) => {
            let mut q = Spongos::init();
            let z = to_trits(&vec![2; 243]);
            let k = go!(mss::PublicKey, mss::PublicKey::unwrap_absorb_sized(&mut q, &mut z.slice()).ok()?)?;
            Val::MssPk(refm::str_tv(&format!("{}", k)))
        }
        Val::NtruPk(i) => {
            let k = go!(ntru::PublicKey, e.ntru[1 - *i].1.clone())?;
            let t = from_slice(k.trits());
            let i = e.ntru.iter().position(|n| from_slice(n.1.trits()) == t);
            // the key read works like the key written
            let works = i.map_or(false, |i| {
                let x = e.prng_key.clone();
                let (mut y, mut z) = (Trits::zero(9216), to_trits(&vec![1; 243]));
                k.encr(&PRNG::init(slice(&x)), slice(&[1]), slice(&x), y.slice_mut());
                e.ntru[i].0.decr(y.slice(), z.slice_mut()) && from_trits(&z) == x
            });
            Val::NtruPk(if works { i.unwrap() } else { 99 })
        }
    })
}

/// Reads by the given program; the values read, in order, or `None`.
pub fn read(e: &Env, p: &[Cmd], o: &Other, sized: u64, s: &mut Spongos, b: &mut TritSlice) -> Option<Vec<Cmd>> {
    let mut out = Vec::new();
    let mut bits = Rng(sized);
    for c in p {
        out.push(match c {
            Cmd::Absorb(v) => Cmd::Absorb(read_val(e, v, false, bits.below(2) == 0, s, b)?),
            Cmd::Mask(v) => Cmd::Mask(read_val(e, v, true, bits.below(2) == 0, s, b)?),
            Cmd::External(x) => {
                s.absorb(slice(x));
                c.clone()
            }
            Cmd::Commit => {
                s.commit();
                c.clone()
            }
            Cmd::Mac => {
                pb3::mac::unwrap_mac(s, b).ok()?;
                c.clone()
            }
            Cmd::Join(_) => {
                // The reader resolves whatever link it finds.
                let l = pb3::join::unwrap_join(
                    |id| {
                        let id = from_slice(id);
                        e.links.iter().position(|l| l.id == id).map(|i| (e.links[i].s.clone(), i))
                    },
                    s,
                    b,
                )
                .ok()?;
                Cmd::Join(l)
            }
            Cmd::Sig(k) => {
                let i = o.mss_pk as usize;
                let near = o.mss_near.map(|j| {
                    // a key that differs from the signer's in one trit only
                    let mut t = e.mss[i].1.pk();
                    t[j % 243] = (t[j % 243] + 1 + (j / 243) as u8 % 2) % 3;
                    mss::PublicKey::unwrap_absorb_sized(&mut Spongos::init(), &mut slice(&t)).expect("harness: a Merkle key of 243 trits")
                });
                let pk = near.as_ref().unwrap_or(e.mss[i].0.public_key());
                match k {
                    0 => pb3::mssig::squeeze_unwrap_mssig_verify(pk, s, b).ok()?,
                    _ => {
                        if bits.below(2) == 0 {
                            let h = pb3::mssig::squeeze_mss_hash(s);
                            pb3::mssig::unwrap_mssig_verify(h.slice(), pk, s, b).ok()?
                        } else {
                            let k = pb3::mssig::squeeze_unwrap_mssig_recover(s, b).ok()?;
                            if format!("{}", k) != format!("{}", pk) {
                                return None;
                            }
                        }
                    }
                }
                c.clone()
            }
            Cmd::Kem(_, i, n) => {
                let mut k = to_trits(&vec![1; 243]);
                let j = if o.ntru { 1 - *i } else { *i };
                pb3::ntrukem::unwrap_ntrukem(k.slice_mut(), &e.ntru[j].0, s, b).ok()?;
                Cmd::Kem(from_trits(&k), *i, n.clone())
            }
            Cmd::Fork(q) => {
                let mut f = Spongos::init();
                s.fork_at(&mut f);
                Cmd::Fork(read(e, q, o, bits.next(), &mut f, b)?)
            }
        });
    }
    Some(out)
}

// ------------------------------------------------------------------ reference side

fn ref_plain(e: &Env, v: &Val) -> Tv {
    match v {
        Val::T3(x) | Val::OneOf(x) => put_int(*x as i64, 3),
        Val::T6(x) => put_int(*x as i64, 6),
        Val::T9(x) => put_int(*x as i64, 9),
        Val::T18(x) => put_int(*x as i64, 18),
        Val::Size(n) | Val::Repeated(n) => refm::size_enc(*n),
        Val::Trytes(x) => {
            let mut t = refm::size_enc(x.len() / 3);
            t.extend(x);
            t
        }
        Val::N(x) | Val::Id(x) | Val::MssPk(x) => x.clone(),
        Val::NtruPk(i) => e.ntru[*i].2.pk.clone(),
    }
}

pub fn ref_write(e: &Env, p: &[Cmd], o: &mut refm::Out) {
    for c in p {
        match c {
            Cmd::Absorb(v) => o.absorb(&ref_plain(e, v)),
            Cmd::Mask(v) => o.mask(&ref_plain(e, v)),
            Cmd::External(x) => o.s.absorb(x),
            Cmd::Commit => o.s.commit(),
            Cmd::Mac => o.mac(),
            Cmd::Join(l) => o.join(&e.links[*l].id, &e.links[*l].r),
            Cmd::Sig(_) => {
                let h = o.sig_hash();
                o.b.extend(e.mss[0].1.sign_at(&h, 0));
            }
            Cmd::Kem(k, i, n) => {
                let y = refm::ntru_encr(&mut o.s, &e.prng_key, n, &e.ntru[*i].2.pk, k);
                o.b.extend(y);
            }
            Cmd::Fork(q) => {
                let save = o.s.clone();
                ref_write(e, q, o);
                o.s = save;
            }
        }
    }
}

fn ref_val(e: &Env, v: &Val, mask: bool, i: &mut refm::In) -> Option<Val> {
    let get = |i: &mut refm::In, n: usize| if mask { i.mask(n) } else { i.absorb(n) };
    Some(match v {
        Val::T3(_) => Val::T3(get_int(&get(i, 3)?) as i8),
        Val::OneOf(_) => Val::OneOf(get_int(&get(i, 3)?) as i8),
        Val::T6(_) => Val::T6(get_int(&get(i, 6)?) as i16),
        Val::T9(_) => Val::T9(get_int(&get(i, 9)?) as i16),
        Val::T18(_) => Val::T18(get_int(&get(i, 18)?) as i32),
        Val::Size(_) => Val::Size(if mask { i.count_masked()? } else { i.count()? }),
        Val::Repeated(_) => Val::Repeated(if mask { i.count_masked()? } else { i.count()? }),
        Val::Trytes(_) => Val::Trytes(if mask { i.trytes_mask()? } else { i.trytes_absorb()? }),
        Val::N(x) => Val::N(get(i, x.len())?),
        Val::Id(_) => Val::Id(get(i, 81)?),
        Val::MssPk(_) => Val::MssPk(get(i, 243)?),
        Val::NtruPk(_) => {
            let t = get(i, 9216)?;
            if !refm::ntru_pk_ok(&t) {
                return None;
            }
            Val::NtruPk(e.ntru.iter().position(|n| n.2.pk == t).unwrap_or(99))
        }
    })
}

pub fn ref_read(e: &Env, p: &[Cmd], o: &Other, i: &mut refm::In) -> Option<Vec<Cmd>> {
    let mut out = Vec::new();
    for c in p {
        out.push(match c {
            Cmd::Absorb(v) => Cmd::Absorb(ref_val(e, v, false, i)?),
            Cmd::Mask(v) => Cmd::Mask(ref_val(e, v, true, i)?),
            Cmd::External(x) => {
                i.s.absorb(x);
                c.clone()
            }
            Cmd::Commit => {
                i.s.commit();
                c.clone()
            }
            Cmd::Mac => {
                i.mac()?;
                c.clone()
            }
            Cmd::Join(_) => {
                let l = std::cell::Cell::new(0);
                i.join(&|id| {
                    e.links.iter().position(|l| l.id == id).map(|k| {
                        l.set(k);
                        e.links[k].r.clone()
                    })
                })?;
                Cmd::Join(l.get())
            }
            Cmd::Sig(_) => {
                let h = i.sig_hash();
                if i.sig(&h)? != e.mss[o.mss_pk as usize].1.pk() || o.mss_near.is_some() {
                    return None;
                }
                c.clone()
            }
            Cmd::Kem(_, k, n) => {
                let y = i.take(9216)?;
                let j = if o.ntru { 1 - *k } else { *k };
                let key = refm::ntru_decr(&mut i.s, &e.ntru[j].2.f, y)?;
                Cmd::Kem(key, *k, n.clone())
            }
            Cmd::Fork(q) => {
                let save = i.s.clone();
                let r = ref_read(e, q, o, i)?;
                i.s = save;
                Cmd::Fork(r)
            }
        });
    }
    Some(out)
}

// ------------------------------------------------------------------ generation

fn gen_int(c: &mut Ctx, max: i64) -> i64 {
    match c.below(4) {
        0 => c.below(4) as i64 - 1,
        1 => {
            // next to the ends, and to the carries in between
            let m = *c.pick(&[max, max / 3, (max + 1) / 3, max / 9, 13, 14, 40, 364, 365]);
            let m = (m + c.below(3) as i64 - 1).clamp(-max, max);
            if c.below(2) == 0 {
                m
            } else {
                -m
            }
        }
        _ => c.draw(2 * max as u64 + 1) as i64 - max,
    }
}

fn gen_size(c: &mut Ctx) -> usize {
    match c.below(4) {
        0 => c.below(30),
        1 => {
            let d = 1 + c.below(13) as u32;
            let p = 27u128.pow(d);
            let h = (p - 1) / 2;
            let x = (*c.pick(&[h, p, h * 2, p / 3])).min(SIZE_MAX as u128) as usize;
            (x + c.below(3)).saturating_sub(1).min(SIZE_MAX)
        }
        2 => SIZE_MAX - c.below(3),
        _ => {
            let d = c.below(62) as u32;
            (c.draw(1 << 62) as usize >> (61 - d)).min(SIZE_MAX)
        }
    }
}

fn gen_val(c: &mut Ctx, has_ntru: bool) -> Val {
    match c.weighted(&[2, 1, 2, 2, 2, 3, 2, 6, 4, 2, has_ntru as u64]) {
        0 => Val::T3(gen_int(c, 13) as i8),
        1 => Val::OneOf(gen_int(c, 13) as i8),
        2 => Val::T6(gen_int(c, 364) as i16),
        3 => Val::T9(gen_int(c, 9841) as i16),
        4 => Val::T18(gen_int(c, 193_710_244) as i32),
        5 => Val::Size(gen_size(c)),
        6 => Val::Repeated(gen_size(c)),
        7 => {
            let n = 3 * match c.below(4) {
                0 => *c.pick(&[0usize, 1, 13, 14, 26, 27, 162, 161, 363, 364, 365, 378, 379]),
                1 => c.below(20),
                _ => c.below(400),
            };
            Val::Trytes(data(c, n))
        }
        8 => {
            let n = size(c, 1100);
            Val::N(data(c, n - n % 3))
        }
        9 => match c.below(2) {
            0 => Val::MssPk(data(c, 243)),
            _ => Val::Id(data(c, 81)),
        },
        _ => Val::NtruPk(c.below(2)),
    }
}

fn gen_prog(c: &mut Ctx, e: &Env, depth: usize, n: usize) -> Vec<Cmd> {
    let (m, k) = ((!e.mss.is_empty()) as u64, (!e.ntru.is_empty()) as u64);
    let mut p = Vec::new();
    for _ in 0..n {
        p.push(match c.weighted(&[6, 6, 2, 2, 1, 1, m, k, if depth == 0 { 2 } else { 0 }]) {
            0 => Cmd::Absorb(gen_val(c, k > 0)),
            1 => Cmd::Mask(gen_val(c, k > 0)),
            2 => {
                let n = size(c, 600);
                Cmd::External(data(c, n))
            }
            3 => Cmd::Commit,
            4 => Cmd::Mac,
            5 => Cmd::Join(c.below(e.links.len())),
            6 => Cmd::Sig(c.below(2) as u8),
            7 => {
                let key = data(c, 243);
                let i = c.below(2);
                let nn = c.below(100);
                Cmd::Kem(key, i, rdata(c, nn))
            }
            _ => {
                let n = 1 + c.below(3);
                let mut q = gen_prog(c, e, depth + 1, n);
                q.push(Cmd::Mac);
                Cmd::Fork(q)
            }
        });
    }
    p
}

pub fn gen_env(c: &mut Ctx, sig_pct: u64, kem_pct: u64) -> Env {
    let nl = 2 + c.below(3);
    let mut links: Vec<Link> = Vec::new();
    for i in 0..nl {
        let mut id = rdata(c, 81);
        id[0] = i as u8 % 3;
        id[1] = i as u8 / 3;
        let n = 1 + size(c, 600);
        let x = rdata(c, n);
        let mut s = Spongos::init();
        let mut r = refm::Sponge::new();
        s.absorb(slice(&x));
        r.absorb(&x);
        if c.below(4) > 0 {
            s.commit();
            r.commit();
        }
        links.push(Link { id, s, r });
    }
    let mut m = Vec::new();
    if c.pct(sig_pct) {
        let d = c.weighted(&[4, 1]);
        for _ in 0..2 {
            let k = rdata(c, 243);
            let n = rdata(c, 27);
            m.push((mss::PrivateKey::gen(&PRNG::init(slice(&k)), slice(&n), d), refm::Mss::gen(&k, &n, d)));
        }
    }
    let mut nt = Vec::new();
    if c.pct(kem_pct) {
        for _ in 0..2 {
            let k = rdata(c, 243);
            let n = rdata(c, 27);
            let (sk, pk) = ntru::gen(&PRNG::init(slice(&k)), slice(&n));
            nt.push((sk, pk, refm::ntru_gen(&k, &n)));
        }
    }
    Env { links, mss: m, ntru: nt, prng_key: rdata(c, 243) }
}

fn shape(p: &[Cmd]) -> String {
    p.iter()
        .map(|c| match c {
            Cmd::Absorb(v) => format!("absorb {}", vshape(v)),
            Cmd::Mask(v) => format!("mask {}", vshape(v)),
            Cmd::External(x) => format!("external {}", x.len()),
            Cmd::Commit => "commit".into(),
            Cmd::Mac => "mac".into(),
            Cmd::Join(l) => format!("join {}", l),
            Cmd::Sig(_) => "mssig".into(),
            Cmd::Kem(..) => "ntrukem".into(),
            Cmd::Fork(q) => format!("fork[{}]", shape(q)),
        })
        .collect::<Vec<_>>()
        .join("; ")
}
fn vshape(v: &Val) -> String {
    match v {
        Val::Trytes(x) => format!("trytes({})", x.len() / 3),
        Val::N(x) => format!("tryte[{}]", x.len() / 3),
        Val::MssPk(_) => "msspk".into(),
        Val::Id(_) => "msgid".into(),
        Val::NtruPk(_) => "ntrupk".into(),
        v => format!("{:?}", v),
    }
}

/// Another program, differing in one respect; `None` when the drawn change does not apply.
fn variant(c: &mut Ctx, p: &[Cmd]) -> Option<(&'static str, Vec<Cmd>, Other)> {
    let mut q = p.to_vec();
    let mut o = Other::default();
    // descend into a fork sometimes
    if c.pct(25) {
        let forks: Vec<usize> = q.iter().enumerate().filter(|(_, x)| matches!(x, Cmd::Fork(_))).map(|(i, _)| i).collect();
        if !forks.is_empty() {
            let i = *c.pick(&forks);
            if let Cmd::Fork(r) = &q[i] {
                let (w, r2, o) = variant(c, &r.clone())?;
                q[i] = Cmd::Fork(r2);
                return Some((w, q, o));
            }
        }
    }
    let pick = |c: &mut Ctx, f: &dyn Fn(&Cmd) -> bool| -> Option<usize> {
        let v: Vec<usize> = p.iter().enumerate().filter(|(_, x)| f(x)).map(|(i, _)| i).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[c.below(v.len())])
        }
    };
    let w = match c.weighted(&[4, 4, 3, 3, 3, 1, 2, 2]) {
        0 => {
            let i = pick(c, &|x| matches!(x, Cmd::Absorb(_)))?;
            if let Cmd::Absorb(v) = p[i].clone() {
                q[i] = Cmd::Mask(v);
            }
            "reader-masks-absorbed-field"
        }
        1 => {
            let i = pick(c, &|x| matches!(x, Cmd::Mask(_)))?;
            if let Cmd::Mask(v) = p[i].clone() {
                q[i] = Cmd::Absorb(v);
            }
            "reader-absorbs-masked-field"
        }
        2 => {
            let i = pick(c, &|x| matches!(x, Cmd::Commit))?;
            q.remove(i);
            "reader-omits-commit"
        }
        3 => {
            let i = c.below(p.len() + 1);
            q.insert(i, Cmd::Commit);
            "reader-adds-commit"
        }
        4 => {
            let i = pick(c, &|x| matches!(x, Cmd::External(_)))?;
            let mut y = match &p[i] {
                Cmd::External(x) => x.clone(),
                _ => unreachable!(),
            };
            match c.below(3) {
                0 if !y.is_empty() => {
                    let j = c.below(y.len());
                    y[j] = (y[j] + 1 + c.below(2) as u8) % 3;
                }
                1 if !y.is_empty() => {
                    y.pop();
                }
                _ => y.push(c.below(3) as u8),
            }
            q[i] = Cmd::External(y);
            "reader-has-other-external-data"
        }
        5 => {
            let i = pick(c, &|x| matches!(x, Cmd::External(_)))?;
            q.remove(i);
            "reader-has-no-external-data"
        }
        6 => {
            pick(c, &|x| matches!(x, Cmd::Sig(_)))?;
            if c.below(2) == 0 {
                o.mss_pk = true;
                "reader-has-other-mss-key"
            } else {
                // at the ends, or anywhere
                let j = if c.below(2) == 0 { *c.pick(&[0usize, 1, 2, 3, 80, 81, 239, 240, 241, 242]) } else { c.below(243) };
                o.mss_near = Some(j + 243 * c.below(2));
                "reader-has-mss-key-off-by-a-trit"
            }
        }
        _ => {
            pick(c, &|x| matches!(x, Cmd::Kem(..)))?;
            o.ntru = true;
            "reader-has-other-ntru-key"
        }
    };
    Some((w, q, o))
}

pub fn w01(c: &mut Ctx) {
    if c.below(12) == 0 {
        if c.below(2) == 0 {
            return foreign_size(c);
        }
        return plain_ints(c);
    }
    program(c, 15, 15)
}

/// A peer with its own encoder sends sizes: only the one encoding of a size is taken for it.
fn foreign_size(c: &mut Ctx) {
    let key = rdata(c, 243);
    for _ in 0..6 {
        c.now += 2;
        let mut t: Vec<i64> = Vec::new();
        if c.below(3) == 0 {
            // a proper encoding, perhaps made longer than necessary
            let mut n = gen_size(c) as u64;
            while n > 0 {
                let mut r = (n % 27) as i64;
                n /= 27;
                if r > 13 {
                    r -= 27;
                    n += 1;
                }
                t.push(r);
            }
            for _ in 0..*c.pick(&[0usize, 0, 1, 1, 2]) {
                t.push(0);
            }
        } else {
            for _ in 0..c.below(14) {
                t.push(*c.pick(&[0i64, 0, 1, -1, 13, -13, 5, -9]));
            }
        }
        let mut d = t.len() as i64;
        if c.below(6) == 0 {
            d = c.below(27) as i64 - 13;
        }
        if d > 13 {
            continue;
        }
        let mask = c.below(2) == 0;
        let mut o = refm::Out { s: refm::Sponge::new(), b: vec![] };
        o.s.absorb(&key);
        o.s.commit();
        for x in std::iter::once(&d).chain(&t) {
            let x = refm::put_int_unbalanced((x + 13) as u64, 3).iter().map(|y| (y + 2) % 3).collect::<Tv>();
            if mask {
                o.mask(&x);
            } else {
                o.absorb(&x);
            }
        }
        o.s.commit();
        o.mac();
        let proper = d >= 0 && d as usize == t.len() && t.last().map_or(true, |x| *x > 0);
        let want = if proper { Some(t.iter().rev().fold(0i128, |a, x| a * 27 + *x as i128) as usize) } else { None };
        let v = Val::Size(0);
        let p = [Cmd::External(key.clone()), Cmd::Commit, if mask { Cmd::Mask(v) } else { Cmd::Absorb(v) }, Cmd::Commit, Cmd::Mac];
        let e = Env { links: vec![], mss: vec![], ntru: vec![], prng_key: vec![] };
        let sized = c.draw(1 << 30);
        let body = o.b.clone();
        c.fault("foreign-encoder");
        let got = c
            .hostile("field reader", || {
                let t = to_trits(&body);
                read(&e, &p, &Other::default(), sized, &mut Spongos::init(), &mut t.slice())
            })
            .flatten();
        let got = got.and_then(|g| match &g[2] {
            Cmd::Absorb(Val::Size(n)) | Cmd::Mask(Val::Size(n)) => Some(*n),
            _ => None,
        });
        c.state(h2(d as u64, hbytes(&body[..body.len() - 243])));
        c.log(format!("size of {} trytes {:?} masked {}: {:?}", d, t, mask, got));
        c.check(got == want, &["W01"], if want.is_some() { "size-misread" } else { "improper-size-accepted" }, || format!("count {} trytes {:?} read as {:?} instead of {:?}", d, t, got, want));
    }
}

/// Integer fields outside of messages: written into and read from buffers without a sponge.
fn plain_ints(c: &mut Ctx) {
    use iota_mam::pb3::{Trint18, Trint3, Trint6, Trint9, TrintField};
    fn go<T: TrintField + Copy>(c: &mut Ctx, max: i64, mk: fn(i64) -> T, val: fn(&T) -> i64) {
        let (x, old) = (gen_int(c, max), gen_int(c, max));
        let n = T::sizeof();
        let (off, tail) = (c.below(9), c.below(9));
        let dirty = c.below(3) as u8;
        let mut buf = to_trits(&vec![dirty; off + n + tail]);
        let left = {
            let mut b = buf.slice_mut().drop(off);
            mk(x).encode(&mut b);
            b.size()
        };
        let v = from_trits(&buf);
        c.check(left == tail && v[..off].iter().chain(&v[off + n..]).all(|y| *y == dirty), &["W01", "M01"], "writes-outside", || format!("integer of {} trits", n));
        let back = v[off..off + n].iter().rev().fold(0i64, |a, y| a * 3 + if *y == 2 { -1 } else { *y as i64 });
        c.check(back == x, &["W01", "C08"], "integer-encoding", || format!("{} as {} trits is {:?}", x, n, &v[off..off + n]));
        let mut b = buf.slice().drop(off);
        let r = T::decode_sized(&mut b).ok().map(|r| val(&r));
        c.check(r == Some(x) && b.size() == tail, &["W01"], "other-values-read", || format!("{} of {} trits read as {:?}", x, n, r));
        let mut b = buf.slice().drop(off);
        let mut y = mk(old);
        let ok = y.decode(&mut b).is_ok();
        c.check(ok && val(&y) == x && b.size() == tail, &["W01"], "other-values-read", || format!("{} of {} trits read over {} as {}", x, n, old, val(&y)));
        let cut = c.below(n);
        c.fault("truncated");
        let short = to_trits(&v[off..off + cut]);
        let r = c.hostile("field reader", || T::decode_sized(&mut short.slice()).is_ok());
        c.check(r != Some(true), &["W01", "C06"], "altered-accepted", || format!("integer of {} trits read from {}", n, cut));
        c.state(h2(n as u64, (x + 200_000_000) as u64));
    }
    for _ in 0..8 {
        c.now += 1;
        match c.below(4) {
            0 => go(c, 13, |x| Trint3(x as i8), |t| t.0 as i64),
            1 => go(c, 364, |x| Trint6(x as i16), |t| t.0 as i64),
            2 => go(c, 9841, |x| Trint9(x as i16), |t| t.0 as i64),
            _ => go(c, 193_710_244, |x| Trint18(x as i32), |t| t.0 as i64),
        }
    }
}

pub fn program(c: &mut Ctx, sig_pct: u64, kem_pct: u64) {
    let e = gen_env(c, sig_pct, kem_pct);
    let n = 1 + c.below(9);
    let mut p = gen_prog(c, &e, 0, n);
    if c.pct(70) {
        // a shared secret first, so that masks are masks
        let k = rdata(c, 243);
        p.insert(0, Cmd::External(k));
        p.insert(1, Cmd::Commit);
    }
    p.push(Cmd::Mac);
    if !e.mss.is_empty() && c.pct(30) {
        p.pop();
        p.push(Cmd::Sig(0));
    }
    c.log(format!("program: {}", shape(&p)));
    let want: usize = p.iter().map(|x| clen(&e, x)).sum();
    let pred: usize = p.iter().map(|x| csizeof(&e, x)).sum();
    c.check(pred == want, &["W01", "C08"], "predicted-size", || format!("{} predicted, the format has {}: {}", pred, want, shape(&p)));

    // write, twice: a writer that was restarted produces the same
    let mut first: Option<(Tv, Tv)> = None;
    for round in 0..2 {
        c.now += 10;
        let off = c.below(11);
        let tail = c.below(6);
        let dirty = c.below(3) as u8;
        let mut buf = to_trits(&vec![dirty; off + want + tail]);
        let mut s = Spongos::init();
        let left = {
            let mut b = buf.slice_mut().drop(off);
            write(&e, &p, &mut s, &mut b);
            b.size()
        };
        c.check(left == tail, &["W01"], "written-size", || format!("{} of {} trits left: {}", left, tail, shape(&p)));
        let v = from_trits(&buf);
        c.check(v[..off].iter().chain(&v[off + want..]).all(|x| *x == dirty), &["W01", "M01"], "writes-outside", || shape(&p));
        let body = v[off..off + want].to_vec();
        let f = fp(&s);
        if let Some((b0, f0)) = &first {
            c.fault("writer-restarted");
            c.check(*b0 == body && *f0 == f, &["W01"], "not-reproducible", || shape(&p));
        } else {
            first = Some((body, f));
        }
        if round == 0 && c.pct(60) {
            break;
        }
    }
    let (body, f) = first.unwrap();
    c.mixin(hbytes(&body));
    let mut ro = refm::Out { s: refm::Sponge::new(), b: vec![] };
    ref_write(&e, &p, &mut ro);
    c.check(ro.b == body, &["C08"], "field-encoding", || {
        let d = ro.b.iter().zip(&body).position(|(a, b)| a != b);
        format!("trit {:?} differs from the format: {}", d, shape(&p))
    });
    let rf = ro.s.fp();
    c.check(rf == f, &["C08"], "field-encoding-state", || shape(&p));

    let run = |body: &[u8], p: &[Cmd], o: &Other, sized: u64| -> Option<(Vec<Cmd>, usize, Tv)> {
        let mut s = Spongos::init();
        let t = to_trits(body);
        let mut b = t.slice();
        let r = read(&e, p, o, sized, &mut s, &mut b)?;
        Some((r, b.size(), fp(&s)))
    };
    // intact copies
    for _ in 0..2 {
        c.now += 5;
        let tail = if c.below(2) == 0 { 0 } else { c.below(500) };
        let mut copy = body.clone();
        copy.extend(rdata(c, tail));
        let sz = c.draw(1 << 30);
        match run(&copy, &p, &Other::default(), sz) {
            None => {
                c.check(false, &["W01"], "intact-read-fails", || shape(&p));
            }
            Some((r, left, rf)) => {
                c.check(r == p, &["W01"], "other-values-read", || {
                    let i = r.iter().zip(&p).position(|(a, b)| a != b);
                    format!("field {:?}: {}", i, shape(&p))
                });
                c.check(left == tail, &["W01"], "consumed-size", || format!("{} instead of {} trits left: {}", left, tail, shape(&p)));
                c.check(rf == f, &["W01"], "reader-state", || shape(&p));
            }
        }
    }
    // altered copies
    let mut bounds = vec![0];
    for x in &p {
        bounds.push(bounds.last().unwrap() + clen(&e, x));
    }
    let slow = !e.mss.is_empty();
    for _ in 0..if slow { 5 } else { 12 } {
        c.now += 1;
        let mut copy = body.clone();
        let what = match c.weighted(&[6, 2, 2, 1]) {
            0 => {
                let i = if c.below(2) == 0 {
                    c.below(copy.len())
                } else {
                    // first or last trits of some field
                    let b = *c.pick(&bounds);
                    (b + c.below(4)).saturating_sub(2).min(copy.len() - 1)
                };
                copy[i] = (copy[i] + 1 + c.below(2) as u8) % 3;
                "trit-altered"
            }
            1 => {
                let n = c.below(copy.len());
                copy.truncate(n);
                "truncated"
            }
            2 => {
                let i = c.below(copy.len() - 1);
                let n = (2 + c.below(60)).min(copy.len() - i);
                let r = rdata(c, n);
                copy[i..i + n].copy_from_slice(&r);
                "run-overwritten"
            }
            _ => {
                // a piece lost or doubled in between
                let i = c.below(copy.len());
                let n = (3 * (1 + c.below(30))).min(copy.len() - i);
                if c.below(2) == 0 {
                    let x: Tv = copy[i..i + n].to_vec();
                    copy.splice(i..i, x);
                    "piece-doubled"
                } else {
                    copy.drain(i..i + n);
                    "piece-lost"
                }
            }
        };
        if copy.len() >= body.len() && copy[..body.len()] == body[..] {
            continue;
        }
        c.fault(what);
        let sz = c.draw(1 << 30);
        let r = c.hostile("field reader", || run(&copy, &p, &Other::default(), sz)).flatten();
        let pos = copy.iter().zip(&body).position(|(a, b)| a != b).unwrap_or(copy.len());
        c.state(h2(hstr(what), h2(pos as u64, body.len() as u64)));
        c.check(r.is_none(), &["W01"], "altered-accepted", || format!("{} at trit {}: {}", what, pos, shape(&p)));
    }
    // other programs
    for _ in 0..if slow { 4 } else { 10 } {
        c.now += 1;
        let (what, q, o) = match variant(c, &p) {
            Some(v) => v,
            None => continue,
        };
        let mut i = refm::In { s: refm::Sponge::new(), b: &body };
        let want = ref_read(&e, &q, &o, &mut i);
        if want.is_some() {
            // The change happens to make no difference (for example a commit next to a commit).
            c.probe("variant-without-effect");
        } else {
            c.fault(what);
        }
        let sz = c.draw(1 << 30);
        let got = c.hostile("field reader", || run(&body, &q, &o, sz)).flatten();
        c.state(h2(hstr(what), hstr(&shape(&q))));
        if want.is_none() {
            c.check(got.is_none(), &["W01"], "other-program-accepted", || format!("{}: writer {} reader {}", what, shape(&p), shape(&q)));
        } else {
            let got = got.map(|g| g.0);
            c.check(got == want, &["W01"], "equivalent-program-fails", || format!("{}: writer {} reader {}", what, shape(&p), shape(&q)));
        }
    }
}

/// Commands without forks or tags for sessions in a shared buffer, at most `max` trits.
pub fn gen_cmds(c: &mut Ctx, e: &Env, n: usize, max: usize) -> Vec<Cmd> {
    let mut p: Vec<Cmd> = Vec::new();
    for cmd in gen_prog(c, e, 0, n) {
        if length(e, &p) + clen(e, &cmd) <= max {
            p.push(cmd);
        }
    }
    p
}
pub fn length(e: &Env, p: &[Cmd]) -> usize {
    p.iter().map(|x| clen(e, x)).sum()
}
