//! Hostile input: every decoder on garbage, truncated, re-sized and cut-off input.
//!
//! Each input is decoded three times: at the very end of a readable page (a read past the end
//! faults), and inside two larger buffers that agree on the input only (a read past the end
//! changes the result). Panics, hangs, allocation out of proportion and different results count.

use crate::codec::*;
use crate::prog::{self, Cmd, Other, Val};
use crate::refm;
use crate::rt::*;
use crate::util::*;
use iota_mam::mss;
use iota_mam::ntru;
use iota_mam::pb3;
use iota_mam::spongos::Spongos;
use iota_mam::trits::{TritSlice, Trits};
use std::cell::Cell;
use std::collections::HashMap;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
const PAGE: usize = 4096;
const SPAN: usize = 64 * PAGE * 16;

/// Memory with an unreadable page on either side.
fn guarded(v: &[u8], at_end: bool) -> &'static [u8] {
    thread_local! {
        static M: Cell<*mut u8> = Cell::new(std::ptr::null_mut());
    }
    assert!(v.len() <= SPAN, "harness: input too long");
    unsafe {
        let m = M.with(|m| {
            if m.get().is_null() {
                let p = mmap(std::ptr::null_mut(), SPAN + 2 * PAGE, 3, 0x22, -1, 0);
                assert!(!p.is_null() && p as isize != -1, "harness: mmap");
                assert_eq!(mprotect(p, PAGE, 0), 0);
                assert_eq!(mprotect(p.add(PAGE + SPAN), PAGE, 0), 0);
                m.set(p.add(PAGE));
            }
            m.get()
        });
        let p = if at_end { m.add(SPAN - v.len()) } else { m };
        std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
        std::slice::from_raw_parts(p, v.len())
    }
}

/// One input through one decoder, under all the oracles.
fn probe(c: &mut Ctx, what: &str, input: &[u8], f: &dyn Fn(TritSlice) -> String) -> Option<String> {
    let end = c.below(4) > 0;
    let g = guarded(input, end);
    let (r, max, total) = match c.hostile(what, || track_alloc(|| f(TritSlice::from_slice(g.len(), g)))) {
        Some(x) => x,
        None => return None,
    };
    let n = input.len();
    if std::env::var("SIM_ALLOC").is_ok() {
        eprintln!("{} n={} max={} total={}", what, n, max, total);
    }
    c.check(max <= 65_536 + 16 * n, &["C06"], "allocation", || format!("{}: one allocation of {} bytes for {} trits of input", what, max, n));
    c.check(total <= 4_000_000 + 2_000 * n, &["C06"], "allocation", || format!("{}: {} bytes allocated for {} trits of input", what, total, n));
    // the same input with different surroundings
    let around = 1 + c.below(400);
    for k in 0..2u8 {
        let before = c.below(9);
        let mut r2 = c.bulk();
        let mut v = rand_tv(&mut r2, before);
        v.extend(input);
        if k == 0 {
            v.extend(vec![0; around]);
        } else {
            v.extend(rand_tv(&mut r2, around));
        }
        let t = to_trits(&v);
        if let Some(q) = c.hostile(what, || f(t.slice().drop(before).take(n))) {
            c.check(q == r, &["C06"], "reads-outside", || format!("{}: {} at the end of memory, {} with other trits behind the {} trits of input", what, r, q, n));
        }
    }
    c.log(format!("{} n={} {}", what, n, r));
    Some(r)
}

fn raw_size(c: &mut Ctx) -> Tv {
    match c.weighted(&[3, 2, 2, 2]) {
        0 => {
            let n = *c.pick(&[0usize, 1, 2, 13, 14, 27, 364, 365, 9841, 9842, 88573, 1_000_000, 1 << 31, 1 << 32, 1 << 40, 1 << 62]);
            let n = n.min(2_026_277_576_509_488_133);
            refm::size_enc(n)
        }
        1 => {
            // anything the digits can say
            let d = c.below(27) as i64 - 13;
            let mut v = put_int(d, 3);
            for _ in 0..d.max(0) {
                let x = c.below(27) as i64 - 13;
                v.extend(put_int(x, 3));
            }
            v
        }
        2 => {
            // the largest representable
            let d = 10 + c.below(4) as i64;
            let mut v = put_int(d, 3);
            for _ in 0..d {
                v.extend(put_int(13, 3));
            }
            v
        }
        _ => {
            let n = 3 * c.below(14);
            rdata(c, n)
        }
    }
}

struct Env {
    app: Tv,
    keys: Vec<MssKey>,
    ch: NtruKey,
    sub: NtruKey,
    psks: HashMap<Trits, Trits>,
    ntrus: HashMap<Trits, ntru::PrivateKey>,
    trusted: Vec<Tv>,
    base: Spongos,
}

fn message(c: &mut Ctx, e: &Env, kind: Kind) -> (Tv, Vec<usize>, Vec<(usize, usize)>, Tv) {
    let id = rdata(c, 81);
    let link = rdata(c, 81);
    let base = if kind == Kind::Announce { None } else { Some(&e.base) };
    let n1 = 3 * c.below(100);
    let n2 = 3 * c.below(100);
    let mut psks: Vec<(Trits, Trits)> = vec![];
    let mut ntrus: Vec<(Trits, ntru::PublicKey)> = vec![];
    for _ in 0..c.below(4) {
        psks.push((to_trits(&rdata(c, 81)), to_trits(&rdata(c, 243))));
    }
    if c.below(2) == 0 {
        let (a, b) = e.psks.iter().next().unwrap();
        let i = c.below(psks.len() + 1);
        psks.insert(i, (a.clone(), b.clone()));
    }
    if c.below(2) == 0 {
        ntrus.push((to_trits(&e.ch.pkid()), e.ch.pk.clone()));
    }
    if c.below(2) == 0 {
        let i = c.below(ntrus.len() + 1);
        ntrus.insert(i, (to_trits(&e.sub.pkid()), e.sub.pk.clone()));
    }
    let job = match kind {
        Kind::Announce => Job::Announce { sk: &e.keys[0].sk, ntru: if c.below(2) == 0 { None } else { Some(e.ch.pk.clone()) } },
        Kind::ChangeKey => Job::ChangeKey { link, new: &e.keys[1].sk, old: &e.keys[0].sk },
        Kind::Keyload => Job::Keyload { link, nonce: rdata(c, 81), psks: &psks, ntrus: &ntrus, prng: rdata(c, 243), key: rdata(c, 243), sign: if c.below(3) == 0 { Some(&e.keys[0].sk) } else { None } },
        Kind::Signed => Job::Signed { link, public: data(c, n1), masked: data(c, n2), sk: &e.keys[0].sk },
        Kind::Tagged => Job::Tagged { link, public: data(c, n1), masked: data(c, n2) },
        Kind::Subscribe => Job::Subscribe { link, prng: rdata(c, 243), nonce: rdata(c, 27), sub: e.sub.pk.clone(), ch: e.ch.pk.clone() },
        Kind::Unsubscribe => Job::Unsubscribe { link },
    };
    let (b, _) = job.body(&e.app, &id, base);
    let m = job.marks();
    // where sizes and counts are
    let mut sizes = vec![(m[1], m[2])];
    match kind {
        Kind::Keyload => {
            sizes.push((m[5], m[6]));
            let k = 6 + 2 * psks.len();
            sizes.push((m[k], m[k + 1]));
        }
        Kind::Signed | Kind::Tagged => {
            sizes.push((m[4], m[5]));
            sizes.push((m[6], m[7]));
        }
        Kind::Announce => sizes.push((m[4], m[5])),
        _ => {}
    }
    (b, m, sizes, id)
}

fn mutate(c: &mut Ctx, b: &Tv, marks: &[usize], sizes: &[(usize, usize)]) -> (Tv, &'static str) {
    let mut v = b.clone();
    let n = v.len();
    match c.weighted(&[3, 4, 5, 3, 2, 2, 1, 1]) {
        0 => {
            let i = c.below(n);
            let l = (1 + c.below(30)).min(n - i);
            let x = data(c, l);
            v[i..i + l].copy_from_slice(&x);
            c.fault("overwrite");
            (v, "overwritten")
        }
        1 => {
            let k = match c.below(3) {
                0 => c.below(n),
                1 => (marks[c.below(marks.len())]).min(n),
                _ => (marks[c.below(marks.len())] + c.below(5)).saturating_sub(2).min(n),
            };
            v.truncate(k);
            c.fault("truncate");
            (v, "cut off")
        }
        2 => {
            let (a, z) = sizes[c.below(sizes.len())];
            let x = raw_size(c);
            v.splice(a.min(n)..z.min(n), x);
            c.fault("lying-size");
            (v, "another size")
        }
        3 => {
            // lying size, then cut off
            let (a, z) = sizes[c.below(sizes.len())];
            let x = raw_size(c);
            let e = a + x.len();
            v.splice(a.min(n)..z.min(n), x);
            let l = v.len();
            let k = (e + c.below(700)).min(l);
            v.truncate(k);
            c.fault("lying-size");
            c.fault("truncate");
            (v, "another size, cut off")
        }
        4 => {
            // size trits nudged
            let (a, z) = sizes[c.below(sizes.len())];
            if a < z && z <= n {
                let i = a + c.below(z - a);
                v[i] = (v[i] + 1 + c.below(2) as u8) % 3;
            }
            c.fault("lying-size");
            (v, "size nudged")
        }
        5 => {
            let i = marks[c.below(marks.len())].min(n);
            v.truncate(i);
            let l = c.below(2000);
            let x = data(c, l);
            v.extend(x);
            c.fault("garbage-tail");
            (v, "garbage from a field on")
        }
        6 => {
            let i = c.below(n);
            let l = (1 + c.below(300)).min(n - i);
            v.drain(i..i + l);
            c.fault("drop-piece");
            (v, "piece removed")
        }
        _ => {
            c.fault("intact");
            (v, "intact")
        }
    }
}

pub fn c06(c: &mut Ctx) {
    match c.weighted(&[12, 6, 4, 1]) {
        3 => headers(c),
        0 => messages(c),
        1 => programs(c),
        _ => signatures(c),
    }
}

fn messages(c: &mut Ctx) {
    let k = c.below(3);
    let d = c.below(3);
    let (ch, sub, stranger) = (NtruKey::gen(c), NtruKey::gen(c), NtruKey::gen(c));
    let keys = vec![MssKey::pool(200 + k, d), MssKey::pool(210 + k, c.below(2))];
    let mut psks = HashMap::new();
    psks.insert(to_trits(&rdata(c, 81)), to_trits(&rdata(c, 243)));
    let mut ntrus = HashMap::new();
    match c.below(3) {
        0 => {
            ntrus.insert(to_trits(&ch.pkid()), ch.sk.clone());
        }
        1 => {
            ntrus.insert(to_trits(&sub.pkid()), stranger.sk.clone());
        }
        _ => {}
    }
    let mut base = Spongos::init();
    base.absorb(slice(&rdata(c, 300)));
    base.commit();
    let trusted = vec![keys[0].pk.clone()];
    let e = Env { app: rdata(c, 243), keys, ch, sub, psks, ntrus, trusted, base };
    let cd = Cand {
        s: e.base.clone(),
        kind: Kind::Announce,
        session: true,
        msspk: Some(pk_from(&e.keys[0].pk)),
        subpk: Some(e.sub.pk.clone()),
        gen: None,
    };
    let kinds = 1 + c.below(3);
    for _ in 0..kinds {
        let kind = KINDS[c.below(7)];
        let (b, m, sizes, id) = message(c, &e, kind);
        let cases = if matches!(kind, Kind::Keyload | Kind::Tagged | Kind::Unsubscribe | Kind::Subscribe) { 16 } else { 6 };
        for _ in 0..cases {
            c.now += 1;
            let (v, how) = mutate(c, &b, &m, &sizes);
            let v = match c.weighted(&[12, 1]) {
                0 => v,
                _ => {
                    c.fault("garbage");
                    let n = c.below(600);
                    let x = data(c, n);
                    if c.below(2) == 0 {
                        let mut h = b[..kind.head()].to_vec();
                        h.extend(x);
                        h
                    } else {
                        x
                    }
                }
            };
            let recover = c.below(2) == 0;
            let with_base = c.pct(90);
            let force = if c.pct(20) { Some(KINDS[c.below(7)]) } else { None };
            let what = format!("{:?} {}", force.unwrap_or(kind), how);
            let run = |b: TritSlice| -> String {
                let keys = Keys { psks: &e.psks, ntrus: &e.ntrus, own: Some(&e.ch.sk), trusted: &e.trusted };
                match decode(&keys, &e.app, &id, b, if with_base { Some(&cd) } else { None }, recover, force) {
                    Ok(a) => format!("ok {:?} {} left {} state {}", a.kind, hbytes(format!("{:?}", a.content).as_bytes()), a.left, hex(&fp(&a.s))),
                    Err(e) => format!("{:?}", e),
                }
            };
            let r = probe(c, &what, &v, &run);
            if how == "intact" && v.len() == b.len() {
                c.probe("intact-among-hostile");
            }
            if let Some(r) = r {
                c.state(hstr(&r.chars().take(28).collect::<String>()) ^ hstr(&what));
            }
        }
    }
}

/// Headers of any version and type, with little or nothing behind them.
fn headers(c: &mut Ctx) {
    let (app, id) = (rdata(c, 243), rdata(c, 81));
    for _ in 0..12 {
        c.now += 1;
        let n = match c.weighted(&[3, 2, 1]) {
            0 => c.below(40),
            1 => *c.pick(&[0, 1, 13, 14, 26, 27, 28, 53, 54, 81, 82, 162, 163, 364, 365]),
            _ => c.below(500),
        };
        let mut v = put_int(c.below(27) as i64 - 13, 3);
        let honest = c.pct(60);
        v.extend(if honest { refm::size_enc(n) } else { raw_size(c) });
        v.extend(data(c, 3 * n));
        match c.below(4) {
            0 => {
                let k = c.below(v.len() + 1);
                v.truncate(k);
                c.fault("truncate");
            }
            1 => {
                let k = c.below(200);
                let x = data(c, k);
                v.extend(x);
            }
            _ => {}
        }
        c.fault(if honest { "odd-type" } else { "lying-size" });
        let cut = c.below(4) == 0;
        let run = |b: TritSlice| -> String {
            let mut s = Spongos::init();
            let mut b = b;
            let r = iota_mam::app::core::msg::header::unwrap(&app_of(&app), &id_of(&id), &mut s, &mut b);
            match r {
                Ok(t) => {
                    if cut {
                        s.commit();
                    }
                    format!("type {} left {} state {}", t.0, b.size(), hex(&fp(&s)))
                }
                Err(e) => format!("{:?}", e),
            }
        };
        let r = probe(c, "header", &v, &run);
        if let Some(r) = r {
            c.state(hstr(&r.chars().take(12).collect::<String>()) ^ n as u64);
        }
    }
}

/// Field readers on their own, in any order.
fn programs(c: &mut Ctx) {
    let e = prog::gen_env(c, 15, 25);
    for _ in 0..6 {
        let n = 1 + c.below(6);
        let cap = 3000 + 16000 * c.below(2);
        let p = prog::gen_cmds(c, &e, n, cap);
        let want = prog::length(&e, &p);
        let mut buf = Trits::zero(want);
        {
            let mut s = Spongos::init();
            let mut b = buf.slice_mut();
            prog::write(&e, &p, &mut s, &mut b);
        }
        let body = from_trits(&buf);
        // starts of the fields, and where sizes are
        let mut marks = vec![0];
        let mut sizes = vec![];
        for k in 0..p.len() {
            let at = prog::length(&e, &p[..k + 1]);
            match &p[k] {
                Cmd::Absorb(Val::Trytes(x)) | Cmd::Mask(Val::Trytes(x)) => sizes.push((marks[k], at - x.len())),
                Cmd::Absorb(Val::Size(_)) | Cmd::Absorb(Val::Repeated(_)) | Cmd::Mask(Val::Size(_)) | Cmd::Mask(Val::Repeated(_)) => sizes.push((marks[k], at)),
                _ => {}
            }
            marks.push(at);
        }
        if sizes.is_empty() {
            sizes.push((0, 0));
        }
        for _ in 0..8 {
            let (v, how) = if body.is_empty() {
                let n = c.below(60);
                (data(c, n), "garbage")
            } else {
                mutate(c, &body, &marks, &sizes)
            };
            // cut-off programs too: the reader may expect other fields than were written
            let q: Vec<Cmd> = if c.pct(20) { prog::gen_cmds(c, &e, n, 20000) } else { p.clone() };
            let sized = c.draw(1 << 20);
            let run = |b: TritSlice| -> String {
                let mut s = Spongos::init();
                let mut b = b;
                let r = prog::read(&e, &q, &Other::default(), sized, &mut s, &mut b);
                match r {
                    Some(v) => format!("ok {} left {} state {}", v.len(), b.size(), hex(&fp(&s))),
                    None => "refused".to_string(),
                }
            };
            let what = format!("fields {}", how);
            if let Some(r) = probe(c, &what, &v, &run) {
                c.state(h2(hstr(&r.chars().take(4).collect::<String>()), hstr(&format!("{:?}{}", sizes.len(), how))));
            }
        }
    }
}

/// Signature parsing on its own.
fn signatures(c: &mut Ctx) {
    let d = c.below(4);
    let kn = 220 + c.below(3);
    let k = MssKey::pool(kn, d);
    let hash = data(c, 234);
    let mut sig = Trits::zero(18 + 13122 + 243 * d);
    k.sk.sign(slice(&hash), sig.slice_mut());
    let sig = from_trits(&sig);
    let marks = vec![0, 4, 18, 18 + 13122, sig.len()];
    let pk = pk_from(&k.pk);
    for _ in 0..5 {
        let mut v = sig.clone();
        let n = v.len();
        let how = match c.weighted(&[3, 3, 2, 1, 1]) {
            0 => {
                // header says another height or leaf
                let d = match c.weighted(&[2, 1]) {
                    0 => c.below(81) as i64 - 40,
                    _ => c.below(6) as i64,
                };
                v[..4].copy_from_slice(&put_int(d, 4));
                if c.below(2) == 0 {
                    let s = c.below(4_782_969) as i64 - 2_391_484;
                    v[4..18].copy_from_slice(&put_int(s, 14));
                }
                c.fault("lying-height");
                "another height"
            }
            1 => {
                let k = match c.below(2) {
                    0 => c.below(n),
                    _ => (marks[c.below(5)] + c.below(5)).saturating_sub(2).min(n),
                };
                v.truncate(k);
                c.fault("truncate");
                "cut off"
            }
            2 => {
                let d = c.below(41) as i64;
                v[..4].copy_from_slice(&put_int(d, 4));
                let l = (18 + 13122 + 243 * d as usize + c.below(3)).saturating_sub(1);
                v.resize(l, 1);
                c.fault("lying-height");
                "another height, resized"
            }
            3 => {
                let l = c.below(400);
                let x = data(c, l);
                v.extend(x);
                c.fault("extend");
                "extended"
            }
            _ => {
                let l = c.below(14000);
                v = data(c, l);
                c.fault("garbage");
                "garbage"
            }
        };
        let what = format!("signature {}", how);
        let run = |b: TritSlice| -> String {
            let r = mss::PublicKey::recover(slice(&hash), b);
            let ok = pk.verify(slice(&hash), b);
            format!("{:?} {}", r.map(|(k, n)| (format!("{}", k), n)), ok)
        };
        probe(c, &what, &v, &run);
        // as a field
        let run = |b: TritSlice| -> String {
            let mut s = Spongos::init();
            let mut b = b;
            let r = pb3::mssig::squeeze_unwrap_mssig_recover(&mut s, &mut b);
            format!("{:?} left {}", r.map(|k| format!("{}", k)), b.size())
        };
        if let Some(r) = probe(c, "signature field", &v, &run) {
            c.state(h2(hstr(how), hstr(&r.chars().take(20).collect::<String>())));
        }
    }
}
