//! Key encapsulation over a faulty channel (K01), derivation of keys on restarted and other
//! nodes (K02), nonce counters with save and restore (K03).

use crate::refm;
use crate::rt::*;
use crate::sponge::{gen_op, whole};
use crate::util::*;
use iota_mam::ntru;
use iota_mam::pb3;
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::Trits;
use std::collections::{BTreeMap, BTreeSet};

pub fn keypair(c: &mut Ctx) -> (ntru::PrivateKey, ntru::PublicKey) {
    let k = rdata(c, 243);
    let n = rdata(c, 27);
    ntru::gen(&PRNG::init(slice(&k)), slice(&n))
}

/// A coefficient outside of the range, often just outside.
/// Trits in place of a public key that nobody can encapsulate to.
pub fn unusable_pk(c: &mut Ctx, base: &[u8]) -> Tv {
    match c.below(4) {
        0 => vec![0; 9216],
        1 => {
            let mut t = base.to_vec();
            let i = c.below(1024);
            let w = out_of_range(c);
            t[9 * i..9 * i + 9].copy_from_slice(&put_int(w, 9));
            t
        }
        _ => {
            // not invertible
            let p = refm::poly_in(base).unwrap();
            let mut e = refm::eval_all(&p);
            e[c.below(1024)] = 0;
            refm::poly_out(&refm::interpolate(&e))
        }
    }
}

fn out_of_range(c: &mut Ctx) -> i64 {
    let v = match c.below(4) {
        0 => 6145,
        1 => *c.pick(&[6146, 9841, 9840, 8192, 6561]),
        _ => 6145 + c.below(9841 - 6144) as i64,
    };
    if c.below(2) == 0 {
        v
    } else {
        -v
    }
}

/// Coefficient changes that a decoder might round away.
pub fn nudge(c: &mut Ctx, y: &mut Tv) -> &'static str {
    let i = match c.below(4) {
        0 => *c.pick(&[0usize, 1, 1023, 1022, 512, 511]),
        _ => c.below(1024),
    };
    let v = get_int(&y[9 * i..9 * i + 9]);
    let (d, what) = match c.below(6) {
        0 => (1, "coefficient+1"),
        1 => (-1, "coefficient-1"),
        2 => (3, "coefficient+3"),
        3 => (-3, "coefficient-3"),
        4 => (3 * (1 + c.below(40) as i64), "coefficient+3k"),
        _ => (1 + c.below(12288) as i64, "coefficient-random"),
    };
    let mut w = v + d;
    if w > 6144 {
        w -= 12289;
    }
    if w < -6144 {
        w += 12289;
    }
    y[9 * i..9 * i + 9].copy_from_slice(&put_int(w, 9));
    what
}

pub fn alter_capsule(c: &mut Ctx, y: &Tv) -> (&'static str, Tv) {
    let mut z = y.clone();
    let what = match c.weighted(&[5, 3, 1, 1, 1, 1]) {
        0 => nudge(c, &mut z),
        1 => {
            let i = c.below(z.len());
            z[i] = (z[i] + 1 + c.below(2) as u8) % 3;
            "trit-flipped"
        }
        2 => {
            // coefficient out of range, including one that differs by q only
            let i = c.below(1024);
            let v = get_int(&z[9 * i..9 * i + 9]);
            let w = if c.below(2) == 0 && (v + 12289).abs() <= 9841 {
                v + 12289
            } else if (v - 12289).abs() <= 9841 && c.below(2) == 0 {
                v - 12289
            } else {
                out_of_range(c)
            };
            z[9 * i..9 * i + 9].copy_from_slice(&put_int(w, 9));
            "coefficient-out-of-range"
        }
        3 => {
            let i = c.below(1023);
            let (a, b) = (z[9 * i..9 * i + 9].to_vec(), z[9 * i + 9..9 * i + 18].to_vec());
            z[9 * i..9 * i + 9].copy_from_slice(&b);
            z[9 * i + 9..9 * i + 18].copy_from_slice(&a);
            "coefficients-swapped"
        }
        4 => {
            // negacyclic rotation
            let mut t = put_int(-get_int(&z[9 * 1023..]), 9);
            t.extend(&z[..9 * 1023]);
            z = t;
            "rotated"
        }
        _ => {
            for _ in 0..2 {
                nudge(c, &mut z);
            }
            "two-coefficients"
        }
    };
    (what, z)
}

pub fn k01(c: &mut Ctx) {
    let nodes = 2 + c.below(2);
    let keys: Vec<_> = (0..nodes).map(|_| keypair(c)).collect();
    let rounds = 2 + c.below(3);
    for round in 0..rounds {
        c.now += 20;
        // shared history
        let nops = c.below(5);
        let mut pos = 0;
        let ops: Vec<_> = (0..nops).map(|_| gen_op(c, &mut pos, 600, &[3, 2, 2, 0, 2, 0])).collect();
        let mk = || {
            let mut s = Spongos::init();
            for o in &ops {
                whole(&mut s, o);
            }
            s
        };
        let to = c.below(nodes);
        let k = data(c, 243);
        let pk = if c.below(2) == 0 {
            keys[to].1.clone()
        } else {
            // the key as received by the sender
            let t = from_slice(keys[to].1.trits());
            let p = if c.below(2) == 0 { ntru::PublicKey::from_trits(to_trits(&t)) } else { ntru::PublicKey::from_slice(slice(&t)) };
            match p {
                Some(p) => p,
                None => {
                    c.check(false, &["K01"], "genuine-public-key-refused", || "a generated public key is refused".into());
                    c.abandon();
                }
            }
        };
        let pr = rdata(c, 243);
        let prng = PRNG::init(slice(&pr));
        let nn = *c.pick(&[0usize, 1, 15, 81, 162, 486]);
        let nonce = data(c, nn);
        let mut s = mk();
        let pb = c.below(2) == 0;
        let y = if pb {
            let off = c.below(9);
            let mut b = to_trits(&vec![1u8; off + 9216 + 4]);
            {
                let mut m = b.slice_mut().drop(off);
                pb3::ntrukem::wrap_ntrukem(slice(&k), &pk, &prng, slice(&nonce), &mut s, &mut m);
                let left = m.size();
                c.check(left == 4, &["K01", "W01"], "capsule-size", || format!("{} trits left", left));
            }
            let v = from_trits(&b);
            c.check(v[..off].iter().chain(&v[off + 9216..]).all(|x| *x == 1), &["K01", "M01"], "writes-outside", || "encapsulation wrote outside of the capsule".into());
            v[off..off + 9216].to_vec()
        } else {
            let mut y = Trits::zero(9216);
            pk.encr_with_s(&mut s, &prng, slice(&nonce), slice(&k), y.slice_mut());
            from_trits(&y)
        };
        c.log(format!("round {}: key {} for node {} -> {}", round, hex(&k), to, hex(&y)));
        let fs = fp(&s);
        let open = |c: &mut Ctx, s: &mut Spongos, node: usize, y: &[u8]| -> (bool, Tv) {
            let mut o = Trits::zero(243);
            let ok = if c.below(2) == 0 {
                keys[node].0.decr_with_s(s, slice(y), o.slice_mut())
            } else {
                let mut b = slice(y);
                pb3::ntrukem::unwrap_ntrukem(o.slice_mut(), &keys[node].0, s, &mut b).is_ok()
            };
            (ok, from_trits(&o))
        };
        // intact delivery, possibly several times
        for _ in 0..1 + c.below(2) {
            let mut r = mk();
            let (ok, o) = open(c, &mut r, to, &y);
            c.check(ok, &["K01"], "intact-capsule-rejected", || format!("round {}", round));
            c.check(o == k, &["K01"], "other-key-recovered", || format!("round {}: {} instead of {}", round, hex(&o), hex(&k)));
            let f = fp(&r);
            c.check(f == fs, &["K01"], "states-differ", || format!("round {}: sender and receiver end in different states", round));
        }
        // altered copies
        for _ in 0..8 {
            let (what, z) = alter_capsule(c, &y);
            if z == y {
                continue;
            }
            c.fault(what);
            c.state(h2(hstr(what), h2(round as u64, nops as u64)));
            let mut r = mk();
            let (ok, o) = open(c, &mut r, to, &z);
            c.check(!ok, &["K01"], "altered-capsule-accepted", || format!("round {}: capsule with {} opened to {} (sent {})", round, what, hex(&o), hex(&k)));
        }
        // truncated
        {
            let n = c.below(9216);
            let mut o = Trits::zero(243);
            let mut b = slice(&y[..n]);
            let mut r = mk();
            let res = pb3::ntrukem::unwrap_ntrukem(o.slice_mut(), &keys[to].0, &mut r, &mut b);
            c.fault("capsule-truncated");
            c.check(res.is_err(), &["K01", "C06"], "truncated-capsule-accepted", || format!("{} trits", n));
        }
        // wrong node
        let w = (to + 1 + c.below(nodes - 1)) % nodes;
        let mut r = mk();
        let (ok, _) = open(c, &mut r, w, &y);
        c.fault("wrong-private-key");
        c.check(!ok, &["K01"], "wrong-key-opens", || format!("node {} opened the capsule for node {}", w, to));
        // other history
        let mut r = mk();
        match c.below(3) {
            0 => {
                r.absorb(slice(&[1]));
                if c.below(2) == 0 {
                    r.commit();
                }
            }
            1 => {
                let mut x = rdata(c, 81);
                x[0] = 1;
                let mut q = Spongos::init();
                q.absorb(slice(&x));
                q.commit();
                for o in &ops {
                    whole(&mut q, o);
                }
                r = q;
            }
            _ => {
                // one more commit in between, when data is pending
                r.squeeze_trits(1);
                r.commit();
            }
        }
        if fp(&r) != fp(&mk()) {
            c.fault("other-history");
            let (ok, _) = open(c, &mut r, to, &y);
            c.check(!ok, &["K01"], "other-history-opens", || format!("round {}: capsule opened under another sponge history", round));
        }
    }
    // reception of public keys
    for _ in 0..4 {
        let base = from_slice(keys[c.below(nodes)].1.trits());
        let (what, t): (&'static str, Tv) = match c.below(6) {
            0 => {
                let n = *c.pick(&[0usize, 1, 81, 9215, 9217, 9225, 18432]);
                ("pk-wrong-size", base.iter().cycle().cloned().take(n).collect())
            }
            1 => {
                let mut t = base.clone();
                let i = c.below(1024);
                let w = out_of_range(c);
                t[9 * i..9 * i + 9].copy_from_slice(&put_int(w, 9));
                ("pk-coefficient-out-of-range", t)
            }
            2 => ("pk-zero", vec![0; 9216]),
            3 => {
                // one root: not invertible
                let p = refm::poly_in(&base).unwrap();
                let mut e = refm::eval_all(&p);
                for _ in 0..1 + c.below(2) {
                    let j = match c.below(3) {
                        0 => *c.pick(&[0usize, 1, 1023, 512]),
                        _ => c.below(1024),
                    };
                    e[j] = 0;
                }
                ("pk-not-invertible", refm::poly_out(&refm::interpolate(&e)))
            }
            4 => {
                // coefficients at the ends of the range
                let mut t = base.clone();
                for _ in 0..3 {
                    let i = c.below(1024);
                    t[9 * i..9 * i + 9].copy_from_slice(&put_int(if c.below(2) == 0 { 6144 } else { -6144 }, 9));
                }
                ("pk-extreme-coefficients", t)
            }
            _ => {
                let mut t = base.clone();
                nudge(c, &mut t);
                ("pk-other", t)
            }
        };
        c.fault(what);
        let want = t.len() == 9216 && refm::ntru_pk_ok(&t);
        let a = ntru::PublicKey::from_trits(to_trits(&t)).is_some();
        let b = ntru::PublicKey::from_slice(slice(&t)).is_some();
        c.check(a == want && b == want, &["K01"], "public-key-check", || format!("{}: accepted {}/{}, usable {}", what, a, b, want));
        if t.len() == 9216 {
            use iota_mam::pb3::Absorb;
            let mut s = Spongos::init();
            let mut bb = slice(&t);
            let r = ntru::PublicKey::unwrap_absorb_sized(&mut s, &mut bb).is_ok();
            c.check(r == want, &["K01"], "public-key-check", || format!("{}: received {}, usable {}", what, r, want));
            // masked, and in place of another key
            use iota_mam::pb3::Mask;
            let x = Spongos::init().encr_trits(&to_trits(&t));
            let mut p = keys[c.below(nodes)].1.clone();
            let (how, r) = match c.below(3) {
                0 => {
                    let mut bb = slice(&t);
                    ("absorbed in place", p.unwrap_absorb(&mut Spongos::init(), &mut bb).is_ok())
                }
                1 => {
                    let mut bb = x.slice();
                    ("masked, in place", p.unwrap_mask(&mut Spongos::init(), &mut bb).is_ok())
                }
                _ => {
                    let mut bb = x.slice();
                    ("masked", ntru::PublicKey::unwrap_mask_sized(&mut Spongos::init(), &mut bb).is_ok())
                }
            };
            c.check(r == want, &["K01"], "public-key-check", || format!("{}: received ({}) {}, usable {}", what, how, r, want));
        }
    }
    // a key received in place of another one works as the new one
    {
        use iota_mam::pb3::{Absorb, Mask};
        let (i, j) = (c.below(nodes), c.below(nodes));
        let mut p = keys[i].1.clone();
        let t = from_slice(keys[j].1.trits());
        let mut s = Spongos::init();
        let ok = if c.below(2) == 0 {
            let mut b = slice(&t);
            p.unwrap_absorb(&mut s, &mut b).is_ok()
        } else {
            let x = Spongos::init().encr_trits(&to_trits(&t));
            let mut b = x.slice();
            p.unwrap_mask(&mut s, &mut b).is_ok()
        };
        let k = rdata(c, 243);
        let pr = PRNG::init(slice(&k));
        let mut y = Trits::zero(9216);
        p.encr(&pr, slice(&[]), slice(&k), y.slice_mut());
        let mut o = Trits::zero(243);
        let ok2 = keys[j].0.decr(y.slice(), o.slice_mut());
        c.check(ok && ok2 && from_trits(&o) == k, &["K01"], "received-key-unusable", || format!("a key received in place does not work (received {}, opened {})", ok, ok2));
    }
}

// ------------------------------------------------------------------------ K02

#[derive(Clone, Debug)]
enum Derive {
    Random(usize),
    Wots,
    Mss(usize),
    Ntru,
}

/// Cuts `n` trits into pieces, some of them empty.
fn cuts(c: &mut Ctx, n: usize) -> Vec<usize> {
    let k = *c.pick(&[1usize, 1, 2, 2, 3, 4, 6, 9]);
    let mut v: Vec<usize> = (0..k).map(|_| c.below(n + 1)).collect();
    v.push(0);
    v.push(n);
    v.sort();
    v
}

fn derive(c: &mut Ctx, key: &[u8], nonce: &[u8], what: &Derive) -> Tv {
    let prng = match c.below(4) {
        0 => PRNG::init(slice(key)),
        1 => iota_mam::prng::init(slice(key)),
        2 => iota_mam::prng::init_trits(&to_trits(key)),
        _ => PRNG::init_trits(&to_trits(key)).clone(),
    };
    match what {
        Derive::Random(n) => {
            match c.below(4) {
                0 => {
                    let mut y = Trits::zero(*n);
                    prng.gen(slice(nonce), y.slice_mut());
                    from_trits(&y)
                }
                1 => from_trits(&prng.gen_trits(&to_trits(nonce), *n)),
                2 => {
                    // nonce in pieces
                    c.fault("nonce-in-pieces");
                    let cuts = cuts(c, nonce.len());
                    let mut y = to_trits(&vec![2; *n]);
                    let p: Vec<_> = cuts.windows(2).map(|w| slice(&nonce[w[0]..w[1]])).collect();
                    prng.gens(&p, y.slice_mut());
                    from_trits(&y)
                }
                _ => {
                    c.fault("output-in-pieces");
                    let (a, b) = (cuts(c, nonce.len()), cuts(c, *n));
                    let mut y = to_trits(&vec![1; *n]);
                    {
                        let s = y.slice_mut();
                        let p: Vec<_> = a.windows(2).map(|w| slice(&nonce[w[0]..w[1]])).collect();
                        let o: Vec<_> = b.windows(2).map(|w| s.drop(w[0]).take(w[1] - w[0])).collect();
                        prng.genss(&p, &o);
                    }
                    from_trits(&y)
                }
            }
        }
        Derive::Wots => {
            let a = cuts(c, nonce.len());
            let p: Vec<_> = a.windows(2).map(|w| slice(&nonce[w[0]..w[1]])).collect();
            let k = iota_mam::wots::PrivateKey::gen(&prng, &p);
            let mut y = Trits::zero(243);
            k.calc_pk(y.slice_mut());
            from_trits(&y)
        }
        Derive::Mss(d) => {
            if c.below(2) == 0 {
                crate::signer::pk_of(&iota_mam::mss::PrivateKeyMTTraversal::gen(&prng, slice(nonce), *d))
            } else {
                crate::signer::pk_of(&iota_mam::mss::PrivateKeyMTComplete::gen(&prng, slice(nonce), *d))
            }
        }
        Derive::Ntru => {
            let (sk, pk) = ntru::gen(&prng, slice(nonce));
            let t = from_slice(pk.trits());
            // the pair works
            let mut y = Trits::zero(9216);
            pk.encr(&prng, slice(&[1]), slice(&key), y.slice_mut());
            let mut o = Trits::zero(243);
            let ok = sk.decr(y.slice(), o.slice_mut());
            c.check(ok && from_trits(&o) == key, &["K02", "K01"], "key-pair-broken", || "a generated pair does not work".into());
            t
        }
    }
}

/// directed: 1 = the trailing-zero history
pub fn k02(c: &mut Ctx) {
    let trailing = c.below(8) == 7;
    if trailing {
        // Nonces that differ only by trailing zeros (known finding KF2).
        let key = rdata(c, 243);
        let n = c.below(100);
        let a = rdata(c, n);
        let mut b = a.clone();
        let z = 1 + c.below(60);
        b.extend(vec![0; z]);
        // The zeros must not cross into another block to be lost.
        let (x, y) = (derive(c, &key, &a, &Derive::Random(243)), derive(c, &key, &b, &Derive::Random(243)));
        c.evals += 1;
        c.log(format!("nonces of {} and {} trits", a.len(), b.len()));
        if x == y {
            c.known("KF2", "nonces that differ only by trailing zero trits yield the same random string (the sponge does not pad)".into());
        }
        return;
    }
    if c.below(10) == 0 {
        return k02_leaves(c);
    }
    if c.below(8) == 0 {
        return k02_boundary(c);
    }
    // secrets of several nodes
    let nk = 1 + c.below(3);
    let mut keys: Vec<Tv> = Vec::new();
    for i in 0..nk {
        let mut k = rdata(c, 243);
        if i > 0 && c.below(2) == 0 {
            // almost equal secrets
            k = keys[0].clone();
            let j = match c.below(3) {
                0 => 242,
                1 => 0,
                _ => c.below(243),
            };
            k[j] = (k[j] + 1 + c.below(2) as u8) % 3;
            if keys.contains(&k) {
                k = rdata(c, 243);
            }
        }
        keys.push(k);
    }
    // nonces all of one size: a counter, random ones and near misses
    let nlen = *c.pick(&[1usize, 3, 6, 27, 33, 81, 162, 242, 243, 244, 485, 486, 700, 0]);
    // sizes may differ as long as no nonce ends with a zero trit (KF2)
    let mixed = c.pct(30);
    let mut ctr = to_trits(&data(c, nlen));
    let mut done: Vec<(usize, Tv, Derive, Tv)> = Vec::new();
    let mut seen: BTreeMap<(u8, Tv), (usize, Tv)> = BTreeMap::new();
    let n = 6 + c.below(10);
    let heavy = c.pct(40);
    for i in 0..n {
        c.now += 3;
        let k = c.below(nk);
        let again = !done.is_empty() && c.pct(40);
        if again {
            // after a restart, or on another node
            let (k, nonce, w, old) = done[c.below(done.len())].clone();
            c.fault("restart-and-derive-again");
            let new = derive(c, &keys[k], &nonce, &w);
            c.check(new == old, &["K02"], "not-reproduced", || format!("{:?} from secret {} nonce {} gives another value the second time", w, k, hex(&nonce)));
            continue;
        }
        let nonce = match c.weighted(&[5, 2, 2]) {
            0 => {
                if !ctr.slice_mut().inc() {
                    c.probe("counter-wrapped");
                }
                from_trits(&ctr)
            }
            1 => rdata(c, nlen),
            _ => {
                let mut x = done.last().map(|d| d.1.clone()).unwrap_or_else(|| vec![0; nlen]);
                if !x.is_empty() {
                    let j = c.below(x.len());
                    x[j] = (x[j] + 1 + c.below(2) as u8) % 3;
                }
                x
            }
        };
        let nonce = if mixed {
            let mut x = nonce;
            let k = c.below(3);
            x.truncate(x.len() - k.min(x.len()));
            let k = c.below(4);
            x.extend(rdata(c, k));
            if x.last() == Some(&0) {
                *x.last_mut().unwrap() = 1;
            }
            x
        } else {
            nonce
        };
        // counters follow the nonces of trees and key pairs: some of these coincide when the
        // nonces differ in size (KF2)
        let weights = [[8, 0, 0, 1], [8, 0, 0, 0], [3, 2, 1, 3], [3, 2, 0, 0]][2 * heavy as usize + mixed as usize];
        let w = match c.weighted(&weights) {
            0 => {
                let n = 81 + size(c, 1500);
                Derive::Random(n)
            }
            1 => Derive::Wots,
            2 => Derive::Mss(c.below(2)),
            _ => Derive::Ntru,
        };
        let v = derive(c, &keys[k], &nonce, &w);
        c.log(format!("{}: {:?} from secret {} nonce {} -> {}", i, w, k, hex(&nonce), hex(&v)));
        let tag = match w {
            Derive::Random(_) => 0u8,
            Derive::Wots => 1,
            // a tree of height 0 and the one-time key it consists of, and heights: apart
            Derive::Mss(d) => 2 + d as u8,
            Derive::Ntru => 9,
        };
        let id = (tag, v[..81].to_vec());
        if let Some((k2, n2)) = seen.get(&id) {
            let same = *k2 == k && *n2 == nonce;
            let (k2, n2) = (*k2, n2.clone());
            c.check(same, &["K02"], "same-value-twice", || format!("{:?}: secret {} nonce {} and secret {} nonce {} give the same value", w, k, hex(&nonce), k2, hex(&n2)));
        } else {
            c.evals += 1;
            seen.insert(id, (k, nonce.clone()));
        }
        c.state(h2(tag as u64, hbytes(&nonce)));
        // randomness is usable: longer requests start like shorter ones (splitting of output)
        if let Derive::Random(n) = w {
            let m = c.below(n + 1);
            let short = derive(c, &keys[k], &nonce, &Derive::Random(m));
            c.check(short == v[..m], &["K02"], "split-output", || format!("the first {} of {} trits differ when asked for alone", m, n));
        }
        done.push((k, nonce, w, v));
    }
}

/// One-time keys of one signing key, of any height up to the maximum: unique and reproducible.
/// Secrets with runs of zero trits: where secret ends and nonce begins must not blur, whichever
/// end of the secret the run is at.
fn k02_boundary(c: &mut Ctx) {
    let j = match c.below(4) {
        0 => 1,
        1 => 1 + c.below(12),
        2 => 81,
        _ => 1 + c.below(242),
    };
    let extra = 1 + c.below(90);
    let mut x = rdata(c, 243 - j);
    let last = x.len() - 1;
    x[0] = 1 + c.below(2) as u8;
    x[last] = 1 + c.below(2) as u8;
    let mut p = rdata(c, j + extra);
    // (a nonce that ends with zeros would be KF2)
    let last = p.len() - 1;
    p[last] = 1 + c.below(2) as u8;
    let zeros = vec![0u8; j];
    let secrets = [[zeros.clone(), x.clone()].concat(), [x.clone(), zeros.clone()].concat(), [x.clone(), p[..j].to_vec()].concat(), [p[..j].to_vec(), x.clone()].concat()];
    let nonces = [p.clone(), p.clone(), p[j..].to_vec(), p[j..].to_vec()];
    let heavy = c.pct(20);
    let w = if heavy { Derive::Ntru } else { Derive::Random(243) };
    let mut out: Vec<Tv> = Vec::new();
    for i in 0..4 {
        out.push(derive(c, &secrets[i], &nonces[i], &w));
    }
    c.log(format!("run of {} zeros, nonce of {}: {}", j, p.len(), out.iter().map(|v| hex(v)).collect::<Vec<_>>().join(" ")));
    for i in 0..4 {
        for k in 0..i {
            if secrets[i] != secrets[k] || nonces[i] != nonces[k] {
                c.check(out[i] != out[k], &["K02"], "same-output-twice", || format!("{:?} from secret {} nonce {} equals that from secret {} nonce {}", w, hex(&secrets[i]), hex(&nonces[i]), hex(&secrets[k]), hex(&nonces[k])));
            }
        }
        c.state(h2(900 + j as u64, p.len() as u64));
    }
}

fn k02_leaves(c: &mut Ctx) {
    let (_, nonce, prng) = crate::signer::secret(c);
    let d = 1 + c.below(20);
    let top = 1usize << d;
    let mut which = vec![c.below(top)];
    for _ in 0..2 + c.below(5) {
        let base = *c.pick(&which.clone());
        let step = match c.below(5) {
            0 => 1,
            1 => 1usize << c.below(d),
            2 => 3usize.pow(c.below(13) as u32),
            3 => 19683 * (1 + c.below(50)),
            _ => c.below(top),
        };
        let i = if c.below(2) == 0 { base.wrapping_sub(step) } else { base + step };
        let i = if i < top { i } else { c.below(top) };
        if !which.contains(&i) {
            which.push(i);
        }
    }
    let v = crate::signer::leaves(&prng, &nonce, d, &which);
    c.log(format!("height {} leaves {:?}", d, which));
    for i in 0..v.len() {
        for j in 0..i {
            c.check(v[i] != v[j], &["K02", "S02"], "same-leaf-twice", || format!("height {}: one-time keys {} and {} of one signing key are the same", d, which[j], which[i]));
        }
        c.state(h2(500 + d as u64, which[i] as u64));
    }
    c.fault("restart-and-derive-again");
    let j = c.below(which.len());
    let again = crate::signer::leaves(&prng, &nonce, d, &which[j..j + 1]);
    c.check(again[0] == v[j], &["K02"], "not-reproduced", || format!("height {}: one-time key {} is another one the second time", d, which[j]));
}

// ------------------------------------------------------------------------ K03

pub fn k03(c: &mut Ctx) {
    let w = match c.weighted(&[4, 3, 2]) {
        0 => 1 + c.below(8),
        1 => 9 + c.below(20),
        _ => *c.pick(&[18usize, 27, 33, 81, 162, 243]),
    };
    let off = c.below(10);
    let pad = c.below(10);
    let mut v = rdata(c, off + w + pad);
    // starting value: anything, or close to a long carry
    let st: Tv = match c.below(4) {
        0 => vec![0; w],
        1 => rdata(c, w),
        2 => {
            let mut x = vec![2u8; w];
            for _ in 0..c.below(3) {
                let i = c.below(w);
                x[i] = c.below(3) as u8;
            }
            x
        }
        _ => {
            let mut x = vec![2u8; w];
            let n = c.below(w + 1);
            let r = rdata(c, n.min(6));
            x[..r.len()].copy_from_slice(&r);
            for y in x[n..].iter_mut() {
                *y = c.below(3) as u8;
            }
            x
        }
    };
    v[off..off + w].copy_from_slice(&st);
    let canary = v.clone();
    let mut buf = to_trits(&v);
    let full = if w <= 8 { 3usize.pow(w as u32) } else { usize::MAX };
    let steps = if w <= 8 { full } else { 200 + c.below(1500) };
    let mut seen = BTreeSet::new();
    seen.insert(st.clone());
    let mut fails = 0;
    c.log(format!("counter of width {} at offset {} from {}", w, off, hex(&st)));
    let save_pct = *c.pick(&[0u64, 1, 20]);
    for i in 0..steps {
        c.now += 1;
        if save_pct > 0 && c.pct(save_pct) {
            // saved, crashed, restored into another buffer
            c.fault("save-restore");
            let rec = from_slice(buf.slice().drop(off).take(w));
            let mut nb = to_trits(&canary);
            slice(&rec).copy(nb.slice_mut().drop(off).take(w));
            buf = nb;
        }
        let ok = buf.slice_mut().drop(off).take(w).inc();
        let x = from_trits(&buf);
        let val = x[off..off + w].to_vec();
        let zero = val.iter().all(|t| *t == 0);
        c.mixin(hbytes(&val));
        c.check(val.iter().all(|t| *t < 3), &["K03"], "not-a-trit", || format!("width {} step {}: {:?}", w, i, val));
        c.check(x[..off] == canary[..off] && x[off + w..] == canary[off + w..], &["K03", "M01"], "neighbours-touched", || format!("width {} offset {} step {}", w, off, i));
        c.check(ok != zero, &["K03"], "wrap-report", || format!("width {} step {}: reported {} at {:?}", w, i, ok, val));
        if !ok {
            fails += 1;
        }
        if i + 1 == full {
            c.check(val == st, &["K03"], "not-a-cycle", || format!("width {}: after {} steps the counter is not back at its start", w, full));
        } else {
            c.check(seen.insert(val.clone()), &["K03"], "value-repeated", || format!("width {}: value {:?} again at step {} of {}", w, val, i, if full == usize::MAX { 0 } else { full }));
        }
    }
    if full != usize::MAX {
        c.check(fails == 1, &["K03"], "wrap-count", || format!("width {}: {} failures in one cycle", w, fails));
        c.probe("whole-cycle");
    }
    c.state(h2(w as u64, h2(off as u64, hbytes(&st))));
}
