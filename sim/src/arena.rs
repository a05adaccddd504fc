//! Sessions sharing one buffer (M01). Every operation runs twice: on regions of the shared
//! buffer and on private, exactly sized buffers. The whole shared buffer is compared with the
//! prediction after every step.

use crate::prog::{self, Cmd};
use crate::refm;
use crate::rt::*;
use crate::util::*;
use iota_mam::mss;
use iota_mam::ntru;
use iota_mam::prng::PRNG;
use iota_mam::spongos::{self, Spongos};
use iota_mam::trits::{TritSlice, TritSliceMut, Trits};
use iota_mam::wots;

struct Arena {
    mem: Vec<u8>,
    shadow: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Reg {
    at: usize,
    n: usize,
}

impl Reg {
    fn end(self) -> usize {
        self.at + self.n
    }
    fn meets(self, o: Reg) -> bool {
        self.at < o.end() && o.at < self.end()
    }
}

/// How far before a region at `at` a slice to it begins.
fn before(c: &mut Ctx, at: usize) -> usize {
    let k = match c.below(4) {
        0 => c.below(at + 1),
        1 => {
            let m = *c.pick(&[1usize, 3, 9, 27, 81, 162, 234, 243, 486, 729, 1024]);
            m * (1 + c.below(4))
        }
        _ => c.below(61),
    };
    if k <= at {
        k
    } else {
        at
    }
}

impl Arena {
    /// A region of `n` trits away from the given ones, next to one of them when possible.
    fn region(&self, c: &mut Ctx, n: usize, away: &[Reg]) -> Reg {
        let total = self.mem.len();
        for _ in 0..40 {
            let at = match c.below(5) {
                3 => c.below(total - n + 1),
                4 => {
                    // at a round distance from the start of the buffer
                    let m = *c.pick(&[27usize, 81, 243, 486, 729, 1024]);
                    m * c.below((total - n) / m + 1)
                }
                k if !away.is_empty() => {
                    let r = *c.pick(away);
                    let gap = if k == 2 { 1 + c.below(3) } else { 0 };
                    if c.below(2) == 0 {
                        r.end() + gap
                    } else {
                        r.at.wrapping_sub(n + gap)
                    }
                }
                0 => 0,
                1 => total - n,
                _ => c.below(total - n + 1),
            };
            if at <= total - n {
                let r = Reg { at, n };
                if !away.iter().any(|a| a.meets(r)) {
                    return r;
                }
            }
        }
        // first fit
        for at in 0..=total - n {
            let r = Reg { at, n };
            if !away.iter().any(|a| a.meets(r)) {
                return r;
            }
        }
        // fragmented: give the run up
        c.probe("arena-full");
        c.abandon()
    }
    fn get(&self, r: Reg) -> Tv {
        self.shadow[r.at..r.end()].to_vec()
    }
    fn put(&mut self, r: Reg, v: &[u8]) {
        assert!(v.len() == r.n);
        self.shadow[r.at..r.end()].copy_from_slice(v);
    }
    fn fill(&mut self, r: Reg, v: &[u8]) {
        self.put(r, v);
        self.mem[r.at..r.end()].copy_from_slice(v);
    }
    /// The same region, reached in different ways: from the start of the buffer, from its own
    /// first trit, or from somewhere before it.
    fn m(&mut self, c: &mut Ctx, r: Reg) -> TritSliceMut<'static> {
        let total = self.mem.len();
        let p = self.mem.as_mut_ptr();
        match c.below(3) {
            0 => TritSliceMut::from_raw_ptr(total, p).drop(r.at).take(r.n),
            1 => TritSliceMut::from_raw_ptr(r.n, unsafe { p.add(r.at) }),
            _ => {
                let k = before(c, r.at);
                TritSliceMut::from_raw_ptr(k + r.n, unsafe { p.add(r.at - k) }).drop(k)
            }
        }
    }
    fn s(&mut self, c: &mut Ctx, r: Reg) -> TritSlice<'static> {
        let total = self.mem.len();
        let p = self.mem.as_ptr();
        match c.below(3) {
            0 => TritSlice::from_raw_ptr(total, p).drop(r.at).take(r.n),
            1 => TritSlice::from_raw_ptr(r.n, unsafe { p.add(r.at) }),
            _ => {
                let k = before(c, r.at);
                TritSlice::from_raw_ptr(k + r.n, unsafe { p.add(r.at - k) }).drop(k)
            }
        }
    }
    fn verify(&self, c: &mut Ctx, what: &str, outs: &[Reg]) {
        let same = self.mem == self.shadow;
        c.evals += 1;
        if !same {
            let i = self.mem.iter().zip(&self.shadow).position(|(a, b)| a != b).unwrap();
            let inside = outs.iter().any(|r| i >= r.at && i < r.end());
            let class = if inside { "result-differs-in-shared-buffer" } else { "foreign-trit-changed" };
            c.check(false, &["M01"], class, || format!("{}: trit {} is {} instead of {} (destinations {:?})", what, i, self.mem[i], self.shadow[i], outs));
        }
    }
}

struct Sess {
    shared: Spongos,
    twin: Spongos,
    env: usize,
}

/// A slice is moved about in a region in every way there is; then the part it has come to is used.
fn moves(c: &mut Ctx, a: &mut Arena, y: Reg) -> String {
    let (sm, sc) = (a.m(c, y), a.s(c, y));
    // where the slices begin, how far they reach and where they are
    let (bm, bc) = (y.at - sm.dropped_size(), y.at - sc.dropped_size());
    let (mut m, mut s) = (sm, sc);
    let (mut lo, mut hi) = (y.at, y.end());
    let mut what = format!("moves in {:?}:", y);
    for _ in 0..1 + c.below(8) {
        let room = hi - lo;
        let k = match c.below(3) {
            0 => c.below(room + 1),
            1 => c.below(room.min(9) + 1),
            _ => room,
        };
        let over = k + c.below(20);
        let op = c.below(12);
        what += &format!(" {}({})", op, k);
        match op {
            0 => {
                m = m.take(k);
                s = s.take(k);
                hi = lo + k;
            }
            1 => {
                m = m.drop(k);
                s = s.drop(k);
                lo += k;
            }
            2 => {
                m = m.take_min(over);
                s = s.take_min(over);
                hi = hi.min(lo + over);
            }
            3 => {
                m = m.drop_min(over);
                s = s.drop_min(over);
                lo = hi.min(lo + over);
            }
            4 => {
                let (p, q) = (m.split_at(k), s.split_at(k));
                if c.below(2) == 0 {
                    m = p.0;
                    s = q.0;
                    hi = lo + k;
                } else {
                    m = p.1;
                    s = q.1;
                    lo += k;
                }
            }
            5 => {
                let (p, q) = (m.split_at_min(over), s.split_at_min(over));
                let at = hi.min(lo + over);
                if c.below(2) == 0 {
                    m = p.0;
                    s = q.0;
                    hi = at;
                } else {
                    m = p.1;
                    s = q.1;
                    lo = at;
                }
            }
            6 => {
                // back over what was dropped, but not out of the region
                let k = c.below(lo - y.at + 1);
                m = m.pickup(k);
                s = s.pickup(k);
                lo -= k;
            }
            7 => {
                let (p, q) = (m.advance(k), s.advance(k));
                lo += k;
                if c.below(2) == 0 {
                    m = p;
                    s = q;
                    hi = lo;
                    lo -= k;
                }
            }
            8 => {
                // what lies between two places of one slice
                let (m2, s2) = (m.drop(k), s.drop(k));
                m = m2.diff(m);
                s = s2.diff(s);
                hi = lo + k;
            }
            9 => {
                m = m.drop_all();
                s = s.drop_all();
                lo = hi;
            }
            10 => {
                m = m.pickup_all().drop(y.at - bm);
                s = s.pickup_all().drop(y.at - bc);
                lo = y.at;
            }
            _ => {
                // all before this place, the part in the region
                m = m.dropped().drop(y.at - bm);
                s = s.dropped().drop(y.at - bc);
                hi = lo;
                lo = y.at;
            }
        }
        let got = (m.size(), m.avail_size(), m.is_empty(), m.dropped_size() + bm, m.total_size() + bm);
        let want = (hi - lo, hi - lo, hi == lo, lo, hi);
        c.check(got == want, &["M01"], "slice-position", || format!("{}: {:?} instead of {:?}", what, got, want));
        let got = (s.size(), s.avail_size(), s.is_empty(), s.dropped_size() + bc, s.total_size() + bc);
        c.check(got == want, &["M01"], "slice-position", || format!("{}: {:?} instead of {:?}", what, got, want));
        let z = c.below(40);
        c.check(m.size_min(z) == z.min(hi - lo) && s.size_min(z) == z.min(hi - lo), &["M01"], "slice-position", || what.clone());
    }
    let r = Reg { at: lo, n: hi - lo };
    let v = a.get(r);
    let t = from_trits(&s.clone_trits());
    c.check(t == v, &["M01"], "slice-content", || what.clone());
    // another buffer's start or the whole of it into the place reached
    let k = size(c, 80);
    let x = rdata(c, k);
    let tx = to_trits(&x);
    let fit = k.min(r.n);
    let mut w = v.clone();
    match c.below(4) {
        0 => {
            let n = tx.slice().copy_min(m);
            c.check(n == fit, &["M01"], "copied-size", || format!("{}: {} of {}", what, n, k));
            w[..fit].copy_from_slice(&x[..fit]);
        }
        1 | 2 => {
            let mut ty = to_trits(&x);
            let add = c.below(2) == 0;
            let n = if add { m.swap_add_min(ty.slice_mut()) } else { m.swap_sub_min(ty.slice_mut()) };
            c.check(n == fit, &["M01"], "copied-size", || format!("{}: {} of {}", what, n, k));
            let mut st = x.clone();
            for i in 0..fit {
                w[i] = if add { (v[i] + x[i]) % 3 } else { (v[i] + 3 - x[i]) % 3 };
                st[i] = if add { v[i] } else { w[i] };
            }
            c.check(from_trits(&ty) == st, &["M01"], "state-after-swap", || what.clone());
        }
        _ => {
            let (eq, n) = s.eq_min(tx.slice());
            c.check(n == fit && eq == (v[..fit] == x[..fit]), &["M01"], "compared-size", || format!("{}: {} {}", what, eq, n));
        }
    }
    a.put(r, &w);
    what
}

pub fn m01(c: &mut Ctx) {
    let total = 3000 + c.below(3000) + if c.pct(30) { 30000 } else { 0 };
    let big = total > 25000;
    let mut r = c.bulk();
    let init = rand_tv(&mut r, total);
    let mut a = Arena { mem: init.clone(), shadow: init };
    let envs = [prog::gen_env(c, if big { 40 } else { 0 }, if big { 60 } else { 0 })];
    let ns = 2 + c.below(3);
    let mut ss: Vec<Sess> = Vec::new();
    for i in 0..ns {
        let k = rdata(c, 243);
        let mk = || {
            let mut s = Spongos::init();
            s.absorb(slice(&k));
            s.commit();
            s
        };
        let _ = i;
        ss.push(Sess { shared: mk(), twin: mk(), env: 0 });
    }
    let key = rdata(c, 243);
    let prng = PRNG::init(slice(&key));
    // regions of earlier results: new ones go next to them
    let mut near: Vec<Reg> = Vec::new();
    let steps = 10 + c.below(25);
    for step in 0..steps {
        c.now += 2;
        let k = c.below(ns);
        let n = size(c, 700);
        let kind = c.weighted(&[4, 4, 8, 8, 3, 1, 6, 4, 3, 5, if big { 2 } else { 0 }, if big { 3 } else { 0 }, 2]);
        if near.len() > 3 {
            near.remove(0);
        }
        // anchor: one earlier region to be a neighbour of (its contents must survive)
        let anchor: Vec<Reg> = if near.is_empty() || c.below(3) == 0 { vec![] } else { vec![*c.pick(&near)] };
        let mut what = String::new();
        let mut outs: Vec<Reg> = vec![];
        match kind {
            0 => {
                let x = a.region(c, n, &anchor);
                let v = a.get(x);
                let sl = a.s(c, x);
                ss[k].shared.absorb(sl);
                ss[k].twin.absorb(slice(&v));
                what = format!("absorb {:?}", x);
                near.push(x);
            }
            1 => {
                let y = a.region(c, n, &anchor);
                let sl = a.m(c, y);
                ss[k].shared.squeeze(sl);
                let v = from_trits(&ss[k].twin.squeeze_trits(n));
                a.put(y, &v);
                what = format!("squeeze {:?}", y);
                outs = vec![y];
                near.push(y);
            }
            2 | 3 => {
                let x = a.region(c, n, &anchor);
                let inplace = c.pct(30);
                let y = if inplace {
                    x
                } else {
                    let mut aw = anchor.clone();
                    aw.push(x);
                    a.region(c, n, &aw)
                };
                let v = a.get(x);
                let (sx, sy) = (a.s(c, x), a.m(c, y));
                if n > 0 {
                    let same = sx.is_same(sy.as_const());
                    c.check(same == (x.at == y.at), &["M01"], "is-same", || format!("{:?} {:?}: {}", x, y, same));
                }
                let w = if kind == 2 {
                    ss[k].shared.encr(sx, sy);
                    let mut o = Trits::zero(n);
                    ss[k].twin.encr(slice(&v), o.slice_mut());
                    from_trits(&o)
                } else {
                    ss[k].shared.decr(sx, sy);
                    let mut o = Trits::zero(n);
                    ss[k].twin.decr(slice(&v), o.slice_mut());
                    from_trits(&o)
                };
                a.put(y, &w);
                c.fault(if inplace { "in-place" } else if y.at == x.end() || x.at == y.end() { "adjacent-regions" } else { "separate-regions" });
                what = format!("{} {:?} to {:?}", if kind == 2 { "encrypt" } else { "decrypt" }, x, y);
                outs = vec![y];
                near.push(x);
                near.push(y);
            }
            4 => {
                let x = a.region(c, n, &anchor);
                if c.below(2) == 0 {
                    // a tag that fits
                    let t = from_trits(&ss[k].twin.fork().squeeze_trits(n));
                    a.fill(x, &t);
                }
                let v = a.get(x);
                let sl = a.s(c, x);
                let p = ss[k].shared.squeeze_eq(sl);
                let t = from_trits(&ss[k].twin.squeeze_trits(n));
                c.check(p == (t == v), &["M01", "D02"], "comparison", || format!("{:?}: {}", x, p));
                what = format!("compare {:?}", x);
                near.push(x);
            }
            5 => {
                ss[k].shared.commit();
                ss[k].twin.commit();
            }
            6 => {
                // a field program written into one region, read by a peer from there
                let e = &envs[ss[k].env];
                let nc = 1 + c.below(4);
                let p = prog::gen_cmds(c, e, nc, if big { 20000 } else { 1200 });
                let len = prog::length(e, &p);
                let y = a.region(c, len, &anchor);
                let reader0 = ss[k].shared.fork();
                let mut o = Trits::zero(len);
                {
                    let mut b = o.slice_mut();
                    prog::write(e, &p, &mut ss[k].twin, &mut b);
                }
                // the writer may hold more of the buffer than it fills
                let room = total - y.end();
                let more = match c.below(4) {
                    0 => c.below(room.min(12) + 1),
                    1 => c.below(room.min(1500) + 1),
                    _ => 0,
                };
                let mut b = a.m(c, Reg { at: y.at, n: len + more });
                // one command at a time: others get their turn in between
                for cmd in &p {
                    prog::write(e, std::slice::from_ref(cmd), &mut ss[k].shared, &mut b);
                }
                let left = b.size();
                c.check(left == more, &["M01", "W01"], "advanced-wrongly", || format!("{} trits left of {} to spare", left, more));
                a.put(y, &from_trits(&o));
                what = format!("write {} fields to {:?}", p.len(), y);
                outs = vec![y];
                a.verify(c, &what, &outs);
                let mut rd = reader0;
                let mut b = a.s(c, Reg { at: y.at, n: len + more });
                let sz = c.draw(1 << 30);
                let got = prog::read(e, &p, &prog::Other::default(), sz, &mut rd, &mut b);
                c.check(got.as_ref() == Some(&p), &["M01", "W01"], "read-from-shared-buffer", || what.clone());
                what = format!("read {} fields from {:?}", p.len(), y);
                near.push(y);
            }
            7 => {
                let nn = c.below(120);
                let x = a.region(c, nn, &anchor);
                let nonce = a.get(x);
                let y = a.region(c, n, &[x]);
                let sx = a.s(c, x);
                let w;
                match c.below(3) {
                    0 => {
                        prng.gen(sx, a.m(c, y));
                        w = from_trits(&prng.gen_trits(&to_trits(&nonce), n));
                    }
                    1 => {
                        let j = c.below(nn + 1);
                        prng.gens(&[sx.take(j), sx.drop(j)], a.m(c, y));
                        w = from_trits(&prng.gen_trits(&to_trits(&nonce), n));
                    }
                    _ => {
                        let j = c.below(n + 1);
                        let my = a.m(c, y);
                        prng.genss(&[sx], &[my.take(j), my.drop(j)]);
                        w = from_trits(&prng.gen_trits(&to_trits(&nonce), n));
                    }
                }
                a.put(y, &w);
                what = format!("generate {:?} from {:?}", y, x);
                outs = vec![y];
                near.push(x);
                near.push(y);
            }
            8 => {
                let x = a.region(c, n, &anchor);
                let v = a.get(x);
                let m = 1 + c.below(500);
                let same = c.below(3) == 0;
                let y = if same { x } else { a.region(c, m, &[x]) };
                let (sx, sy) = (a.s(c, x), a.m(c, y));
                let mut o = Trits::zero(y.n);
                spongos::hash_data(slice(&v), o.slice_mut());
                if c.below(2) == 0 {
                    spongos::hash_data(sx, sy);
                } else {
                    let j = c.below(n + 1);
                    spongos::hash_datas(&[sx.take(j), sx.drop(j)], sy);
                }
                a.put(y, &from_trits(&o));
                what = format!("hash {:?} to {:?}", x, y);
                outs = vec![y];
                near.push(y);
            }
            9 => {
                // plain buffer operations
                match c.below(15) {
                    13 | 14 => {
                        let y = a.region(c, n, &anchor);
                        what = moves(c, &mut a, y);
                        outs = vec![y];
                    }
                    9 => {
                        // text into a region whose size need not be whole trytes
                        let m = if c.below(3) == 0 { c.below(8) } else { c.below(120) };
                        let y = a.region(c, m, &anchor);
                        let chars = match c.below(3) {
                            0 => m / 3,
                            1 => (m + 2) / 3,
                            _ => c.below(45),
                        };
                        let spoil = if c.pct(15) { c.below(chars + 1) } else { chars };
                        let tail9 = c.pct(40);
                        let mut text = String::new();
                        for i in 0..chars {
                            let ch = if i == spoil {
                                *c.pick(&['8', 'a', '@', '[', ' ', 'é', '0'])
                            } else if tail9 && 3 * i + 3 > m {
                                *c.pick(&['9', 'A', 'Z', 'C', 'Y', 'X'])
                            } else {
                                "9ABCDEFGHIJKLMNOPQRSTUVWXYZ".as_bytes()[c.below(27)] as char
                            };
                            text.push(ch);
                        }
                        // what fits is written, what does not fit must be zero
                        let mut want: Option<Tv> = Some(vec![]);
                        for ch in text.chars() {
                            let t = "9ABCDEFGHIJKLMNOPQRSTUVWXYZ".find(ch);
                            want = match (want, t) {
                                (Some(mut w), Some(t)) => {
                                    w.extend(put_int(if t > 13 { t as i64 - 27 } else { t as i64 }, 3));
                                    Some(w)
                                }
                                _ => None,
                            };
                        }
                        if let Some(w) = &want {
                            if w.len() > m && w[m..].iter().any(|x| *x != 0) {
                                want = None;
                            }
                        }
                        let one = chars == 1 && c.below(2) == 0;
                        let sy = a.m(c, y);
                        let ok = if one { sy.put_char(text.chars().next().unwrap()) } else { sy.from_str(&text) };
                        what = format!("text of {} characters to {:?}: {}", chars, y, ok);
                        c.check(ok == want.is_some(), &["M01"], "text-accepted", || format!("{} {:?}", what, text));
                        match want {
                            Some(mut w) => {
                                let old = a.get(y);
                                w.truncate(m);
                                w.extend(&old[w.len()..]);
                                a.put(y, &w);
                            }
                            None => {
                                // what a refused text leaves in its own region is open
                                let w = a.mem[y.at..y.end()].to_vec();
                                a.put(y, &w);
                                c.fault("text-refused");
                            }
                        }
                        outs = vec![y];
                    }
                    10 => {
                        // text out of a region
                        let m = if c.below(3) == 0 { c.below(8) } else { c.below(200) };
                        let x = a.region(c, m, &anchor);
                        let v = a.get(x);
                        let sx = a.s(c, x);
                        let t = if c.below(2) == 0 { sx.to_str() } else { format!("{}", sx) };
                        let mut w = v.clone();
                        while w.len() % 3 != 0 {
                            w.push(0);
                        }
                        let w: String = w.chunks(3).map(|q| "9ABCDEFGHIJKLMNOPQRSTUVWXYZ".as_bytes()[get_int(q).rem_euclid(27) as usize] as char).collect();
                        c.check(t == w, &["M01"], "text-of-region", || format!("{:?} is {} instead of {}", x, t, w));
                        what = format!("text of {:?}", x);
                    }
                    11 => {
                        let y = a.region(c, n, &anchor);
                        let t = c.below(3) as u8;
                        a.m(c, y).set_trit(t);
                        a.put(y, &vec![t; n]);
                        what = format!("fill {:?} with {}", y, t);
                        outs = vec![y];
                    }
                    12 => {
                        // single trits and trytes, the prefix of a larger region
                        let m = size(c, 60);
                        let y = a.region(c, m, &anchor);
                        let mut w = a.get(y);
                        let k = c.below(m + 1);
                        let v = rdata(c, k);
                        let sy = a.m(c, y);
                        match c.below(3) {
                            0 => {
                                sy.put_trits(&v);
                                w[..k].copy_from_slice(&v);
                                let mut back = vec![1; k];
                                a.s(c, y).get_trits(&mut back);
                                c.check(back == v, &["M01"], "trits-read-back", || format!("{:?}", y));
                            }
                            1 => {
                                let u: Vec<i8> = v.iter().map(|x| if *x == 2 { -1 } else { *x as i8 }).collect();
                                sy.put1s(&u);
                                w[..k].copy_from_slice(&v);
                                let mut back = vec![1; k];
                                a.s(c, y).get1s(&mut back);
                                c.check(back == u, &["M01"], "trits-read-back", || format!("{:?}", y));
                            }
                            _ if m >= 3 => {
                                let t = c.below(27) as u8;
                                sy.put_tryte(t);
                                let q = [t % 3, t / 3 % 3, t / 9];
                                w[..3].copy_from_slice(&q);
                                let back = a.s(c, y).get_tryte();
                                c.check(back == t, &["M01"], "trits-read-back", || format!("{:?}: {} became {}", y, t, back));
                            }
                            _ => {}
                        }
                        a.put(y, &w);
                        what = format!("put {} trits to {:?}", k, y);
                        outs = vec![y];
                    }
                    0 => {
                        let x = a.region(c, n, &anchor);
                        let y = a.region(c, n, &[x]);
                        let v = a.get(x);
                        let (sx, sy) = (a.s(c, x), a.m(c, y));
                        sx.copy(sy);
                        a.put(y, &v);
                        what = format!("copy {:?} to {:?}", x, y);
                        outs = vec![y];
                    }
                    1 => {
                        let y = a.region(c, n, &anchor);
                        a.m(c, y).set_zero();
                        a.put(y, &vec![0; n]);
                        what = format!("zero {:?}", y);
                        outs = vec![y];
                    }
                    2 => {
                        let y = a.region(c, n, &anchor);
                        let mut v = a.get(y);
                        let ok = a.m(c, y).inc();
                        let mut carry = true;
                        for t in v.iter_mut() {
                            if carry {
                                *t = (*t + 1) % 3;
                                carry = *t == 0;
                            }
                        }
                        a.put(y, &v);
                        c.check(ok == !carry, &["M01", "K03"], "increment", || format!("{:?}", y));
                        what = format!("increment {:?}", y);
                        outs = vec![y];
                    }
                    3 => {
                        let w = *c.pick(&[3usize, 6, 9, 18]);
                        let y = a.region(c, w, &anchor);
                        let max = (3i64.pow(w as u32) - 1) / 2;
                        let x = c.draw(2 * max as u64 + 1) as i64 - max;
                        let m = a.m(c, y);
                        match w {
                            3 => m.put3(x as i8),
                            6 => m.put6(x as i16),
                            9 => m.put9(x as i16),
                            _ => m.put18(x as i32),
                        }
                        a.put(y, &put_int(x, w));
                        let sl = a.s(c, y);
                        let z = match w {
                            3 => sl.get3() as i64,
                            6 => sl.get6() as i64,
                            9 => sl.get9() as i64,
                            _ => sl.get18() as i64,
                        };
                        c.check(z == x, &["M01", "W01"], "integer-read-back", || format!("{} became {}", x, z));
                        what = format!("put integer to {:?}", y);
                        outs = vec![y];
                    }
                    4 | 5 => {
                        // the sum of a region and a state, out of place
                        let x = a.region(c, n, &anchor);
                        let s = a.region(c, n, &[x]);
                        let y = a.region(c, n, &[x, s]);
                        let (vx, vs) = (a.get(x), a.get(s));
                        let sub = c.below(2) == 0;
                        let (sx, sst, sy) = (a.s(c, x), a.m(c, s), a.m(c, y));
                        let w: Tv = if sub {
                            sx.copy_sub(sst, sy);
                            vx.iter().zip(&vs).map(|(x, s)| (x + 3 - s) % 3).collect()
                        } else {
                            sx.copy_add(sst, sy);
                            vx.iter().zip(&vs).map(|(x, s)| (x + s) % 3).collect()
                        };
                        a.put(y, &w);
                        a.put(s, if sub { &w } else { &vx });
                        what = format!("{} {:?} {:?} to {:?}", if sub { "subtract" } else { "add" }, x, s, y);
                        outs = vec![y, s];
                    }
                    6 => {
                        let x = a.region(c, n, &anchor);
                        let s = a.region(c, n, &[x]);
                        let (vx, vs) = (a.get(x), a.get(s));
                        let sub = c.below(2) == 0;
                        let (sx, sst) = (a.m(c, x), a.m(c, s));
                        let w: Tv = if sub {
                            sx.swap_sub(sst);
                            vx.iter().zip(&vs).map(|(x, s)| (x + 3 - s) % 3).collect()
                        } else {
                            sx.swap_add(sst);
                            vx.iter().zip(&vs).map(|(x, s)| (x + s) % 3).collect()
                        };
                        a.put(x, &w);
                        a.put(s, if sub { &w } else { &vx });
                        what = format!("{} {:?} {:?} in place", if sub { "subtract" } else { "add" }, x, s);
                        outs = vec![x, s];
                    }
                    7 => {
                        let m = 1 + c.below(90);
                        let x = a.region(c, m, &anchor);
                        let y = a.region(c, n, &[x]);
                        let v = a.get(x);
                        let (sx, sy) = (a.s(c, x), a.m(c, y));
                        sy.cycle(sx);
                        a.put(y, &v.iter().cycle().cloned().take(n).collect::<Tv>());
                        what = format!("repeat {:?} over {:?}", x, y);
                        outs = vec![y];
                    }
                    _ => {
                        // positions of slices
                        let x = a.region(c, n.max(1), &anchor);
                        let y = match c.below(3) {
                            0 => x,
                            1 => a.region(c, 1 + n / 2, &[x]),
                            _ => a.region(c, 1 + n / 2, &[]),
                        };
                        let (sx, sy) = (a.s(c, x), a.s(c, y));
                        let (mx, my) = (a.m(c, x), a.m(c, y));
                        let same = (sx.is_same(sy), mx.is_same(my));
                        let over = (sx.is_overlapped(sy), mx.is_overlapped(my));
                        c.check(same == (x.at == y.at, x.at == y.at), &["M01"], "is-same", || format!("{:?} {:?}: {:?}", x, y, same));
                        c.check(over == (x.meets(y), x.meets(y)), &["M01"], "is-overlapped", || format!("{:?} {:?}: {:?}", x, y, over));
                        what = format!("positions {:?} {:?}", x, y);
                    }
                }
                near.extend(&outs);
            }
            10 => {
                // signing into the buffer and recovering from it
                let e = &envs[0];
                if e.mss.is_empty() {
                    continue;
                }
                let h = a.region(c, 234, &anchor);
                let hv = a.get(h);
                let sk = &e.mss[0].0;
                let n = mss::sig_size(sk.height());
                let y = a.region(c, n, &[h]);
                let (sh, sy) = (a.s(c, h), a.m(c, y));
                sk.sign(sh, sy);
                let mut o = Trits::zero(n);
                sk.sign(slice(&hv), o.slice_mut());
                a.put(y, &from_trits(&o));
                a.verify(c, &format!("sign {:?} to {:?}", h, y), &[y]);
                let p = a.region(c, 243, &[h, y]);
                let (sh, sy, sp) = (a.s(c, h), a.s(c, y), a.m(c, p));
                let used = mss::recover(sp, sh, sy);
                c.check(used == Some(n), &["M01", "S04"], "recover-size", || format!("{:?}", used));
                a.put(p, &e.mss[0].1.pk());
                what = format!("recover from {:?} to {:?}", y, p);
                outs = vec![p];
                near.push(y);
                near.push(p);
            }
            11 => {
                // encapsulation
                let e = &envs[0];
                if e.ntru.is_empty() {
                    continue;
                }
                let i = c.below(2);
                let x = a.region(c, 243, &anchor);
                let nn = c.below(90);
                let q = a.region(c, nn, &[x]);
                let y = a.region(c, 9216, &[x, q]);
                let (kv, nv) = (a.get(x), a.get(q));
                let (sx, sq, sy) = (a.s(c, x), a.s(c, q), a.m(c, y));
                let rd = ss[k].shared.fork();
                e.ntru[i].1.encr_with_s(&mut ss[k].shared, &prng, sq, sx, sy);
                let mut o = Trits::zero(9216);
                e.ntru[i].1.encr_with_s(&mut ss[k].twin, &prng, slice(&nv), slice(&kv), o.slice_mut());
                a.put(y, &from_trits(&o));
                a.verify(c, &format!("encapsulate {:?} to {:?}", x, y), &[y]);
                let z = a.region(c, 243, &[y]);
                let (sy, sz) = (a.s(c, y), a.m(c, z));
                let mut rd = rd;
                let ok = e.ntru[i].0.decr_with_s(&mut rd, sy, sz);
                c.check(ok, &["M01", "K01"], "decapsulate", || "own capsule refused".into());
                a.put(z, &kv);
                what = format!("decapsulate {:?} to {:?}", y, z);
                outs = vec![z];
                near.push(y);
                near.push(z);
            }
            _ => {
                // one-time keys and public keys received from the buffer
                if big && c.below(2) == 0 {
                    let h = a.region(c, 234, &anchor);
                    let hv = a.get(h);
                    let sk = wots::PrivateKey::gen(&prng, &[slice(&hv)]);
                    let y = a.region(c, wots::SIG_SIZE, &[h]);
                    let (sh, sy) = (a.s(c, h), a.m(c, y));
                    sk.sign(sh, sy);
                    let mut o = Trits::zero(wots::SIG_SIZE);
                    sk.sign(slice(&hv), o.slice_mut());
                    a.put(y, &from_trits(&o));
                    a.verify(c, &format!("one-time signature of {:?} to {:?}", h, y), &[y]);
                    let p = a.region(c, 243, &[y]);
                    sk.calc_pk(a.m(c, p));
                    let mut o = Trits::zero(243);
                    sk.calc_pk(o.slice_mut());
                    a.put(p, &from_trits(&o));
                    what = format!("one-time public key to {:?}", p);
                    outs = vec![p];
                } else {
                    let x = a.region(c, 243, &anchor);
                    let v = a.get(x);
                    let sx = a.s(c, x);
                    let t = sx.clone_trits();
                    c.check(from_trits(&t) == v, &["M01"], "clone", || format!("{:?}", x));
                    let cut = 1 + c.below(100);
                    let ch = sx.chunks(cut);
                    let j: Tv = ch.iter().flat_map(|t| from_trits(t)).collect();
                    c.check(j == v, &["M01"], "chunks", || format!("{:?} in pieces of {}", x, cut));
                    what = format!("clone {:?}", x);
                }
            }
        }
        c.log(format!("{}: session {} {}", step, k, what));
        a.verify(c, &what, &outs);
        c.state(h2(kind as u64, h2(outs.first().map(|r| r.at).unwrap_or(0) as u64, n as u64)));
    }
    for (i, s) in ss.iter().enumerate() {
        let (x, y) = (fp(&s.shared), fp(&s.twin));
        c.check(x == y, &["M01", "D01"], "session-state", || format!("session {} ended in another state than its private twin", i));
    }
}
