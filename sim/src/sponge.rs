//! Sponge sessions: fragmentation and interleaving (D01), lockstep peers over a faulty
//! channel (D02), save/crash/restore (D03), forks and joins (D04).

use crate::refm;
use crate::rt::*;
use crate::util::*;
use iota_mam::spongos::{self, Spongos, CAPACITY, RATE};
use iota_mam::trits::{TritSlice, TritSliceMut, Trits};

#[derive(Clone, Debug)]
pub enum Op {
    Absorb(Tv),
    Squeeze(usize),
    Encr(Tv),
    Decr(Tv),
    Commit,
    Eq(usize),
}

impl Op {
    pub fn len(&self) -> usize {
        match self {
            Op::Absorb(x) | Op::Encr(x) | Op::Decr(x) => x.len(),
            Op::Squeeze(n) | Op::Eq(n) => *n,
            Op::Commit => 0,
        }
    }
    pub fn name(&self) -> String {
        match self {
            Op::Absorb(x) => format!("absorb {}", hex(x)),
            Op::Encr(x) => format!("encr {}", hex(x)),
            Op::Decr(x) => format!("decr {}", hex(x)),
            Op::Squeeze(n) => format!("squeeze {}", n),
            Op::Eq(n) => format!("squeeze_eq {}", n),
            Op::Commit => "commit".into(),
        }
    }
}

/// `pos` tracks the offset in the block so that sizes can aim at the block boundary.
pub fn gen_op(c: &mut Ctx, pos: &mut usize, max: usize, w: &[u64; 6]) -> Op {
    let k = c.weighted(w);
    let n = if k == 4 {
        0
    } else if c.pct(30) {
        // exactly at, one before or one after a block boundary
        let to_end = RATE - *pos;
        let base = to_end + RATE * c.below(2);
        (base + c.below(3)).saturating_sub(1).min(max)
    } else {
        size(c, max)
    };
    let op = match k {
        0 => Op::Absorb(data(c, n)),
        1 => Op::Squeeze(n),
        2 => Op::Encr(data(c, n)),
        3 => Op::Decr(data(c, n)),
        4 => Op::Commit,
        _ => Op::Eq(n),
    };
    if let Op::Commit = op {
        *pos = 0;
    } else {
        *pos = (*pos + n) % RATE;
    }
    op
}

/// Runs an operation in one call; returns its output (for `Eq`: the squeezed trits, taken from a copy).
pub fn whole(s: &mut Spongos, op: &Op) -> Tv {
    match op {
        Op::Absorb(x) => {
            s.absorb(slice(x));
            vec![]
        }
        Op::Squeeze(n) | Op::Eq(n) => {
            let mut y = Trits::zero(*n);
            s.squeeze(y.slice_mut());
            from_trits(&y)
        }
        Op::Encr(x) => {
            let mut y = Trits::zero(x.len());
            s.encr(slice(x), y.slice_mut());
            from_trits(&y)
        }
        Op::Decr(x) => {
            let mut y = Trits::zero(x.len());
            s.decr(slice(x), y.slice_mut());
            from_trits(&y)
        }
        Op::Commit => {
            s.commit();
            vec![]
        }
    }
}

/// One piece of an operation, in one of its forms. Returns the output, and whether comparisons held.
fn piece(c: &mut Ctx, s: &mut Spongos, op: &Op, from: usize, n: usize, expect: &[u8]) -> (Tv, bool) {
    let form = c.below(4);
    let off = if form == 3 { c.below(7) } else { 0 };
    let mut arena = Trits::zero(off + n + 5);
    {
        let m: TritSliceMut = arena.slice_mut();
        m.set_zero();
    }
    match op {
        Op::Absorb(x) => {
            let d = &x[from..from + n];
            match form {
                0 | 1 => s.absorb(slice(d)),
                2 => s.absorb_trits(&to_trits(d)),
                _ => {
                    let m = arena.slice_mut();
                    slice(d).copy(m.drop(off).take(n));
                    s.absorb(m.as_const().drop(off).take(n));
                }
            }
            (vec![], true)
        }
        Op::Squeeze(_) => match form {
            0 | 1 => {
                let mut y = Trits::zero(n);
                s.squeeze(y.slice_mut());
                (from_trits(&y), true)
            }
            2 => (from_trits(&s.squeeze_trits(n)), true),
            _ => {
                s.squeeze(arena.slice_mut().drop(off).take(n));
                (from_slice(arena.slice().drop(off).take(n)), true)
            }
        },
        Op::Eq(_) => {
            let e = &expect[from..from + n];
            // now and then a copy compares a tag that must not be equal
            let mut bad = false;
            if n > 0 && c.pct(15) {
                let mut t = e.to_vec();
                c.fault("wrong-tag");
                for _ in 0..1 + c.below(3) {
                    let i = match c.below(3) {
                        0 => 0,
                        1 => n - 1,
                        _ => c.below(n),
                    };
                    t[i] = (e[i] + 1 + c.below(2) as u8) % 3;
                }
                let mut f = s.fork();
                bad = if c.below(2) == 0 { f.squeeze_eq_trits(&to_trits(&t)) } else { f.squeeze_eq(slice(&t)) };
            }
            let ok = if form == 2 { s.squeeze_eq_trits(&to_trits(e)) } else { s.squeeze_eq(slice(e)) };
            (e.to_vec(), ok && !bad)
        }
        Op::Encr(x) | Op::Decr(x) => {
            let enc = matches!(op, Op::Encr(_));
            let d = &x[from..from + n];
            match form {
                0 => {
                    let mut y = Trits::zero(n);
                    if enc {
                        s.encr(slice(d), y.slice_mut())
                    } else {
                        s.decr(slice(d), y.slice_mut())
                    }
                    (from_trits(&y), true)
                }
                1 => {
                    let mut y = to_trits(d);
                    if enc {
                        s.encr_mut_trits(&mut y)
                    } else {
                        s.decr_mut_trits(&mut y)
                    }
                    (from_trits(&y), true)
                }
                2 => {
                    let y = if enc { s.encr_trits(&to_trits(d)) } else { s.decr_trits(&to_trits(d)) };
                    (from_trits(&y), true)
                }
                _ => {
                    // in place at an offset of a larger buffer
                    let m = arena.slice_mut();
                    slice(d).copy(m.drop(off).take(n));
                    let w = m.drop(off).take(n);
                    if enc {
                        s.encr(w.as_const(), w)
                    } else {
                        s.decr(w.as_const(), w)
                    }
                    (from_slice(arena.slice().drop(off).take(n)), true)
                }
            }
        }
        Op::Commit => {
            s.commit();
            (vec![], true)
        }
    }
}

fn frag(c: &mut Ctx, left: usize, pos: usize) -> usize {
    let n = match c.weighted(&[3, 2, 2, 1, 2]) {
        0 => left,
        1 => 1 + c.below(left.max(1)),
        2 => RATE - pos, // exactly to the block boundary
        3 => 0,
        _ => 1 + c.below(9),
    };
    n.min(left)
}

// ------------------------------------------------------------------------ D01

pub fn d01(c: &mut Ctx) {
    let nsess = 1 + c.below(4);
    let max = if c.pct(15) { 4000 } else { 1200 };
    struct Sess {
        ops: Vec<Op>,
        want: Vec<Tv>,
        fps: Vec<Tv>,
        s: Spongos,
        at: usize,
        from: usize,
        got: Tv,
        eq: bool,
        pos: usize,
        restarts: usize,
    }
    let mut ss: Vec<Sess> = Vec::new();
    for k in 0..nsess {
        let nops = 1 + c.below(12);
        let mut pos = 0;
        let mut ops = Vec::new();
        for _ in 0..nops {
            ops.push(gen_op(c, &mut pos, max, &[4, 3, 3, 3, 2, 2]));
        }
        let mut r = Spongos::init();
        let want: Vec<Tv> = ops.iter().map(|o| whole(&mut r, o)).collect();
        // fingerprint after every operation, from an isolated replica
        let mut r = Spongos::init();
        let mut fps = Vec::new();
        for o in &ops {
            whole(&mut r, o);
            fps.push(fp(&r));
        }
        c.log(format!("session {}: {}", k, ops.iter().map(|o| o.name()).collect::<Vec<_>>().join("; ")));
        ss.push(Sess { ops, want, fps, s: Spongos::init(), at: 0, from: 0, got: vec![], eq: true, pos: 0, restarts: 0 });
    }
    let mut live: Vec<usize> = (0..nsess).collect();
    let mut steps = 0;
    while !live.is_empty() && steps < 3000 {
        steps += 1;
        c.now += 1;
        let li = c.below(live.len());
        let k = live[li];
        let x = &mut ss[k];
        if x.restarts < 2 && c.pct(1) {
            // crash of the session; it starts over with other fragments
            c.fault("session-crash-restart");
            x.s = Spongos::init();
            x.at = 0;
            x.from = 0;
            x.got.clear();
            x.eq = true;
            x.pos = 0;
            x.restarts += 1;
            c.log(format!("session {} crashes and starts over", k));
            continue;
        }
        let op = x.ops[x.at].clone();
        let left = op.len() - x.from;
        let n = frag(c, left, x.pos);
        if n == 0 && left > 0 {
            c.fault("empty-fragment");
        } else if n < left {
            c.fault("fragmented-operation");
        }
        if n > 0 && x.pos + n == RATE {
            c.probe("piece-ends-at-block-boundary");
        }
        let (o, eq) = piece(c, &mut x.s, &op, x.from, n, &x.want[x.at]);
        x.got.extend(o);
        x.eq &= eq;
        x.from += n;
        if !matches!(op, Op::Commit) {
            x.pos = (x.pos + n) % RATE;
        } else {
            x.pos = 0;
        }
        c.mixin(h2(k as u64, n as u64));
        let (at, pos) = (x.at, x.pos);
        c.state(h2(h2(k as u64, at as u64), pos as u64));
        if x.from == op.len() {
            let (got, eq) = (std::mem::take(&mut x.got), x.eq);
            let want = x.want[at].clone();
            let f = fp(&x.s);
            let wf = x.fps[at].clone();
            c.log(format!("session {} finished {} -> {}", k, op.name(), hex(&got)));
            c.check(eq, &["D01"], "compare-failed", || format!("session {} op {} ({}): comparison in pieces came out wrong", k, at, op.name()));
            c.check(got == want, &["D01"], "output-differs", || format!("session {} op {} ({}): pieces give other output than one call", k, at, op.name()));
            c.check(f == wf, &["D01"], "state-differs", || format!("session {} op {} ({}): pieces leave another state than one call", k, at, op.name()));
            let x = &mut ss[k];
            x.at += 1;
            x.from = 0;
            x.eq = true;
            if x.at == x.ops.len() {
                live.swap_remove(li);
            }
        }
    }
    one_call_hash(c);
}

/// The one-call hash of a piece or a list of pieces against the calls it
/// stands for: absorb everything, commit, squeeze; chained, as hash chains
/// and trees chain it (in place, too).
fn one_call_hash(c: &mut Ctx) {
    let n = match c.below(4) {
        0 => 162,
        1 => 486,
        _ => c.below(1100),
    };
    let m = match c.below(4) {
        0 => 162,
        1 => 234,
        _ => 1 + c.below(1000),
    };
    let x = rdata(c, n);
    let direct = |x: &[u8], m: usize| {
        let mut s = Spongos::init();
        s.absorb(slice(x));
        s.commit();
        from_trits(&s.squeeze_trits(m))
    };
    let want = direct(&x, m);
    let mut y = to_trits(&rdata(c, m));
    spongos::hash_data(slice(&x), y.slice_mut());
    c.check(from_trits(&y) == want, &["D01"], "one-call-hash", || format!("hash of {} trits into {} is not absorb, commit, squeeze", n, m));
    let mut cut = vec![];
    let mut at = 0;
    while at < n && cut.len() < 5 {
        let k = c.below(n - at + 1);
        cut.push((at, at + k));
        at += k;
    }
    cut.push((at, n));
    let parts: Vec<TritSlice> = cut.iter().map(|&(i, j)| slice(&x[i..j])).collect();
    let mut y = to_trits(&rdata(c, m));
    spongos::hash_datas(&parts, y.slice_mut());
    c.check(from_trits(&y) == want, &["D01"], "one-call-hash", || format!("hash of {} pieces, {} trits into {}, is not absorb, commit, squeeze", parts.len(), n, m));
    c.fault("fragmented-hash");
    // a chain, each link replacing the last
    let mut v = x.clone();
    let mut z = to_trits(&x);
    for i in 0..1 + c.below(4) {
        v = direct(&v, n);
        let zs = z.slice_mut();
        spongos::hash_data(zs.as_const(), zs);
        c.check(from_trits(&z) == v, &["D01"], "one-call-hash", || format!("link {} of a chain over {} trits differs", i, n));
    }
}

// ------------------------------------------------------------------------ D02

pub fn d02(c: &mut Ctx) {
    let faulty = c.pct(70);
    let nops = 3 + c.below(14);
    let max = if c.pct(10) { 4000 } else { 1100 };
    let mut a = Spongos::init();
    let mut b = Spongos::init();
    // shared key
    let key = rdata(c, 243);
    let mut kb = key.clone();
    // where the (first) fault hits
    let fault_at = if faulty { c.below(nops + 1) } else { usize::MAX };
    let mut diverged = false; // inputs differed
    let mut effective = false; // and a commit has happened since
    let mut pending_skip = 0usize; // a skipped commit becomes effective only with later data
    if fault_at == nops {
        let n = kb.len();
        let i = c.below(n);
        kb[i] = (kb[i] + 1 + c.below(2) as u8) % 3;
        diverged = true;
        c.fault("key-trit-differs");
        c.log(format!("peer B's key differs in trit {}", i));
    }
    a.absorb(slice(&key));
    b.absorb(slice(&kb));
    a.commit();
    b.commit();
    if diverged {
        effective = true;
    }
    let mut pos = 0usize;
    for i in 0..nops {
        c.now += 1;
        let hit = i == fault_at;
        let n = if c.pct(30) { (RATE - pos + c.below(3)).saturating_sub(1) } else { size(c, max) };
        let kind = c.weighted(&[3, 4, 2, 2, 4]);
        if pending_skip == 1 && kind < 3 && n > 0 {
            // data on both sides of the missed commit: from here on the peers differ
            pending_skip = 2;
            diverged = true;
        }
        match kind {
            0 => {
                let x = data(c, n);
                let mut y = x.clone();
                if hit && n > 0 && c.below(2) == 0 {
                    let k = c.below(n);
                    y[k] = (y[k] + 1 + c.below(2) as u8) % 3;
                    diverged = true;
                    c.fault("absorbed-trit-differs");
                }
                a.absorb(slice(&x));
                b.absorb(slice(&y));
                pos = (pos + n) % RATE;
                c.log(format!("absorb {} / {}", hex(&x), hex(&y)));
            }
            1 => {
                let x = data(c, n);
                let a_to_b = c.below(2) == 0;
                let (p, q) = if a_to_b { (&mut a, &mut b) } else { (&mut b, &mut a) };
                let mut y = from_trits(&p.encr_trits(&to_trits(&x)));
                if hit && n > 0 {
                    let k = c.below(n);
                    y[k] = (y[k] + 1 + c.below(2) as u8) % 3;
                    diverged = true;
                    c.fault("masked-trit-flipped-in-transit");
                }
                let z = if c.below(2) == 0 {
                    from_trits(&q.decr_trits(&to_trits(&y)))
                } else {
                    let mut t = to_trits(&y);
                    q.decr_mut_trits(&mut t);
                    from_trits(&t)
                };
                c.log(format!("mask {} -> {}", hex(&x), hex(&y)));
                if !diverged {
                    c.check(z == x, &["D02"], "plaintext-not-recovered", || format!("op {}: peer recovered {} instead of {}", i, hex(&z), hex(&x)));
                } else if hit && !effective && pending_skip == 0 {
                    c.check(z != x, &["D02"], "altered-ciphertext-same-plaintext", || format!("op {}", i));
                }
                pos = (pos + n) % RATE;
            }
            2 => {
                let ya = from_trits(&a.squeeze_trits(n));
                let yb = from_trits(&b.squeeze_trits(n));
                c.log(format!("squeeze {} / {}", hex(&ya), hex(&yb)));
                if !diverged {
                    c.check(ya == yb, &["D02"], "output-differs", || format!("op {}: peers in lockstep squeezed different trits", i));
                }
                pos = (pos + n) % RATE;
            }
            3 => {
                if hit && pos != 0 && RATE - pos >= 81 && pending_skip == 0 && !diverged {
                    // (nearer to the end of the block, the data absorbed next may by chance
                    // equal the few trits it overwrites, and the peers stay in step)
                    // one peer misses a commit boundary
                    if c.below(2) == 0 {
                        a.commit()
                    } else {
                        b.commit()
                    }
                    pending_skip = 1;
                    c.fault("commit-missed-by-one-peer");
                    c.log("commit by one peer only".into());
                    // positions differ from now on; `pos` only steers sizes
                } else {
                    a.commit();
                    b.commit();
                    pos = 0;
                    if pending_skip == 1 {
                        // commit directly after the missed one: both have committed the same data
                        pending_skip = 0;
                    }
                    effective |= diverged;
                    c.log("commit".into());
                }
            }
            _ => {
                // tag, as in the MAC: commit, squeeze
                a.commit();
                b.commit();
                pos = 0;
                if pending_skip == 1 {
                    pending_skip = 0;
                }
                effective |= diverged;
                let n = 81 + size(c, max);
                let mut t = from_trits(&a.squeeze_trits(n));
                pos = (pos + n) % RATE;
                let mut flipped = false;
                if hit && !diverged {
                    let k = if c.pct(30) { n - 1 - c.below(3) } else { c.below(n) };
                    t[k] = (t[k] + 1 + c.below(2) as u8) % 3;
                    flipped = true;
                    c.fault("tag-trit-flipped-in-transit");
                    c.log(format!("tag trit {} of {} flipped", k, n));
                }
                let ok = if c.below(2) == 0 { b.squeeze_eq(slice(&t)) } else { b.squeeze_eq_trits(&to_trits(&t)) };
                c.log(format!("tag {} compared: {}", hex(&t), ok));
                if effective || flipped {
                    c.probe("tag-after-difference");
                    c.check(!ok, &["D02"], "tag-accepted-despite-difference", || {
                        format!("op {}: a tag of {} trits compares equal although {}", i, n, if flipped { "one of its trits was altered" } else { "the peers processed different data" })
                    });
                } else {
                    c.check(ok, &["D02"], "tag-rejected", || format!("op {}: a tag of {} trits between peers in lockstep was rejected", i, n));
                }
                // the tag comparison itself must leave both in the same state
            }
        }
        c.state(h2(h2(pos as u64, diverged as u64), h2(effective as u64, i as u64)));
    }
    // final fingerprints
    a.commit();
    b.commit();
    let (fa, fb) = (fp(&a), fp(&b));
    if diverged {
        c.check(fa[..81] != fb[..81] && fa[500..] != fb[500..], &["D02"], "same-state-despite-difference", || "peers that processed different data ended in the same state".into());
    } else {
        c.check(fa == fb, &["D02"], "states-differ", || "peers that processed the same data ended in different states".into());
    }
}

// ------------------------------------------------------------------------ D03

pub fn d03(c: &mut Ctx) {
    // directed: 0 = continuation that starts with a full block of absorbed data, 1 = any continuation
    let any_cont = c.below(2) == 1;
    let gens = 1 + c.below(4);
    let mut orig = Spongos::init();
    let mut shadow = Spongos::init(); // never saved
    let mut restored: Vec<Spongos> = vec![Spongos::init()];
    let mut pos = 0;
    let run = |c: &mut Ctx, op: &Op, orig: &mut Spongos, shadow: &mut Spongos, rest: &mut Vec<Spongos>, what: &str| {
        let o = whole(orig, op);
        let s = whole(shadow, op);
        c.check(o == s, &["D03"], "saving-disturbs", || format!("{}: a sponge that was saved gives other output than one that was not ({})", what, op.name()));
        for (k, r) in rest.iter_mut().enumerate() {
            let x = if c.below(2) == 0 { whole(r, op) } else {
                // the restored node runs the operation in two pieces
                let n = op.len();
                let a = if n == 0 { 0 } else { c.below(n + 1) };
                let mut out = vec![];
                match op {
                    Op::Absorb(d) => { r.absorb(slice(&d[..a])); r.absorb(slice(&d[a..])); }
                    Op::Squeeze(_) => { out = from_trits(&r.squeeze_trits(a)); out.extend(from_trits(&r.squeeze_trits(n - a))); }
                    Op::Encr(d) => { out = from_trits(&r.encr_trits(&to_trits(&d[..a]))); out.extend(from_trits(&r.encr_trits(&to_trits(&d[a..])))); }
                    Op::Decr(d) => { out = from_trits(&r.decr_trits(&to_trits(&d[..a]))); out.extend(from_trits(&r.decr_trits(&to_trits(&d[a..])))); }
                    _ => out = whole(r, op),
                }
                out
            };
            c.check(x == o, &["D03"], "restored-output-differs", || format!("{}: restored sponge {} gives other output than the uninterrupted one ({})", what, k, op.name()));
        }
    };
    for g in 0..gens {
        c.now += 10;
        // history up to a committed point
        let n = c.below(6);
        for _ in 0..n {
            let op = gen_op(c, &mut pos, 1500, &[4, 3, 3, 3, 2, 0]);
            c.log(format!("gen {}: {}", g, op.name()));
            run(c, &op, &mut orig, &mut shadow, &mut restored, "history");
        }
        orig.commit();
        shadow.commit();
        for r in restored.iter_mut() {
            r.commit();
        }
        pos = 0;
        // save, crash, restore (one or two copies)
        let src = c.below(restored.len() + 1);
        let rec = {
            let s = if src == 0 { &orig } else { &restored[src - 1] };
            match c.below(3) {
                0 => s.to_inner_trits(),
                1 => {
                    let mut t = Trits::zero(CAPACITY);
                    s.to_inner(t.slice_mut());
                    t
                }
                _ => {
                    // saved into the middle of a larger record
                    let off = c.below(20);
                    let mut t = to_trits(&vec![2u8; CAPACITY + off + 7]);
                    s.to_inner(t.slice_mut().drop(off).take(CAPACITY));
                    let v = from_trits(&t);
                    c.check(v[..off].iter().all(|x| *x == 2) && v[off + CAPACITY..].iter().all(|x| *x == 2), &["D03", "M01"], "save-writes-outside", || "saving wrote outside of its record".into());
                    to_trits(&v[off..off + CAPACITY])
                }
            }
        };
        let rec2 = orig.to_inner_trits();
        c.check(rec == rec2, &["D03"], "record-differs", || "equal sponges save different records".into());
        c.fault("crash-after-save");
        let copies = 1 + c.below(2);
        restored.clear();
        for _ in 0..copies {
            restored.push(if c.below(2) == 0 { Spongos::from_inner_trits(&rec) } else { Spongos::from_inner(rec.slice()) });
        }
        c.log(format!("gen {}: saved {}, crashed, restored {} copies", g, hex(&from_trits(&rec)), copies));
        let again = restored[0].to_inner_trits();
        c.check(again == rec, &["D03"], "record-not-stable", || "a restored sponge saves another record than the one it came from".into());
        if any_cont && g == gens - 1 {
            unsafe_continuation(c, &orig, &restored, &from_trits(&rec));
            return;
        }
        // continuation that replaces the whole outer part first
        let n = RATE + c.below(600);
        let op = Op::Absorb(data(c, n));
        pos = n % RATE;
        c.log(format!("gen {}: {}", g, op.name()));
        run(c, &op, &mut orig, &mut shadow, &mut restored, "continuation");
        let k = c.below(5);
        for _ in 0..k {
            let op = gen_op(c, &mut pos, 1500, &[3, 3, 3, 3, 2, 0]);
            c.log(format!("gen {}: {}", g, op.name()));
            run(c, &op, &mut orig, &mut shadow, &mut restored, "continuation");
        }
        let f = fp(&orig);
        for r in &restored {
            let fr = fp(r);
            c.check(fr == f, &["D03"], "restored-state-differs", || "restored sponge ends in another state".into());
        }
        let s = h2(g as u64, pos as u64);
        c.state(s);
    }
}

/// Any continuation. Until a full block has been absorbed, a restored sponge works on zeros in
/// place of the outer trits (known finding KF1); anything but exactly that is a violation.
fn unsafe_continuation(c: &mut Ctx, orig: &Spongos, restored: &[Spongos], rec: &[u8]) {
    let mut o = orig.fork();
    let mut rs: Vec<Spongos> = restored.iter().map(|r| r.fork()).collect();
    let mut model = refm::Sponge::from_inner(rec);
    let mut pos = 0;
    let k = 1 + c.below(5);
    let mut differs = None;
    for i in 0..k {
        let op = gen_op(c, &mut pos, 1100, &[2, 3, 3, 3, 2, 0]);
        let want = whole(&mut o, &op);
        let m = match &op {
            Op::Absorb(x) => {
                model.absorb(x);
                vec![]
            }
            Op::Squeeze(n) | Op::Eq(n) => model.squeeze(*n),
            Op::Encr(x) => model.encr(x),
            Op::Decr(x) => model.decr(x),
            Op::Commit => {
                model.commit();
                vec![]
            }
        };
        c.log(format!("continuation {}", op.name()));
        for r in rs.iter_mut() {
            let got = whole(r, &op);
            if got == want && differs.is_none() {
                c.evals += 1;
                continue;
            }
            c.check(got == m, &["D03"], "restored-output-differs", || {
                format!("continuation op {} ({}) after restore matches neither the uninterrupted sponge nor the known loss of the outer trits", i, op.name())
            });
            differs.get_or_insert(op.name());
        }
    }
    if let Some(n) = differs {
        c.probe("known-outer-loss");
        c.known("KF1", format!("a sponge restored from its saved inner part continues with zeros in place of the outer trits until a whole block has been absorbed (e.g. {} right after restoring)", n.split(' ').next().unwrap_or("")));
    }
}

// ------------------------------------------------------------------------ D04

#[derive(Clone)]
enum Step {
    Op(Op),
    /// join with a sponge that has the given history
    Join(Vec<Step>),
    /// this sponge was joined into another one: it squeezed 243 trits
    Joined,
}

fn rebuild(steps: &[Step]) -> Spongos {
    let mut s = Spongos::init();
    for st in steps {
        match st {
            Step::Op(o) => {
                whole(&mut s, o);
            }
            Step::Joined => {
                s.squeeze_trits(243);
            }
            Step::Join(h) => {
                let mut j = rebuild(h);
                let x = j.squeeze_trits(243);
                s.absorb_trits(&x);
            }
        }
    }
    s
}

fn flip_somewhere(c: &mut Ctx, h: &mut Vec<Step>) -> bool {
    // one trit of absorbed or encrypted data that was committed before the join squeezes
    let cands: Vec<usize> = h.iter().enumerate().filter(|(_, s)| matches!(s, Step::Op(Op::Absorb(x)) | Step::Op(Op::Encr(x)) if !x.is_empty())).map(|(i, _)| i).collect();
    if cands.is_empty() {
        return false;
    }
    let i = *c.pick(&cands);
    if let Step::Op(Op::Absorb(x)) | Step::Op(Op::Encr(x)) = &mut h[i] {
        let k = c.below(x.len());
        x[k] = (x[k] + 1 + c.below(2) as u8) % 3;
    }
    // A difference reaches what is squeezed once a commit follows it.
    true
}

pub fn d04(c: &mut Ctx) {
    let mut pool: Vec<(Spongos, Vec<Step>, usize)> = vec![(Spongos::init(), vec![], 0)];
    if c.below(2) == 1 {
        pool.push((Spongos::init(), vec![], 0));
    }
    let steps = 4 + c.below(22);
    let max = if c.pct(15) { 1500 } else { 600 };
    for i in 0..steps {
        c.now += 1;
        let k = c.below(pool.len());
        match c.weighted(&[5, 3, 3]) {
            0 => {
                let mut pos = pool[k].2;
                let op = gen_op(c, &mut pos, max, &[4, 2, 3, 2, 3, 0]);
                pool[k].2 = pos;
                // expectation from the logical history alone
                let mut want_s = rebuild(&pool[k].1);
                let want = whole(&mut want_s, &op);
                let got = whole(&mut pool[k].0, &op);
                c.log(format!("#{}: {}", k, op.name()));
                c.check(got == want, &["D04"], "output-differs", || format!("step {}: sponge {} gives another output for {} than its own history determines", i, k, op.name()));
                pool[k].1.push(Step::Op(op));
            }
            1 => {
                if pool.len() < 7 {
                    let f = if c.below(2) == 0 {
                        pool[k].0.fork()
                    } else {
                        // fork into an existing, dirty sponge
                        let mut d = Spongos::init();
                        let n = c.below(500);
                        let junk = rdata(c, n);
                        d.absorb(slice(&junk));
                        if c.below(2) == 0 {
                            d.commit();
                        }
                        pool[k].0.fork_at(&mut d);
                        d
                    };
                    let (h, p) = (pool[k].1.clone(), pool[k].2);
                    pool.push((f, h, p));
                    c.fault("fork");
                    c.log(format!("#{} forks as #{}", k, pool.len() - 1));
                } else {
                    // fork over an existing member
                    let j = c.below(pool.len());
                    if j != k {
                        let (src, h, p) = (pool[k].0.fork(), pool[k].1.clone(), pool[k].2);
                        src.fork_at(&mut pool[j].0);
                        pool[j].1 = h;
                        pool[j].2 = p;
                        c.fault("fork-over");
                        c.log(format!("#{} forks over #{}", k, j));
                    }
                }
            }
            _ => {
                if pool.len() < 2 {
                    continue;
                }
                let mut j = c.below(pool.len() - 1);
                if j >= k {
                    j += 1;
                }
                fn weight(h: &[Step]) -> usize {
                    h.iter().map(|s| if let Step::Join(x) = s { 1 + weight(x) } else { 1 }).sum()
                }
                if weight(&pool[k].1) + weight(&pool[j].1) > 150 {
                    continue;
                }
                // dependence of the joiner on the joinee's history
                let hk = pool[k].1.clone();
                let hj = pool[j].1.clone();
                if hj.len() <= 12 && c.pct(40) {
                    let mut hj2 = hj.clone();
                    // make sure that the difference is committed before the squeeze in both variants
                    let mut h1 = hj.clone();
                    if flip_somewhere(c, &mut hj2) {
                        h1.push(Step::Op(Op::Commit));
                        hj2.push(Step::Op(Op::Commit));
                        let mut x = rebuild(&hk);
                        let mut y = rebuild(&hk);
                        let mut j1 = rebuild(&h1);
                        let mut j2 = rebuild(&hj2);
                        x.join(&mut j1);
                        y.join(&mut j2);
                        x.commit();
                        y.commit();
                        let (a, b) = (x.squeeze_trits(243), y.squeeze_trits(243));
                        c.probe("join-dependence");
                        c.check(a != b, &["D04"], "join-ignores-history", || format!("step {}: joining sponges with different histories gives the same result", i));
                    }
                }
                let (a, b) = if k < j {
                    let (l, r) = pool.split_at_mut(j);
                    (&mut l[k], &mut r[0])
                } else {
                    let (l, r) = pool.split_at_mut(k);
                    (&mut r[0], &mut l[j])
                };
                a.0.join(&mut b.0);
                a.1.push(Step::Join(hj));
                b.1.push(Step::Joined);
                a.2 = (a.2 + 243) % RATE;
                b.2 = (b.2 + 243) % RATE;
                c.fault("join");
                c.log(format!("#{} joins #{}", k, j));
            }
        }
        // every member equals what its own history determines, at random points
        if c.pct(25) || i + 1 == steps {
            for k in 0..pool.len() {
                if pool[k].1.len() > 60 {
                    continue;
                }
                let want = fp(&rebuild(&pool[k].1));
                let got = fp(&pool[k].0);
                c.mixin(hbytes(&got));
                c.check(got == want, &["D04"], "state-differs", || format!("step {}: sponge {} is not in the state its own history determines", i, k));
                let st = h2(h2(k as u64, pool[k].1.len() as u64), pool[k].2 as u64);
                c.state(st);
            }
        }
    }
}

// ------------------------------------------------------------------------ D05

#[derive(Clone, Debug)]
enum HOp {
    Absorb(Tv),
    Finalize,
    Squeeze(usize),
    Reset,
}

/// Hash sponges of several sessions, fed and read in pieces, reused after a reset.
pub fn d05(c: &mut Ctx) {
    use iota_mam::troika::TroikaSponge;
    struct Sess {
        ops: Vec<HOp>,
        want: Vec<Tv>,
        s: TroikaSponge,
        at: usize,
        from: usize,
        got: Tv,
        pos: usize,
        restarts: usize,
    }
    let hsize = |c: &mut Ctx, pos: usize| {
        if c.pct(40) {
            (243 - pos + 243 * c.below(3) + c.below(3)).saturating_sub(1)
        } else {
            size(c, 900)
        }
    };
    let n = 1 + c.below(4);
    let mut ss: Vec<Sess> = Vec::new();
    for k in 0..n {
        let mut r = refm::Digest::new();
        let (mut ops, mut want) = (Vec::new(), Vec::new());
        // whole messages one after the other, or anything
        let orderly = c.pct(60);
        let mut phase = 0;
        for _ in 0..1 + c.below(12) {
            let op = match if orderly { phase } else { c.weighted(&[4, 2, 4, 1]) } {
                0 => {
                    if c.below(2) == 0 {
                        phase = 1;
                    }
                    let m = hsize(c, r.pos());
                    HOp::Absorb(data(c, m))
                }
                1 => {
                    phase = 2;
                    HOp::Finalize
                }
                2 => {
                    if c.below(2) == 0 {
                        phase = 3;
                    }
                    HOp::Squeeze(hsize(c, r.pos()))
                }
                _ => {
                    phase = 0;
                    HOp::Reset
                }
            };
            let mut out = vec![];
            match &op {
                HOp::Absorb(x) => r.absorb(x),
                HOp::Finalize => r.finalize(),
                HOp::Squeeze(m) => out = r.squeeze(*m),
                HOp::Reset => r = refm::Digest::new(),
            }
            ops.push(op);
            want.push(out);
        }
        // what is left in the sponge shows in the end
        ops.push(HOp::Squeeze(243));
        want.push(r.squeeze(243));
        c.log(format!("session {}: {:?}", k, ops.iter().map(|o| match o { HOp::Absorb(x) => format!("absorb {}", hex(x)), o => format!("{:?}", o) }).collect::<Vec<_>>()));
        ss.push(Sess { ops, want, s: TroikaSponge::default(), at: 0, from: 0, got: vec![], pos: 0, restarts: 0 });
    }
    let mut live: Vec<usize> = (0..n).collect();
    while !live.is_empty() {
        c.now += 1;
        let li = c.below(live.len());
        let k = live[li];
        let x = &mut ss[k];
        if x.restarts < 2 && c.pct(2) {
            // the session fails; its work is done again, with a new sponge or the old one made anew
            c.fault("session-crash-restart");
            if c.below(2) == 0 {
                x.s = TroikaSponge::default();
            } else {
                c.fault("reset-and-reused");
                x.s.reset();
            }
            x.at = 0;
            x.from = 0;
            x.pos = 0;
            x.got.clear();
            x.restarts += 1;
            continue;
        }
        let op = x.ops[x.at].clone();
        let len = match &op {
            HOp::Absorb(v) => v.len(),
            HOp::Squeeze(m) => *m,
            _ => 0,
        };
        let left = len - x.from;
        let m = match c.weighted(&[2, 3, 3, 1]) {
            0 => left,
            1 => (243 - x.pos + c.below(3)).saturating_sub(1).min(left),
            2 => c.below(left + 1),
            _ => 0,
        };
        if m == 0 && left > 0 {
            c.fault("empty-fragment");
        } else if m < left {
            c.fault("fragmented-operation");
        }
        match &op {
            HOp::Absorb(v) => x.s.absorb(&v[x.from..x.from + m]),
            HOp::Finalize => x.s.finalize(),
            HOp::Squeeze(_) => {
                let pad = c.below(4);
                let mut o = vec![7u8; m + 2 * pad];
                x.s.squeeze(&mut o[pad..pad + m]);
                c.check(o[..pad].iter().chain(&o[pad + m..]).all(|t| *t == 7), &["D05", "M01"], "writes-outside", || "squeeze".into());
                x.got.extend(&o[pad..pad + m]);
            }
            HOp::Reset => x.s.reset(),
        }
        c.state(h2(h2(x.pos as u64, m as u64), match op { HOp::Absorb(_) => 0, HOp::Finalize => 1, HOp::Squeeze(_) => 2, HOp::Reset => 3 }));
        x.from += m;
        x.pos = if len > 0 { (x.pos + m) % 243 } else { 0 };
        if x.from == len {
            let want = &x.want[x.at];
            let at = x.at;
            let bad = x.got.iter().zip(want).position(|(a, b)| a != b);
            let ok = x.got == *want;
            c.check(ok, &["D05"], "digest-differs", || format!("session {} op {} ({:?} trits): first differing trit {:?}", k, at, len, bad));
            c.mixin(hbytes(want));
            x.got.clear();
            x.from = 0;
            x.at += 1;
            if x.at == x.ops.len() {
                live.swap_remove(li);
            }
        }
    }
}
