//! Signers with durable state: lifetime of a key (S01), one-time use across crashes (S02),
//! stored trees (S03) and a forger working on released signatures (S04).

use crate::refm;
use crate::rt::*;
use crate::util::*;
use iota_mam::mss::mt::{APath, GenLeaf, MergeNodes, TraversableMerkleTree};
use iota_mam::mss::{self, mtcomplete, mttraversal, PrivateKeyT};
use iota_mam::prng::PRNG;
use iota_mam::trits::Trits;
use std::cell::RefCell;
use std::collections::BTreeMap;

pub type Rec<H> = (usize, usize, Vec<H>);

thread_local! {
    /// The record a tree is loaded from instead of being generated.
    static DISK: RefCell<Option<Rec<Trits>>> = RefCell::new(None);
    /// The record of the tree's current state, as the signer would write it.
    static LAST: RefCell<Option<Rec<Trits>>> = RefCell::new(None);
    /// Leaf number and sibling seed of lazily generated trees.
    static LAZY: RefCell<(usize, u64)> = RefCell::new((0, 0));
}

/// A tree kept on the simulated disk: generated once, afterwards loaded from its last record.
pub struct PersistMT<I>(I);

impl<I: TraversableMerkleTree<Trits>> TraversableMerkleTree<Trits> for PersistMT<I> {
    fn gen<G: GenLeaf<Trits>, M: MergeNodes<Trits>>(g: &G, m: &M, height: usize) -> Self {
        let i = match DISK.with(|d| d.borrow_mut().take()) {
            Some((h, s, n)) => I::load(h, s, n).expect("harness: record was checked before"),
            None => I::gen(g, m, height),
        };
        LAST.with(|l| *l.borrow_mut() = Some(i.store()));
        PersistMT(i)
    }
    fn next<G: GenLeaf<Trits>, M: MergeNodes<Trits>>(&mut self, g: &G, m: &M) -> bool {
        let r = self.0.next(g, m);
        LAST.with(|l| *l.borrow_mut() = Some(self.0.store()));
        r
    }
    fn root(&self) -> &Trits {
        self.0.root()
    }
    fn height(&self) -> usize {
        self.0.height()
    }
    fn skn(&self) -> usize {
        self.0.skn()
    }
    fn apath(&self) -> APath<Trits> {
        self.0.apath()
    }
    fn store(&self) -> Rec<Trits> {
        self.0.store()
    }
    fn load(height: usize, skn: usize, nodes: Vec<Trits>) -> Option<Self> {
        I::load(height, skn, nodes).map(PersistMT)
    }
}

/// A tree of which only the path of one leaf exists (its siblings are random): big heights cheaply.
pub struct LazyMT {
    height: usize,
    skn: usize,
    root: Trits,
    sib: Vec<Trits>,
}

impl TraversableMerkleTree<Trits> for LazyMT {
    fn gen<G: GenLeaf<Trits>, M: MergeNodes<Trits>>(g: &G, m: &M, height: usize) -> Self {
        let (skn, seed) = LAZY.with(|l| *l.borrow());
        let mut r = Rng(seed);
        let sib: Vec<Trits> = (0..height).map(|_| to_trits(&rand_tv(&mut r, 243))).collect();
        let mut h = g.gen_leaf(skn);
        for d in 0..height {
            h = if (skn >> d) & 1 == 0 { m.merge_nodes(&h, &sib[d]) } else { m.merge_nodes(&sib[d], &h) };
        }
        LazyMT { height, skn, root: h, sib }
    }
    fn next<G: GenLeaf<Trits>, M: MergeNodes<Trits>>(&mut self, _g: &G, _m: &M) -> bool {
        unreachable!()
    }
    fn root(&self) -> &Trits {
        &self.root
    }
    fn height(&self) -> usize {
        self.height
    }
    fn skn(&self) -> usize {
        self.skn
    }
    fn apath(&self) -> APath<Trits> {
        let mut a = APath::new(self.height);
        for s in &self.sib {
            a.push(s.clone());
        }
        a
    }
    fn store(&self) -> Rec<Trits> {
        unreachable!()
    }
    fn load(_: usize, _: usize, _: Vec<Trits>) -> Option<Self> {
        None
    }
}

/// A tree that only asks for the leaves it is told to: leaves of trees of any height, cheaply.
pub struct ProbeMT(Trits);

thread_local! {
    static PROBE: std::cell::RefCell<(Vec<usize>, Vec<Tv>)> = std::cell::RefCell::new((Vec::new(), Vec::new()));
}

impl TraversableMerkleTree<Trits> for ProbeMT {
    fn gen<G: GenLeaf<Trits>, M: MergeNodes<Trits>>(g: &G, m: &M, _height: usize) -> Self {
        let want = PROBE.with(|l| l.borrow().0.clone());
        let got: Vec<Trits> = want.iter().map(|i| g.gen_leaf(*i)).collect();
        let root = m.merge_nodes(&got[0], &got[0]);
        PROBE.with(|l| l.borrow_mut().1 = got.iter().map(from_trits).collect());
        ProbeMT(root)
    }
    fn next<G: GenLeaf<Trits>, M: MergeNodes<Trits>>(&mut self, _g: &G, _m: &M) -> bool {
        unreachable!()
    }
    fn root(&self) -> &Trits {
        &self.0
    }
    fn height(&self) -> usize {
        unreachable!()
    }
    fn skn(&self) -> usize {
        unreachable!()
    }
    fn apath(&self) -> APath<Trits> {
        unreachable!()
    }
    fn store(&self) -> Rec<Trits> {
        unreachable!()
    }
    fn load(_: usize, _: usize, _: Vec<Trits>) -> Option<Self> {
        None
    }
}

/// The one-time public keys `which` of the signing key with this secret and nonce.
pub fn leaves(prng: &PRNG, nonce: &[u8], height: usize, which: &[usize]) -> Vec<Tv> {
    PROBE.with(|l| *l.borrow_mut() = (which.to_vec(), Vec::new()));
    let _k: PrivateKeyT<ProbeMT> = PrivateKeyT::gen(prng, slice(nonce), height);
    PROBE.with(|l| l.borrow().1.clone())
}

pub fn lazy_key(prng: &PRNG, nonce: &[u8], height: usize, skn: usize, seed: u64) -> PrivateKeyT<LazyMT> {
    LAZY.with(|l| *l.borrow_mut() = (skn, seed));
    PrivateKeyT::gen(prng, slice(nonce), height)
}

pub fn pk_of<MT: TraversableMerkleTree<Trits>>(k: &PrivateKeyT<MT>) -> Tv {
    refm::str_tv(&format!("{}", k.public_key()))
}

pub fn secret(c: &mut Ctx) -> (Tv, Tv, PRNG) {
    let key = rdata(c, 243);
    let n = *c.pick(&[0usize, 1, 6, 33, 81, 100]);
    let nonce = rdata(c, n);
    let prng = PRNG::init(slice(&key));
    (key, nonce, prng)
}

pub fn hash_value(c: &mut Ctx) -> Tv {
    data(c, 234)
}

/// A signature made into a dirty buffer, possibly inside a larger one.
pub fn sign_into<MT: TraversableMerkleTree<Trits>>(c: &mut Ctx, k: &PrivateKeyT<MT>, h: &[u8]) -> Tv {
    let n = mss::sig_size(k.height());
    let off = if c.pct(30) { 1 + c.below(20) } else { 0 };
    let dirty = c.below(3) as u8;
    let mut b = to_trits(&vec![dirty; off + n + 3]);
    k.sign(slice(h), b.slice_mut().drop(off).take(n));
    let v = from_trits(&b);
    let ok = v[..off].iter().chain(&v[off + n..]).all(|x| *x == dirty);
    c.check(ok, &["M01", "S01"], "sign-writes-outside", || "signing wrote outside of the signature".into());
    v[off..off + n].to_vec()
}

fn height(c: &mut Ctx, w: &[u64]) -> usize {
    c.weighted(w)
}

// ------------------------------------------------------------------------ symbolic trees

fn sleaf(seed: u64) -> impl Fn(usize) -> u64 {
    move |i| h2(seed, i as u64)
}
fn smerge(a: &u64, b: &u64) -> u64 {
    h2(a.rotate_left(7) ^ 0x51, *b)
}
fn sroot(seed: u64, d: usize) -> (u64, Vec<Vec<u64>>) {
    let g = sleaf(seed);
    let mut lv = vec![(0..1usize << d).map(|i| g(i)).collect::<Vec<u64>>()];
    for _ in 0..d {
        let n = lv.last().unwrap().chunks(2).map(|p| smerge(&p[0], &p[1])).collect();
        lv.push(n);
    }
    (lv[d][0], lv)
}
/// An independent authentication path.
fn spath(lv: &[Vec<u64>], skn: usize) -> Vec<u64> {
    (0..lv.len() - 1).map(|d| lv[d][(skn >> d) ^ 1]).collect()
}

/// What a tree presents: (root, skn, path hash); the path by folding and by comparison with the model.
fn spresents<T: TraversableMerkleTree<u64>>(t: &T, lv: &[Vec<u64>], d: usize) -> Result<(), String> {
    if t.height() != d {
        return Err(format!("height {} instead of {}", t.height(), d));
    }
    if *t.root() != lv[d][0] {
        return Err("root changed".into());
    }
    let skn = t.skn();
    if skn < 1 << d {
        let a = t.apath();
        if a.skn() != skn {
            return Err(format!("path of leaf {} while at leaf {}", a.skn(), skn));
        }
        if a.fold(&smerge, &lv[0][skn]) != lv[d][0] {
            return Err(format!("path of leaf {} does not lead to the root", skn));
        }
        let mut want = APath::new(d);
        for n in spath(lv, skn) {
            want.push(n);
        }
        // the paths hold the same nodes: same fold from any other starting value
        let x = h2(0xA5, skn as u64);
        let mut m = x;
        for (k, n) in spath(lv, skn).iter().enumerate() {
            m = if (skn >> k) & 1 == 0 { smerge(&m, n) } else { smerge(n, &m) };
        }
        if a.fold(&smerge, &x) != m {
            return Err(format!("path of leaf {} has other nodes", skn));
        }
    }
    Ok(())
}

/// Whole life of both variants over symbolic hashes, with restarts from their records.
fn symbolic_life(c: &mut Ctx, props: &[&str]) {
    let d = c.weighted(&[2, 2, 2, 3, 3, 3, 2, 2, 1, 1, 1, 1]);
    let seed = c.draw(1 << 40);
    let (root, lv) = sroot(seed, d);
    let g = sleaf(seed);
    let mut a: mtcomplete::MT<u64> = mtcomplete::MT::gen(&g, &smerge, d);
    let mut b: mttraversal::MT<u64> = mttraversal::MT::gen(&g, &smerge, d);
    c.log(format!("symbolic trees of height {} root {:x}", d, root));
    let restart_pct = *c.pick(&[0u64, 3, 30]);
    let mut n = 0usize;
    let extra = 1 + c.below(2);
    let mut over = 0;
    loop {
        c.now += 1;
        for (w, r) in [(0, spresents(&a, &lv, d)), (1, spresents(&b, &lv, d))] {
            c.check(r.is_ok(), props, "tree-presents", || format!("height {} leaf {} variant {}: {}", d, n, w, r.err().unwrap()));
        }
        let want = n.min(1 << d);
        c.check(a.skn() == want && b.skn() == want, props, "leaf-number", || format!("height {}: at leaf {}/{} after {} steps", d, a.skn(), b.skn(), n));
        c.state(h2(d as u64, want as u64));
        if over == extra {
            break;
        }
        if c.pct(restart_pct) {
            c.fault("restart-from-record");
            let (ra, rb) = (a.store(), b.store());
            let (la, lb) = (mtcomplete::MT::load(ra.0, ra.1, ra.2.clone()), mttraversal::MT::load(rb.0, rb.1, rb.2.clone()));
            c.check(la.is_some() && lb.is_some(), props, "own-record-refused", || format!("height {} leaf {}: a tree's own record is refused", d, n));
            if let (Some(x), Some(y)) = (la, lb) {
                c.check(x.store() == ra && y.store() == rb, props, "record-changed", || format!("height {} leaf {}: loading and storing changes the record", d, n));
                a = x;
                b = y;
            }
        }
        let (x, y) = (a.next(&g, &smerge), b.next(&g, &smerge));
        n += 1;
        let more = n < 1 << d;
        c.check(x == more && y == more, props, "exhaustion-report", || format!("height {}: step {} reported {}/{}", d, n, x, y));
        if !more {
            over += 1;
        }
    }
}

/// Both variants walked far into a tall tree over symbolic hashes, looked at and restarted
/// at leaves around the carries of their number.
fn tall_life(c: &mut Ctx, props: &[&str]) {
    let d = 12 + c.weighted(&[2, 2, 2, 2, 2, 2, 1]);
    let seed = c.draw(1 << 40);
    let (root, lv) = sroot(seed, d);
    let g = sleaf(seed);
    let mut a: mtcomplete::MT<u64> = mtcomplete::MT::gen(&g, &smerge, d);
    let mut b: mttraversal::MT<u64> = mttraversal::MT::gen(&g, &smerge, d);
    let mut at = vec![0, (1usize << d) - 1, 1 << d];
    for _ in 0..6 {
        let x = match c.below(4) {
            0 => 1usize << (8 + c.below(d - 7)),
            1 => 3usize.pow(5 + c.below(7) as u32),
            2 => (1usize << d) - 1 - c.below(300),
            _ => c.below(1 << d),
        };
        for k in 0..3 {
            at.push((x + k).saturating_sub(1).min(1 << d));
        }
    }
    at.sort();
    at.dedup();
    c.log(format!("tall symbolic trees of height {} root {:x} looked at at {:?}", d, root, at));
    c.probe("tall-tree-walked");
    let mut n = 0usize;
    for p in at {
        while n < p {
            let (x, y) = (a.next(&g, &smerge), b.next(&g, &smerge));
            n += 1;
            let more = n < 1 << d;
            if x != more || y != more {
                c.check(false, props, "exhaustion-report", || format!("height {}: step {} reported {}/{}", d, n, x, y));
                return;
            }
        }
        c.now += 1;
        c.check(a.skn() == n && b.skn() == n, props, "leaf-number", || format!("height {}: at leaf {}/{} after {} steps", d, a.skn(), b.skn(), n));
        for (w, r) in [(0, spresents(&a, &lv, d)), (1, spresents(&b, &lv, d))] {
            c.check(r.is_ok(), props, "tree-presents", || format!("height {} leaf {} variant {}: {}", d, n, w, r.err().unwrap()));
        }
        c.state(h2(d as u64, n as u64));
        if c.pct(30) {
            c.fault("restart-from-record");
            let ((h, s, v), rb) = (a.store(), b.store());
            let (la, lb) = (mtcomplete::MT::load(h, s, v), mttraversal::MT::load(rb.0, rb.1, rb.2.clone()));
            c.check(la.is_some() && lb.is_some(), props, "own-record-refused", || format!("height {} leaf {}: a tree's own record is refused", d, n));
            if let (Some(x), Some(y)) = (la, lb) {
                c.check(y.store() == rb, props, "record-changed", || format!("height {} leaf {}: loading and storing changes the record", d, n));
                a = x;
                b = y;
            }
        }
    }
}

// ------------------------------------------------------------------------ S01

pub fn s01(c: &mut Ctx) {
    match c.weighted(&[10, 6, 4, 4, 1, 1]) {
        5 => wots_life(c, &["S01"]),
        4 => tall_life(c, &["S01"]),
        0 => symbolic_life(c, &["S01"]),
        3 => far(c, &["S01"]),
        1 => {
            // big heights, one leaf
            let (_, nonce, prng) = secret(c);
            let d = c.below(21);
            let skn = match c.below(4) {
                0 => 0,
                1 => (1usize << d) - 1,
                _ => c.below(1 << d),
            };
            let seed = c.draw(1 << 32);
            let k = lazy_key(&prng, &nonce, d, skn, seed);
            let h = hash_value(c);
            let sig = sign_into(c, &k, &h);
            c.log(format!("height {} leaf {} signs {}", d, skn, hex(&sig)));
            c.probe("big-height");
            c.state(h2(d as u64, skn as u64));
            let pk = pk_of(&k);
            c.check(k.public_key().verify(slice(&h), slice(&sig)), &["S01"], "genuine-rejected", || format!("height {} leaf {}: signature rejected", d, skn));
            let r = mss::PublicKey::recover(slice(&h), slice(&sig));
            c.check(r.map(|(p, n)| (refm::str_tv(&format!("{}", p)), n)) == Some((pk.clone(), sig.len())), &["S01"], "recover-differs", || format!("height {} leaf {}: another key recovered", d, skn));
            c.check(get_int(&sig[..4]) == d as i64 && get_int(&sig[4..18]) == skn as i64, &["S01"], "skn-encoding", || format!("height {} leaf {} encoded as {} {}", d, skn, get_int(&sig[..4]), get_int(&sig[4..18])));
        }
        _ => {
            // real keys, both variants, all leaves
            let (_, nonce, prng) = secret(c);
            let d = height(c, if c.thorough { &[2, 3, 4, 4, 2, 1] } else { &[3, 4, 4, 2] });
            let mut a: PrivateKeyT<PersistMT<mtcomplete::MT<Trits>>> = PrivateKeyT::gen(&prng, slice(&nonce), d);
            let mut ra = LAST.with(|l| l.borrow().clone()).unwrap();
            let mut b: PrivateKeyT<PersistMT<mttraversal::MT<Trits>>> = PrivateKeyT::gen(&prng, slice(&nonce), d);
            let mut rb = LAST.with(|l| l.borrow().clone()).unwrap();
            let pk = pk_of(&a);
            c.log(format!("key of height {} root {}", d, hex(&pk)));
            c.check(pk_of(&b) == pk, &["S01"], "variants-differ", || format!("height {}: the variants publish different keys", d));
            let mut i = 0;
            while i < 1 << d {
                c.now += 1;
                if c.pct(20) {
                    // both processes restart from their records
                    c.fault("restart-from-record");
                    for r in [&ra, &rb] {
                        c.mixin(r.1 as u64);
                    }
                    DISK.with(|x| *x.borrow_mut() = Some(ra.clone()));
                    a = PrivateKeyT::gen(&prng, slice(&nonce), d);
                    DISK.with(|x| *x.borrow_mut() = Some(rb.clone()));
                    b = PrivateKeyT::gen(&prng, slice(&nonce), d);
                }
                if c.pct(12) {
                    // a signature made for a message that is withdrawn before it is released
                    c.fault("signature-withdrawn");
                    let h = hash_value(c);
                    let x = sign_into(c, &a, &h);
                    c.check(a.public_key().verify(slice(&h), slice(&x)), &["S01"], "genuine-rejected", || format!("height {} leaf {}: withdrawn signature rejected", d, i));
                }
                let h = hash_value(c);
                let x = sign_into(c, &a, &h);
                let y = sign_into(c, &b, &h);
                c.log(format!("leaf {} signs {} -> {}", i, hex(&h), hex(&x)));
                c.check(a.public_key().verify(slice(&h), slice(&x)), &["S01"], "genuine-rejected", || format!("height {} leaf {}: signature rejected", d, i));
                c.check(x == y, &["S01"], "variants-differ", || format!("height {} leaf {}: the variants sign differently", d, i));
                c.check(pk_of(&a) == pk && pk_of(&b) == pk, &["S01"], "public-key-changed", || format!("height {} leaf {}", d, i));
                let left = (1 << d) - i;
                c.check(a.skn_left() == left && b.skn_left() == left && a.skn() == i, &["S01"], "left-count", || format!("height {} leaf {}: {} keys left", d, i, a.skn_left()));
                let (p, q) = (a.next(), {
                    ra = LAST.with(|l| l.borrow().clone()).unwrap();
                    b.next()
                });
                rb = LAST.with(|l| l.borrow().clone()).unwrap();
                i += 1;
                c.check(p == (i < 1 << d) && q == p, &["S01"], "exhaustion-report", || format!("height {}: after leaf {} next reported {}/{}", d, i - 1, p, q));
                c.state(h2(77 + d as u64, i as u64));
            }
            c.check(pk_of(&a) == pk && pk_of(&b) == pk, &["S01"], "public-key-changed", || format!("height {}: public key changed after the last signature", d));
        }
    }
}

// ------------------------------------------------------------------------ S02

trait Signer {
    fn skn(&self) -> usize;
    fn left(&self) -> usize;
    fn pk(&self) -> Tv;
    fn sign(&self, h: &[u8]) -> Tv;
    /// advance; the report, and the record of the new state
    fn next(&mut self) -> (bool, Rec<Trits>);
}

impl<I: TraversableMerkleTree<Trits>> Signer for PrivateKeyT<PersistMT<I>> {
    fn skn(&self) -> usize {
        PrivateKeyT::skn(self)
    }
    fn left(&self) -> usize {
        self.skn_left()
    }
    fn pk(&self) -> Tv {
        pk_of(self)
    }
    fn sign(&self, h: &[u8]) -> Tv {
        let mut s = Trits::zero(mss::sig_size(self.height()));
        PrivateKeyT::sign(self, slice(h), s.slice_mut());
        from_trits(&s)
    }
    fn next(&mut self) -> (bool, Rec<Trits>) {
        let r = PrivateKeyT::next(self);
        (r, LAST.with(|l| l.borrow().clone()).unwrap())
    }
}

fn start_signer(traversal: bool, prng: &PRNG, nonce: &[u8], d: usize, rec: Option<Rec<Trits>>) -> Box<dyn Signer> {
    DISK.with(|x| *x.borrow_mut() = rec);
    if traversal {
        Box::new(PrivateKeyT::<PersistMT<mttraversal::MT<Trits>>>::gen(prng, slice(nonce), d))
    } else {
        Box::new(PrivateKeyT::<PersistMT<mtcomplete::MT<Trits>>>::gen(prng, slice(nonce), d))
    }
}
fn record_ok(traversal: bool, r: &Rec<Trits>) -> bool {
    if traversal {
        mttraversal::MT::<Trits>::load(r.0, r.1, r.2.clone()).is_some()
    } else {
        mtcomplete::MT::<Trits>::load(r.0, r.1, r.2.clone()).is_some()
    }
}

/// The application's disk: two slots written alternately, a write may be torn by a crash.
struct Slots {
    slot: [Option<(u64, Rec<Trits>)>; 2],
    seq: u64,
}

pub fn s02(c: &mut Ctx) {
    match c.weighted(&[4, 5, 1]) {
        0 => return s02_symbolic(c),
        2 => return s02_tall(c),
        _ => {}
    }
    let (_, nonce, prng) = secret(c);
    let d = height(c, if c.thorough { &[2, 4, 4, 3, 1] } else { &[2, 4, 4, 1] });
    let traversal = c.below(2) == 1;
    let total = 1usize << d;
    let mut sg = start_signer(traversal, &prng, &nonce, d, None);
    let rec0 = LAST.with(|l| l.borrow().clone()).unwrap();
    let pk = sg.pk();
    let mut disk = Slots { slot: [Some((0, rec0)), None], seq: 0 };
    // the durable number of consumed leaves
    let mut durable = 0usize;
    let mut released: BTreeMap<Tv, usize> = BTreeMap::new();
    let mut last: Option<usize> = None;
    c.log(format!("signer of height {} ({})", d, if traversal { "traversal" } else { "complete" }));
    let crash_pct = *c.pick(&[5u64, 20, 40]);
    let mut steps = 0;
    let max_steps = 3 * total + 8;
    let mut after_exhaustion = 0;
    while steps < max_steps && after_exhaustion < 2 {
        steps += 1;
        c.now += 5;
        let mut crash = c.pct(crash_pct / 2);
        if crash {
            c.fault("crash-idle");
        } else if sg.left() == 0 {
            after_exhaustion += 1;
            let h = hash_value(c);
            let r = catch(|| sg.sign(&h));
            c.check(r.is_err(), &["S02"], "signs-when-exhausted", || format!("height {}: an exhausted signer signed as leaf {}", d, r.map(|s| get_int(&s[4..18])).unwrap_or(-1)));
            c.probe("refused-when-exhausted");
            if c.below(2) == 0 {
                let (more, rec) = sg.next();
                c.check(!more && sg.left() == 0, &["S02"], "exhaustion-undone", || format!("height {}: next on an exhausted signer reported {} with {} left", d, more, sg.left()));
                disk.seq += 1;
                disk.slot[(disk.seq % 2) as usize] = Some((disk.seq, rec));
            }
            crash = c.pct(60);
        } else {
            let at = sg.skn();
            c.check(at == durable, &["S02"], "leaf-number", || format!("height {}: signer is at leaf {} but {} are consumed", d, at, durable));
            let h = hash_value(c);
            let sig = sg.sign(&h);
            if c.pct(crash_pct / 2) {
                c.fault("crash-after-sign");
                crash = true;
            } else {
                let (more, rec) = sg.next();
                c.check(more == (at + 1 < total) && sg.skn() == at + 1, &["S02"], "exhaustion-report", || format!("height {}: after leaf {} next reported {}, leaf number {}", d, at, more, sg.skn()));
                let f = if c.pct(crash_pct) { 1 + c.below(3) } else { 0 };
                let to = ((disk.seq + 1) % 2) as usize;
                match f {
                    1 => {
                        // the write never happens
                        c.fault("crash-before-record-write");
                        crash = true;
                    }
                    2 => {
                        // torn: header and a prefix of the nodes
                        c.fault("torn-record-write");
                        let keep = c.below(rec.2.len());
                        disk.slot[to] = Some((disk.seq + 1, (rec.0, rec.1, rec.2[..keep].to_vec())));
                        crash = true;
                    }
                    _ => {
                        disk.seq += 1;
                        disk.slot[to] = Some((disk.seq, rec));
                        durable = at + 1;
                        if f == 3 {
                            c.fault("crash-before-release");
                            crash = true;
                        } else {
                            // release
                            c.check(mss::verify(slice(&pk), slice(&h), slice(&sig)), &["S02"], "released-invalid", || format!("height {} leaf {}", d, at));
                            let mut w = Trits::zero(243);
                            iota_mam::wots::recover(slice(&h), slice(&sig[18..18 + 13122]), w.slice_mut());
                            let w = from_trits(&w);
                            let no = get_int(&sig[4..18]);
                            c.log(format!("released leaf {}", no));
                            c.check(no == at as i64, &["S02"], "leaf-number", || format!("height {}: signature names leaf {} instead of {}", d, no, at));
                            if let Some(o) = released.insert(w, at) {
                                c.check(false, &["S02"], "one-time-key-reused", || format!("height {}: the one-time key of leaf {} signed again as leaf {}", d, o, at));
                            }
                            c.check(last.map_or(true, |l| at > l), &["S02"], "leaf-number-backwards", || format!("height {}: leaf {} after {:?}", d, at, last));
                            last = Some(at);
                            c.state(h2(h2(d as u64, at as u64), traversal as u64));
                        }
                    }
                }
            }
        }
        if crash {
            // restart
            c.now += 100;
            if c.pct(50) {
                // newest record that loads
                let mut order: Vec<(u64, Rec<Trits>)> = disk.slot.iter().flatten().cloned().collect();
                order.sort_by_key(|x| std::cmp::Reverse(x.0));
                let mut got = None;
                for (s, r) in order {
                    if record_ok(traversal, &r) {
                        got = Some((s, r));
                        break;
                    }
                    c.probe("torn-record-refused");
                }
                match got {
                    Some((s, r)) => {
                        disk.seq = s;
                        sg = start_signer(traversal, &prng, &nonce, d, Some(r));
                    }
                    None => {
                        c.check(false, &["S02", "S03"], "no-record-loads", || format!("height {}: none of the intact records loads", d));
                        c.abandon();
                    }
                }
                c.log("restart from record".into());
            } else {
                // the key is generated again and moved past the consumed leaves
                sg = start_signer(traversal, &prng, &nonce, d, None);
                for _ in 0..durable {
                    sg.next();
                }
                c.log("restart by generating again".into());
                let rec = LAST.with(|l| l.borrow().clone()).unwrap();
                disk.seq += 1;
                disk.slot[(disk.seq % 2) as usize] = Some((disk.seq, rec));
            }
            let at = sg.skn();
            c.check(at == durable, &["S02"], "leaf-number-after-restart", || format!("height {}: restarted at leaf {} but {} are consumed", d, at, durable));
            c.check(sg.pk() == pk, &["S02", "S01"], "public-key-after-restart", || format!("height {} leaf {}", d, at));
            c.check(sg.left() == total - durable, &["S02"], "left-after-restart", || format!("height {}: {} left, {} consumed", d, sg.left(), durable));
        }
    }
}

/// Leaves far apart in tall trees: no two leaves of a key share a one-time key.
fn s02_tall(c: &mut Ctx) {
    let (_, nonce, prng) = secret(c);
    let d = if c.below(4) == 0 { 20 - c.below(4) } else { 1 + c.below(20) };
    let n = 1usize << d;
    let first = match c.below(4) {
        0 => 0,
        1 => n - 1,
        _ => c.below(n),
    };
    let mut leaves = vec![first];
    for _ in 0..4 {
        let from = leaves[c.below(leaves.len())];
        let k = c.below(13);
        // distances at which truncated or wrapped leaf numbers would meet
        let by = match c.below(6) {
            0 => 1 << (k % d),
            4 => 1 << c.below(d),
            5 => ((1usize << c.below(d + 1)) - 1).max(1),
            1 => 3usize.pow(k as u32),
            2 => 3usize.pow(3 * (k as u32 % 5)),
            _ => 1 + c.below(n),
        };
        leaves.push(if c.below(2) == 0 { (from + by) % n } else { (from + n - by % n) % n });
    }
    leaves.sort();
    leaves.dedup();
    let h = hash_value(c);
    c.log(format!("tall key of height {} signs as leaves {:?}", d, leaves));
    c.probe("leaves-far-apart");
    let mut seen: BTreeMap<Tv, usize> = BTreeMap::new();
    for skn in leaves {
        c.now += 1;
        let seed = c.draw(1 << 32);
        let k = lazy_key(&prng, &nonce, d, skn, seed);
        c.check(k.skn_left() == n - skn && k.skn() == skn, &["S02"], "left-count", || format!("height {} leaf {}: {} keys left", d, skn, k.skn_left()));
        let sig = sign_into(c, &k, &h);
        c.check(get_int(&sig[4..18]) == skn as i64, &["S02"], "leaf-number", || format!("height {}: signature names leaf {} instead of {}", d, get_int(&sig[4..18]), skn));
        let mut w = Trits::zero(243);
        iota_mam::wots::recover(slice(&h), slice(&sig[18..18 + 13122]), w.slice_mut());
        if let Some(o) = seen.insert(from_trits(&w), skn) {
            c.check(false, &["S02"], "one-time-key-reused", || format!("height {}: leaves {} and {} have the same one-time key", d, o, skn));
        }
        c.state(h2(h2(d as u64, skn as u64), 3));
    }
}

/// The same protocol over symbolic trees of larger heights.
fn s02_symbolic(c: &mut Ctx) {
    if c.below(2) == 0 {
        s02_sym::<mtcomplete::MT<u64>>(c, "complete")
    } else {
        s02_sym::<mttraversal::MT<u64>>(c, "traversal")
    }
}
fn s02_sym<T: TraversableMerkleTree<u64>>(c: &mut Ctx, name: &str) {
    let d = c.weighted(&[1, 1, 2, 3, 3, 3, 2, 1, 1]);
    let seed = c.draw(1 << 40);
    let (_, lv) = sroot(seed, d);
    let g = sleaf(seed);
    let mut t = T::gen(&g, &smerge, d);
    let mut rec = t.store();
    let mut durable = 0usize;
    let crash_pct = *c.pick(&[2u64, 10, 30]);
    c.log(format!("symbolic signer of height {} ({})", d, name));
    let mut used = std::collections::BTreeSet::new();
    let mut idle = 0;
    let mut steps = 0;
    while idle < 3 && steps < 3000 {
        steps += 1;
        c.now += 1;
        let at = t.skn();
        c.check(at == durable, &["S02"], "leaf-number", || format!("height {}: at leaf {} but {} are consumed", d, at, durable));
        let r = spresents(&t, &lv, d);
        c.check(r.is_ok(), &["S02", "S03"], "tree-presents", || format!("height {} leaf {}: {}", d, at, r.clone().err().unwrap()));
        let mut crash = c.pct(crash_pct);
        if !crash {
            let more = t.next(&g, &smerge);
            if at < 1 << d {
                c.check(t.skn() == at + 1, &["S02"], "leaf-number", || format!("height {}: leaf {} follows leaf {}", d, t.skn(), at));
            } else {
                idle += 1;
                c.check(t.skn() == at, &["S02"], "leaf-number-after-exhaustion", || format!("height {}: {}", d, t.skn()));
            }
            c.check(more == (at + 1 < 1 << d), &["S02"], "exhaustion-report", || format!("height {}: after leaf {} next reported {}", d, at, more));
            if c.pct(crash_pct) {
                c.fault("crash-before-record-write");
                crash = true;
            } else {
                rec = t.store();
                durable = t.skn();
                if at < 1 << d {
                    c.check(used.insert(at), &["S02"], "one-time-key-reused", || format!("height {}: leaf {} used twice", d, at));
                }
            }
        }
        if crash {
            c.fault("crash-restart");
            match T::load(rec.0, rec.1, rec.2.clone()) {
                Some(x) => t = x,
                None => {
                    c.check(false, &["S02", "S03"], "own-record-refused", || format!("height {} leaf {}", d, rec.1));
                    c.abandon();
                }
            }
        }
        c.state(h2(h2(d as u64, durable as u64), hstr(name)));
    }
    c.check(steps >= 3000 || used.len() == 1 << d, &["S02"], "leaf-skipped", || format!("height {}: {} of the leaves were used", d, used.len()));
}

// ------------------------------------------------------------------------ S03

/// Record lengths of genuine trees of this variant, by height and leaf.
fn lengths<T: TraversableMerkleTree<()>>(h: usize) -> Vec<usize> {
    let g = |_: usize| ();
    let m = |_: &(), _: &()| ();
    let mut t = T::gen(&g, &m, h);
    let mut v = vec![t.store().2.len()];
    for _ in 0..1usize << h {
        t.next(&g, &m);
        v.push(t.store().2.len());
    }
    v
}

fn lens_cached(traversal: bool, h: usize) -> std::rc::Rc<Vec<usize>> {
    thread_local!(static C: RefCell<BTreeMap<(bool, usize), std::rc::Rc<Vec<usize>>>> = RefCell::new(BTreeMap::new()));
    if let Some(v) = C.with(|c| c.borrow().get(&(traversal, h)).cloned()) {
        return v;
    }
    let v = std::rc::Rc::new(if traversal { lengths::<mttraversal::MT<()>>(h) } else { lengths::<mtcomplete::MT<()>>(h) });
    C.with(|c| c.borrow_mut().insert((traversal, h), v.clone()));
    v
}

fn damaged<H: Clone, T: TraversableMerkleTree<H>>(c: &mut Ctx, traversal: bool, rec: &Rec<H>, filler: &dyn Fn(&mut Ctx) -> H) {
    let (mut h, mut s, mut n) = rec.clone();
    let kind = c.below(7);
    match kind {
        0 => {
            let k = c.below(n.len());
            n.truncate(k);
            c.fault("record-truncated");
        }
        1 => {
            for _ in 0..1 + c.below(3) {
                let f = filler(c);
                n.push(f);
            }
            c.fault("record-extended");
        }
        2 => {
            h = if c.pct(40) { c.below(63) } else { c.below(13) };
            c.fault("record-height-altered");
        }
        3 => {
            s = match c.below(5) {
                0 if h < 63 => 1 << h,
                1 if h < 63 => (1 << h) + 1 + c.below(5),
                2 => usize::MAX - c.below(3),
                3 => s + 1,
                _ => position(c, h),
            };
            c.fault("record-position-altered");
        }
        4 => {
            h = 63 + c.below(200);
            if c.below(2) == 0 {
                h = usize::MAX - c.below(2);
            }
            c.fault("record-height-absurd");
        }
        5 => {
            if !n.is_empty() {
                let i = c.below(n.len());
                n.remove(i);
            }
            c.fault("record-node-lost");
        }
        _ => {
            h = if c.pct(30) { c.below(63) } else { c.below(10) };
            s = position(c, h);
            let k = c.below(n.len() + 1);
            n.truncate(k);
            c.fault("record-mixed-up");
        }
    }
    let fits = if h <= 12 {
        s <= 1 << h && lens_cached(traversal, h)[s] == n.len()
    } else if h >= 63 || s > 1 << h {
        false
    } else if s == 1 << h {
        n.len() == 1
    } else if traversal {
        n.len() == far_record(h, s).len()
    } else {
        n.len() == (2 << h) - 1
    };
    let len = n.len();
    let r = catch(|| T::load(h, s, n).is_some());
    c.mixin(fits as u64);
    match r {
        Err(e) => {
            c.check(false, &["S03"], "load-panics", || format!("loading (height {}, leaf {}, {} nodes) panicked at {}", h, s, len, e));
        }
        Ok(loaded) => {
            if !fits {
                c.check(!loaded, &["S03"], "damaged-record-accepted", || format!("a record of height {}, leaf {} with {} nodes was accepted (made from height {}, leaf {}, {} nodes)", h, s, len, rec.0, rec.1, rec.2.len()));
            }
        }
    }
}

/// A leaf number of a tree of height `h`: anywhere, at the ends, or around a carry.
fn position(c: &mut Ctx, h: usize) -> usize {
    let n = 1usize << h.min(62);
    match c.below(4) {
        0 => c.below(n + 1),
        1 => n.saturating_sub(c.below(6)),
        2 => c.below(40).min(n),
        _ => {
            let k = c.below(h.min(62) + 1);
            let m = c.below(n) >> k << k;
            (m + c.below(5)).saturating_sub(2).min(n)
        }
    }
}

/// A node that is its own position: (level, index).
type Pos = (u32, u64);

fn pmerge(a: &Pos, b: &Pos) -> Pos {
    if a.0 == b.0 && a.1 % 2 == 0 && a.1 + 1 == b.1 {
        (a.0 + 1, a.1 / 2)
    } else {
        (u32::MAX, 0)
    }
}

/// What the traversal variant stores at leaf `s` of a tree of height `h`, by position.
fn far_record(h: usize, s: usize) -> Vec<Pos> {
    if s == 1 << h {
        return vec![(h as u32, 0)];
    }
    let mut v: Vec<Pos> = (0..h).map(|d| (d as u32, (s as u64 >> d) ^ 1)).collect();
    v.push((h as u32, 0));
    for d in 0..h {
        let e = s >> d; // the sub-tree of height d below the current leaf
        if e == 0 {
            v.push((d as u32, 0));
            continue;
        }
        // being prepared: the sub-tree the path needs when this one has been used up
        let tree = if e % 2 == 0 { e } else { e + 2 };
        if tree >= 1 << (h - d) {
            continue;
        }
        // two steps per leaf since this sub-tree was entered; a leaf is one step, a merge another
        let mut steps = 2 * (s - (e << d) + 1) as u64;
        let mut at: Pos = (d as u32, tree as u64);
        loop {
            let whole = (2u64 << at.0) - 1;
            if steps >= whole {
                v.push(at);
                break;
            }
            let left: Pos = (at.0 - 1, at.1 * 2);
            let half = (2u64 << left.0) - 1;
            if steps >= half {
                v.push(left);
                steps -= half;
                if steps == 0 {
                    break;
                }
                at = (left.0, left.1 + 1);
            } else {
                at = left;
            }
        }
    }
    v
}

/// A tall tree far into its life, resumed from its record and continued.
fn far(c: &mut Ctx, props: &[&str]) {
    type T = mttraversal::MT<Pos>;
    let h = if c.pct(30) { 2 + c.below(12) } else { 13 + c.below(50) };
    let mut s = position(c, h);
    let g = |i: usize| (0u32, i as u64);
    c.log(format!("tall tree of height {} at leaf {}", h, s));
    let mut t = match T::load(h, s, far_record(h, s)) {
        Some(t) => t,
        None => {
            c.check(false, props, "far-record-refused", || format!("height {} leaf {}", h, s));
            c.abandon()
        }
    };
    let n = 5 + c.below(60);
    for _ in 0..n {
        c.now += 1;
        let want = far_record(h, s);
        c.check(*t.root() == (h as u32, 0) && t.skn() == s && t.height() == h, props, "resumed-root", || format!("height {} leaf {}", h, s));
        if s < 1 << h {
            let p = t.apath();
            let mut leaf = (0u32, s as u64);
            let done = p.fold_mut(&pmerge, &mut leaf);
            c.check(done && leaf == (h as u32, 0) && p.skn() == s, props, "resumed-path", || format!("height {} leaf {}: the path leads to {:?}: {:?}", h, s, leaf, p));
        }
        let rec = t.store();
        c.check(rec == (h, s, want.clone()), props, "later-record-differs", || format!("height {} leaf {}: stored {:?} instead of {:?}", h, s, rec, want));
        if c.pct(25) {
            c.fault("crash-restart");
            match T::load(rec.0, rec.1, rec.2.clone()) {
                Some(x) => t = x,
                None => {
                    c.check(false, props, "own-record-refused", || format!("height {} leaf {}", h, s));
                    c.abandon()
                }
            }
        }
        if c.pct(25) {
            damaged::<Pos, T>(c, true, &rec, &|c| (c.below(20) as u32, c.draw(1 << 40)));
        }
        let more = t.next(&g, &pmerge);
        if s < 1 << h {
            s += 1;
        }
        c.check(more == (s < 1 << h), props, "resumed-reports-differently", || format!("height {} leaf {}", h, s));
        c.state(h2(h as u64, s as u64));
    }
}

pub fn s03(c: &mut Ctx) {
    match c.weighted(&[30, 1, 69]) {
        0 => return far(c, &["S03"]),
        1 => return tall_life(c, &["S03"]),
        _ => {}
    }
    let real = c.pct(12);
    let traversal = c.pct(60);
    if real {
        let (_, nonce, prng) = secret(c);
        let d = height(c, &[2, 3, 3, 1]);
        c.log(format!("real tree of height {}", d));
        if traversal {
            s03_real::<mttraversal::MT<Trits>>(c, true, &prng, &nonce, d)
        } else {
            s03_real::<mtcomplete::MT<Trits>>(c, false, &prng, &nonce, d)
        }
    } else if traversal {
        s03_sym::<mttraversal::MT<u64>>(c, true)
    } else {
        s03_sym::<mtcomplete::MT<u64>>(c, false)
    }
}

fn s03_real<I: TraversableMerkleTree<Trits>>(c: &mut Ctx, traversal: bool, prng: &PRNG, nonce: &[u8], d: usize) {
    let mut orig: PrivateKeyT<PersistMT<I>> = PrivateKeyT::gen(prng, slice(nonce), d);
    let rec0 = LAST.with(|l| l.borrow().clone()).unwrap();
    // node 2 restarts from records, the original never does
    let mut rec = rec0;
    let mut other: PrivateKeyT<PersistMT<I>> = {
        DISK.with(|x| *x.borrow_mut() = Some(rec.clone()));
        PrivateKeyT::gen(prng, slice(nonce), d)
    };
    let h = hash_value(c);
    for i in 0..=1usize << d {
        c.now += 1;
        c.check(orig.skn() == other.skn() && pk_of(&orig) == pk_of(&other), &["S03"], "resumed-differs", || format!("height {} leaf {}", d, i));
        if orig.skn_left() > 0 {
            let a = sign_into(c, &orig, &h);
            let b = sign_into(c, &other, &h);
            c.check(a == b, &["S03"], "resumed-signs-differently", || format!("height {} leaf {}", d, i));
        }
        for _ in 0..2 {
            damaged::<Trits, I>(c, traversal, &rec, &|c| to_trits(&rdata(c, 243)));
        }
        let x = orig.next();
        let ra = LAST.with(|l| l.borrow().clone()).unwrap();
        let y = other.next();
        rec = LAST.with(|l| l.borrow().clone()).unwrap();
        c.check(x == y, &["S03"], "resumed-reports-differently", || format!("height {} leaf {}", d, i));
        let eq = ra.0 == rec.0 && ra.1 == rec.1 && ra.2.len() == rec.2.len() && ra.2.iter().zip(&rec.2).all(|(a, b)| from_trits(a) == from_trits(b));
        c.check(eq, &["S03"], "later-record-differs", || format!("height {} leaf {}: the resumed tree stores another record", d, i));
        c.log(format!("leaf {} record of {} nodes", i, rec.2.len()));
        if c.pct(50) {
            c.fault("crash-restart");
            let ok = I::load(rec.0, rec.1, rec.2.clone()).is_some();
            if !c.check(ok, &["S03"], "own-record-refused", || format!("height {} leaf {}", d, rec.1)) {
                c.abandon();
            }
            DISK.with(|x| *x.borrow_mut() = Some(rec.clone()));
            other = PrivateKeyT::gen(prng, slice(nonce), d);
        }
    }
}

fn s03_sym<T: TraversableMerkleTree<u64>>(c: &mut Ctx, traversal: bool) {
    let d = c.weighted(&[2, 2, 2, 3, 3, 3, 2, 2, 1, 1, 1]);
    let seed = c.draw(1 << 40);
    let (_, lv) = sroot(seed, d);
    let g = sleaf(seed);
    let mut orig = T::gen(&g, &smerge, d);
    let mut other = T::gen(&g, &smerge, d);
    c.log(format!("symbolic tree of height {} ({})", d, if traversal { "traversal" } else { "complete" }));
    let restart_pct = *c.pick(&[2u64, 15, 60]);
    for i in 0..(1usize << d) + 2 {
        c.now += 1;
        if c.pct(restart_pct) {
            c.fault("crash-restart");
            let rec = other.store();
            match T::load(rec.0, rec.1, rec.2.clone()) {
                Some(x) => other = x,
                None => {
                    c.check(false, &["S03"], "own-record-refused", || format!("height {} leaf {}", d, rec.1));
                    c.abandon();
                }
            }
            for _ in 0..1 + c.below(3) {
                damaged::<u64, T>(c, traversal, &rec, &|c| c.draw(1 << 40));
            }
        }
        let r = spresents(&other, &lv, d);
        c.check(r.is_ok(), &["S03"], "resumed-presents", || format!("height {} leaf {}: {}", d, i, r.clone().err().unwrap()));
        c.check(other.skn() == orig.skn(), &["S03"], "resumed-leaf-number", || format!("height {}: {} instead of {}", d, other.skn(), orig.skn()));
        let (a, b) = (orig.store(), other.store());
        c.check(a == b, &["S03"], "later-record-differs", || format!("height {} leaf {}: the resumed tree stores another record", d, i));
        let (x, y) = (orig.next(&g, &smerge), other.next(&g, &smerge));
        c.check(x == y, &["S03"], "resumed-reports-differently", || format!("height {} leaf {}", d, i));
        c.state(h2(h2(d as u64, i as u64), traversal as u64));
    }
}

// ------------------------------------------------------------------------ S04

fn hash162(x: &[u8]) -> Tv {
    refm::hash(&[x], 162)
}

/// What a forger can do to a one-time signature (at `base` in `s`): raise digits of the hash value and
/// move their chains along.
fn advance_chains(c: &mut Ctx, h: &[u8], s: &[u8], base: usize) -> Option<(Tv, Tv)> {
    // forged message: raise one digit (or several) and move its chain along
    let mut digs = refm::digits(h);
    let before = digs.to_vec();
    let mut y = s.to_vec();
    // a few digits, or as many as raise the sum by an amount the checksum might miss
    let mut total = if c.below(3) == 0 {
        Some(*c.pick(&[1i64, 2, 3, 9, 27, 54, 81, 128, 162, 243, 256, 486, 512, 729, 1024]))
    } else {
        None
    };
    let moves = if total.is_some() { 400 } else { 1 + c.below(3) };
    for _ in 0..moves {
        if total == Some(0) {
            break;
        }
        let k = c.below(78);
        if digs[k] < 13 {
            let room = 13 - digs[k];
            let up = match &mut total {
                Some(t) => {
                    let up = room.min(*t);
                    *t -= up;
                    up
                }
                None => 1 + c.below(room as usize) as i64,
            };
            digs[k] += up;
            let at = base + 162 * k;
            let mut p = y[at..at + 162].to_vec();
            for _ in 0..up {
                p = hash162(&p);
            }
            y[at..at + 162].copy_from_slice(&p);
        }
    }
    if total.is_none() && c.below(2) == 0 {
        // balance the sum by lowering other digits, whose chains can't be moved back
        let mut over: i64 = digs[..78].iter().zip(&before).map(|(a, b)| a - b).sum();
        for k in 0..78 {
            while over > 0 && digs[k] > -13 && digs[k] == before[k] - 0 || (over > 0 && digs[k] > -13 && digs[k] < before[k]) {
                digs[k] -= 1;
                over -= 1;
            }
        }
    }
    let mut x = Vec::new();
    for v in &digs[..78] {
        x.extend(put_int(*v, 3));
    }
    if x == h {
        return None;
    }
    // the checksum chains: as they are, or moved where that is possible
    if total.is_none() && c.below(2) == 0 {
        let nd = refm::digits(&x);
        for k in 78..81 {
            let up = nd[k] - before[k];
            if up > 0 {
                let at = base + 162 * k;
                let mut p = y[at..at + 162].to_vec();
                for _ in 0..up {
                    p = hash162(&p);
                }
                y[at..at + 162].copy_from_slice(&p);
            }
        }
    }
    Some((x, y))
}

/// One-time keys used on their own, outside of a tree: genuine signatures verify, nothing else does.
pub fn wots_life(c: &mut Ctx, ids: &'static [&'static str]) {
    use iota_mam::wots;
    let (_, nonce, prng) = secret(c);
    let n = 1 + c.below(2);
    let mut keys = Vec::new();
    for i in 0..n {
        let ni = put_int(i as i64, 18);
        let sk = wots::PrivateKey::gen(&prng, &[slice(&nonce), slice(&ni)]);
        let pk = wots::PublicKey::gen(&sk);
        let h = hash_value(c);
        let (off, dirty) = (c.below(5), c.below(3) as u8);
        let mut b = to_trits(&vec![dirty; off + wots::SIG_SIZE + 3]);
        sk.sign(slice(&h), b.slice_mut().drop(off).take(wots::SIG_SIZE));
        let v = from_trits(&b);
        c.check(v[..off].iter().chain(&v[off + wots::SIG_SIZE..]).all(|x| *x == dirty), &["S01", "M01"], "writes-outside", || "one-time signature".into());
        let mut t = to_trits(&vec![dirty; 243 + off]);
        sk.calc_pk(t.slice_mut().drop(off));
        let sig = v[off..off + wots::SIG_SIZE].to_vec();
        let t = from_trits(&t)[off..].to_vec();
        c.log(format!("one-time key {} signs {}: {}", i, hex(&h), hex(&sig)));
        keys.push((sk, pk, h, sig, t));
    }
    for (i, (_, pk, h, sig, t)) in keys.iter().enumerate() {
        c.now += 1;
        c.check(pk.verify(slice(h), slice(sig)), ids, "genuine-rejected", || format!("one-time signature {} of {}", i, hex(h)));
        let mut r = Trits::zero(243);
        wots::recover(slice(h), slice(sig), r.slice_mut());
        c.check(from_trits(&r) == *t, ids, "recover-differs", || "one-time signature: another key recovered".into());
    }
    if ids == &["S01"] {
        return;
    }
    for _ in 0..6 {
        c.now += 1;
        let i = c.below(n);
        let (h, sig) = (keys[i].2.clone(), keys[i].3.clone());
        let (what, x, y, k): (&'static str, Tv, Tv, usize) = match c.weighted(&[4, 3, 4, if n > 1 { 3 } else { 0 }]) {
            0 => {
                let mut x = h.clone();
                let k = if c.below(3) == 0 { 231 + c.below(3) } else { c.below(234) };
                x[k] = (x[k] + 1 + c.below(2) as u8) % 3;
                ("hash-trit-altered", x, sig, i)
            }
            1 => {
                let mut y = sig.clone();
                let k = if c.below(3) == 0 { 78 * 162 + c.below(3 * 162) } else { c.below(y.len()) };
                y[k] = (y[k] + 1 + c.below(2) as u8) % 3;
                ("one-time-signature-altered", h, y, i)
            }
            2 => match advance_chains(c, &h, &sig, 0) {
                Some((x, y)) => ("chains-advanced-by-forger", x, y, i),
                None => continue,
            },
            _ => match c.below(3) {
                0 => ("other-key", h, sig, 1 - i),
                1 if keys[1 - i].2 != h => ("other-hash", keys[1 - i].2.clone(), sig, i),
                _ => ("other-signature", h, keys[1 - i].3.clone(), i),
            },
        };
        c.fault(what);
        c.state(h2(hstr(what), 77));
        let v = keys[k].1.verify(slice(&x), slice(&y));
        let mut r = Trits::zero(243);
        wots::recover(slice(&x), slice(&y), r.slice_mut());
        c.log(format!("{}: {}", what, v));
        c.check(!v, ids, "forgery-accepted", || format!("one-time signature: {} still verifies", what));
        c.check(from_trits(&r) != keys[k].4, ids, "signer-recovered", || format!("one-time signature: {} still recovers the signer's key", what));
    }
}

pub fn s04(c: &mut Ctx) {
    if c.below(7) == 0 {
        return wots_life(c, &["S04"]);
    }
    let (_, nonce, prng) = secret(c);
    let big = c.pct(25);
    // signatures of one key over several leaves
    let mut sigs: Vec<(Tv, Tv)> = Vec::new();
    let (pk, d);
    if big {
        d = c.below(15);
        let skn = c.below(1 << d);
        let seed = c.draw(1 << 32);
        let k = lazy_key(&prng, &nonce, d, skn, seed);
        let h = hash_value(c);
        sigs.push((h.clone(), sign_into(c, &k, &h)));
        pk = pk_of(&k);
    } else {
        d = height(c, &[3, 4, 3]);
        let mut k: mss::PrivateKey = mss::PrivateKey::gen(&prng, slice(&nonce), d);
        pk = pk_of(&k);
        for _ in 0..1usize << d {
            let h = hash_value(c);
            sigs.push((h.clone(), sign_into(c, &k, &h)));
            k.next();
        }
    }
    let other_pk = {
        let seed = c.draw(1 << 32);
        let nn = rdata(c, 33);
        pk_of(&lazy_key(&prng, &nn, d, 0, seed))
    };
    c.log(format!("key of height {}, {} signatures", d, sigs.len()));
    let lib_accepts = |c: &mut Ctx, what: &'static str, pk: &[u8], h: &[u8], sig: &[u8]| -> (bool, Option<(Tv, usize)>) {
        // both entry points
        c.fault(what);
        let mut a = Trits::zero(243);
        let n = mss::recover(a.slice_mut(), slice(h), slice(sig));
        let v = mss::verify(slice(pk), slice(h), slice(sig));
        (v, n.map(|n| (from_trits(&a), n)))
    };
    // genuine
    for (h, s) in &sigs {
        let (v, r) = lib_accepts(c, "none", &pk, h, s);
        c.check(v && r == Some((pk.clone(), s.len())), &["S04", "S01"], "genuine-rejected", || format!("height {}", d));
        let mut t = s.clone();
        let n = 1 + c.below(300);
        t.extend(rdata(c, n));
        let (v, r) = lib_accepts(c, "signature-extended", &pk, h, &t);
        c.check(!v, &["S04"], "extended-accepted", || format!("height {}: signature with {} more trits verified", d, n));
        c.check(r == Some((pk.clone(), s.len())), &["S04"], "recover-size", || format!("height {}: recovery from a longer buffer gives {:?}", d, r.as_ref().map(|x| x.1)));
    }
    let tries = 14;
    for _ in 0..tries {
        c.now += 1;
        let i = c.below(sigs.len());
        let (h, s) = sigs[i].clone();
        let (what, h2_, s2): (&'static str, Tv, Tv) = match c.weighted(&[4, 2, 3, 3, 2, 2, 6, 2, 2, 2]) {
            0 => {
                let mut x = h.clone();
                let k = c.below(234);
                x[k] = (x[k] + 1 + c.below(2) as u8) % 3;
                ("hash-trit-altered", x, s)
            }
            1 => {
                let mut y = s.clone();
                let k = c.below(18);
                y[k] = (y[k] + 1 + c.below(2) as u8) % 3;
                ("leaf-number-or-height-altered", h, y)
            }
            2 => {
                let mut y = s.clone();
                let k = 18 + c.below(13122);
                y[k] = (y[k] + 1 + c.below(2) as u8) % 3;
                ("one-time-signature-altered", h, y)
            }
            3 => {
                let mut y = s.clone();
                let k = if d > 0 { 18 + 13122 + c.below(243 * d) } else { c.below(s.len()) };
                y[k] = (y[k] + 1 + c.below(2) as u8) % 3;
                ("path-altered", h, y)
            }
            4 => {
                let n = 1 + c.below(s.len());
                let n = if c.below(2) == 0 { n } else { 1 + c.below(243.min(n)) };
                ("signature-truncated", h, s[..s.len() - n].to_vec())
            }
            5 => {
                // another leaf's number or path or hash
                if sigs.len() < 2 {
                    continue;
                }
                let j = (i + 1 + c.below(sigs.len() - 1)) % sigs.len();
                let o = &sigs[j];
                let mut y = s.clone();
                match c.below(4) {
                    0 => {
                        y[4..18].copy_from_slice(&o.1[4..18]);
                    }
                    1 => {
                        y.truncate(18 + 13122);
                        y.extend(&o.1[18 + 13122..]);
                    }
                    2 => {
                        y[18..18 + 13122].copy_from_slice(&o.1[18..18 + 13122]);
                    }
                    _ => {
                        if o.0 == h {
                            continue;
                        }
                        y = o.1.clone();
                    }
                }
                ("parts-of-another-leaf", h, y)
            }
            6 => {
                let (x, y) = match advance_chains(c, &h, &s, 18) {
                    Some(v) => v,
                    None => continue,
                };
                ("chains-advanced-by-forger", x, y)
            }
            7 => {
                let y = rdata(c, s.len());
                let mut z = s[..18].to_vec();
                z.extend(&y[18..]);
                ("random-signature", h, z)
            }
            8 => {
                // other height with the length made to fit
                let nd = c.below(8);
                let mut y = s.clone();
                let e = put_int(nd as i64, 4);
                y[..4].copy_from_slice(&e);
                y.resize(18 + 13122 + 243 * nd, 0);
                if nd == d {
                    continue;
                }
                ("height-and-length-altered", h, y)
            }
            _ => {
                // leaf number altered by a whole subtree, also beyond the tree
                let e = match c.below(3) {
                    0 => (get_int(&s[4..18]) as usize) ^ (1 << c.below(d + 2)),
                    1 => (get_int(&s[4..18]) as usize) + (1 << d),
                    _ => 1 << d,
                };
                let mut y = s.clone();
                y[4..18].copy_from_slice(&put_int(e as i64, 14));
                ("leaf-number-altered", h, y)
            }
        };
        if (&h2_, &s2) == (&sigs[i].0, &sigs[i].1) {
            continue;
        }
        if sigs.iter().any(|(a, b)| *a == h2_ && *b == s2) {
            continue;
        }
        let (v, r) = lib_accepts(c, what, &pk, &h2_, &s2);
        c.log(format!("{} on signature {}: verify {} recover {:?}", what, i, v, r.as_ref().map(|x| x.1)));
        c.state(h2(hstr(what), h2(d as u64, i as u64)));
        c.check(!v, &["S04"], "forgery-accepted", || format!("height {}: {} still verifies", d, what));
        let same = r.as_ref().map_or(false, |x| x.0 == pk);
        c.check(!same, &["S04"], "signer-recovered", || format!("height {}: {} still recovers the signer's key", d, what));
        if let Some((_, n)) = r {
            let dd = get_int(&s2[..4]);
            c.check(dd >= 0 && n == 18 + 13122 + 243 * dd as usize && n <= s2.len(), &["S04"], "recover-size", || format!("{}: recovery consumed {} of {} trits at height {}", what, n, s2.len(), dd));
        }
    }
    // the signer's key with one trit altered, as a bare value and as a key
    for _ in 0..2 {
        let (h, s) = sigs[c.below(sigs.len())].clone();
        let mut k = pk.clone();
        let j = if c.below(2) == 0 { *c.pick(&[0usize, 1, 2, 3, 80, 81, 239, 240, 241, 242]) } else { c.below(243) };
        k[j] = (k[j] + 1 + c.below(2) as u8) % 3;
        let (v, _) = lib_accepts(c, "public-key-altered", &k, &h, &s);
        c.check(!v, &["S04"], "altered-key-verifies", || format!("height {}: the public key with trit {} altered verifies", d, j));
        let p = crate::codec::pk_from(&k);
        c.check(!p.verify(slice(&h), slice(&s)) && p != crate::codec::pk_from(&pk), &["S04"], "altered-key-verifies", || format!("height {}: the public key with trit {} altered verifies", d, j));
    }
    let (h, s) = sigs[c.below(sigs.len())].clone();
    let (v, _) = lib_accepts(c, "other-public-key", &other_pk, &h, &s);
    c.check(!v, &["S04"], "other-key-verifies", || "another key's public key verifies".into());
}
