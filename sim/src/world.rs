//! A channel in a simulated network: an author, subscribers, outsiders and a forger exchange
//! real channel messages over a network that loses, duplicates, reorders, delays, partitions and
//! alters them, while nodes crash and come back with their durable state only.

use crate::codec::*;
use crate::prog;
use crate::refm;
use crate::rt::*;
use crate::util::*;
use iota_mam::ntru;
use iota_mam::pb3::{self, Absorb, Mask};
use iota_mam::spongos::Spongos;
use iota_mam::trits::{TritSlice, Trits};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn c01(c: &mut Ctx) {
    if c.pct(4) {
        return crate::tall::channel(c);
    }
    World::run(c)
}
pub fn c02(c: &mut Ctx) {
    if c.pct(6) {
        return crate::tall::channel(c);
    }
    World::run(c)
}
pub fn c03(c: &mut Ctx) {
    if c.pct(8) {
        return crate::tall::channel(c);
    }
    World::run(c)
}
pub fn c04(c: &mut Ctx) {
    if c.pct(4) {
        return crate::tall::channel(c);
    }
    World::run(c)
}
pub fn c05(c: &mut Ctx) {
    World::run(c)
}
pub fn c07(c: &mut Ctx) {
    World::run(c)
}
pub fn c08(c: &mut Ctx) {
    if c.pct(25) {
        return prog::program(c, 20, 20);
    }
    if c.pct(5) {
        return crate::tall::channel(c);
    }
    World::run(c)
}

/// A published message, as the simulator knows it.
struct Gen {
    kind: Kind,
    id: Tv,
    by: usize,
    link: Option<usize>,
    content: Content,
    body: Tv,
    marks: Vec<usize>,
    s: Spongos,
    fp: Tv,
    session: bool,
    kl: Option<Kl>,
    /// Index of the owner's key that signed it.
    signer: Option<usize>,
    rs: Option<refm::Sponge>,
    /// State of the same message had the session key been another one (C05).
    alt: Option<Spongos>,
}

/// A keyload's recipients, in list order.
struct Kl {
    nonce: Tv,
    psks: Vec<(Tv, Tv)>,
    ntrus: Vec<(Tv, Tv)>,
    key: Tv,
    /// Trits of each entry, in the order of the lists.
    spans: Vec<(usize, usize)>,
    /// Key list position of a key taken from a subscription, and the subscriber.
    registered: Vec<(usize, usize)>,
}

#[derive(Clone)]
enum Prov {
    Genuine(usize),
    Altered(usize, String),
    Moved(usize, String),
    Forged(&'static str, &'static [&'static str]),
}

#[derive(Clone)]
struct Packet {
    app: Tv,
    id: Tv,
    body: Tv,
    from: Prov,
    /// What the receiver's link lookup is made to answer.
    resolve: Option<Cand>,
    /// Content decoder to use whatever the type string says.
    force: Option<Kind>,
}

struct Node {
    name: &'static str,
    up: bool,
    psks: HashMap<Trits, Trits>,
    ntrus: HashMap<Trits, ntru::PrivateKey>,
    /// Public part of the key held under each identifier.
    ntru_pub: BTreeMap<Tv, Tv>,
    psk: Option<(Tv, Tv)>,
    own: Option<NtruKey>,
    // volatile
    states: BTreeMap<Tv, Vec<Cand>>,
    trusted: Vec<Tv>,
    accepted: BTreeSet<usize>,
    pending: Vec<usize>,
    chpk: Option<ntru::PublicKey>,
    reg: Vec<(usize, ntru::PublicKey)>,
    // survives restarts
    durable: Vec<(Tv, Cand, usize)>,
}

impl Node {
    fn new(name: &'static str) -> Self {
        Node {
            name,
            up: true,
            psks: HashMap::new(),
            ntrus: HashMap::new(),
            ntru_pub: BTreeMap::new(),
            psk: None,
            own: None,
            states: BTreeMap::new(),
            trusted: Vec::new(),
            accepted: BTreeSet::new(),
            pending: Vec::new(),
            chpk: None,
            reg: Vec::new(),
            durable: Vec::new(),
        }
    }
    fn add_psk(&mut self, id: &[u8], key: &[u8]) {
        self.psks.insert(to_trits(id), to_trits(key));
    }
    fn has(&self, gens: &[Gen], g: usize) -> Option<&Cand> {
        self.states.get(&gens[g].id).and_then(|v| v.iter().find(|x| x.gen == Some(g)))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Exp {
    Accept,
    NoKey,
    DecrFailed,
    OtherState,
    NoLink,
    Refused,
}

pub struct World {
    app: Tv,
    root: Tv,
    keys: Vec<MssKey>,
    /// The message that introduced each key.
    intro: Vec<usize>,
    ch: Option<NtruKey>,
    mal: Vec<MssKey>,
    mal_ntru: NtruKey,
    nodes: Vec<Node>,
    /// The node whose received states the forger knows.
    insider: Option<usize>,
    gens: Vec<Gen>,
    flight: Vec<(usize, usize, Packet)>,
    cut: Option<Vec<bool>>,
    faulty: bool,
    hostile_pct: u64,
    burst_left: usize,
}

const NAMES: [&str; 6] = ["author", "anna", "boris", "clara", "dmitri", "eve"];

fn cand(g: &Gen, i: usize, msspk: Option<Tv>, sub: Option<ntru::PublicKey>) -> Cand {
    Cand { s: g.s.clone(), kind: g.kind, session: g.session, msspk: msspk.map(|x| pk_from(&x)), subpk: sub, gen: Some(i) }
}

fn differ_at(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len())
}

/// Another identifier hardly different from `id`.
fn near_id(c: &mut Ctx, id: &[u8]) -> Tv {
    let mut x = id.to_vec();
    let n = x.len();
    let at = match c.below(4) {
        0 => n - 1 - c.below(3),
        1 => c.below(3),
        _ => c.below(n),
    };
    x[at] = (x[at] + 1 + c.below(2) as u8) % 3;
    x
}

fn payload(c: &mut Ctx) -> Tv {
    let n = match c.weighted(&[6, 6, 4, 1]) {
        0 => c.below(60),
        1 => *c.pick(&[0, 1, 2, 13, 14, 26, 27, 53, 54, 80, 81, 82, 161, 162, 163, 243]),
        2 => match c.below(3) {
            0 => *c.pick(&[100, 200, 300, 364, 365, 400]),
            // around whole blocks of the sponge
            1 => 162 * (1 + c.below(4)) + c.below(3) - 1,
            _ => c.below(700),
        },
        _ => *c.pick(&[364, 365, 9841, 9842]),
    };
    if n > 3000 && !(c.is("C01") || c.is("C08") || c.is("C05")) {
        return data(c, 729);
    }
    data(c, 3 * n)
}

struct Enc {
    body: Tv,
    s: Spongos,
    marks: Vec<usize>,
}

/// Encodes into part of a buffer that has other content around it.
fn encode(c: &mut Ctx, job: &Job, app: &[u8], id: &[u8], base: Option<&Spongos>) -> Enc {
    let n = job.sizeof();
    let off = c.below(9);
    let tail = c.below(14);
    // the message may be written into the front of a larger buffer
    let more = if c.pct(50) { c.below(tail + 1) } else { 0 };
    let dirt = c.below(3) as u8;
    let mut buf = to_trits(&vec![dirt; off + n + tail]);
    let mut s = Spongos::init();
    let left = {
        let mut b = buf.slice_mut().drop(off).take(n + more);
        job.wrap(app, id, base, &mut s, &mut b);
        b.size()
    };
    let k = job.kind();
    c.check(left == more, &["C01", "C08"], "announced-size", || format!("{:?}: {} trits left of a buffer of {} more than the announced {}", k, left, more, n));
    let v = from_trits(&buf);
    c.check(v[..off].iter().chain(&v[off + n..]).all(|x| *x == dirt), &["C01", "M01"], "writes-outside", || format!("{:?}", k));
    Enc { body: v[off..off + n].to_vec(), s, marks: job.marks() }
}

fn subset_pos(body: &[u8], from: usize, to: usize) -> Tv {
    body[from.min(body.len())..to.min(body.len())].to_vec()
}

fn differ(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).filter(|(x, y)| x != y).count()
}

impl World {
    // ------------------------------------------------------------- set-up

    pub fn run(c: &mut Ctx) {
        let mut w = World::new(c);
        let rounds = 3 + c.below(if c.is("C01") || c.is("C08") { 9 } else { 6 });
        w.burst_left = if c.thorough { 60 } else { 40 };
        w.announce(c);
        w.traffic(c);
        for _ in 0..rounds {
            w.act(c);
            w.traffic(c);
        }
        w.settle(c);
    }

    fn new(c: &mut Ctx) -> Self {
        let d = c.weighted(&[1, 4, 3, 2]);
        // key 0 must be able to sign the announcement and something more
        let d = d.max(1);
        let k0 = c.below(4);
        let root = MssKey::gen(c, k0, d);
        let mal = vec![MssKey::pool(100, 1), MssKey::pool(101, d)];
        let mal_ntru = NtruKey::gen(c);
        let ch = if c.pct(if c.is("C07") { 100 } else { 85 }) { Some(NtruKey::gen(c)) } else { None };
        let mut nodes = vec![Node::new(NAMES[0])];
        nodes[0].own = ch.as_ref().map(|k| NtruKey { seed: k.seed.clone(), nonce: k.nonce.clone(), sk: k.sk.clone(), pk: k.pk.clone(), pkt: k.pkt.clone() });
        let subs = 1 + c.below(3);
        let psk_id = |c: &mut Ctx| {
            if c.pct(15) {
                data(c, 81)
            } else {
                rdata(c, 81)
            }
        };
        for i in 0..=subs {
            if i > 0 {
                nodes.push(Node::new(NAMES[i]));
                if c.pct(75) {
                    let k = NtruKey::gen(c);
                    nodes[i].ntrus.insert(to_trits(&k.pkid()), k.sk.clone());
                    nodes[i].ntru_pub.insert(k.pkid(), k.pkt.clone());
                    nodes[i].own = Some(k);
                }
            }
            if i == 0 || nodes[i].own.is_none() || c.pct(50) {
                let kin: Vec<Tv> = nodes.iter().filter_map(|n| n.psk.as_ref().map(|p| p.0.clone())).collect();
                let id = if !kin.is_empty() && c.pct(15) {
                    let k = c.pick(&kin).clone();
                    near_id(c, &k)
                } else {
                    psk_id(c)
                };
                let key = rdata(c, 243);
                let taken = nodes.iter().any(|n| n.psk.as_ref().map(|p| p.0 == id).unwrap_or(false));
                if !taken {
                    nodes[i].add_psk(&id, &key);
                    nodes[i].psk = Some((id, key));
                }
            }
        }
        if c.pct(if c.is("C05") { 90 } else { 35 }) {
            // an outsider; it may hold wrong keys under identifiers of others
            let mut e = Node::new(NAMES[5]);
            let mine = NtruKey::gen(c);
            if c.pct(60) {
                for v in 0..nodes.len() {
                    if let Some((id, key)) = nodes[v].psk.clone() {
                        if c.pct(60) {
                            let mut k = key.clone();
                            match c.weighted(&[2, 1, 1]) {
                                0 => {
                                    let at = c.below(243);
                                    k[at] = (k[at] + 1 + c.below(2) as u8) % 3;
                                }
                                1 => k = rdata(c, 243),
                                _ => {
                                    k = vec![0; 243];
                                }
                            }
                            let id = if c.pct(30) { near_id(c, &id) } else { id };
                            e.add_psk(&id, &k);
                        }
                    }
                    if let Some(k) = &nodes[v].own {
                        if v > 0 && c.pct(60) {
                            e.ntrus.insert(to_trits(&k.pkid()), mine.sk.clone());
                            e.ntru_pub.insert(k.pkid(), mine.pkt.clone());
                        }
                    }
                }
            }
            e.ntrus.insert(to_trits(&mine.pkid()), mine.sk.clone());
            e.ntru_pub.insert(mine.pkid(), mine.pkt.clone());
            e.own = Some(mine);
            nodes.push(e);
        }
        for n in &mut nodes {
            n.trusted.push(root.pk.clone());
        }
        let insider = if c.pct(60) { Some(1 + c.below(nodes.len() - 1)) } else { None };
        let app = if c.pct(70) { root.pk.clone() } else { data(c, 243) };
        c.log(format!("channel d={} app={} nodes={} ntru={} insider={:?}", d, hex(&app), nodes.len(), ch.is_some(), insider));
        World {
            app,
            root: root.pk.clone(),
            keys: vec![root],
            intro: vec![],
            ch,
            mal,
            mal_ntru,
            nodes,
            insider,
            gens: vec![],
            flight: vec![],
            cut: None,
            faulty: true,
            hostile_pct: if c.is("C02") || c.is("C04") { 10 } else { 4 },
            burst_left: 0,
        }
    }

    fn new_id(&self, c: &mut Ctx) -> Tv {
        let mut id = match c.weighted(&[5, 2, 1]) {
            1 if !self.gens.is_empty() => {
                let g = c.below(self.gens.len());
                let mut id = self.gens[g].id.clone();
                let at = *c.pick(&[0, 1, 2, 26, 27, 40, 79, 80]);
                id[at] = (id[at] + 1) % 3;
                id
            }
            2 => data(c, 81),
            _ => rdata(c, 81),
        };
        let mut k = 0;
        while self.gens.iter().any(|g| g.id == id) {
            id[k % 81] = (id[k % 81] + 1) % 3;
            k += 1;
        }
        id
    }

    // ------------------------------------------------------------- publishing

    fn push(&mut self, c: &mut Ctx, g: Gen, cd: Cand) -> usize {
        let i = self.gens.len();
        let by = g.by;
        c.log(format!("{} publishes #{} {:?} link={:?} {}", self.nodes[by].name, i, g.kind, g.link, hex(&g.body)));
        if g.session {
            self.clear_text(c, &g);
        }
        let id = g.id.clone();
        if g.kind == Kind::Subscribe {
            self.nodes[by].durable.push((id.clone(), cd.clone(), i));
        }
        if let Some(pk) = &cd.msspk {
            let pk = pk_tv(pk);
            if !self.nodes[by].trusted.contains(&pk) {
                self.nodes[by].trusted.push(pk);
            }
        }
        self.nodes[by].states.entry(id).or_default().push(cd);
        self.nodes[by].accepted.insert(i);
        self.gens.push(g);
        self.retry(c, by);
        // one copy to everybody
        for n in 0..self.nodes.len() {
            if n != by {
                self.send(c, by, n, self.genuine(i));
            }
        }
        i
    }
    fn genuine(&self, i: usize) -> Packet {
        Packet { app: self.app.clone(), id: self.gens[i].id.clone(), body: self.gens[i].body.clone(), from: Prov::Genuine(i), resolve: None, force: None }
    }

    fn refcheck(&self, c: &mut Ctx, kind: Kind, rj: &RefJob, id: &[u8], link: Option<usize>, e: &Enc) -> Option<refm::Sponge> {
        let base = link.and_then(|l| self.gens[l].rs.as_ref());
        let (rb, rs) = ref_encode(kind, rj, &self.app, id, base);
        c.check(rb.len() == e.body.len(), &["C08"], "format-size", || format!("{:?}: {} trits, the format has {}", kind, e.body.len(), rb.len()));
        let at = rb.iter().zip(&e.body).position(|(a, b)| a != b);
        c.check(at.is_none(), &["C08"], "format", || format!("{:?}: trit {} of {} differs from the format; field starts {:?}", kind, at.unwrap(), rb.len(), e.marks));
        let f = fp(&e.s);
        c.check(rs.fp() == f, &["C08"], "format-state", || format!("{:?}: state after encoding differs from the format", kind));
        c.probe("encoded-both-ways");
        // the same message of another protocol version
        let v = c.below(27) as i64 - 13;
        if v != 1 {
            let mut b = rb.clone();
            b[..3].copy_from_slice(&put_int(v, 3));
            let t = to_trits(&b);
            let r = iota_mam::app::core::msg::header::unwrap(&app_of(&self.app), &id_of(id), &mut Spongos::init(), &mut t.slice());
            c.fault("other-protocol-version");
            c.check(r.is_err() && r == Err(pb3::Err::VersionUnsupported), &["C08"], "other-version-accepted", || format!("{:?} of version {}: {:?}", kind, v, r.as_ref().map(|t| t.0.to_str())));
        }
        Some(rs)
    }

    fn announce(&mut self, c: &mut Ctx) {
        let id = self.new_id(c);
        let app = self.app.clone();
        let n = self.ch.as_ref().map(|k| k.pk.clone());
        let e = encode(c, &Job::Announce { sk: &self.keys[0].sk, ntru: n.clone() }, &app, &id, None);
        let rs = if c.is("C08") {
            let m = self.keys[0].reference();
            let rj = RefJob::Announce { pk: self.keys[0].pk.clone(), ntru: self.ch.as_ref().map(|k| k.pkt.clone()), sk: &m, skn: self.keys[0].used };
            self.refcheck(c, Kind::Announce, &rj, &id, None, &e)
        } else {
            None
        };
        self.keys[0].advance();
        let g = Gen {
            kind: Kind::Announce,
            id,
            by: 0,
            link: None,
            content: Content::Announce { pk: self.root.clone(), ntru: self.ch.as_ref().map(|k| k.pkt.clone()) },
            fp: fp(&e.s),
            body: e.body,
            marks: e.marks,
            s: e.s,
            session: false,
            kl: None,
            signer: Some(0),
            rs,
            alt: None,
        };
        let cd = cand(&g, 0, Some(self.root.clone()), None);
        self.nodes[0].chpk = n;
        self.intro.push(0);
        self.push(c, g, cd);
    }

    /// Messages of node `n`'s own states it may link to.
    fn bases(&self, n: usize, f: impl Fn(&Gen) -> bool) -> Vec<usize> {
        self.nodes[n].accepted.iter().cloned().filter(|g| self.nodes[n].has(&self.gens, *g).is_some() && f(&self.gens[*g])).collect()
    }
    fn pick_base(&self, c: &mut Ctx, n: usize, f: impl Fn(&Gen) -> bool) -> Option<usize> {
        let b = self.bases(n, f);
        if b.is_empty() {
            return None;
        }
        // recent ones more often
        Some(b[b.len() - 1 - c.below(b.len()).min(c.below(b.len()))])
    }
    fn signer(&self, c: &mut Ctx) -> Option<usize> {
        let v: Vec<usize> = (0..self.intro.len()).filter(|k| self.keys[*k].left() > 0 && self.nodes[0].accepted.contains(&self.intro[*k])).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[v.len() - 1 - c.below(v.len())])
        }
    }

    fn act(&mut self, c: &mut Ctx) {
        let author = self.nodes[0].up;
        let p = c.prop;
        let w: [u64; 7] = match p {
            "C07" => [2, 1, 1, 1, 6, 4, 1],
            "C03" => [3, 5, 3, 5, 1, 0, 1],
            "C05" => [6, 3, 4, 0, 2, 0, 1],
            _ => [4, 4, 3, 3, 3, 2, 2],
        };
        for _ in 0..3 {
            let done = match c.weighted(&w) {
                0 => author && self.keyload(c),
                1 => author && self.signed(c),
                2 => author && self.tagged(c, 0),
                3 => author && self.change_key(c),
                4 => self.subscribe(c),
                5 => self.unsubscribe(c),
                _ => {
                    let n = 1 + c.below(self.nodes.len() - 1);
                    self.nodes[n].up && self.tagged(c, n)
                }
            };
            if done {
                return;
            }
        }
    }

    fn change_key(&mut self, c: &mut Ctx) -> bool {
        let l = match self.pick_base(c, 0, |g| matches!(g.kind, Kind::Announce | Kind::ChangeKey)) {
            Some(l) => l,
            None => return false,
        };
        let old = self.intro.iter().position(|i| *i == l).unwrap();
        if self.keys[old].left() == 0 || self.intro.len() > 4 {
            return false;
        }
        let d = c.weighted(&[1, 4, 2, 1]);
        let new = self.intro.len();
        let key = MssKey::gen(c, 10 + new, d);
        self.keys.push(key);
        let id = self.new_id(c);
        let base = self.nodes[0].has(&self.gens, l).unwrap().s.clone();
        let link = self.gens[l].id.clone();
        let e = encode(c, &Job::ChangeKey { link: link.clone(), new: &self.keys[new].sk, old: &self.keys[old].sk }, &self.app.clone(), &id, Some(&base));
        let rs = if c.is("C08") {
            let a = self.keys[new].reference();
            let b = self.keys[old].reference();
            let rj = RefJob::ChangeKey { link, new: &a, new_skn: 0, old: &b, old_skn: self.keys[old].used };
            self.refcheck(c, Kind::ChangeKey, &rj, &id, Some(l), &e)
        } else {
            None
        };
        self.keys[new].advance();
        self.keys[old].advance();
        let pk = self.keys[new].pk.clone();
        let g = Gen {
            kind: Kind::ChangeKey,
            id,
            by: 0,
            link: Some(l),
            content: Content::ChangeKey { pk: pk.clone() },
            fp: fp(&e.s),
            body: e.body,
            marks: e.marks,
            s: e.s,
            session: false,
            kl: None,
            signer: Some(old),
            rs,
            alt: None,
        };
        let i = self.gens.len();
        self.intro.push(i);
        let cd = cand(&g, i, Some(pk), None);
        self.push(c, g, cd);
        true
    }

    fn keyload(&mut self, c: &mut Ctx) -> bool {
        let l = match self.pick_base(c, 0, |_| true) {
            Some(l) => l,
            None => return false,
        };
        let id = self.new_id(c);
        let nonce = if c.pct(20) { data(c, 81) } else { rdata(c, 81) };
        let key = if c.pct(10) { data(c, 243) } else { rdata(c, 243) };
        let prng = rdata(c, 243);
        let mut psks: Vec<(Tv, Tv)> = Vec::new();
        for n in &self.nodes {
            if let Some(p) = &n.psk {
                if c.pct(if n.name == "author" { 85 } else { 65 }) {
                    psks.push(p.clone());
                }
            }
        }
        let extra = match c.weighted(&[12, 6, 3, 1]) {
            0 => 0,
            1 => 1 + c.below(3),
            2 => *c.pick(&[10, 12, 13, 14, 15]),
            _ => {
                if c.is("C02") || c.is("C03") {
                    14
                } else {
                    *c.pick(&[39, 40, 41, 364, 365])
                }
            }
        };
        let odd = c.pct(30);
        let kin: Vec<Tv> = self.nodes.iter().filter_map(|n| n.psk.as_ref().map(|p| p.0.clone())).collect();
        for _ in 0..extra {
            let id = if odd && !kin.is_empty() && c.pct(25) {
                let k = c.pick(&kin).clone();
                near_id(c, &k)
            } else if odd && c.pct(25) {
                data(c, 81)
            } else {
                rdata(c, 81)
            };
            if !psks.iter().any(|p| p.0 == id) {
                let key = if odd && c.pct(25) { data(c, 243) } else { rdata(c, 243) };
                psks.push((id, key));
            }
        }
        for i in (1..psks.len()).rev() {
            let j = if extra < 20 { c.below(i + 1) } else { i - c.below(2).min(i) };
            psks.swap(i, j);
        }
        // public keys: as registered by subscription, or known otherwise
        let mut ntrus: Vec<(Tv, ntru::PublicKey, Option<usize>)> = Vec::new();
        for (g, pk) in self.nodes[0].reg.clone() {
            if c.pct(85) {
                ntrus.push((npk_tv(&pk), pk, Some(self.gens[g].by)));
            }
        }
        for n in 1..self.nodes.len() {
            if let Some(k) = &self.nodes[n].own {
                if self.nodes[n].name != "eve" && c.pct(35) && !ntrus.iter().any(|x| x.0 == k.pkt) {
                    ntrus.push((k.pkt.clone(), k.pk.clone(), None));
                }
            }
        }
        let extra_n = c.weighted(&if c.thorough { [20, 6, 2, 1, 2] } else { [60, 18, 6, 1, 1] });
        for _ in 0..[0, 1, 3, 7 + c.below(6), 14][extra_n] {
            let k = NtruKey::gen(c);
            ntrus.push((k.pkt.clone(), k.pk.clone(), None));
        }
        for i in (1..ntrus.len()).rev() {
            let j = c.below(i + 1);
            ntrus.swap(i, j);
        }
        ntrus.dedup_by(|a, b| a.0 == b.0);
        let sg = if c.pct(30) { self.signer(c) } else { None };
        let pairs: Vec<(Trits, Trits)> = psks.iter().map(|(a, b)| (to_trits(a), to_trits(b))).collect();
        let npairs: Vec<(Trits, ntru::PublicKey)> = ntrus.iter().map(|x| (Trits::from_slice(x.1.id()), x.1.clone())).collect();
        let base = self.nodes[0].has(&self.gens, l).unwrap().s.clone();
        let link = self.gens[l].id.clone();
        let app = self.app.clone();
        let job = Job::Keyload { link: link.clone(), nonce: nonce.clone(), psks: &pairs, ntrus: &npairs, prng: prng.clone(), key: key.clone(), sign: sg.map(|k| &self.keys[k].sk) };
        let e = encode(c, &job, &app, &id, Some(&base));
        let mut spans = Vec::new();
        let mut at = e.marks[6];
        for _ in 0..psks.len() {
            spans.push((at, 324));
            at += 324;
        }
        at += refm::size_enc(ntrus.len()).len();
        for _ in 0..ntrus.len() {
            spans.push((at, 81 + 9216));
            at += 81 + 9216;
        }
        let mut alt = None;
        if c.is("C05") {
            alt = Some(self.keyload_secrecy(c, &e, &key, &link, &nonce, &pairs, &npairs, &prng, &id, &base, self.gens[l].alt.as_ref(), &spans));
        }
        let rs = if c.is("C08") {
            let m = sg.map(|k| (self.keys[k].reference(), self.keys[k].used));
            let rj = RefJob::Keyload {
                link,
                nonce: nonce.clone(),
                psks: psks.clone(),
                ntrus: ntrus.iter().map(|x| (x.0[..81].to_vec(), x.0.clone())).collect(),
                prng,
                key: key.clone(),
                sign: m.as_ref().map(|(a, b)| (&**a, *b)),
            };
            self.refcheck(c, Kind::Keyload, &rj, &id, Some(l), &e)
        } else {
            None
        };
        if let Some(k) = sg {
            self.keys[k].advance();
        }
        let registered = ntrus.iter().enumerate().filter_map(|(i, x)| x.2.map(|n| (i, n))).collect();
        let g = Gen {
            kind: Kind::Keyload,
            id,
            by: 0,
            link: Some(l),
            content: Content::Keyload { signed: sg.map(|k| self.keys[k].pk.clone()) },
            fp: fp(&e.s),
            body: e.body,
            marks: e.marks,
            s: e.s,
            session: true,
            kl: Some(Kl { nonce, psks, ntrus: ntrus.iter().map(|x| (from_slice(x.1.id()), x.0.clone())).collect(), key, spans, registered }),
            signer: sg,
            rs,
            alt,
        };
        let cd = cand(&g, self.gens.len(), None, None);
        self.push(c, g, cd);
        true
    }

    fn signed(&mut self, c: &mut Ctx) -> bool {
        let k = match self.signer(c) {
            Some(k) => k,
            None => return false,
        };
        let l = match self.pick_base(c, 0, |_| true) {
            Some(l) => l,
            None => return false,
        };
        let id = self.new_id(c);
        let (public, masked) = if c.pct(6) { (vec![], vec![]) } else { (payload(c), payload(c)) };
        let base = self.nodes[0].has(&self.gens, l).unwrap().s.clone();
        let link = self.gens[l].id.clone();
        let app = self.app.clone();
        let job = Job::Signed { link: link.clone(), public: public.clone(), masked: masked.clone(), sk: &self.keys[k].sk };
        let e = encode(c, &job, &app, &id, Some(&base));
        let alt = self.masked_secrecy(c, l, &job, &e, &app, &id);
        if c.is("C03") && c.pct(40) {
            // the same one-time key would sign another message in all of its chains: a signature
            // that leaves part of the hash out fits other messages
            let id2 = rdata(c, 81);
            let (e2, _) = job.body(&app, &id2, Some(&base));
            let at = e.marks[10];
            for part in 0..3 {
                let same = (26 * part..26 * part + 26).filter(|k| e.body[at + 162 * k..at + 162 * k + 162] == e2[at + 162 * k..at + 162 * k + 162]).count();
                c.check(same <= 13, &["C03"], "hash-not-signed", || format!("{} of the 26 chains of part {} are the same for another message", same, part));
            }
            c.fault("same-leaf-other-message");
        }
        let rs = if c.is("C08") {
            let m = self.keys[k].reference();
            let rj = RefJob::Signed { link, public: public.clone(), masked: masked.clone(), sk: &m, skn: self.keys[k].used };
            self.refcheck(c, Kind::Signed, &rj, &id, Some(l), &e)
        } else {
            None
        };
        self.keys[k].advance();
        let g = Gen {
            kind: Kind::Signed,
            id,
            by: 0,
            link: Some(l),
            content: Content::Packet { pk: Some(self.keys[k].pk.clone()), public, masked },
            fp: fp(&e.s),
            body: e.body,
            marks: e.marks,
            s: e.s,
            session: self.gens[l].session,
            kl: None,
            signer: Some(k),
            rs,
            alt,
        };
        let cd = cand(&g, self.gens.len(), None, None);
        self.push(c, g, cd);
        true
    }

    fn tagged(&mut self, c: &mut Ctx, n: usize) -> bool {
        let l = match self.pick_base(c, n, |g| n == 0 || g.session) {
            Some(l) => l,
            None => return false,
        };
        let id = self.new_id(c);
        let (public, masked) = if c.pct(6) { (vec![], vec![]) } else { (payload(c), payload(c)) };
        let base = self.nodes[n].has(&self.gens, l).unwrap().s.clone();
        let link = self.gens[l].id.clone();
        let app = self.app.clone();
        let job = Job::Tagged { link: link.clone(), public: public.clone(), masked: masked.clone() };
        let e = encode(c, &job, &app, &id, Some(&base));
        let alt = self.masked_secrecy(c, l, &job, &e, &app, &id);
        let rs = if c.is("C08") {
            let rj = RefJob::Tagged { link, public: public.clone(), masked: masked.clone() };
            self.refcheck(c, Kind::Tagged, &rj, &id, Some(l), &e)
        } else {
            None
        };
        let g = Gen {
            kind: Kind::Tagged,
            id,
            by: n,
            link: Some(l),
            content: Content::Packet { pk: None, public, masked },
            fp: fp(&e.s),
            body: e.body,
            marks: e.marks,
            s: e.s,
            session: self.gens[l].session,
            kl: None,
            signer: None,
            rs,
            alt,
        };
        let cd = cand(&g, self.gens.len(), None, None);
        self.push(c, g, cd);
        true
    }

    fn subscribe(&mut self, c: &mut Ctx) -> bool {
        let v: Vec<usize> = (1..self.nodes.len()).filter(|n| self.nodes[*n].up && self.nodes[*n].own.is_some() && self.nodes[*n].chpk.is_some()).collect();
        if v.is_empty() {
            return false;
        }
        let n = *c.pick(&v);
        let l = match self.pick_base(c, n, |g| g.kind != Kind::Subscribe) {
            Some(l) => l,
            None => return false,
        };
        let id = self.new_id(c);
        let prng = rdata(c, 243);
        let nonce = rdata(c, 30);
        let base = self.nodes[n].has(&self.gens, l).unwrap().s.clone();
        let link = self.gens[l].id.clone();
        let own = self.nodes[n].own.as_ref().unwrap();
        let (sub, subt) = (own.pk.clone(), own.pkt.clone());
        let ch = self.nodes[n].chpk.clone().unwrap();
        let cht = npk_tv(&ch);
        let app = self.app.clone();
        let job = Job::Subscribe { link: link.clone(), prng: prng.clone(), nonce: nonce.clone(), sub: sub.clone(), ch: ch.clone() };
        let e = encode(c, &job, &app, &id, Some(&base));
        if c.is("C07") || c.is("C05") {
            self.subscription_secrecy(c, &e, l, &subt, &link, &nonce, &sub, &ch, &id, &base);
        }
        let rs = if c.is("C08") {
            let rj = RefJob::Subscribe { link, prng, nonce, sub: subt.clone(), ch: cht };
            self.refcheck(c, Kind::Subscribe, &rj, &id, Some(l), &e)
        } else {
            None
        };
        let g = Gen {
            kind: Kind::Subscribe,
            id,
            by: n,
            link: Some(l),
            content: Content::Subscribe { pk: subt },
            fp: fp(&e.s),
            body: e.body,
            marks: e.marks,
            s: e.s,
            session: true,
            kl: None,
            signer: None,
            rs,
            alt: None,
        };
        let cd = cand(&g, self.gens.len(), None, Some(sub));
        self.push(c, g, cd);
        true
    }

    fn unsubscribe(&mut self, c: &mut Ctx) -> bool {
        let v: Vec<(usize, usize)> = (1..self.nodes.len()).filter(|n| self.nodes[*n].up).flat_map(|n| self.nodes[n].durable.iter().map(move |x| (n, x.2)).collect::<Vec<_>>()).collect();
        if v.is_empty() {
            return false;
        }
        let (n, l) = *c.pick(&v);
        let id = self.new_id(c);
        let base = match self.nodes[n].has(&self.gens, l) {
            Some(b) => b.s.clone(),
            None => return false,
        };
        let link = self.gens[l].id.clone();
        let app = self.app.clone();
        let e = encode(c, &Job::Unsubscribe { link: link.clone() }, &app, &id, Some(&base));
        let rs = if c.is("C08") { self.refcheck(c, Kind::Unsubscribe, &RefJob::Unsubscribe { link }, &id, Some(l), &e) } else { None };
        let pk = match &self.gens[l].content {
            Content::Subscribe { pk } => pk.clone(),
            _ => unreachable!(),
        };
        let g = Gen {
            kind: Kind::Unsubscribe,
            id,
            by: n,
            link: Some(l),
            content: Content::Unsubscribe { pk },
            fp: fp(&e.s),
            body: e.body,
            marks: e.marks,
            s: e.s,
            session: true,
            kl: None,
            signer: None,
            rs,
            alt: None,
        };
        let cd = cand(&g, self.gens.len(), None, None);
        self.push(c, g, cd);
        true
    }

    // ------------------------------------------------------------- secrecy oracles

    /// Nothing masked or secret appears on the wire.
    fn clear_text(&self, c: &mut Ctx, g: &Gen) {
        const W: usize = 40;
        let secrets: Vec<(&'static str, Tv)> = match (&g.content, &g.kl) {
            (Content::Packet { masked, .. }, _) => vec![("masked payload", masked.clone())],
            (_, Some(k)) => vec![("session key", k.key.clone())],
            (Content::Subscribe { pk }, _) => vec![("subscriber's key", pk.clone())],
            _ => vec![],
        };
        for (what, x) in secrets {
            // patterned data may occur by accident
            let distinct = x.windows(W).take(200).collect::<BTreeSet<_>>().len();
            let flat = (0..3u8).any(|t| 5 * x.iter().filter(|y| **y == t).count() < x.len());
            if x.len() < 2 * W || distinct < 40 || flat {
                continue;
            }
            // also what is on the wire of every other message
            let mut hit = shares_window(&g.body, &x, W).map(|p| (self.gens.len(), p));
            if hit.is_none() && g.kl.is_some() {
                hit = self.gens.iter().enumerate().find_map(|(i, o)| shares_window(&o.body, &x, W).map(|p| (i, p)));
            }
            let public = match &g.content {
                Content::Packet { public, .. } => shares_window(public, &x, W).is_some(),
                _ => false,
            };
            if public {
                continue;
            }
            let props: &[&str] = if g.kind == Kind::Subscribe { &["C05", "C07"] } else { &["C05"] };
            c.check(hit.is_none(), props, "secret-on-the-wire", || format!("{} of {:?} appears in clear in message {:?}", what, g.kind, hit));
        }
    }

    /// The same keyload with another session key: everything derived from the key must change,
    /// for every recipient, and the key list must not be openable with other keys.
    fn keyload_secrecy(
        &self,
        c: &mut Ctx,
        e: &Enc,
        key: &[u8],
        link: &[u8],
        nonce: &[u8],
        psks: &[(Trits, Trits)],
        ntrus: &[(Trits, ntru::PublicKey)],
        prng: &[u8],
        id: &[u8],
        base: &Spongos,
        base_alt: Option<&Spongos>,
        spans: &[(usize, usize)],
    ) -> Spongos {
        let mut k2 = key.to_vec();
        match c.weighted(&[3, 1, 1]) {
            0 => {
                let at = c.below(243);
                k2[at] = (k2[at] + 1 + c.below(2) as u8) % 3;
            }
            1 => {
                k2 = vec![0; 243];
                if key.iter().all(|x| *x == 0) {
                    k2[5] = 1;
                }
            }
            _ => k2 = rdata(c, 243),
        }
        let changed = k2 != key;
        let mk = |k: &[u8], psks: &[(Trits, Trits)], prng: &[u8], base: &Spongos| {
            Job::Keyload { link: link.to_vec(), nonce: nonce.to_vec(), psks, ntrus, prng: prng.to_vec(), key: k.to_vec(), sign: None }.body(&self.app, id, Some(base))
        };
        let (b2, s2) = mk(&k2, psks, prng, base);
        let plain = e.marks.last().cloned().unwrap_or(0).min(b2.len());
        c.probe("keyload-rewrapped");
        if changed {
            let (f1, f2) = (fp(&e.s), fp(&s2));
            // signed keyloads have squeezed a hash in between; compare like with like
            let (_, s1) = mk(key, psks, prng, base);
            c.check(fp(&s1) != f2 && f1 != f2, &["C05"], "session-ignores-key", || "the session state is the same under another session key".into());
            let d = differ(&fp(&s1)[..243], &f2[..243]);
            c.check(d > 81, &["C05"], "session-ignores-key", || format!("only {} of 243 trits of the session depend on the key", d));
            for (i, (a, n)) in spans.iter().enumerate() {
                let (x, y) = (&e.body[*a..*a + *n], &b2[*a..*a + *n]);
                c.check(x != y, &["C05"], "entry-ignores-key", || format!("recipient {} of {} gets no key", i, spans.len()));
                if *n > 1000 {
                    // capsules of two keys: were they made with the same randomness, their difference
                    // would be small and show the difference of the keys
                    let q = 12289;
                    let small = (0..1024).filter(|j| {
                        let v = |b: &[u8]| get_int(&b[81 + 9 * j..90 + 9 * j]);
                        let d = (v(x) - v(y)).rem_euclid(q);
                        d <= 2 || d >= q - 2
                    });
                    let m = small.count();
                    c.check(m < 200, &["C05"], "capsule-difference", || format!("capsules of two keys for recipient {} differ by small amounts in {} of 1024 coefficients", i, m));
                }
            }
        }
        let _ = plain;
        // other pre-shared keys: the encrypted key must look entirely different
        if !psks.is_empty() {
            let i = c.below(psks.len());
            let mut p2: Vec<(Trits, Trits)> = psks.to_vec();
            let mut k = from_trits(&p2[i].1);
            let at = c.below(243);
            k[at] = (k[at] + 1 + c.below(2) as u8) % 3;
            p2[i].1 = to_trits(&k);
            let (b3, _) = mk(key, &p2, prng, base);
            let (a, _) = spans[i];
            let d = differ(&e.body[a + 81..a + 324], &b3[a + 81..a + 324]);
            c.check(d > 81, &["C05"], "entry-ignores-psk", || format!("only {} of 243 trits of the encrypted key depend on the pre-shared key", d));
            let p3: Vec<(Trits, Trits)> = psks.iter().map(|p| (p.0.clone(), to_trits(&rdata(c, 243)))).collect();
            let (b5, _) = mk(key, &p3, prng, base);
            for (j, (a, _)) in spans.iter().enumerate().take(psks.len()) {
                let d = differ(&e.body[a + 81..a + 324], &b5[a + 81..a + 324]);
                c.check(d > 81, &["C05"], "entry-ignores-psk", || format!("only {} of 243 trits of the encrypted key of entry {} depend on the pre-shared key", d, j));
            }
            for (j, (a, n)) in spans.iter().enumerate() {
                if j != i {
                    let same = e.body[*a..*a + *n] == b3[*a..*a + *n];
                    c.check(same, &["C05"], "entries-coupled", || format!("entry {} depends on the pre-shared key of entry {}", j, i));
                }
            }
        }
        if !ntrus.is_empty() {
            let p2 = rdata(c, 243);
            let (b4, _) = mk(key, psks, &p2, base);
            for i in psks.len()..spans.len() {
                let (a, n) = spans[i];
                let d = differ(&e.body[a + 81..a + n], &b4[a + 81..a + n]);
                c.check(d > (n - 81) / 3, &["C05"], "capsule-not-random", || format!("only {} of {} trits of a capsule depend on the secret randomness", d, n - 81));
            }
        }
        let s2 = match base_alt {
            Some(b) => mk(&k2, psks, prng, b).1,
            None => s2,
        };
        s2
    }

    /// The same packet under another session key: the masked part must change all over.
    fn masked_secrecy(&self, c: &mut Ctx, l: usize, job: &Job, e: &Enc, app: &[u8], id: &[u8]) -> Option<Spongos> {
        if !c.is("C05") {
            return None;
        }
        let base = self.gens[l].alt.as_ref()?;
        let (b2, s2) = job.body(app, id, Some(base));
        let (a, z) = (e.marks[7], e.marks[8]);
        let (x, y) = (&e.body[a..z], &b2[a..z]);
        let d = differ(x, y);
        c.probe("packet-rewrapped");
        let signed = matches!(job, Job::Signed { .. });
        if z > a && c.pct(if signed { 8 } else { 60 }) {
            // no tryte of the payload stays the same under a dozen other sessions
            let mut still: Vec<bool> = vec![true; (z - a) / 3];
            for i in 0..12u8 {
                let mut b = base.fork();
                b.absorb(slice(&[i % 3, i / 3 % 3, i / 9, 1]));
                b.commit();
                let (w, _) = job.body(app, id, Some(&b));
                for (k, t) in still.iter_mut().enumerate() {
                    *t &= w[a + 3 * k..a + 3 * k + 3] == x[3 * k..3 * k + 3];
                }
            }
            let k = still.iter().position(|t| *t);
            c.check(k.is_none(), &["C05"], "mask-ignores-key", || format!("masked tryte {} of {} is the same under 12 other sessions", k.unwrap(), still.len()));
        }
        if z - a >= 162 {
            c.check(d > (z - a) / 3, &["C05"], "mask-ignores-key", || format!("only {} of {} masked trits change with the session key", d, z - a));
            // every part of it
            for (i, (p, q)) in x.chunks(81).zip(y.chunks(81)).enumerate() {
                if p.len() == 81 {
                    let d = differ(p, q);
                    c.check(d > 20, &["C05"], "mask-ignores-key", || format!("only {} of 81 masked trits from {} change with the session key", d, 81 * i));
                }
            }
        }
        // somebody without the session reads it with a state of his own
        let guess = {
            let g = self.gens.iter().filter(|g| !g.session).count();
            let public: Vec<&Gen> = self.gens.iter().filter(|g| !g.session).collect();
            match c.below(3) {
                0 => base.clone(),
                1 if g > 0 => public[c.below(g)].s.clone(),
                _ => Spongos::init(),
            }
        };
        let masked = match job {
            Job::Signed { masked, .. } | Job::Tagged { masked, .. } => masked.clone(),
            _ => vec![],
        };
        if masked.len() >= 162 {
            let mut s = Spongos::init();
            let t = to_trits(&e.body);
            let mut b = t.slice();
            let got = (|| {
                iota_mam::app::core::msg::header::unwrap(&app_of(app), &id_of(id), &mut s, &mut b).ok()?;
                pb3::join::unwrap_join(|_: TritSlice| Some((guess.clone(), ())), &mut s, &mut b).ok()?;
                pb3::Trytes::unwrap_absorb_sized(&mut s, &mut b).ok()?;
                let n = z - a;
                // size first, whatever it comes to
                let mut sz = Trits::zero(e.marks[7] - e.marks[6]);
                sz.unwrap_mask(&mut s, &mut b).ok()?;
                let mut x = Trits::zero(n);
                x.unwrap_mask(&mut s, &mut b).ok()?;
                Some(from_trits(&x))
            })();
            if let Some(x) = got {
                let d = differ(&x, &masked);
                c.fault("read-without-session");
                c.check(d > masked.len() / 3, &["C05"], "read-without-session", || format!("a node without the session reads {} of {} masked trits", masked.len() - d, masked.len()));
            }
        }
        Some(s2)
    }

    /// Nobody can tell the subscriber's key from the subscription.
    fn subscription_secrecy(&self, c: &mut Ctx, e: &Enc, l: usize, subt: &[u8], link: &[u8], nonce: &[u8], sub: &ntru::PublicKey, ch: &ntru::PublicKey, id: &[u8], base: &Spongos) {
        let props: &[&str] = &["C07", "C05"];
        let (a, z) = (e.marks[5], e.marks[6]);
        let p2 = rdata(c, 243);
        let (b2, _) = Job::Subscribe { link: link.to_vec(), prng: p2, nonce: nonce.to_vec(), sub: sub.clone(), ch: ch.clone() }.body(&self.app, id, Some(base));
        let d = differ(&e.body[a..z], &b2[a..z]);
        c.check(d > (z - a) / 3, props, "subscription-not-secret", || format!("only {} of {} trits of the masked key depend on the subscriber's secret", d, z - a));
        // somebody else's generator, whatever its nonce, gives another unsubscription key
        if let Some(k) = self.ch.as_ref().filter(|k| npk_tv(&k.pk) == npk_tv(ch)) {
            let mine = self.unsubscription_key(&e.body, id, base, &k.sk);
            let other = self.unsubscription_key(&b2, id, base, &k.sk);
            c.check(mine.is_some() && other.is_some(), props, "subscription-key-lost", || "the channel owner cannot open a subscription's capsule".into());
            if let (Some(x), Some(y)) = (mine, other) {
                c.fault("key-guessed-with-own-generator");
                let d = differ(&x, &y);
                c.check(d > 243 / 3, props, "subscription-key-predictable", || format!("two generators give unsubscription keys that differ in {} of 243 trits", d));
            }
        }
        // an eavesdropper with everything public tries to unmask
        let mut s = Spongos::init();
        let typ = pb3::Trytes(Trits::from_str(Kind::Subscribe.typ()).unwrap());
        let mut sink = Trits::zero(Kind::Subscribe.head());
        iota_mam::app::core::msg::header::wrap(&typ, &app_of(&self.app), &id_of(id), &mut s, &mut sink.slice_mut());
        let mut guess = base.clone();
        s.join(&mut guess);
        let kem = &e.body[e.marks[4]..a];
        for v in 0..4 {
            let mut t = s.fork();
            if v == 1 {
                t.absorb(slice(kem));
            }
            if v == 2 {
                t.absorb(slice(&vec![0; 243]));
            }
            if v == 3 {
                t.commit();
            }
            t.commit();
            let x = from_trits(&t.decr_trits(&to_trits(&e.body[a..z])));
            let d = differ(&x, subt);
            c.fault("eavesdropping");
            c.check(d > (z - a) / 3, props, "subscription-readable", || format!("an eavesdropper reads {} of {} trits of the subscriber's key (link #{})", z - a - d, z - a, l));
        }
    }

    /// The key in a subscription's capsule, as the channel owner sees it.
    fn unsubscription_key(&self, body: &[u8], id: &[u8], base: &Spongos, sk: &ntru::PrivateKey) -> Option<Tv> {
        let t = to_trits(body);
        let mut b = t.slice();
        let mut s = Spongos::init();
        iota_mam::app::core::msg::header::unwrap(&app_of(&self.app), &id_of(id), &mut s, &mut b).ok()?;
        pb3::join::unwrap_join(|_| Some((base.clone(), ())), &mut s, &mut b).ok()?;
        let mut k = Trits::zero(243);
        pb3::ntrukem::unwrap_ntrukem(k.slice_mut(), sk, &mut s, &mut b).ok()?;
        Some(from_trits(&k))
    }

    // ------------------------------------------------------------- network

    fn send(&mut self, c: &mut Ctx, from: usize, to: usize, p: Packet) {
        if !self.faulty {
            self.flight.push((from, to, p));
            return;
        }
        if let Some(cut) = &self.cut {
            if cut[from] != cut[to] {
                c.fault("partitioned");
                return;
            }
        }
        match c.weighted(&[14, 2, 2]) {
            0 => {}
            1 => {
                c.fault("lost");
                return;
            }
            _ => {
                c.fault("duplicated");
                self.flight.push((from, to, p.clone()));
            }
        }
        if c.pct(self.hostile_pct) {
            if let Prov::Genuine(g) = p.from {
                let q = if c.below(2) == 0 { self.alter(c, g) } else { self.moved(c, g, to) };
                if let Some(q) = q {
                    self.flight.push((from, to, q));
                    c.fault("tampered-in-flight");
                }
            }
        }
        self.flight.push((from, to, p));
    }

    fn traffic(&mut self, c: &mut Ctx) {
        let steps = self.nodes.len() + c.below(2 * self.nodes.len());
        for _ in 0..steps {
            c.now += 1 + c.below(900) as u64;
            match c.weighted(&[24, 1, 1, 1, 2, 2]) {
                0 => {
                    if self.flight.is_empty() {
                        continue;
                    }
                    let i = c.below(self.flight.len());
                    if i > 0 {
                        c.fault("reordered");
                    }
                    let (_, to, p) = self.flight.remove(i);
                    self.arrive(c, to, p);
                }
                1 => {
                    let n = c.below(self.nodes.len());
                    if self.nodes[n].up {
                        self.crash(c, n);
                    } else {
                        self.restart(c, n);
                    }
                }
                2 => {
                    if self.cut.take().is_some() {
                        c.fault("healed");
                    } else {
                        let v = (0..self.nodes.len()).map(|_| c.below(2) == 1).collect();
                        self.cut = Some(v);
                        c.fault("partition");
                    }
                }
                3 => {
                    // stall: time passes, nothing moves
                    c.now += 60_000;
                    c.fault("stalled");
                }
                4 => {
                    // a node asks another for what it misses
                    let n = c.below(self.nodes.len());
                    let from = c.below(self.nodes.len());
                    if self.nodes[n].up {
                        self.resync(c, n, from);
                    }
                }
                _ => {
                    for n in 0..self.nodes.len() {
                        if !self.nodes[n].up {
                            self.restart(c, n);
                            break;
                        }
                    }
                }
            }
        }
    }

    fn resync(&mut self, c: &mut Ctx, n: usize, from: usize) {
        if self.gens.is_empty() || n == from {
            return;
        }
        let k = c.below(self.gens.len());
        for j in 0..self.gens.len().min(4) {
            let g = (k + j) % self.gens.len();
            if !self.nodes[n].accepted.contains(&g) {
                c.fault("resent");
                let p = self.genuine(g);
                self.send(c, from, n, p);
            }
        }
    }

    fn crash(&mut self, c: &mut Ctx, n: usize) {
        c.fault("crash");
        c.log(format!("{} crashes", self.nodes[n].name));
        let root = self.root.clone();
        let x = &mut self.nodes[n];
        x.up = false;
        x.states.clear();
        x.trusted = vec![root];
        x.accepted.clear();
        x.pending.clear();
        x.chpk = None;
        x.reg.clear();
    }
    fn restart(&mut self, c: &mut Ctx, n: usize) {
        c.fault("restart");
        c.log(format!("{} restarts", self.nodes[n].name));
        self.nodes[n].up = true;
        for (id, cd, g) in self.nodes[n].durable.clone() {
            self.nodes[n].states.entry(id).or_default().push(cd);
            self.nodes[n].accepted.insert(g);
        }
        if n == 0 && c.pct(15) {
            // the author's key from its secret and the recorded position
            for k in &mut self.keys {
                if k.d <= 1 {
                    k.reload();
                }
            }
        }
    }

    fn arrive(&mut self, c: &mut Ctx, n: usize, p: Packet) {
        if !self.nodes[n].up {
            c.fault("receiver-down");
            return;
        }
        if let Prov::Genuine(g) = p.from {
            if self.nodes[n].accepted.contains(&g) {
                c.probe("copy-of-known");
                if c.pct(70) {
                    return;
                }
            }
            let before = c.below(2) == 0;
            if before {
                self.burst(c, n, g);
            }
            self.receive(c, n, &p);
            if !before {
                self.burst(c, n, g);
            }
            self.retry(c, n);
        } else {
            self.receive(c, n, &p);
        }
    }

    /// Packets that had to wait for their base or for a key.
    fn retry(&mut self, c: &mut Ctx, n: usize) {
        loop {
            let v = std::mem::take(&mut self.nodes[n].pending);
            let before = self.nodes[n].accepted.len();
            for g in v {
                if !self.nodes[n].accepted.contains(&g) {
                    let p = self.genuine(g);
                    self.receive(c, n, &p);
                }
            }
            if self.nodes[n].accepted.len() == before {
                return;
            }
        }
    }

    // ------------------------------------------------------------- receiving

    fn expected(&self, n: usize, g: usize, base: &Cand) -> Exp {
        let (x, m) = (&self.nodes[n], &self.gens[g]);
        match m.kind {
            Kind::Announce => Exp::Accept,
            Kind::ChangeKey => {
                if base.msspk.is_some() {
                    Exp::Accept
                } else {
                    Exp::NoLink
                }
            }
            Kind::Keyload => match self.opens(n, m.kl.as_ref().unwrap()) {
                (Exp::Accept, _) => match m.signer {
                    Some(k) if !x.trusted.contains(&self.keys[k].pk) => Exp::Refused,
                    _ => Exp::Accept,
                },
                (Exp::OtherState, _) if m.signer.is_some() => Exp::Refused,
                (e, _) => e,
            },
            Kind::Signed => {
                if x.trusted.contains(&self.keys[m.signer.unwrap()].pk) {
                    Exp::Accept
                } else {
                    Exp::Refused
                }
            }
            Kind::Tagged => Exp::Accept,
            Kind::Subscribe => match &x.own {
                None => Exp::Refused,
                Some(k) => {
                    if Some(&k.pkt) == self.ch.as_ref().map(|k| &k.pkt) {
                        Exp::Accept
                    } else {
                        Exp::DecrFailed
                    }
                }
            },
            Kind::Unsubscribe => {
                if base.subpk.is_some() {
                    Exp::Accept
                } else {
                    Exp::NoLink
                }
            }
        }
    }
    /// How node `n` fares with a key list, the entry it uses and how many it could use.
    fn opens(&self, n: usize, k: &Kl) -> (Exp, Option<(usize, usize)>) {
        let x = &self.nodes[n];
        let mut first = None;
        let mut count = 0;
        for (i, (id, key)) in k.psks.iter().enumerate() {
            if let Some(mine) = x.psks.get(&to_trits(id)) {
                count += 1;
                if first.is_none() {
                    first = Some((i, if from_trits(mine) == *key { Exp::Accept } else { Exp::OtherState }));
                }
            }
        }
        for (i, (id, pk)) in k.ntrus.iter().enumerate() {
            if let Some(mine) = x.ntru_pub.get(id) {
                count += 1;
                if first.is_none() {
                    first = Some((k.psks.len() + i, if mine == pk { Exp::Accept } else { Exp::DecrFailed }));
                }
            }
        }
        match first {
            None => (Exp::NoKey, None),
            Some((i, e)) => (e, Some((i, count))),
        }
    }

    fn receive(&mut self, c: &mut Ctx, n: usize, p: &Packet) -> bool {
        // the packet lies somewhere in the receiver's buffer
        let off = c.below(7);
        let tail = c.below(4);
        let by_recover = c.below(2) == 0;
        let dirt = c.below(3) as u8;
        let mut v = vec![dirt; off];
        v.extend(&p.body);
        v.extend(std::iter::repeat(dirt).take(tail));
        let buf = to_trits(&v);
        let link = peek(&p.body);
        let link_id: Option<Tv> = match (p.force, link) {
            (Some(_), _) => None,
            (None, Some((_, id))) => id,
            (None, None) => None,
        };
        let cands: Vec<Option<Cand>> = match (&p.resolve, &link_id) {
            (Some(r), _) => vec![Some(r.clone())],
            (None, Some(id)) => match self.nodes[n].states.get(id) {
                Some(v) if !v.is_empty() => v.iter().map(|x| Some(x.clone())).collect(),
                _ => vec![None],
            },
            (None, None) => vec![None],
        };
        let genuine = match p.from {
            Prov::Genuine(g) => Some(g),
            _ => None,
        };
        for base in cands {
            let r = {
                let x = &self.nodes[n];
                let keys = Keys { psks: &x.psks, ntrus: &x.ntrus, own: x.own.as_ref().map(|k| &k.sk), trusted: &x.trusted };
                let body = buf.slice().drop(off).take(p.body.len());
                if genuine.is_some() {
                    decode(&keys, &p.app, &p.id, body, base.as_ref(), by_recover, p.force)
                } else {
                    c.hostile("decoding a received message", || decode(&keys, &p.app, &p.id, body, base.as_ref(), by_recover, p.force)).unwrap_or(Err(Rej::Panic))
                }
            };
            if let (Some(g), Ok(_)) = (genuine, &r) {
                if c.is("C03") && self.gens[g].signer.is_some() && self.gens[g].kind != Kind::Announce && c.pct(30) {
                    self.nearly_trusted(c, n, g, buf.slice().drop(off).take(p.body.len()), p, base.as_ref());
                }
            }
            let name = self.nodes[n].name;
            let res = match &r {
                Ok(a) => format!("ok {:?} left {}", a.kind, a.left),
                Err(e) => format!("{:?}", e),
            };
            let src = match &p.from {
                Prov::Genuine(g) => format!("#{}", g),
                Prov::Altered(g, w) => format!("altered #{} ({})", g, w),
                Prov::Moved(g, w) => format!("moved #{} ({})", g, w),
                Prov::Forged(w, _) => format!("forged ({})", w),
            };
            c.log(format!("{} receives {} base={:?}: {}", name, src, base.as_ref().map(|b| b.gen), res));
            let took = match genuine {
                Some(g) => self.judge_genuine(c, n, g, base.as_ref(), r),
                None => self.judge_hostile(c, n, p, base.as_ref(), r),
            };
            if took {
                return true;
            }
        }
        false
    }

    /// A receiver that trusts a key hardly different from the signer's refuses what is genuine
    /// to others.
    fn nearly_trusted(&self, c: &mut Ctx, n: usize, g: usize, body: TritSlice, p: &Packet, base: Option<&Cand>) {
        let m = &self.gens[g];
        let pk = match m.kind {
            Kind::ChangeKey => match base.and_then(|b| b.msspk.clone()) {
                Some(k) => pk_tv(&k),
                None => return,
            },
            _ => self.keys[m.signer.unwrap()].pk.clone(),
        };
        let near = near_id(c, &pk);
        let x = &self.nodes[n];
        let trusted = vec![near.clone()];
        let keys = Keys { psks: &x.psks, ntrus: &x.ntrus, own: x.own.as_ref().map(|k| &k.sk), trusted: &trusted };
        let nb = base.map(|b| {
            let mut b = b.clone();
            b.msspk = Some(pk_from(&near));
            b
        });
        let r = decode(&keys, &p.app, &p.id, body, nb.as_ref(), false, p.force);
        c.fault("nearly-trusted-key");
        let at = differ_at(&near, &pk);
        c.check(r.is_err(), &["C03"], "near-key-accepted", || format!("{:?} #{} is accepted by a receiver that trusts another key, different in trit {} of 243", m.kind, g, at));
    }

    fn judge_genuine(&mut self, c: &mut Ctx, n: usize, g: usize, base: Option<&Cand>, r: Result<Acc, Rej>) -> bool {
        let kind = self.gens[g].kind;
        let who = self.nodes[n].name;
        let mut props = vec!["C01"];
        match kind {
            Kind::Keyload => props.push("C05"),
            Kind::Subscribe | Kind::Unsubscribe => props.push("C07"),
            _ => {}
        }
        let link = self.gens[g].link;
        if link.is_some() && base.is_none() {
            // the base has not arrived yet, or is not for this node
            let ok = match r {
                Err(Rej::Decode(pb3::Err::LinkNotFound)) => true,
                Err(Rej::Untrusted) => kind == Kind::Subscribe && self.nodes[n].own.is_none(),
                _ => false,
            };
            let res = r.err();
            c.check(ok, &props, "unknown-link", || format!("{:?} with unknown link gives {:?} at {}", kind, res, who));
            c.fault("before-its-base");
            if !self.nodes[n].pending.contains(&g) {
                self.nodes[n].pending.push(g);
            }
            return false;
        }
        if link.is_some() && base.unwrap().gen != link {
            // resolved to a state that a forged or altered keyload left behind
            return self.judge_wrong_base(c, n, g, &r, "bogus state under the same identifier");
        }
        let e = match base {
            Some(b) => self.expected(n, g, b),
            None => Exp::Accept,
        };
        let m = &self.gens[g];
        match e {
            Exp::Accept => {
                if let Some(k) = &m.kl {
                    if k.registered.iter().any(|(_, s)| *s == n) {
                        props.push("C07");
                    }
                }
                let a = match r {
                    Ok(a) => a,
                    Err(x) => {
                        c.check(false, &props, "intact-rejected", || format!("intact {:?} #{} rejected by {}: {:?}", kind, g, who, x));
                        return false;
                    }
                };
                let trust = a.trusted;
                c.check(trust, &props, "intact-untrusted", || format!("owner's {:?} not recognised by {}", kind, who));
                let same = a.content == m.content;
                if kind == Kind::Keyload || kind == Kind::Signed {
                    props.push("C03");
                }
                c.check(same, &props, "content-differs", || format!("{:?} #{} decoded to other content by {}", kind, g, who));
                props.retain(|x| *x != "C03");
                c.check(a.left == 0, &props, "consumed-size", || format!("{:?} #{}: {} of {} trits not consumed", kind, g, a.left, m.body.len()));
                let f = fp(&a.s);
                c.check(f == m.fp, &props, "state-differs", || format!("{:?} #{}: {} and the sender continue with different states", kind, g, who));
                c.probe(match kind {
                    Kind::Announce => "accepted-announce",
                    Kind::ChangeKey => "accepted-changekey",
                    Kind::Keyload => "accepted-keyload",
                    Kind::Signed => "accepted-signed",
                    Kind::Tagged => "accepted-tagged",
                    Kind::Subscribe => "accepted-subscribe",
                    Kind::Unsubscribe => "accepted-unsubscribe",
                });
                if self.nodes[n].accepted.contains(&g) {
                    return true;
                }
                let session = m.session;
                let id = m.id.clone();
                let cd = Cand {
                    s: a.s,
                    kind,
                    session,
                    msspk: a.msspk.clone(),
                    subpk: if kind == Kind::Subscribe { a.ntru.clone() } else { None },
                    gen: Some(g),
                };
                let x = &mut self.nodes[n];
                if let Some(pk) = a.msspk {
                    let pk = pk_tv(&pk);
                    if !x.trusted.contains(&pk) {
                        x.trusted.push(pk);
                    }
                }
                if kind == Kind::Announce {
                    x.chpk = a.ntru;
                } else if kind == Kind::Subscribe {
                    if let Some(pk) = a.ntru {
                        if !x.reg.iter().any(|r| r.1 == pk) {
                            x.reg.push((g, pk));
                        }
                    }
                }
                x.states.entry(id).or_default().push(cd);
                x.accepted.insert(g);
                let h = x.accepted.iter().fold(n as u64, |a, g| h2(a, h2(*g as u64, self.gens[*g].kind as u64)));
                c.state(h);
                true
            }
            Exp::NoKey => {
                let ok = matches!(r, Err(Rej::Decode(pb3::Err::KeyNotFound)));
                let res = r.map(|a| a.kind);
                c.check(ok, &["C05"], "no-key", || format!("{} holds no listed key, keyload #{} gives {:?}", who, g, res));
                c.fault("not-a-recipient");
                false
            }
            Exp::DecrFailed => {
                let ok = matches!(r, Err(Rej::Decode(pb3::Err::NtruDecrFailed)));
                let res = r.map(|a| a.kind);
                let props: &[&str] = if kind == Kind::Subscribe { &["C07", "C05"] } else { &["C05"] };
                c.check(ok, props, "wrong-key", || format!("{} with another key, {:?} #{} gives {:?}", who, kind, g, res));
                c.fault("wrong-private-key");
                false
            }
            Exp::OtherState => {
                c.fault("wrong-psk");
                if let Ok(a) = r {
                    let f = fp(&a.s);
                    let d = differ(&f[..243], &m.fp[..243]);
                    c.check(d > 81, &["C05"], "session-with-wrong-key", || format!("{} reaches the session of keyload #{} with a wrong key ({} of 243 trits differ)", who, g, d));
                    let id = m.id.clone();
                    self.bogus(n, id, a);
                }
                false
            }
            Exp::NoLink => {
                let ok = r.is_err();
                c.check(ok, &["C03", "C07"], "link-of-other-kind", || format!("{:?} #{} accepted by {} over a base that carries no key", kind, g, who));
                false
            }
            Exp::Refused => {
                let ok = r.is_err();
                c.check(ok, &["C03", "C05"], "unknown-key", || format!("{:?} #{} accepted by {} without the key", kind, g, who));
                if kind != Kind::Subscribe && !self.nodes[n].pending.contains(&g) {
                    self.nodes[n].pending.push(g);
                    c.fault("before-its-key");
                }
                false
            }
        }
    }

    fn bogus(&mut self, n: usize, id: Tv, a: Acc) {
        let v = self.nodes[n].states.entry(id).or_default();
        if v.iter().filter(|x| x.gen.is_none()).count() < 1 {
            v.push(Cand { s: a.s, kind: a.kind, session: true, msspk: None, subpk: None, gen: None });
        }
    }

    /// Intact message, link resolved to another state.
    fn judge_wrong_base(&mut self, c: &mut Ctx, n: usize, g: usize, r: &Result<Acc, Rej>, what: &str) -> bool {
        let (kind, who) = (self.gens[g].kind, self.nodes[n].name);
        if let Ok(a) = r {
            if kind != Kind::Keyload {
                c.check(false, &["C04", "C02"], "accepted-over-other-base", || format!("{:?} #{} accepted by {} over another state ({})", kind, g, who, what));
            } else {
                let f = fp(&a.s);
                let same = f == self.gens[g].fp;
                c.check(!same, &["C04"], "accepted-over-other-base", || format!("{:?} #{} gives {} the genuine session over another state ({})", kind, g, who, what));
            }
        } else {
            c.evals += 1;
        }
        false
    }

    fn judge_hostile(&mut self, c: &mut Ctx, n: usize, p: &Packet, base: Option<&Cand>, r: Result<Acc, Rej>) -> bool {
        let who = self.nodes[n].name;
        c.evals += 1;
        let a = match r {
            Ok(a) => a,
            Err(_) => return false,
        };
        match &p.from {
            Prov::Altered(g, what) | Prov::Moved(g, what) => {
                let moved = matches!(p.from, Prov::Moved(..));
                let m = &self.gens[*g];
                let prop: &[&str] = if moved { &["C04"] } else { &["C02"] };
                if a.left > 0 {
                    // the receiver sees that something follows the message: rejected
                    return false;
                }
                if a.kind != Kind::Keyload {
                    let (k, ak) = (m.kind, a.kind);
                    let props: Vec<&str> = match (moved, k) {
                        (false, Kind::Subscribe) | (false, Kind::Unsubscribe) => vec!["C02", "C07"],
                        (true, Kind::Unsubscribe) => vec!["C04", "C07"],
                        _ => prop.to_vec(),
                    };
                    c.check(false, &props, if moved { "moved-accepted" } else { "altered-accepted" }, || format!("{:?} #{} accepted by {} as {:?} although {}", k, g, who, ak, what));
                    return false;
                }
                let same = fp(&a.s) == m.fp;
                if same {
                    let ok = if moved { false } else { self.harmless(n, *g, &p.body) };
                    let k = m.kind;
                    c.check(ok, prop, if moved { "moved-session" } else { "altered-session" }, || format!("{:?} #{} gives {} the genuine session although {}", k, g, who, what));
                    if ok {
                        c.probe("alteration-in-other-entries");
                    }
                } else if p.force.is_none() && p.resolve.is_none() {
                    let id = p.id.clone();
                    self.bogus(n, id, a);
                }
                false
            }
            Prov::Forged(what, props) => {
                // over a state that is itself forged anything goes
                if base.map(|b| b.gen.is_none()).unwrap_or(false) {
                    return false;
                }
                if a.kind == Kind::Keyload && a.content == (Content::Keyload { signed: None }) {
                    let id = p.id.clone();
                    self.bogus(n, id, a);
                    return false;
                }
                if a.left > 0 || !a.trusted {
                    return false;
                }
                c.check(false, props, "forgery-accepted", || format!("{} accepts a {:?}: {}", who, a.kind, what));
                false
            }
            Prov::Genuine(_) => unreachable!(),
        }
    }

    /// True when an altered keyload may leave `n` with the genuine session: only entries `n`
    /// does not depend on were touched.
    fn harmless(&self, n: usize, g: usize, body: &[u8]) -> bool {
        let m = &self.gens[g];
        let k = match &m.kl {
            Some(k) => k,
            None => return false,
        };
        if body.len() != m.body.len() {
            return false;
        }
        let (_, used) = self.opens(n, k);
        for i in 0..body.len() {
            if body[i] != m.body[i] {
                let e = k.spans.iter().position(|(a, l)| *a <= i && i < *a + *l);
                match (e, used) {
                    (None, _) => return false,
                    // its own entry: harmless only if it has another one to fall back to
                    (Some(e), Some((u, count))) if e == u && count < 2 => return false,
                    _ => {}
                }
            }
        }
        true
    }

    // ------------------------------------------------------------- attacks

    fn burst(&mut self, c: &mut Ctx, n: usize, g: usize) {
        if self.burst_left == 0 {
            return;
        }
        let p = c.prop;
        let base_ok = match self.gens[g].link {
            Some(l) => self.nodes[n].has(&self.gens, l).is_some(),
            None => true,
        };
        let sigs = matches!(self.gens[g].kind, Kind::Announce | Kind::ChangeKey | Kind::Signed) || self.gens[g].signer.is_some();
        match p {
            "C02" | "C04" => {
                if !base_ok {
                    return;
                }
                let k = if sigs { 2 + c.below(5) } else { 6 + c.below(20) };
                for _ in 0..k {
                    let q = if p == "C02" { self.alter(c, g) } else { self.moved(c, g, n) };
                    if let Some(q) = q {
                        self.receive(c, n, &q);
                    }
                }
                self.burst_left -= if sigs { k.min(self.burst_left) } else { 2.min(self.burst_left) };
            }
            "C03" => {
                for _ in 0..3 {
                    if let Some(q) = self.forge(c, n) {
                        c.fault("forged");
                        self.receive(c, n, &q);
                    }
                }
                self.burst_left -= 3.min(self.burst_left);
            }
            "C05" => {
                for _ in 0..2 {
                    self.snoop(c, n, g);
                }
                self.burst_left -= 1;
            }
            "C07" => {
                if matches!(self.gens[g].kind, Kind::Subscribe | Kind::Unsubscribe) && base_ok {
                    for _ in 0..4 {
                        if let Some(q) = self.alter(c, g) {
                            self.receive(c, n, &q);
                        }
                    }
                    if let Some(q) = self.moved(c, g, n) {
                        self.receive(c, n, &q);
                    }
                }
                for _ in 0..4 {
                    if let Some(q) = self.fake_unsubscribe(c, n) {
                        c.fault("forged-unsubscription");
                        self.receive(c, n, &q);
                    }
                }
                for _ in 0..2 {
                    self.snoop(c, n, g);
                }
                if c.pct(50) {
                    if let Some(q) = self.malformed(c, n) {
                        self.receive(c, n, &q);
                    }
                }
                self.burst_left -= 2.min(self.burst_left);
            }
            "C08" => {
                if c.pct(15) {
                    if let Some(q) = self.malformed(c, n) {
                        self.receive(c, n, &q);
                    }
                }
                self.burst_left -= 1;
            }
            _ => {}
        }
    }

    /// A changed copy of message `g`.
    fn alter(&mut self, c: &mut Ctx, g: usize) -> Option<Packet> {
        let m = &self.gens[g];
        let mut b = m.body.clone();
        let n = b.len();
        let pos = |c: &mut Ctx, b: &Tv| -> usize {
            let n = b.len();
            match c.weighted(&[5, 5, 2, 1]) {
                0 => c.below(n),
                1 => {
                    let k = m.marks[c.below(m.marks.len())];
                    (k + c.below(12)).min(n - 1)
                }
                2 => {
                    let k = m.marks[c.below(m.marks.len())];
                    k.saturating_sub(1 + c.below(12)).min(n - 1)
                }
                _ => n - 1 - c.below(n.min(243)),
            }
        };
        let big: Vec<usize> = (0..m.marks.len() - 1).filter(|i| m.marks[i + 1] - m.marks[*i] == 9216).map(|i| m.marks[i]).collect();
        let kind = c.weighted(&[8, 3, 3, 3, 2, 4, 2, 2, 2, 2, 2, 2, 2, if m.kl.is_some() { 6 } else { 0 }, if big.is_empty() { 0 } else { 8 }]);
        let what;
        match kind {
            14 => {
                // one coefficient of a capsule nudged, to which the rounding is least sensitive
                let at = *c.pick(&big) + 9 * c.below(1024);
                let v = get_int(&b[at..at + 9]);
                let by = *c.pick(&[1i64, -1, 1, -1, 2, -2, 3, -3]);
                b[at..at + 9].copy_from_slice(&put_int((v + by).max(-9841).min(9841), 9));
                what = format!("number at trit {} of {} changed by {}", at, n, by);
                c.fault("coefficient-nudged");
            }
            0 => {
                let i = pos(c, &b);
                b[i] = (b[i] + 1 + c.below(2) as u8) % 3;
                what = format!("trit {} of {} changed", i, n);
                c.fault("flip");
            }
            1 => {
                let k = 2 + c.below(4);
                let mut v = vec![];
                for _ in 0..k {
                    let i = pos(c, &b);
                    b[i] = (b[i] + 1 + c.below(2) as u8) % 3;
                    v.push(i);
                }
                what = format!("trits {:?} of {} changed", v, n);
                c.fault("flips");
            }
            2 => {
                let i = pos(c, &b);
                let l = 1 + c.below(81.min(n - i));
                let x = data(c, l);
                b[i..i + l].copy_from_slice(&x);
                what = format!("trits {}+{} overwritten", i, l);
                c.fault("overwrite");
            }
            3 => {
                let l = match c.weighted(&[2, 2, 1]) {
                    0 => n - 1 - c.below(n.min(30)),
                    1 => m.marks[c.below(m.marks.len())].min(n - 1),
                    _ => c.below(n),
                };
                b.truncate(l);
                what = format!("cut to {} of {} trits", l, n);
                c.fault("truncate");
            }
            4 => {
                let l = 1 + c.below(300);
                let x = data(c, l);
                b.extend(x);
                what = format!("{} trits appended", l);
                c.fault("extend");
            }
            5 => {
                // a field of another message of the kind
                let o: Vec<usize> = (0..self.gens.len()).filter(|o| *o != g && self.gens[*o].kind == m.kind).collect();
                let o = if o.is_empty() || c.pct(10) { c.below(self.gens.len()) } else { *c.pick(&o) };
                let om = &self.gens[o];
                if o == g {
                    return None;
                }
                let i = c.below(m.marks.len() - 1);
                let j = i.min(om.marks.len() - 2);
                let x = subset_pos(&om.body, om.marks[j], om.marks[j + 1]);
                let e = m.marks[i + 1].min(b.len());
                b.splice(m.marks[i].min(e)..e, x);
                what = format!("field {} taken from #{}", i, o);
                c.fault("splice-field");
            }
            6 => {
                let i = pos(c, &b);
                let l = (1 + c.below(100)).min(n - i);
                b.drain(i..i + l);
                what = format!("trits {}+{} removed", i, l);
                c.fault("drop-piece");
            }
            7 => {
                let i = pos(c, &b);
                let l = (1 + c.below(100)).min(n - i);
                let x = b[i..i + l].to_vec();
                b.splice(i..i, x);
                what = format!("trits {}+{} doubled", i, l);
                c.fault("double-piece");
            }
            8 => {
                let l = *c.pick(&[1, 3, 27, 81, 243]);
                if n < 2 * l {
                    return None;
                }
                let i = c.below(n - 2 * l + 1);
                for k in 0..l {
                    b.swap(i + k, i + l + k);
                }
                what = format!("trits {}+{} swapped with the following", i, l);
                c.fault("swap-blocks");
            }
            9 => {
                // head of this, tail of another
                let o = c.below(self.gens.len());
                if o == g {
                    return None;
                }
                let i = m.marks[c.below(m.marks.len())].min(n);
                let ob = &self.gens[o].body;
                let tail = n - i;
                b.truncate(i);
                b.extend(&ob[ob.len().saturating_sub(tail)..]);
                what = format!("from trit {} replaced by the end of #{}", i, o);
                c.fault("splice-tail");
            }
            10 => {
                // changes that cancel out in a sum
                let i = pos(c, &b);
                let j = pos(c, &b);
                if i == j {
                    return None;
                }
                b[i] = (b[i] + 1) % 3;
                b[j] = (b[j] + 2) % 3;
                what = format!("trits {} and {} changed in opposite ways", i, j);
                c.fault("flip-pair");
            }
            11 => {
                let i = pos(c, &b);
                for x in &mut b[i..] {
                    *x = 0;
                }
                what = format!("zeroed from trit {}", i);
                c.fault("zero-tail");
            }
            13 => {
                // a recipient's entry left out or repeated, with its count made to fit
                let k = m.kl.as_ref().unwrap();
                if k.spans.is_empty() {
                    return None;
                }
                let e = c.below(k.spans.len());
                let (at, l) = k.spans[e];
                let np = k.psks.len();
                let (count, field) = if e < np { (np, m.marks[5]) } else { (k.ntrus.len(), m.marks[6 + 2 * np]) };
                let out = c.below(2) == 0;
                if out {
                    b.drain(at..at + l);
                } else {
                    let x = b[at..at + l].to_vec();
                    b.splice(at..at, x);
                }
                let new = if out { count - 1 } else { count + 1 };
                if c.pct(85) {
                    b.splice(field..field + refm::size_enc(count).len(), refm::size_enc(new));
                }
                what = format!("entry {} {}", e, if out { "left out" } else { "repeated" });
                c.fault(if out { "entry-left-out" } else { "entry-repeated" });
            }
            _ => {
                // a whole field inverted, zeroed or its trits reordered
                let i = if c.pct(40) { m.marks.len() - 2 } else { c.below(m.marks.len() - 1) };
                let (a, e) = (m.marks[i].min(n), m.marks[i + 1].min(n));
                let how = c.below(6);
                let l = e - a;
                match how {
                    0 => b[a..e].iter_mut().for_each(|x| *x = (3 - *x) % 3),
                    1 => b[a..e].iter_mut().for_each(|x| *x = 0),
                    2 => b[a..e].reverse(),
                    3 => {
                        // rotated, by a round number of trits or not
                        let by = if c.below(2) == 0 { *c.pick(&[1, 3, 9, 27, 81, 162]) } else { c.below(l.max(1)) };
                        if l > 0 {
                            b[a..e].rotate_left(by % l);
                        }
                    }
                    4 => {
                        // equal parts in reverse order
                        let k = *c.pick(&[2, 3, 9, 27, 81]);
                        let k = if l % k == 0 { k } else { 3 };
                        let w = l / k;
                        let x = b[a..e].to_vec();
                        for j in 0..k {
                            b[a + j * w..a + (j + 1) * w].copy_from_slice(&x[(k - 1 - j) * w..(k - j) * w]);
                        }
                    }
                    _ => {
                        // the same trits in some other order
                        let mut r = c.bulk();
                        for j in (1..l).rev() {
                            let k = r.below(j as u64 + 1) as usize;
                            b.swap(a + j, a + k);
                        }
                    }
                }
                what = format!("field {} {}", i, ["inverted", "zeroed", "reversed", "rotated", "cut and put together in reverse", "shuffled"][how]);
                c.fault("field");
            }
        }
        if b == m.body {
            return None;
        }
        // extending an unsigned keyload by nothing but what is already a message of its own is
        // still an alteration; only exact copies are not
        Some(Packet { app: self.app.clone(), id: m.id.clone(), body: b, from: Prov::Altered(g, what), resolve: None, force: None })
    }

    /// Message `g` under another application instance, identifier, type or base.
    fn moved(&mut self, c: &mut Ctx, g: usize, n: usize) -> Option<Packet> {
        let m = &self.gens[g];
        let mut p = self.genuine(g);
        // the receiver is made to find the base, whatever identifiers say
        let base = match m.link {
            Some(l) => Some(self.nodes[n].has(&self.gens, l)?.clone()),
            None => None,
        };
        let what;
        match c.weighted(&[4, 4, 1, 5, 3, 4]) {
            0 => {
                if c.pct(70) {
                    let i = if c.below(3) == 0 { *c.pick(&[0, 1, 80, 81, 161, 162, 240, 241, 242]) } else { c.below(243) };
                    p.app[i] = (p.app[i] + 1 + c.below(2) as u8) % 3;
                    what = format!("trit {} of the instance differs", i);
                } else {
                    p.app = data(c, 243);
                    what = "under another instance".to_string();
                }
                c.fault("other-instance");
                p.resolve = base;
            }
            1 => {
                if c.pct(70) {
                    let i = if c.below(3) == 0 { *c.pick(&[0, 1, 2, 26, 27, 53, 54, 78, 79, 80]) } else { c.below(81) };
                    p.id[i] = (p.id[i] + 1 + c.below(2) as u8) % 3;
                    what = format!("trit {} of the identifier differs", i);
                } else {
                    p.id = self.gens[c.below(self.gens.len())].id.clone();
                    what = "under the identifier of another message".to_string();
                }
                c.fault("other-identifier");
                p.resolve = base;
            }
            2 => {
                // identifier and instance exchanged material
                let i = c.below(81);
                let (a, b) = (p.app[242 - i], p.id[i]);
                p.app[242 - i] = b;
                p.id[i] = a;
                what = "instance and identifier swapped a trit".to_string();
                c.fault("other-instance");
                p.resolve = base;
            }
            3 => {
                // type relabelled; the receiver decodes the content as before
                let t = refm::str_tv(m.kind.typ());
                let t2 = match c.below(4) {
                    0 => refm::str_tv(c.pick(&KINDS).typ()),
                    1 => {
                        let mut t = t.clone();
                        let k = if c.below(3) == 0 { t.len() - 1 } else { c.below(t.len()) };
                        t[k] = (t[k] + 1 + c.below(2) as u8) % 3;
                        t
                    }
                    2 => {
                        let mut t = t.clone();
                        if c.below(2) == 0 {
                            t.truncate(t.len() - 3);
                        } else {
                            t.extend([0, 0, 0]);
                        }
                        t
                    }
                    _ => {
                        let k = 3 * c.below(30);
                        data(c, k)
                    }
                };
                if t == t2 {
                    return None;
                }
                let mut b = p.body[..3].to_vec();
                b.extend(refm::size_enc(t2.len() / 3));
                b.extend(&t2);
                b.extend(&p.body[m.kind.head()..]);
                p.body = b;
                p.force = Some(m.kind);
                p.resolve = base;
                what = "type relabelled".to_string();
                c.fault("relabelled");
            }
            4 => {
                // link rewritten to another message
                let l = m.link?;
                let o = c.below(self.gens.len());
                if o == l || o == g {
                    return None;
                }
                let h = m.kind.head();
                let id = self.gens[o].id.clone();
                p.body[h..h + 81].copy_from_slice(&id);
                what = format!("link rewritten to #{}", o);
                c.fault("link-rewritten");
            }
            _ => {
                // link resolved to another state
                let l = m.link?;
                let o: Vec<usize> = (0..self.gens.len()).filter(|o| *o != l).collect();
                let mut cd = if !o.is_empty() && c.pct(70) {
                    let o = *c.pick(&o);
                    what = format!("link resolved to #{}", o);
                    let og = &self.gens[o];
                    Cand { s: og.s.clone(), kind: og.kind, session: og.session, msspk: None, subpk: None, gen: Some(o) }
                } else {
                    // nearly the same state
                    let mut s = self.gens[l].s.clone();
                    match c.below(3) {
                        0 => {
                            s.absorb(slice(&[1 + c.below(2) as u8]));
                            s.commit();
                        }
                        1 => {
                            s.squeeze_trits(1 + c.below(100));
                        }
                        _ => s = Spongos::init(),
                    }
                    what = "link resolved to a near copy of its base".to_string();
                    Cand { s, kind: Kind::Tagged, session: false, msspk: None, subpk: None, gen: None }
                };
                let b = base.unwrap();
                cd.msspk = b.msspk.clone();
                cd.subpk = b.subpk.clone();
                if fp(&cd.s) == fp(&b.s) {
                    return None;
                }
                p.resolve = Some(cd);
                p.force = Some(m.kind);
                c.fault("link-misresolved");
            }
        }
        p.from = Prov::Moved(g, what);
        if p.app == self.app && p.id == m.id && p.body == m.body && p.resolve.is_none() {
            return None;
        }
        if p.app == self.app && p.id == m.id && p.body == m.body {
            // only the resolution differs
            if let (Some(r), Some(l)) = (&p.resolve, m.link) {
                if r.gen == Some(l) {
                    return None;
                }
            }
        }
        Some(p)
    }

    /// A packet the forger made up. The forger knows all traffic, the public states, its own
    /// keys and, if it is a recipient, the states it received.
    fn forge(&mut self, c: &mut Ctx, n: usize) -> Option<Packet> {
        let id = if c.pct(20) { self.gens[c.below(self.gens.len())].id.clone() } else { self.new_id(c) };
        let app = self.app.clone();
        let mal = self.mal[c.below(2)].clone();
        // what it can link to
        let known: Vec<usize> = (0..self.gens.len()).filter(|g| !self.gens[*g].session || self.insider.map(|i| self.nodes[i].has(&self.gens, *g).is_some()).unwrap_or(false)).collect();
        // the target must be able to resolve the link
        let linkable: Vec<usize> = known.iter().cloned().filter(|g| self.nodes[n].has(&self.gens, *g).is_some()).collect();
        let keyed: Vec<usize> = linkable.iter().cloned().filter(|g| matches!(self.gens[*g].kind, Kind::Announce | Kind::ChangeKey)).collect();
        let mut props: &'static [&'static str] = &["C03"];
        let (name, body): (&'static str, Tv) = match c.weighted(&[4, 3, 4, 3, 4, 4, 3, 3, 2, 3, 3, 3]) {
            11 => {
                // a genuine key change rebound to the forger's key: its own proof of possession
                // and the owner's signature of the genuine message
                let v: Vec<usize> = (0..self.gens.len()).filter(|g| self.gens[*g].kind == Kind::ChangeKey && linkable.contains(&self.gens[*g].link.unwrap())).collect();
                let g = *pick_opt(c, &v)?;
                let sig = self.signature(g)?;
                let l = self.gens[g].link.unwrap();
                let gid = self.gens[g].id.clone();
                let j = Job::ChangeKey { link: self.gens[l].id.clone(), new: &mal.sk, old: &mal.sk };
                let (mut b, _) = j.body(&app, &gid, Some(&self.gens[l].s));
                let cut = b.len() - (18 + 13122 + 243 * mal.d);
                b.truncate(cut);
                b.extend(sig);
                let p = Packet { app, id: gid, body: b, from: Prov::Forged("key change rebound to a foreign key", &["C03", "C02"]), resolve: None, force: None };
                return Some(p);
            }
            0 => {
                let l = *pick_opt(c, &linkable)?;
                let (public, masked) = (payload(c), payload(c));
                let j = Job::Signed { link: self.gens[l].id.clone(), public, masked, sk: &mal.sk };
                ("signed packet under a foreign key", j.body(&app, &id, Some(&self.gens[l].s)).0)
            }
            1 => {
                // own content, signature of a genuine message
                let l = *pick_opt(c, &linkable)?;
                let (public, masked) = (payload(c), payload(c));
                let o: Vec<usize> = (0..self.gens.len()).filter(|o| self.gens[*o].signer.is_some()).collect();
                let o = *pick_opt(c, &o)?;
                let sig = self.signature(o)?;
                let j = Job::Signed { link: self.gens[l].id.clone(), public, masked, sk: &mal.sk };
                let (mut b, _) = j.body(&app, &id, Some(&self.gens[l].s));
                let cut = b.len() - (18 + 13122 + 243 * mal.d);
                b.truncate(cut);
                b.extend(sig);
                ("signed packet with a signature taken from another message", b)
            }
            2 => {
                let l = *pick_opt(c, &keyed)?;
                let (m0, m1) = (&self.mal[0], &self.mal[1]);
                let (a, b) = if c.below(2) == 0 { (m0, m1) } else { (m1, m1) };
                let link = self.gens[l].id.clone();
                let j = if c.below(2) == 0 {
                    Job::ChangeKey { link, new: &a.sk, old: &b.sk }
                } else {
                    Job::FakeChangeKey { link, pk: a.pk.clone(), first: &a.sk, second: &b.sk }
                };
                ("key change to a foreign key without the trusted key's signature", j.body(&app, &id, Some(&self.gens[l].s)).0)
            }
            3 => {
                // foreign key, second signature taken from a genuine message
                let l = *pick_opt(c, &keyed)?;
                let o: Vec<usize> = (0..self.gens.len()).filter(|o| self.gens[*o].signer.is_some()).collect();
                let o = *pick_opt(c, &o)?;
                let sig = self.signature(o)?;
                let j = Job::FakeChangeKey { link: self.gens[l].id.clone(), pk: mal.pk.clone(), first: &mal.sk, second: &mal.sk };
                let (mut b, _) = j.body(&app, &id, Some(&self.gens[l].s));
                let cut = b.len() - (18 + 13122 + 243 * mal.d);
                b.truncate(cut);
                b.extend(sig);
                ("key change with a signature taken from another message", b)
            }
            4 => {
                // the holder of the trusted key claims a key it does not own
                let l = *pick_opt(c, &keyed)?;
                let k = self.intro.iter().position(|i| *i == l)?;
                if self.keys[k].left() == 0 {
                    return None;
                }
                let (own, other) = (&self.keys[k], &mal);
                let j = if c.below(2) == 0 {
                    Job::FakeChangeKey { link: self.gens[l].id.clone(), pk: other.pk.clone(), first: &own.sk, second: &own.sk }
                } else {
                    Job::FakeChangeKey { link: self.gens[l].id.clone(), pk: rdata(c, 243), first: &other.sk, second: &own.sk }
                };
                ("key change without proof of possession", j.body(&app, &id, Some(&self.gens[l].s)).0)
            }
            5 => {
                let ntru = if c.below(2) == 0 { Some(self.mal_ntru.pk.clone()) } else { None };
                let j = Job::FakeAnnounce { pk: self.root.clone(), ntru, sk: &mal.sk };
                ("announcement of the owner's key signed by another", j.body(&app, &id, None).0)
            }
            6 => {
                // the genuine announcement with another NTRU key
                let a = self.gens.iter().position(|g| g.kind == Kind::Announce)?;
                let mut b = self.gens[a].body.clone();
                let h = Kind::Announce.head();
                if self.ch.is_some() {
                    if c.below(2) == 0 {
                        b[h + 246..h + 246 + 9216].copy_from_slice(&self.mal_ntru.pkt);
                    } else {
                        b[h + 243..h + 246].copy_from_slice(&[0, 0, 0]);
                        b.drain(h + 246..h + 246 + 9216);
                    }
                } else {
                    b[h + 243..h + 246].copy_from_slice(&[1, 0, 0]);
                    b.splice(h + 246..h + 246, self.mal_ntru.pkt.clone());
                }
                let p = Packet { app, id: self.gens[a].id.clone(), body: b, from: Prov::Forged("announcement with the encryption key replaced", &["C03", "C02"]), resolve: None, force: None };
                return Some(p);
            }
            7 => {
                // an outsider's tagged packet over a secret base
                let v: Vec<usize> = (0..self.gens.len()).filter(|g| self.gens[*g].session && self.nodes[n].has(&self.gens, *g).is_some() && !known.contains(g)).collect();
                let l = *pick_opt(c, &v)?;
                let s = self.guess(c, l);
                let (public, masked) = (payload(c), payload(c));
                let j = Job::Tagged { link: self.gens[l].id.clone(), public, masked };
                ("tagged packet by an outsider", j.body(&app, &id, Some(&s)).0)
            }
            8 => {
                // signed keyload by a stranger, openable by the target
                let l = *pick_opt(c, &linkable)?;
                let own = self.nodes[n].own.as_ref()?;
                if n == 0 {
                    return None;
                }
                let np = vec![(to_trits(&own.pkid()), own.pk.clone())];
                let j = Job::Keyload { link: self.gens[l].id.clone(), nonce: rdata(c, 81), psks: &[], ntrus: &np, prng: rdata(c, 243), key: rdata(c, 243), sign: Some(&mal.sk) };
                ("signed keyload under a foreign key", j.body(&app, &id, Some(&self.gens[l].s)).0)
            }
            9 => {
                // a genuine signed packet with other content, re-encoded by somebody who knows the base
                let v: Vec<usize> = (0..self.gens.len()).filter(|g| self.gens[*g].kind == Kind::Signed && linkable.contains(&self.gens[*g].link.unwrap())).collect();
                let g = *pick_opt(c, &v)?;
                let sig = self.signature(g)?;
                let l = self.gens[g].link.unwrap();
                let (mut public, mut masked) = match &self.gens[g].content {
                    Content::Packet { public, masked, .. } => (public.clone(), masked.clone()),
                    _ => return None,
                };
                let keep = c.below(3);
                if keep == 0 {
                    if public.is_empty() {
                        return None;
                    }
                    let i = c.below(public.len());
                    public[i] = (public[i] + 1) % 3;
                } else if keep == 1 {
                    if masked.is_empty() {
                        return None;
                    }
                    let i = c.below(masked.len());
                    masked[i] = (masked[i] + 1) % 3;
                } else {
                    public.extend([0, 0, 0]);
                }
                let j = Job::Signed { link: self.gens[l].id.clone(), public, masked, sk: &mal.sk };
                let gid = self.gens[g].id.clone();
                let (mut b, _) = j.body(&app, &gid, Some(&self.gens[l].s));
                let cut = b.len() - (18 + 13122 + 243 * mal.d);
                b.truncate(cut);
                b.extend(sig);
                let p = Packet { app, id: gid, body: b, from: Prov::Forged("signed packet with its content replaced", &["C03", "C02"]), resolve: None, force: None };
                return Some(p);
            }
            _ => {
                // no signature worth the name
                let l = *pick_opt(c, &linkable)?;
                let (public, masked) = (payload(c), payload(c));
                let j = Job::Signed { link: self.gens[l].id.clone(), public, masked, sk: &mal.sk };
                let (mut b, _) = j.body(&app, &id, Some(&self.gens[l].s));
                let n = b.len();
                let sg = 18 + 13122 + 243 * mal.d;
                match c.below(4) {
                    0 => b[n - sg..].iter_mut().for_each(|x| *x = 0),
                    1 => b.truncate(n - sg),
                    2 => {
                        let x = rdata(c, sg);
                        b[n - sg..].copy_from_slice(&x);
                    }
                    _ => {
                        // claims a tree whose root is the owner's key
                        let r = self.root.clone();
                        b.truncate(n - sg);
                        b.extend(put_int(1, 4));
                        b.extend(put_int(0, 14));
                        b.extend(vec![0; 13122]);
                        b.extend(r);
                    }
                }
                ("signed packet without a signature", b)
            }
        };
        if name.starts_with("tagged") {
            props = &["C03", "C05"];
        }
        Some(Packet { app, id, body, from: Prov::Forged(name, props), resolve: None, force: None })
    }

    /// A packet encoded with the right secrets whose content the format does not allow.
    fn malformed(&mut self, c: &mut Ctx, n: usize) -> Option<Packet> {
        let id = self.new_id(c);
        let app = self.app.clone();
        let (name, props, body): (&'static str, &'static [&'static str], Tv) = if c.is("C07") {
            if n != 0 {
                return None;
            }
            let linkable: Vec<usize> = (0..self.gens.len()).filter(|g| self.nodes[n].has(&self.gens, *g).is_some()).collect();
            let l = *pick_opt(c, &linkable)?;
            let sub = crate::kem::unusable_pk(c, &self.mal_ntru.pkt);
            let ch = self.ch.as_ref()?.pk.clone();
            let j = Job::FakeSubscribe { link: self.gens[l].id.clone(), prng: rdata(c, 243), nonce: rdata(c, 81), sub, ch };
            c.fault("unusable-key-subscribed");
            ("subscription of a key nobody can use", &["C07"], j.body(&app, &id, Some(&self.gens[l].s)).0)
        } else {
            if self.keys[0].left() == 0 {
                return None;
            }
            let other = *c.pick(&[2, 3, 4, 9, 12, 13, -1, -2, -3, -9, -12, -13]);
            let (choice, ntru) = match c.below(4) {
                0 => (1, crate::kem::unusable_pk(c, &self.mal_ntru.pkt)),
                1 => (other, self.mal_ntru.pkt.clone()),
                _ => (other, vec![]),
            };
            let j = Job::OddAnnounce { choice, ntru, sk: &self.keys[0].sk };
            c.fault("malformed-announcement");
            ("announcement with an alternative the format does not have, or an unusable key", &["C08"], j.body(&app, &id, None).0)
        };
        Some(Packet { app, id, body, from: Prov::Forged(name, props), resolve: None, force: None })
    }

    /// The last signature of a genuine message.
    fn signature(&self, g: usize) -> Option<Tv> {
        let m = &self.gens[g];
        let k = m.signer?;
        let n = 18 + 13122 + 243 * self.keys[k].d;
        Some(m.body[m.body.len() - n..].to_vec())
    }

    /// A state somebody without the session might try instead of that of message `l`.
    fn guess(&self, c: &mut Ctx, l: usize) -> Spongos {
        let public: Vec<&Gen> = self.gens.iter().filter(|g| !g.session).collect();
        match c.below(4) {
            0 => Spongos::init(),
            1 if !public.is_empty() => public[c.below(public.len())].s.clone(),
            2 => {
                // the keyload's own public part with a key of one's choice
                if let Some(k) = &self.gens[l].kl {
                    if let Some(b) = self.gens[l].link {
                        if !self.gens[b].session {
                            let key = data(c, 243);
                            let z = key == k.key;
                            let j = Job::Keyload { link: self.gens[b].id.clone(), nonce: k.nonce.clone(), psks: &[], ntrus: &[], prng: vec![0; 243], key, sign: None };
                            if !z {
                                return j.body(&self.app, &self.gens[l].id, Some(&self.gens[b].s)).1;
                            }
                        }
                    }
                }
                Spongos::init()
            }
            _ => {
                // the chain of public states with absorbed wire data
                let mut s = self.gens[0].s.clone();
                s.absorb(slice(&self.gens[l].body));
                s.commit();
                s
            }
        }
    }

    /// An outsider tries to read messages of a session.
    fn snoop(&mut self, c: &mut Ctx, n: usize, g: usize) {
        let (kind, link) = (self.gens[g].kind, self.gens[g].link);
        let l = match link {
            Some(l) => l,
            None => return,
        };
        if !self.gens[l].session && kind != Kind::Subscribe {
            return;
        }
        if kind == Kind::Subscribe {
            // with keys that are not the owner's
            let b = match self.nodes[n].has(&self.gens, l) {
                Some(b) => b.clone(),
                None => return,
            };
            let stranger = NtruKey::gen(c);
            let (psks, ntrus) = (HashMap::new(), HashMap::new());
            let keys = Keys { psks: &psks, ntrus: &ntrus, own: Some(&stranger.sk), trusted: &self.nodes[n].trusted };
            let buf = to_trits(&self.gens[g].body);
            let r = c.hostile("decoding", || decode(&keys, &self.app, &self.gens[g].id, buf.slice(), Some(&b), true, None));
            c.fault("wrong-private-key");
            let ok = matches!(r, Some(Err(Rej::Decode(pb3::Err::NtruDecrFailed))) | None);
            c.check(ok, &["C07", "C05"], "subscription-opened-by-other", || format!("subscription #{} opened with another key", g));
            return;
        }
        if kind == Kind::Keyload || kind == Kind::ChangeKey {
            return;
        }
        let s = self.guess(c, l);
        let lk = &self.gens[l];
        let sub = self.nodes[n].own.as_ref().map(|k| k.pk.clone());
        let base = Cand { s, kind: lk.kind, session: true, msspk: None, subpk: sub, gen: None };
        let (psks, ntrus) = (HashMap::new(), HashMap::new());
        let trusted: Vec<Tv> = self.keys.iter().map(|k| k.pk.clone()).collect();
        let keys = Keys { psks: &psks, ntrus: &ntrus, own: None, trusted: &trusted };
        let buf = to_trits(&self.gens[g].body);
        let r = c.hostile("decoding", || decode(&keys, &self.app, &self.gens[g].id, buf.slice(), Some(&base), true, None));
        c.fault("outsider-reads");
        let ok = !matches!(r, Some(Ok(_)));
        let props: &[&str] = if kind == Kind::Unsubscribe { &["C07", "C04"] } else { &["C05", "C04"] };
        c.check(ok, props, "accepted-without-session", || format!("{:?} #{} accepted without the session state", kind, g));
    }

    fn fake_unsubscribe(&mut self, c: &mut Ctx, n: usize) -> Option<Packet> {
        let subs: Vec<usize> = (0..self.gens.len()).filter(|g| self.gens[*g].kind == Kind::Subscribe && self.nodes[n].has(&self.gens, *g).is_some()).collect();
        let v = *pick_opt(c, &subs)?;
        let id = self.new_id(c);
        let app = self.app.clone();
        let all: Vec<usize> = (0..self.gens.len()).filter(|g| *g != v).collect();
        let (name, s): (&'static str, Spongos) = match c.weighted(&[3, 2, 2, 3]) {
            0 => {
                // from another subscription or any other message
                let o: Vec<usize> = all.iter().cloned().filter(|g| self.gens[*g].kind == Kind::Subscribe).collect();
                let o = if o.is_empty() { *pick_opt(c, &all)? } else { *c.pick(&o) };
                ("unsubscription made from another message's state", self.gens[o].s.clone())
            }
            1 => ("unsubscription made from a guessed state", self.guess(c, v)),
            2 => {
                // what everybody knows of the subscription, ending in the wire data
                let l = self.gens[v].link.unwrap();
                if self.gens[l].session {
                    return None;
                }
                let mut s = Spongos::init();
                let typ = pb3::Trytes(Trits::from_str(Kind::Subscribe.typ()).unwrap());
                let mut sink = Trits::zero(Kind::Subscribe.head());
                iota_mam::app::core::msg::header::wrap(&typ, &app_of(&app), &id_of(&self.gens[v].id), &mut s, &mut sink.slice_mut());
                let mut b = self.gens[l].s.clone();
                s.join(&mut b);
                if c.below(2) == 0 {
                    let m = &self.gens[v];
                    s.absorb(slice(&m.body[m.marks[4]..m.marks[6]]));
                }
                s.commit();
                ("unsubscription made from the public part of the subscription", s)
            }
            _ => {
                // a subscription of the victim's key made by somebody else
                let l = self.gens[v].link.unwrap();
                let ch = self.ch.as_ref()?;
                let victim = match &self.gens[v].content {
                    Content::Subscribe { .. } => self.nodes[self.gens[v].by].own.as_ref()?.pk.clone(),
                    _ => return None,
                };
                let j = Job::Subscribe { link: self.gens[l].id.clone(), prng: rdata(c, 243), nonce: rdata(c, 30), sub: victim, ch: ch.pk.clone() };
                ("unsubscription made from a second subscription of the same key", j.body(&app, &self.gens[v].id, Some(&self.gens[l].s)).1)
            }
        };
        let body = Job::Unsubscribe { link: self.gens[v].id.clone() }.body(&app, &id, Some(&s)).0;
        Some(Packet { app, id, body, from: Prov::Forged(name, &["C07", "C03"]), resolve: None, force: None })
    }

    // ------------------------------------------------------------- liveness

    /// Faults stop: everything intact must reach everybody entitled within a bounded number
    /// of exchanges.
    fn settle(&mut self, c: &mut Ctx) {
        self.faulty = false;
        self.cut = None;
        c.log("faults stop".to_string());
        for n in 0..self.nodes.len() {
            if !self.nodes[n].up {
                self.restart(c, n);
            }
        }
        // what was in flight, in any order
        while !self.flight.is_empty() {
            c.now += 1 + c.below(50) as u64;
            let i = c.below(self.flight.len());
            let (_, to, p) = self.flight.remove(i);
            self.receive(c, to, &p);
        }
        let rev = c.below(2) == 1;
        for n in 0..self.nodes.len() {
            // at most one exchange per message is needed besides retries
            let mut order: Vec<usize> = (0..self.gens.len()).collect();
            if rev {
                order.reverse();
            }
            for g in order {
                if !self.nodes[n].accepted.contains(&g) {
                    c.now += 20;
                    let p = self.genuine(g);
                    self.receive(c, n, &p);
                }
            }
            self.retry(c, n);
        }
        for n in 0..self.nodes.len() {
            let mut got: BTreeSet<usize> = BTreeSet::new();
            let mut keys: BTreeSet<usize> = BTreeSet::new();
            keys.insert(0);
            for g in 0..self.gens.len() {
                let m = &self.gens[g];
                let base = m.link.map(|l| got.contains(&l)).unwrap_or(true);
                let own_sub = self.nodes[n].durable.iter().any(|d| d.2 == g);
                let ok = own_sub
                    || base
                        && match m.kind {
                            Kind::Announce | Kind::ChangeKey | Kind::Tagged => true,
                            Kind::Keyload => self.opens(n, m.kl.as_ref().unwrap()).0 == Exp::Accept && m.signer.map(|k| keys.contains(&k)).unwrap_or(true),
                            Kind::Signed => keys.contains(&m.signer.unwrap()),
                            Kind::Subscribe => n == 0,
                            Kind::Unsubscribe => n == 0 || m.by == n,
                        };
                if ok {
                    got.insert(g);
                    if let Some(k) = self.intro.iter().position(|i| *i == g) {
                        keys.insert(k);
                    }
                }
            }
            let miss: Vec<usize> = got.iter().cloned().filter(|g| !self.nodes[n].accepted.contains(g)).collect();
            let who = self.nodes[n].name;
            let kinds: Vec<Kind> = miss.iter().map(|g| self.gens[*g].kind).collect();
            c.check(miss.is_empty(), &["C01", "C02"], "never-accepted", || format!("{} never accepts {:?} {:?} although entitled", who, miss, kinds));
        }
    }
}

fn pick_opt<'a, T>(c: &mut Ctx, v: &'a [T]) -> Option<&'a T> {
    if v.is_empty() {
        None
    } else {
        Some(&v[c.below(v.len())])
    }
}
