//! Channel messages: encoding by the library, decoding by a node, encoding by the reference.

use crate::refm;
use crate::rt::*;
use crate::util::*;
use iota_mam::app::channel::msg;
use iota_mam::app::core::msg::header;
use iota_mam::app::core::{AppInst, MsgId};
use iota_mam::mss;
use iota_mam::ntru;
use iota_mam::pb3::{self, Absorb};
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::{TritSlice, TritSliceMut, Trits};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    Announce,
    ChangeKey,
    Keyload,
    Signed,
    Tagged,
    Subscribe,
    Unsubscribe,
}
pub const KINDS: [Kind; 7] = [Kind::Announce, Kind::ChangeKey, Kind::Keyload, Kind::Signed, Kind::Tagged, Kind::Subscribe, Kind::Unsubscribe];

impl Kind {
    pub fn typ(self) -> &'static str {
        match self {
            Kind::Announce => msg::announce::TYPE,
            Kind::ChangeKey => msg::change_key::TYPE,
            Kind::Keyload => msg::keyload::TYPE,
            Kind::Signed => msg::signed_packet::TYPE,
            Kind::Tagged => msg::tagged_packet::TYPE,
            Kind::Subscribe => msg::subscribe::TYPE,
            Kind::Unsubscribe => msg::unsubscribe::TYPE,
        }
    }
    /// Trits of the version and type fields.
    pub fn head(self) -> usize {
        let n = self.typ().len();
        3 + refm::size_enc(n).len() + 3 * n
    }
}

pub fn pk_tv(k: &mss::PublicKey) -> Tv {
    refm::str_tv(&format!("{}", k))
}
pub fn pk_from(t: &[u8]) -> mss::PublicKey {
    let mut q = Spongos::init();
    mss::PublicKey::unwrap_absorb_sized(&mut q, &mut slice(t)).expect("key from trits")
}
pub fn npk_tv(k: &ntru::PublicKey) -> Tv {
    from_slice(k.trits())
}
pub fn app_of(t: &[u8]) -> AppInst {
    AppInst::sim_from_trits(to_trits(t))
}
pub fn id_of(t: &[u8]) -> MsgId {
    MsgId::sim_from_trits(to_trits(t))
}

pub fn id_trits(id: &MsgId) -> Tv {
    let mut t = Trits::zero(81);
    id.wrap_absorb(&mut Spongos::init(), &mut t.slice_mut());
    from_trits(&t)
}

/// An MSS key of a node: kept as its secret and the number of leaves used.
#[derive(Clone)]
pub struct MssKey {
    pub seed: Tv,
    pub nonce: Tv,
    pub d: usize,
    pub used: usize,
    pub sk: mss::PrivateKey,
    pub pk: Tv,
}
impl MssKey {
    fn from_secret(seed: Tv, nonce: Tv, d: usize) -> Self {
        let sk = mss::PrivateKey::gen(&PRNG::init(slice(&seed)), slice(&nonce), d);
        let pk = pk_tv(sk.public_key());
        MssKey { seed, nonce, d, used: 0, sk, pk }
    }
    /// Number `k` of a fixed set of keys (generating one is expensive): a pure function of
    /// `k` and `d`, computed once per process.
    pub fn pool(k: usize, d: usize) -> Self {
        POOL.with(|p| {
            p.borrow_mut()
                .entry((k, d))
                .or_insert_with(|| {
                    let mut r = Rng(h2(k as u64, d as u64));
                    let seed = rand_tv(&mut r, 243);
                    let nonce = rand_tv(&mut r, 33);
                    Self::from_secret(seed, nonce, d)
                })
                .clone()
        })
    }
    /// `k` keeps keys of one run apart.
    pub fn gen(c: &mut Ctx, k: usize, d: usize) -> Self {
        if d <= 1 && c.pct(10) {
            let seed = rdata(c, 243);
            let nonce = rdata(c, 33);
            return Self::from_secret(seed, nonce, d);
        }
        Self::pool(k, d)
    }
    pub fn left(&self) -> usize {
        (1 << self.d) - self.used
    }
    pub fn advance(&mut self) {
        self.used += 1;
        self.sk.next();
    }
    /// After a restart: from the secret and the recorded position.
    pub fn reload(&mut self) {
        self.sk = mss::PrivateKey::gen(&PRNG::init(slice(&self.seed)), slice(&self.nonce), self.d);
        for _ in 0..self.used {
            self.sk.next();
        }
    }
    pub fn reference(&mut self) -> Rc<refm::Mss> {
        REFPOOL.with(|p| p.borrow_mut().entry((self.seed.clone(), self.d)).or_insert_with(|| Rc::new(refm::Mss::gen(&self.seed, &self.nonce, self.d))).clone())
    }
}
thread_local! {
    static POOL: RefCell<HashMap<(usize, usize), MssKey>> = RefCell::new(HashMap::new());
    static REFPOOL: RefCell<HashMap<(Tv, usize), Rc<refm::Mss>>> = RefCell::new(HashMap::new());
}

pub struct NtruKey {
    pub seed: Tv,
    pub nonce: Tv,
    pub sk: ntru::PrivateKey,
    pub pk: ntru::PublicKey,
    pub pkt: Tv,
}
impl NtruKey {
    pub fn gen(c: &mut Ctx) -> Self {
        let seed = rdata(c, 243);
        let nonce = rdata(c, 33);
        let (sk, pk) = ntru::gen(&PRNG::init(slice(&seed)), slice(&nonce));
        let pkt = npk_tv(&pk);
        // the identifier under which keyloads list the key
        c.check(from_slice(pk.id()) == pkt[..81], &["C08", "C01"], "key-id", || "a public key's identifier is not its first 81 trits".into());
        NtruKey { seed, nonce, sk, pk, pkt }
    }
    pub fn pkid(&self) -> Tv {
        from_slice(self.pk.id())
    }
}

// ------------------------------------------------------------------ encoding

/// What goes into a message body, apart from header and base state.
pub enum Job<'a> {
    Announce { sk: &'a mss::PrivateKey, ntru: Option<ntru::PublicKey> },
    ChangeKey { link: Tv, new: &'a mss::PrivateKey, old: &'a mss::PrivateKey },
    Keyload { link: Tv, nonce: Tv, psks: &'a [(Trits, Trits)], ntrus: &'a [(Trits, ntru::PublicKey)], prng: Tv, key: Tv, sign: Option<&'a mss::PrivateKey> },
    Signed { link: Tv, public: Tv, masked: Tv, sk: &'a mss::PrivateKey },
    Tagged { link: Tv, public: Tv, masked: Tv },
    Subscribe { link: Tv, prng: Tv, nonce: Tv, sub: ntru::PublicKey, ch: ntru::PublicKey },
    Unsubscribe { link: Tv },
    /// Forgers only: any key in the key field, any signers.
    FakeAnnounce { pk: Tv, ntru: Option<ntru::PublicKey>, sk: &'a mss::PrivateKey },
    FakeChangeKey { link: Tv, pk: Tv, first: &'a mss::PrivateKey, second: &'a mss::PrivateKey },
    /// Anything in place of the subscriber's key.
    FakeSubscribe { link: Tv, prng: Tv, nonce: Tv, sub: Tv, ch: ntru::PublicKey },
    /// Any choice and any trits after it.
    OddAnnounce { choice: i64, ntru: Tv, sk: &'a mss::PrivateKey },
}

impl<'a> Job<'a> {
    pub fn kind(&self) -> Kind {
        match self {
            Job::Announce { .. } | Job::FakeAnnounce { .. } | Job::OddAnnounce { .. } => Kind::Announce,
            Job::ChangeKey { .. } | Job::FakeChangeKey { .. } => Kind::ChangeKey,
            Job::Keyload { .. } => Kind::Keyload,
            Job::Signed { .. } => Kind::Signed,
            Job::Tagged { .. } => Kind::Tagged,
            Job::Subscribe { .. } | Job::FakeSubscribe { .. } => Kind::Subscribe,
            Job::Unsubscribe { .. } => Kind::Unsubscribe,
        }
    }
    /// The size announced before encoding.
    pub fn sizeof(&self) -> usize {
        header::sizeof(self.kind().typ().len())
            + match self {
                Job::Announce { sk, ntru } | Job::FakeAnnounce { sk, ntru, .. } => msg::announce::sizeof(sk, ntru.is_some()),
                Job::ChangeKey { new, old, .. } => msg::change_key::sizeof(new, old),
                Job::FakeChangeKey { first, second, .. } => msg::change_key::sizeof(first, second),
                Job::Keyload { psks, ntrus, sign, .. } => {
                    msg::keyload::sizeof(&mut psks.iter().map(|(a, b)| (a, b)), &mut ntrus.iter().map(|(a, b)| (a, b))) + sign.map(|s| pb3::mssig::sizeof_mssig(s)).unwrap_or(0)
                }
                Job::Signed { public, masked, sk, .. } => msg::signed_packet::sizeof(public.len() / 3, masked.len() / 3, sk),
                Job::Tagged { public, masked, .. } => msg::tagged_packet::sizeof(public.len() / 3, masked.len() / 3),
                Job::Subscribe { .. } | Job::FakeSubscribe { .. } => msg::subscribe::sizeof(),
                Job::OddAnnounce { ntru, sk, .. } => msg::announce::sizeof(sk, false) + ntru.len(),
                Job::Unsubscribe { .. } => msg::unsubscribe::sizeof(),
            }
    }
    pub fn wrap(&self, app: &[u8], id: &[u8], base: Option<&Spongos>, s: &mut Spongos, b: &mut TritSliceMut) {
        self.wrap_typ(self.kind().typ(), app, id, base, s, b)
    }
    /// With another type string in the header (a forger's relabelling).
    pub fn wrap_typ(&self, typ: &str, app: &[u8], id: &[u8], base: Option<&Spongos>, s: &mut Spongos, b: &mut TritSliceMut) {
        let typ = pb3::Trytes(Trits::from_str(typ).unwrap());
        header::wrap(&typ, &app_of(app), &id_of(id), s, b);
        let mut l = base.cloned().unwrap_or_else(Spongos::init);
        match self {
            Job::Announce { sk, ntru } => msg::announce::wrap(sk, ntru, s, b),
            Job::ChangeKey { link, new, old } => msg::change_key::wrap(slice(link), &mut l, new, old, s, b),
            Job::Keyload { link, nonce, psks, ntrus, prng, key, sign } => {
                msg::keyload::wrap(
                    slice(link),
                    &mut l,
                    &to_trits(nonce),
                    &mut psks.iter().map(|(a, b)| (a, b)),
                    &mut ntrus.iter().map(|(a, b)| (a, b)),
                    &PRNG::init(slice(prng)),
                    &to_trits(key),
                    s,
                    b,
                );
                if let Some(sk) = sign {
                    pb3::mssig::squeeze_wrap_mssig(sk, s, b);
                }
            }
            Job::Signed { link, public, masked, sk } => msg::signed_packet::wrap(&id_of(link), &mut l, &pb3::Trytes(to_trits(public)), &pb3::Trytes(to_trits(masked)), sk, s, b),
            Job::Tagged { link, public, masked } => msg::tagged_packet::wrap(&id_of(link), &mut l, &pb3::Trytes(to_trits(public)), &pb3::Trytes(to_trits(masked)), s, b),
            Job::Subscribe { link, prng, nonce, sub, ch } => msg::subscribe::wrap(slice(link), &mut l, &PRNG::init(slice(prng)), slice(nonce), sub, ch, s, b),
            Job::Unsubscribe { link } => msg::unsubscribe::wrap(slice(link), &mut l, s, b),
            Job::FakeAnnounce { pk, ntru, sk } => {
                pb3::wrap_absorb_trits(slice(pk), s, b);
                match ntru {
                    Some(n) => {
                        pb3::oneof(1).wrap_absorb(s, b);
                        pb3::wrap_absorb_trits(n.trits(), s, b);
                    }
                    None => {
                        pb3::oneof(0).wrap_absorb(s, b);
                    }
                }
                pb3::mssig::squeeze_wrap_mssig(sk, s, b);
            }
            Job::FakeSubscribe { link, prng, nonce, sub, ch } => {
                let prng = PRNG::init(slice(prng));
                pb3::join::wrap_join(slice(link), &mut l, s, b);
                let mut key = Trits::zero(243);
                prng.gen(slice(nonce), key.slice_mut());
                pb3::ntrukem::wrap_ntrukem(key.slice(), ch, &prng, slice(nonce), s, b);
                s.commit();
                pb3::wrap_mask_trits(slice(sub), s, b);
                pb3::mac::wrap_mac(s, b);
            }
            Job::OddAnnounce { choice, ntru, sk } => {
                pb3::wrap_absorb_trits(slice(&pk_tv(sk.public_key())), s, b);
                pb3::wrap_absorb_trits(slice(&put_int(*choice, 3)), s, b);
                pb3::wrap_absorb_trits(slice(ntru), s, b);
                pb3::mssig::squeeze_wrap_mssig(sk, s, b);
            }
            Job::FakeChangeKey { link, pk, first, second } => {
                pb3::join::wrap_join(slice(link), &mut l, s, b);
                pb3::wrap_absorb_trits(slice(pk), s, b);
                let hash = pb3::mssig::squeeze_mss_hash(s);
                pb3::mssig::wrap_mssig(hash.slice(), first, s, b);
                pb3::mssig::wrap_mssig(hash.slice(), second, s, b);
            }
        }
        s.commit();
    }

    /// Encodes into a private buffer of the announced size; for forgers and quick use.
    pub fn body(&self, app: &[u8], id: &[u8], base: Option<&Spongos>) -> (Tv, Spongos) {
        let mut o = Trits::zero(self.sizeof());
        let mut s = Spongos::init();
        {
            let mut b = o.slice_mut();
            self.wrap(app, id, base, &mut s, &mut b);
        }
        (from_trits(&o), s)
    }

    /// Starts of the fields, for aiming alterations.
    pub fn marks(&self) -> Vec<usize> {
        let h = self.kind().head();
        let mut m = vec![0, 3, 3 + refm::size_enc(self.kind().typ().len()).len(), h];
        let mut at = h;
        let mut add = |n: usize| {
            at += n;
            m.push(at);
        };
        let trytes = |x: &Tv| refm::size_enc(x.len() / 3).len();
        match self {
            Job::OddAnnounce { ntru, sk, .. } => {
                add(243);
                add(3);
                add(ntru.len());
                sigmarks(sk.height(), &mut add);
            }
            Job::Announce { sk, ntru } | Job::FakeAnnounce { sk, ntru, .. } => {
                add(243);
                add(3);
                if ntru.is_some() {
                    add(9216);
                }
                sigmarks(sk.height(), &mut add);
            }
            Job::ChangeKey { new, old, .. } | Job::FakeChangeKey { first: new, second: old, .. } => {
                add(81);
                add(243);
                sigmarks(new.height(), &mut add);
                sigmarks(old.height(), &mut add);
            }
            Job::Keyload { psks, ntrus, sign, .. } => {
                add(81);
                add(81);
                add(refm::size_enc(psks.len()).len());
                for _ in 0..psks.len() {
                    add(81);
                    add(243);
                }
                add(refm::size_enc(ntrus.len()).len());
                for _ in 0..ntrus.len() {
                    add(81);
                    add(9216);
                }
                if let Some(s) = sign {
                    sigmarks(s.height(), &mut add);
                }
            }
            Job::Signed { public, masked, sk, .. } => {
                add(81);
                add(trytes(public));
                add(public.len());
                add(trytes(masked));
                add(masked.len());
                sigmarks(sk.height(), &mut add);
            }
            Job::Tagged { public, masked, .. } => {
                add(81);
                add(trytes(public));
                add(public.len());
                add(trytes(masked));
                add(masked.len());
                add(243);
            }
            Job::Subscribe { .. } | Job::FakeSubscribe { .. } => {
                add(81);
                add(9216);
                add(9216);
                add(243);
            }
            Job::Unsubscribe { .. } => {
                add(81);
                add(243);
            }
        }
        m
    }
}
fn sigmarks(d: usize, add: &mut dyn FnMut(usize)) {
    add(4);
    add(14);
    add(13122);
    for _ in 0..d {
        add(243);
    }
}

// ------------------------------------------------------------------ reference encoding

/// Secrets in the form the reference needs them.
pub enum RefJob<'a> {
    Announce { pk: Tv, ntru: Option<Tv>, sk: &'a refm::Mss, skn: usize },
    ChangeKey { link: Tv, new: &'a refm::Mss, new_skn: usize, old: &'a refm::Mss, old_skn: usize },
    Keyload { link: Tv, nonce: Tv, psks: Vec<(Tv, Tv)>, ntrus: Vec<(Tv, Tv)>, prng: Tv, key: Tv, sign: Option<(&'a refm::Mss, usize)> },
    Signed { link: Tv, public: Tv, masked: Tv, sk: &'a refm::Mss, skn: usize },
    Tagged { link: Tv, public: Tv, masked: Tv },
    Subscribe { link: Tv, prng: Tv, nonce: Tv, sub: Tv, ch: Tv },
    Unsubscribe { link: Tv },
}

pub fn ref_encode(kind: Kind, j: &RefJob, app: &[u8], id: &[u8], base: Option<&refm::Sponge>) -> (Tv, refm::Sponge) {
    let mut o = refm::Out { s: refm::Sponge::new(), b: vec![] };
    o.absorb(&put_int(1, 3));
    let typ = match kind {
        Kind::Announce => "MAM9CHANNEL9ANNOUNCE",
        Kind::ChangeKey => "MAM9CHANNEL9CHANGEKEY",
        Kind::Keyload => "MAM9KEYLOAD",
        Kind::Signed => "MAM9SIGNEDPACKET",
        Kind::Tagged => "MAM9TAGGEDPACKET",
        Kind::Subscribe => "MAM9CHANNEL9SUBSCRIBE",
        Kind::Unsubscribe => "MAM9CHANNEL9UNSUBSCRIBE",
    };
    o.trytes_absorb(&refm::str_tv(typ));
    o.s.absorb(app);
    o.s.absorb(id);
    let z = refm::Sponge::new();
    let base = base.unwrap_or(&z);
    match j {
        RefJob::Announce { pk, ntru, sk, skn } => {
            o.absorb(pk);
            match ntru {
                Some(n) => {
                    o.absorb(&put_int(1, 3));
                    o.absorb(n);
                }
                None => o.absorb(&put_int(0, 3)),
            }
            let h = o.sig_hash();
            o.b.extend(sk.sign_at(&h, *skn));
        }
        RefJob::ChangeKey { link, new, new_skn, old, old_skn } => {
            o.join(link, base);
            o.absorb(&new.pk());
            let h = o.sig_hash();
            o.b.extend(new.sign_at(&h, *new_skn));
            o.b.extend(old.sign_at(&h, *old_skn));
        }
        RefJob::Keyload { link, nonce, psks, ntrus, prng, key, sign } => {
            o.join(link, base);
            o.absorb(nonce);
            o.absorb(&refm::size_enc(psks.len()));
            for (i, k) in psks {
                let save = o.s.clone();
                o.absorb(i);
                o.s.absorb(k);
                o.s.commit();
                o.mask(key);
                o.s = save;
            }
            o.absorb(&refm::size_enc(ntrus.len()));
            for (i, k) in ntrus {
                let save = o.s.clone();
                o.absorb(i);
                let y = refm::ntru_encr(&mut o.s, prng, nonce, k, key);
                o.b.extend(y);
                o.s = save;
            }
            o.s.absorb(key);
            o.s.commit();
            if let Some((sk, skn)) = sign {
                let h = o.sig_hash();
                o.b.extend(sk.sign_at(&h, *skn));
            }
        }
        RefJob::Signed { link, public, masked, sk, skn } => {
            o.join(link, base);
            o.trytes_absorb(public);
            o.trytes_mask(masked);
            let h = o.sig_hash();
            o.b.extend(sk.sign_at(&h, *skn));
        }
        RefJob::Tagged { link, public, masked } => {
            o.join(link, base);
            o.trytes_absorb(public);
            o.trytes_mask(masked);
            o.mac();
        }
        RefJob::Subscribe { link, prng, nonce, sub, ch } => {
            o.join(link, base);
            let k = refm::prng(prng, &[nonce], 243);
            let y = refm::ntru_encr(&mut o.s, prng, nonce, ch, &k);
            o.b.extend(y);
            o.s.commit();
            o.mask(sub);
            o.mac();
        }
        RefJob::Unsubscribe { link } => {
            o.join(link, base);
            o.mac();
        }
    }
    o.s.commit();
    (o.b, o.s)
}

// ------------------------------------------------------------------ decoding by a node

/// A state a message left at a receiver: later messages may link to it.
#[derive(Clone)]
pub struct Cand {
    pub s: Spongos,
    pub kind: Kind,
    /// Derived from a session key.
    pub session: bool,
    pub msspk: Option<mss::PublicKey>,
    pub subpk: Option<ntru::PublicKey>,
    /// The genuine message this is the state of (known to the oracle only).
    pub gen: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Content {
    Announce { pk: Tv, ntru: Option<Tv> },
    ChangeKey { pk: Tv },
    Keyload { signed: Option<Tv> },
    Packet { pk: Option<Tv>, public: Tv, masked: Tv },
    Subscribe { pk: Tv },
    Unsubscribe { pk: Tv },
}

pub struct Acc {
    pub kind: Kind,
    pub content: Content,
    pub s: Spongos,
    pub left: usize,
    pub ntru: Option<ntru::PublicKey>,
    pub msspk: Option<mss::PublicKey>,
    /// Announcements: under a key the receiver knows to be the owner's.
    pub trusted: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rej {
    Decode(pb3::Err),
    UnknownType,
    Untrusted,
    Panic,
}

pub struct Keys<'a> {
    pub psks: &'a HashMap<Trits, Trits>,
    pub ntrus: &'a HashMap<Trits, ntru::PrivateKey>,
    /// Opens subscriptions.
    pub own: Option<&'a ntru::PrivateKey>,
    pub trusted: &'a [Tv],
}

/// Decodes a packet against one resolution of its link (`base`), as a receiver would.
pub fn decode(keys: &Keys, app: &[u8], id: &[u8], body: TritSlice, base: Option<&Cand>, by_recover: bool, force: Option<Kind>) -> Result<Acc, Rej> {
    let mut s = Spongos::init();
    let mut b = body;
    let typ = header::unwrap(&app_of(app), &id_of(id), &mut s, &mut b).map_err(Rej::Decode)?;
    let typ = typ.0.to_str();
    let kind = match force {
        // an application that handles several type names the same way
        Some(k) => k,
        None => *KINDS.iter().find(|k| k.typ() == typ).ok_or(Rej::UnknownType)?,
    };
    let look = |_: TritSlice| base.map(|c| (c.s.clone(), ()));
    let mut ntru_found = None;
    let mut mss_found = None;
    let mut trusted = true;
    let content = match kind {
        Kind::Announce => {
            let (pk, n) = msg::announce::unwrap(&mut s, &mut b).map_err(Rej::Decode)?;
            mss_found = Some(pk.clone());
            let pk = pk_tv(&pk);
            trusted = keys.trusted.contains(&pk);
            ntru_found = n.clone();
            Content::Announce { pk, ntru: n.map(|n| npk_tv(&n)) }
        }
        Kind::ChangeKey => {
            let pk = msg::change_key::unwrap(|_| base.and_then(|c| c.msspk.clone().map(|k| (c.s.clone(), k))), &mut s, &mut b).map_err(Rej::Decode)?;
            mss_found = Some(pk.clone());
            Content::ChangeKey { pk: pk_tv(&pk) }
        }
        Kind::Keyload => {
            msg::keyload::unwrap(look, keys.psks, keys.ntrus, &mut s, &mut b).map_err(Rej::Decode)?;
            let mut signed = None;
            if !b.is_empty() {
                // signed keyload
                if by_recover || keys.trusted.len() != 1 {
                    let pk = pb3::mssig::squeeze_unwrap_mssig_recover(&mut s, &mut b).map_err(Rej::Decode)?;
                    signed = Some(pk_tv(&pk));
                    if !keys.trusted.contains(signed.as_ref().unwrap()) {
                        return Err(Rej::Untrusted);
                    }
                } else {
                    pb3::mssig::squeeze_unwrap_mssig_verify(&pk_from(&keys.trusted[0]), &mut s, &mut b).map_err(Rej::Decode)?;
                    signed = Some(keys.trusted[0].clone());
                }
            }
            Content::Keyload { signed }
        }
        Kind::Signed => {
            if by_recover || keys.trusted.len() != 1 {
                let (pk, public, masked) = msg::signed_packet::unwrap_recover(look, &mut s, &mut b).map_err(Rej::Decode)?;
                let pk = pk_tv(&pk);
                if !keys.trusted.contains(&pk) {
                    return Err(Rej::Untrusted);
                }
                Content::Packet { pk: Some(pk), public: from_trits(&public.0), masked: from_trits(&masked.0) }
            } else {
                let pk = pk_from(&keys.trusted[0]);
                let (public, masked) = msg::signed_packet::unwrap_verify(look, &pk, &mut s, &mut b).map_err(Rej::Decode)?;
                Content::Packet { pk: Some(keys.trusted[0].clone()), public: from_trits(&public.0), masked: from_trits(&masked.0) }
            }
        }
        Kind::Tagged => {
            let (public, masked) = msg::tagged_packet::unwrap(look, &mut s, &mut b).map_err(Rej::Decode)?;
            Content::Packet { pk: None, public: from_trits(&public.0), masked: from_trits(&masked.0) }
        }
        Kind::Subscribe => {
            let own = keys.own.ok_or(Rej::Untrusted)?;
            let pk = msg::subscribe::unwrap(look, own, &mut s, &mut b).map_err(Rej::Decode)?;
            ntru_found = Some(pk.clone());
            Content::Subscribe { pk: npk_tv(&pk) }
        }
        Kind::Unsubscribe => {
            let pk = msg::unsubscribe::unwrap(|_| base.and_then(|c| c.subpk.clone().map(|k| (c.s.clone(), k))), &mut s, &mut b).map_err(Rej::Decode)?;
            Content::Unsubscribe { pk: npk_tv(&pk) }
        }
    };
    s.commit();
    let left = b.size();
    Ok(Acc { kind, content, s, left, ntru: ntru_found, msspk: mss_found, trusted })
}

/// Peeks at type and link of a packet without touching any state.
pub fn peek(body: &[u8]) -> Option<(Kind, Option<Tv>)> {
    let mut i = refm::In { s: refm::Sponge::new(), b: body };
    i.take(3)?;
    let t = i.trytes_absorb()?;
    let k = *KINDS.iter().find(|k| refm::str_tv(k.typ()) == t)?;
    if k == Kind::Announce {
        return Some((k, None));
    }
    let id = i.take(81)?.to_vec();
    Some((k, Some(id)))
}
