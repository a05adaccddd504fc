//! A channel whose owner signs with tall trees. Generating such trees is out of reach, so the
//! messages are written by the reference implementation, which has only the leaves it uses, and
//! read by the real decoders.

use crate::codec::*;
use crate::refm;
use crate::rt::*;
use crate::util::*;
use iota_mam::trits::Trits;
use std::collections::HashMap;

struct Key {
    m: refm::Mss,
    leaves: Vec<usize>,
    next: usize,
    pk: Tv,
}

fn key(c: &mut Ctx) -> Key {
    let (seed, nonce) = (rdata(c, 243), rdata(c, 33));
    let d = match c.weighted(&[3, 2, 1]) {
        0 => 4 + c.below(17),
        1 => *c.pick(&[9usize, 10, 13, 15, 16, 17, 19, 20]),
        _ => c.below(4),
    };
    let n = 1usize << d;
    let mut leaves = vec![];
    for _ in 0..3 {
        let l = match c.below(4) {
            0 => c.below(n),
            1 => n - 1 - c.below(n.min(3)),
            2 => (1 << c.below(d + 1)) % n,
            _ => (3usize.pow(c.below(13) as u32) + c.below(2)) % n,
        };
        leaves.push(l);
    }
    leaves.sort();
    leaves.dedup();
    let mut r = c.bulk();
    let m = refm::Mss::gen_tall(&seed, &nonce, d, &leaves, || rand_tv(&mut r, 243));
    let pk = m.pk();
    c.log(format!("tree of height {} with leaves {:?} and root {}", d, leaves, hex(&pk)));
    Key { m, leaves, next: 0, pk }
}

impl Key {
    /// The leaf to sign with next.
    fn leaf(&mut self) -> Option<usize> {
        let l = self.leaves.get(self.next).cloned();
        self.next += 1;
        l
    }
}

struct Sent {
    kind: Kind,
    id: Tv,
    body: Tv,
    rs: refm::Sponge,
    content: Content,
    base: Option<usize>,
    /// Where the signatures are, and of which height.
    sigs: Vec<(usize, usize)>,
}

pub fn channel(c: &mut Ctx) {
    let app = rdata(c, 243);
    let (mut old, mut new, mut eve) = (key(c), key(c), key(c));
    let psk = (rdata(c, 81), rdata(c, 243));
    let mut sent: Vec<Sent> = vec![];
    let add = |c: &mut Ctx, sent: &mut Vec<Sent>, kind: Kind, j: &RefJob, base: Option<usize>, content: Content, heights: &[usize]| {
        let id = rdata(c, 81);
        let (body, rs) = ref_encode(kind, j, &app, &id, base.map(|b: usize| &sent[b].rs));
        let mut at = body.len();
        let mut sigs = vec![];
        for h in heights.iter().rev() {
            at -= 18 + 13122 + 243 * h;
            sigs.push((at, *h));
        }
        sigs.reverse();
        sent.push(Sent { kind, id, body, rs, content, base, sigs });
    };
    // announcement
    let skn = old.leaf().unwrap();
    let j = RefJob::Announce { pk: old.pk.clone(), ntru: None, sk: &old.m, skn };
    add(c, &mut sent, Kind::Announce, &j, None, Content::Announce { pk: old.pk.clone(), ntru: None }, &[old.m.height]);
    // keyload, signed or not
    let nonce = rdata(c, 81);
    let skey = rdata(c, 243);
    let sg = if c.below(2) == 0 { old.leaf() } else { None };
    let j = RefJob::Keyload { link: sent[0].id.clone(), nonce, psks: vec![psk.clone()], ntrus: vec![], prng: rdata(c, 243), key: skey, sign: sg.map(|l| (&old.m, l)) };
    let h = [old.m.height];
    add(c, &mut sent, Kind::Keyload, &j, Some(0), Content::Keyload { signed: sg.map(|_| old.pk.clone()) }, if sg.is_some() { &h } else { &[] });
    // key change and packets under the new key
    let base = c.below(2);
    let (a, b) = (new.leaf().unwrap(), old.leaf());
    let mut changed = false;
    if let Some(b) = b {
        let j = RefJob::ChangeKey { link: sent[0].id.clone(), new: &new.m, new_skn: a, old: &old.m, old_skn: b };
        add(c, &mut sent, Kind::ChangeKey, &j, Some(0), Content::ChangeKey { pk: new.pk.clone() }, &[new.m.height, old.m.height]);
        changed = true;
    }
    let (n1, n2) = (3 * c.below(60), 3 * c.below(60));
    let (public, masked) = (data(c, n1), data(c, n2));
    let signer = if changed { &mut new } else { &mut old };
    if let Some(l) = signer.leaf() {
        let j = RefJob::Signed { link: sent[base].id.clone(), public: public.clone(), masked: masked.clone(), sk: &signer.m, skn: l };
        let content = Content::Packet { pk: Some(signer.pk.clone()), public, masked };
        let h = [signer.m.height];
        let last = sent.len();
        add(c, &mut sent, Kind::Signed, &j, Some(base), content, &h);
        let _ = last;
    }
    // the receiver
    let mut psks: HashMap<Trits, Trits> = HashMap::new();
    psks.insert(to_trits(&psk.0), to_trits(&psk.1));
    let ntrus = HashMap::new();
    let mut trusted = vec![old.pk.clone()];
    let mut cands: Vec<Option<Cand>> = vec![];
    c.probe("tall-signing-keys");
    for i in 0..sent.len() {
        c.now += 100;
        let m = &sent[i];
        if i > 0 && matches!(m.content, Content::Packet { .. }) && changed {
            trusted.push(new.pk.clone());
        }
        let keys = Keys { psks: &psks, ntrus: &ntrus, own: None, trusted: &trusted };
        let base = match m.base {
            None => None,
            Some(b) => match &cands[b] {
                Some(x) => Some(x.clone()),
                None => return,
            },
        };
        // hostile copies first: they must not matter to the intact one
        let attacks = if m.sigs.is_empty() { 0 } else { 3 + c.below(4) };
        for _ in 0..attacks {
            let by_recover = c.below(2) == 0;
            let (body, id, ap, what, prop) = match hostile(c, &sent, i, &mut eve, &old, &app, &psk) {
                Some(x) => x,
                None => continue,
            };
            let t = to_trits(&body);
            c.fault(prop.1);
            let r = decode(&keys, &ap, &id, t.slice(), base.as_ref(), by_recover, None);
            c.evals += 1;
            if let Ok(a) = r {
                let open = a.left > 0 || !a.trusted || (a.kind == Kind::Keyload && a.content == Content::Keyload { signed: None });
                c.check(open, &[prop.0], "tall-hostile-accepted", || format!("{:?} #{} under a tall key is accepted although {}", m.kind, i, what));
            }
        }
        let off = c.below(5);
        let mut buf = rdata(c, off);
        buf.extend(&m.body);
        let tail = c.below(4);
        buf.extend(rdata(c, tail));
        let t = to_trits(&buf);
        let by_recover = c.below(2) == 0;
        let r = decode(&keys, &app, &m.id, t.slice().drop(off).take(m.body.len()), base.as_ref(), by_recover, None);
        c.evals += 1;
        let a = match r {
            Ok(a) => a,
            Err(e) => {
                let props: &[&str] = if attacks > 0 { &["C01", "C08", "C02"] } else { &["C01", "C08"] };
                c.check(false, props, "tall-intact-rejected", || format!("intact {:?} #{} signed with trees of heights {:?} rejected: {:?}", m.kind, i, m.sigs, e));
                return;
            }
        };
        c.check(a.content == m.content, &["C01", "C08"], "tall-content", || format!("{:?} #{}: {:?} instead of {:?}", m.kind, i, a.content, m.content));
        c.check(a.left == 0, &["C01", "C08"], "tall-size", || format!("{:?} #{}: {} trits left", m.kind, i, a.left));
        c.check(fp(&a.s) == m.rs.fp(), &["C01", "C08"], "tall-state", || format!("{:?} #{}: receiver in another state than the sender", m.kind, i));
        c.log(format!("{:?} #{} {} trits read", m.kind, i, m.body.len()));
        c.state(h2(h2(i as u64, m.sigs.iter().map(|x| x.1 as u64).sum()), m.body.len() as u64));
        cands.push(Some(Cand { s: a.s, kind: m.kind, session: m.kind == Kind::Keyload, msspk: a.msspk, subpk: None, gen: None }));
    }
}

type Hostile = (Tv, Tv, Tv, String, (&'static str, &'static str));

fn hostile(c: &mut Ctx, sent: &[Sent], i: usize, eve: &mut Key, old: &Key, app: &Tv, psk: &(Tv, Tv)) -> Option<Hostile> {
    let m = &sent[i];
    let (at, h) = *c.pick(&m.sigs);
    let path = at + 18 + 13122;
    let mut b = m.body.clone();
    let (id, ap) = (m.id.clone(), app.clone());
    Some(match c.below(9) {
        0 => {
            let p = match c.below(4) {
                0 => at + c.below(18),
                1 => at + 18 + c.below(13122),
                2 if h > 0 => path + c.below(243 * h),
                _ => c.below(at.max(1)),
            };
            b[p] = (b[p] + 1 + c.below(2) as u8) % 3;
            (b, id, ap, format!("trit {} changed (signature at {}, height {})", p, at, h), ("C02", "flip"))
        }
        1 => {
            if h == 0 {
                return None;
            }
            // one level of the path left out, with the height made to fit
            let l = c.below(h);
            b.drain(path + 243 * l..path + 243 * (l + 1));
            b[at..at + 4].copy_from_slice(&put_int(h as i64 - 1, 4));
            let s = get_int(&b[at + 4..at + 18]);
            let low = s & ((1 << l) - 1);
            let s2 = (s >> (l + 1) << l) | low;
            b[at + 4..at + 18].copy_from_slice(&put_int(s2, 14));
            (b, id, ap, format!("level {} of a path of height {} is left out", l, h), ("C02", "path-shortened"))
        }
        2 => {
            if h >= 20 {
                return None;
            }
            let x = rdata(c, 243);
            b.splice(path + 243 * h..path + 243 * h, x);
            b[at..at + 4].copy_from_slice(&put_int(h as i64 + 1, 4));
            (b, id, ap, format!("a level is added to a path of height {}", h), ("C02", "path-extended"))
        }
        3 => {
            let s = get_int(&b[at + 4..at + 18]);
            let s2 = match c.below(3) {
                0 => s ^ (1 << c.below(h.max(1))),
                1 => s + (1 << h),
                _ => s + 3i64.pow(c.below(13) as u32),
            };
            if s2 == s || s2 > 2391484 {
                return None;
            }
            b[at + 4..at + 18].copy_from_slice(&put_int(s2, 14));
            (b, id, ap, format!("leaf {} is named instead of {} at height {}", s2, s, h), ("C02", "leaf-number-altered"))
        }
        4 => {
            let k = c.below(81);
            let mut id = id;
            id[k] = (id[k] + 1 + c.below(2) as u8) % 3;
            (b, id, ap, format!("trit {} of the identifier differs", k), ("C04", "other-identifier"))
        }
        5 => {
            let k = c.below(243);
            let mut ap = ap;
            ap[k] = (ap[k] + 1 + c.below(2) as u8) % 3;
            (b, id, ap, format!("trit {} of the instance differs", k), ("C04", "other-instance"))
        }
        6 => {
            // signature of another message by the same owner
            let o: Vec<(usize, usize, usize)> = sent.iter().enumerate().filter(|(k, _)| *k != i).flat_map(|(k, x)| x.sigs.iter().map(move |s| (k, s.0, s.1))).collect();
            if o.is_empty() {
                return None;
            }
            let (k, oa, oh) = *c.pick(&o);
            let x = sent[k].body[oa..oa + 18 + 13122 + 243 * oh].to_vec();
            b.splice(at..at + 18 + 13122 + 243 * h, x);
            (b, id, ap, format!("its signature is that of #{}", k), ("C03", "signature-reused"))
        }
        _ => {
            // the forger signs with its own tree
            let l = eve.leaves[0];
            let link = m.base.map(|k| sent[k].id.clone()).unwrap_or_default();
            let base = m.base.map(|k| &sent[k].rs);
            let (body, what) = match m.kind {
                Kind::Announce => {
                    let j = RefJob::Announce { pk: old.pk.clone(), ntru: None, sk: &eve.m, skn: l };
                    (ref_encode(m.kind, &j, app, &id, None).0, "the forger signed it")
                }
                Kind::ChangeKey => {
                    let j = RefJob::ChangeKey { link, new: &eve.m, new_skn: l, old: &eve.m, old_skn: l };
                    (ref_encode(m.kind, &j, app, &id, base).0, "the forger signed for both keys")
                }
                Kind::Signed => {
                    let x = rdata(c, 30);
                    let j = RefJob::Signed { link, public: x.clone(), masked: x, sk: &eve.m, skn: l };
                    (ref_encode(m.kind, &j, app, &id, base).0, "the forger signed it")
                }
                Kind::Keyload => {
                    let j = RefJob::Keyload { link, nonce: rdata(c, 81), psks: vec![psk.clone()], ntrus: vec![], prng: rdata(c, 243), key: rdata(c, 243), sign: Some((&eve.m, l)) };
                    (ref_encode(m.kind, &j, app, &id, base).0, "the forger, a recipient, signed it")
                }
                _ => return None,
            };
            (body, id, ap, what.into(), ("C03", "forged"))
        }
    })
}
