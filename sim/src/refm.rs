//! Independent reference implementation of the wire format: sponge, PRNG, one-time and Merkle
//! signatures, key encapsulation, field encodings and message layouts. Works on plain trit
//! vectors and shares no code with the library under test.

use crate::util::*;

// ------------------------------------------------------------------ permutation
//
// 729 trits; trit i lives in lane i % 27, position i / 27. A lane is a pair of 27-bit masks
// (ones, twos).

type Lane = (u32, u32);
const M27: u32 = (1 << 27) - 1;

fn ladd(a: Lane, b: Lane) -> Lane {
    // per position: (a + b) mod 3
    let z = |x: Lane| !(x.0 | x.1) & M27;
    let (za, zb) = (z(a), z(b));
    ((a.0 & zb) | (za & b.0) | (a.1 & b.1), (a.1 & zb) | (za & b.1) | (a.0 & b.0))
}
fn lmul(a: Lane, b: Lane) -> Lane {
    ((a.0 & b.0) | (a.1 & b.1), (a.0 & b.1) | (a.1 & b.0))
}
fn lrot(a: Lane, n: u32) -> Lane {
    let r = |x: u32| ((x << n) | (x >> (27 - n))) & M27;
    (r(a.0), r(a.1))
}

const ROUND: [[Lane; 9]; 24] = [
    [
        (119734530, 1610953),
        (5749794, 34095441),
        (8585540, 55080601),
        (37884008, 77409799),
        (54010117, 84576),
        (1516630, 113295913),
        (67149892, 28728632),
        (18946819, 46269656),
        (71707578, 53494784),
    ],
    [
        (16777439, 103161856),
        (106015553, 10769436),
        (21266449, 11549090),
        (25182214, 106707976),
        (3511622, 21651481),
        (99250704, 98573),
        (86049024, 8946816),
        (115430790, 18522649),
        (34802142, 90448384),
    ],
    [
        (52954114, 4518880),
        (42049594, 69225857),
        (64652, 119014242),
        (2361764, 79725587),
        (11788385, 71306002),
        (104925460, 18936387),
        (126091277, 7368848),
        (50448421, 76157720),
        (8389632, 69472985),
    ],
    [
        (5267465, 119801412),
        (219376, 96215813),
        (69452824, 31209699),
        (2458688, 26900536),
        (9216196, 23217449),
        (9479304, 84560389),
        (14721540, 118622586),
        (18134123, 33751056),
        (17839280, 8454144),
    ],
    [
        (50535754, 83100304),
        (77465099, 56709376),
        (3229283, 54835588),
        (111780009, 4473088),
        (78153311, 1384832),
        (2200712, 85617187),
        (3410924, 71341072),
        (75661345, 34434134),
        (56763059, 69011456),
    ],
    [
        (111543554, 1650793),
        (16908812, 37251073),
        (104910882, 1517085),
        (26041368, 103842404),
        (48022528, 2229055),
        (54104125, 71320960),
        (35722818, 93087928),
        (84559900, 3190850),
        (27582482, 37816716),
    ],
    [
        (68786250, 54928432),
        (3686682, 63278693),
        (70045, 100557312),
        (38150276, 94408058),
        (46798629, 2394242),
        (1202190, 8988112),
        (34308201, 94384916),
        (17518227, 3145772),
        (973329, 136),
    ],
    [
        (56633740, 8765490),
        (68419770, 749061),
        (100942913, 23267584),
        (79923980, 51667986),
        (41853745, 25172098),
        (39327896, 75776000),
        (44671808, 68175902),
        (2245138, 13929772),
        (33650945, 79037966),
    ],
    [
        (270473, 90363412),
        (72887432, 25346582),
        (100829319, 16593224),
        (40087630, 68684337),
        (6369457, 110496512),
        (4784407, 25472000),
        (33891012, 79219770),
        (53838530, 8936492),
        (68643936, 525057),
    ],
    [
        (102302534, 16841864),
        (50364433, 75530210),
        (84025378, 41014464),
        (25225495, 102827176),
        (4194888, 1050917),
        (84026756, 39440496),
        (2102125, 76284930),
        (219, 101056512),
        (100738441, 5820436),
    ],
    [
        (10228162, 67365944),
        (5235808, 8393488),
        (51989651, 2228780),
        (16847505, 76433508),
        (67651608, 33591874),
        (69017778, 35784448),
        (33587208, 76568885),
        (117440518, 4257472),
        (96273297, 154690),
    ],
    [
        (124317824, 1508111),
        (34873472, 98616918),
        (111182400, 1330494),
        (69374511, 54871056),
        (27626369, 38929480),
        (37879972, 26052698),
        (71587392, 44040194),
        (14000288, 2101064),
        (35672064, 97980170),
    ],
    [
        (81296, 47317509),
        (38469910, 25472072),
        (29738560, 36700214),
        (3267745, 117973262),
        (97993472, 528537),
        (84567940, 13731898),
        (77335148, 21041296),
        (51463726, 6724033),
        (1116193, 23601996),
    ],
    [
        (80396928, 18153737),
        (117581700, 10059826),
        (21505356, 101124275),
        (23679023, 42993616),
        (103681057, 4268108),
        (72885098, 18914433),
        (97846858, 2627621),
        (8422144, 104538235),
        (83948099, 40176916),
    ],
    [
        (6928902, 67256433),
        (67184746, 41588096),
        (69355878, 38529),
        (41473220, 67313922),
        (50647688, 4336995),
        (92288643, 248148),
        (12134919, 37884008),
        (35146408, 2601044),
        (9423489, 17835048),
    ],
    [
        (68231686, 6477024),
        (57284529, 8398852),
        (69316740, 34996770),
        (33696260, 24642995),
        (46333986, 85212492),
        (54665779, 12422144),
        (47791116, 311458),
        (44671584, 72368411),
        (2773762, 29428924),
    ],
    [
        (70976736, 62972703),
        (123864709, 10004498),
        (4202128, 11157861),
        (4859922, 61129797),
        (43331726, 69782577),
        (83935362, 49559848),
        (18875398, 1355904),
        (34433676, 78808178),
        (106038508, 27888147),
    ],
    [
        (4627260, 33570944),
        (4538630, 121155721),
        (9245346, 117613917),
        (33571009, 29853970),
        (2392559, 43652096),
        (93343744, 37793194),
        (17309712, 36148998),
        (3276900, 118312456),
        (101315856, 5638796),
    ],
    [
        (1587272, 132514822),
        (4229205, 77297034),
        (5767570, 84216428),
        (110247047, 21528952),
        (125878920, 7743841),
        (42033186, 73801480),
        (8388866, 2699881),
        (127159080, 2240724),
        (17324188, 112468544),
    ],
    [
        (34341913, 91345154),
        (105251840, 2623560),
        (4798982, 10634481),
        (39389184, 84174433),
        (88113152, 8667000),
        (34284722, 329),
        (39360568, 67200132),
        (6844996, 58720546),
        (104799233, 29368426),
    ],
    [
        (51429916, 80362691),
        (88855204, 262411),
        (8655522, 71558228),
        (17838342, 11076784),
        (92751916, 1577424),
        (33559104, 8931338),
        (1055746, 99418513),
        (85018341, 39885072),
        (63800, 120587968),
    ],
    [
        (5517104, 84070467),
        (118067364, 5522242),
        (39922643, 68435980),
        (73796250, 35144996),
        (2528811, 37838868),
        (37880008, 17144593),
        (21317458, 112754688),
        (113268098, 20677181),
        (2597136, 47730886),
    ],
    [
        (68438280, 50397942),
        (59853500, 68030786),
        (1475096, 41965991),
        (85852370, 37775145),
        (1071361, 44113962),
        (68040205, 62931234),
        (5847109, 78005290),
        (34465024, 12720668),
        (71860611, 44513824),
    ],
    [
        (109057155, 3197812),
        (2396909, 16843778),
        (67383952, 31605828),
        (70387369, 37875732),
        (119275955, 28228),
        (34079753, 73679286),
        (50603056, 71422530),
        (10385546, 86017108),
        (227426, 12060561),
    ],
];

#[derive(Clone)]
pub struct Perm {
    l: [Lane; 27],
}

impl Perm {
    fn new() -> Self {
        Perm { l: [(0, 0); 27] }
    }
    fn get(&self, i: usize) -> u8 {
        let (a, b) = self.l[i % 27];
        let k = i / 27;
        (((a >> k) & 1) + 2 * ((b >> k) & 1)) as u8
    }
    fn set(&mut self, i: usize, t: u8) {
        let l = &mut self.l[i % 27];
        let m = 1u32 << (i / 27);
        l.0 = (l.0 & !m) | if t == 1 { m } else { 0 };
        l.1 = (l.1 & !m) | if t == 2 { m } else { 0 };
    }
    fn permute(&mut self) {
        const SHIFT: [u32; 27] = [19, 13, 21, 10, 24, 15, 2, 9, 3, 14, 0, 6, 5, 1, 25, 22, 23, 20, 7, 17, 26, 12, 8, 18, 16, 11, 4];
        let minus: Lane = (0, M27);
        for r in 0..24 {
            // nonlinear layer on rows of three
            for t in 0..9 {
                let (a, b, c) = (self.l[3 * t], self.l[3 * t + 1], self.l[3 * t + 2]);
                let d = ladd(a, minus);
                let e = ladd(lmul(d, b), c);
                let f = ladd(lmul(e, b), d);
                let g = ladd(lmul(e, f), b);
                self.l[3 * t] = g;
                self.l[3 * t + 1] = f;
                self.l[3 * t + 2] = e;
            }
            // rows: the middle plane moves by one tryte, the last one by two
            let o = self.l;
            for k in 0..9 {
                self.l[9 + (k + 3) % 9] = o[9 + k];
                self.l[18 + (k + 6) % 9] = o[18 + k];
            }
            for k in 0..27 {
                self.l[k] = lrot(self.l[k], SHIFT[k]);
            }
            // column parities
            let mut p = [(0u32, 0u32); 9];
            for k in 0..9 {
                p[k] = ladd(ladd(self.l[k], self.l[9 + k]), self.l[18 + k]);
            }
            for k in 0..9 {
                let s = ladd(p[(k + 8) % 9], lrot(p[(k + 1) % 9], 26));
                for z in 0..3 {
                    self.l[9 * z + k] = ladd(self.l[9 * z + k], s);
                }
            }
            for k in 0..9 {
                self.l[k] = ladd(self.l[k], ROUND[r][k]);
            }
        }
    }
}

// ------------------------------------------------------------------ sponge

const RATE: usize = 486;

#[derive(Clone)]
pub struct Sponge {
    p: Perm,
    outer: Vec<u8>,
    pos: usize,
}

impl Sponge {
    pub fn new() -> Self {
        Sponge { p: Perm::new(), outer: vec![0; RATE], pos: 0 }
    }
    pub fn from_inner(cap: &[u8]) -> Self {
        let mut s = Self::new();
        for i in 0..243 {
            s.p.set(RATE + i, cap[i]);
        }
        s
    }
    pub fn commit(&mut self) {
        if self.pos > 0 {
            for i in 0..self.pos {
                self.p.set(i, self.outer[i]);
            }
            self.p.permute();
            for i in 0..RATE {
                self.outer[i] = self.p.get(i);
            }
            self.pos = 0;
        }
    }
    fn step(&mut self) {
        self.pos += 1;
        if self.pos == RATE {
            self.commit();
        }
    }
    pub fn absorb(&mut self, x: &[u8]) {
        for t in x {
            self.outer[self.pos] = *t;
            self.step();
        }
    }
    pub fn squeeze(&mut self, n: usize) -> Tv {
        let mut y = Vec::with_capacity(n);
        for _ in 0..n {
            y.push(self.outer[self.pos]);
            self.outer[self.pos] = 0;
            self.step();
        }
        y
    }
    pub fn encr(&mut self, x: &[u8]) -> Tv {
        let mut y = Vec::with_capacity(x.len());
        for t in x {
            y.push((t + self.outer[self.pos]) % 3);
            self.outer[self.pos] = *t;
            self.step();
        }
        y
    }
    pub fn decr(&mut self, y: &[u8]) -> Tv {
        let mut x = Vec::with_capacity(y.len());
        for t in y {
            let v = (t + 3 - self.outer[self.pos]) % 3;
            self.outer[self.pos] = v;
            x.push(v);
            self.step();
        }
        x
    }
    pub fn join(&mut self, other: &mut Sponge) {
        let x = other.squeeze(243);
        self.absorb(&x);
    }
    pub fn fp(&self) -> Tv {
        let mut c = self.clone();
        let mut f = c.squeeze(500);
        c.commit();
        f.extend(c.squeeze(243));
        f
    }
}

/// The published Troika hash sponge (rate 243, padding with a single 1), trit by trit.
pub struct Digest {
    p: Perm,
    i: usize,
}

impl Digest {
    pub fn new() -> Self {
        Digest { p: Perm::new(), i: 0 }
    }
    pub fn pos(&self) -> usize {
        self.i
    }
    fn step(&mut self) {
        self.i += 1;
        if self.i == 243 {
            self.p.permute();
            self.i = 0;
        }
    }
    pub fn absorb(&mut self, x: &[u8]) {
        for t in x {
            if self.i == 0 {
                (0..243).for_each(|k| self.p.set(k, 0));
            }
            self.p.set(self.i, *t);
            self.step();
        }
    }
    pub fn finalize(&mut self) {
        self.absorb(&[1]);
        if self.i > 0 {
            self.p.permute();
            self.i = 0;
        }
    }
    pub fn squeeze(&mut self, n: usize) -> Tv {
        (0..n)
            .map(|_| {
                let t = self.p.get(self.i);
                self.step();
                t
            })
            .collect()
    }
}

pub fn hash(parts: &[&[u8]], n: usize) -> Tv {
    let mut s = Sponge::new();
    for p in parts {
        s.absorb(p);
    }
    s.commit();
    s.squeeze(n)
}

/// Pseudo-random trits from a secret and nonces.
pub fn prng(key: &[u8], nonces: &[&[u8]], n: usize) -> Tv {
    let mut v: Vec<&[u8]> = vec![key];
    v.extend_from_slice(nonces);
    hash(&v, n)
}

// ------------------------------------------------------------------ one-time signatures

fn chain(x: &[u8], n: usize) -> Tv {
    let mut v = x.to_vec();
    for _ in 0..n {
        v = hash(&[&v], 162);
    }
    v
}

/// The 81 digits (-13..=13) of a hash value with its checksum.
pub fn digits(h: &[u8]) -> Vec<i64> {
    let mut d: Vec<i64> = h.chunks(3).map(get_int).collect();
    let t: i64 = -d.iter().sum::<i64>();
    let c = put_int(t, 9);
    d.extend(c.chunks(3).map(get_int));
    d
}

pub fn wots_sk(key: &[u8], nonce: &[u8], i: u64) -> Tv {
    prng(key, &[nonce, &put_int(i as i64, 18)], 162 * 81)
}
pub fn wots_pk(sk: &[u8]) -> Tv {
    let parts: Vec<Tv> = sk.chunks(162).map(|p| chain(p, 26)).collect();
    let r: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
    hash(&r, 243)
}
pub fn wots_sign(sk: &[u8], h: &[u8]) -> Tv {
    let d = digits(h);
    let mut sig = Vec::new();
    for (p, d) in sk.chunks(162).zip(d) {
        sig.extend(chain(p, (13 + d) as usize));
    }
    sig
}
pub fn wots_recover(sig: &[u8], h: &[u8]) -> Tv {
    let d = digits(h);
    let parts: Vec<Tv> = sig.chunks(162).zip(d).map(|(p, d)| chain(p, (13 - d) as usize)).collect();
    let r: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
    hash(&r, 243)
}

// ------------------------------------------------------------------ Merkle signatures

#[derive(Clone)]
pub struct Mss {
    pub key: Tv,
    pub nonce: Tv,
    pub height: usize,
    /// levels[0] = leaves, the last one is the root
    pub levels: Vec<Vec<Tv>>,
    pub skn: usize,
    /// Of a tall tree only the paths of some leaves exist: (level, index) -> node
    pub sparse: std::collections::BTreeMap<(usize, usize), Tv>,
}

impl Mss {
    pub fn gen(key: &[u8], nonce: &[u8], height: usize) -> Self {
        let mut levels = vec![(0..1u64 << height).map(|i| wots_pk(&wots_sk(key, nonce, i))).collect::<Vec<_>>()];
        for _ in 0..height {
            let l = levels.last().unwrap().chunks(2).map(|p| hash(&[&p[0], &p[1]], 243)).collect();
            levels.push(l);
        }
        Mss { key: key.to_vec(), nonce: nonce.to_vec(), height, levels, skn: 0, sparse: Default::default() }
    }
    /// A tall tree that has only the given leaves; the nodes beside their paths are drawn by `other`.
    pub fn gen_tall(key: &[u8], nonce: &[u8], height: usize, leaves: &[usize], mut other: impl FnMut() -> Tv) -> Self {
        let mut m = Mss { key: key.to_vec(), nonce: nonce.to_vec(), height, levels: vec![], skn: 0, sparse: Default::default() };
        let mut at: std::collections::BTreeSet<usize> = leaves.iter().cloned().collect();
        for i in &at {
            m.sparse.insert((0, *i), wots_pk(&wots_sk(key, nonce, *i as u64)));
        }
        for l in 0..height {
            let mut up = std::collections::BTreeSet::new();
            for i in &at {
                if up.insert(i / 2) {
                    for k in [i & !1, i | 1] {
                        if !m.sparse.contains_key(&(l, k)) {
                            m.sparse.insert((l, k), other());
                        }
                    }
                    let v = hash(&[&m.sparse[&(l, i & !1)], &m.sparse[&(l, i | 1)]], 243);
                    m.sparse.insert((l + 1, i / 2), v);
                }
            }
            at = up;
        }
        m
    }
    fn node(&self, l: usize, i: usize) -> &Tv {
        if self.levels.is_empty() {
            &self.sparse[&(l, i)]
        } else {
            &self.levels[l][i]
        }
    }
    pub fn pk(&self) -> Tv {
        self.node(self.height, 0).clone()
    }
    pub fn sign_at(&self, h: &[u8], skn: usize) -> Tv {
        let mut s = put_int(self.height as i64, 4);
        s.extend(put_int(skn as i64, 14));
        s.extend(wots_sign(&wots_sk(&self.key, &self.nonce, skn as u64), h));
        let mut i = skn;
        for l in 0..self.height {
            s.extend(self.node(l, i ^ 1));
            i /= 2;
        }
        s
    }
}

pub fn mss_recover(sig: &[u8], h: &[u8]) -> Option<(Tv, usize)> {
    if sig.len() < 18 + 13122 {
        return None;
    }
    let d = get_int(&sig[..4]);
    let skn = get_int(&sig[4..18]);
    if d < 0 || skn < 0 || skn >= 1i64 << d {
        return None;
    }
    let n = 18 + 13122 + 243 * d as usize;
    if sig.len() < n {
        return None;
    }
    let mut v = wots_recover(&sig[18..18 + 13122], h);
    let mut i = skn;
    for k in 0..d as usize {
        let a = &sig[18 + 13122 + 243 * k..18 + 13122 + 243 * (k + 1)];
        v = if i % 2 == 0 { hash(&[&v, a], 243) } else { hash(&[a, &v], 243) };
        i /= 2;
    }
    Some((v, n))
}

// ------------------------------------------------------------------ NTRU

const Q: i64 = 12289;
const N: usize = 1024;

pub fn centre(x: i64) -> i64 {
    let r = x.rem_euclid(Q);
    if r > (Q - 1) / 2 {
        r - Q
    } else {
        r
    }
}
pub fn small(t: &[u8]) -> Vec<i64> {
    t.iter().map(|x| if *x == 2 { -1 } else { *x as i64 }).collect()
}
/// Product in Z_q[x]/(x^1024 + 1) where `a` has small coefficients.
pub fn mulp(a: &[i64], b: &[i64]) -> Vec<i64> {
    let mut r = vec![0i64; 2 * N];
    for i in 0..N {
        let x = a[i];
        if x != 0 {
            let row = &mut r[i..i + N];
            for j in 0..N {
                row[j] += x * b[j];
            }
        }
    }
    (0..N).map(|i| centre(r[i] - r[i + N])).collect()
}
pub fn poly_out(p: &[i64]) -> Tv {
    let mut v = Vec::with_capacity(9 * N);
    for c in p {
        v.extend(put_int(*c, 9));
    }
    v
}
pub fn poly_in(t: &[u8]) -> Option<Vec<i64>> {
    let mut v = Vec::with_capacity(N);
    for k in t.chunks(9) {
        let c = get_int(k);
        if c.abs() > (Q - 1) / 2 {
            return None;
        }
        v.push(c);
    }
    Some(v)
}

pub fn powmod(mut b: i64, mut e: i64) -> i64 {
    let mut r = 1;
    b %= Q;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}

/// Roots of x^1024 + 1 modulo q.
pub fn roots() -> &'static Vec<i64> {
    static R: std::sync::OnceLock<Vec<i64>> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        // 11 generates the multiplicative group of Z_12289
        let g = powmod(11, (Q - 1) / 2048);
        assert_eq!(powmod(g, 1024), Q - 1);
        (0..N).map(|j| powmod(g, 2 * j as i64 + 1)).collect()
    })
}
/// Values at all roots, by plain halving evaluation (even/odd split).
pub fn eval_all(p: &[i64]) -> Vec<i64> {
    // straightforward recursive transform over the 2048-th roots
    fn rec(p: &[i64], w: i64) -> Vec<i64> {
        // p evaluated at w^0, w^1, ... w^(n-1), w of order n
        let n = p.len();
        if n == 1 {
            return vec![p[0].rem_euclid(Q)];
        }
        let e: Vec<i64> = p.iter().step_by(2).cloned().collect();
        let o: Vec<i64> = p.iter().skip(1).step_by(2).cloned().collect();
        let (e, o) = (rec(&e, w * w % Q), rec(&o, w * w % Q));
        let mut r = vec![0; n];
        let mut x = 1;
        for k in 0..n / 2 {
            let t = x * o[k] % Q;
            r[k] = (e[k] + t) % Q;
            r[k + n / 2] = (e[k] + Q - t) % Q;
            x = x * w % Q;
        }
        r
    }
    let g = roots()[0];
    let mut x = 1;
    let tw: Vec<i64> = p
        .iter()
        .map(|c| {
            let v = c.rem_euclid(Q) * x % Q;
            x = x * g % Q;
            v
        })
        .collect();
    rec(&tw, g * g % Q)
}
pub fn interpolate(v: &[i64]) -> Vec<i64> {
    fn rec(p: &[i64], w: i64) -> Vec<i64> {
        let n = p.len();
        if n == 1 {
            return vec![p[0]];
        }
        let e: Vec<i64> = p.iter().step_by(2).cloned().collect();
        let o: Vec<i64> = p.iter().skip(1).step_by(2).cloned().collect();
        let (e, o) = (rec(&e, w * w % Q), rec(&o, w * w % Q));
        let mut r = vec![0; n];
        let mut x = 1;
        for k in 0..n / 2 {
            let t = x * o[k] % Q;
            r[k] = (e[k] + t) % Q;
            r[k + n / 2] = (e[k] + Q - t) % Q;
            x = x * w % Q;
        }
        r
    }
    let g = roots()[0];
    let gi = powmod(g, Q - 2);
    let r = rec(v, gi * gi % Q);
    let ni = powmod(N as i64, Q - 2);
    let mut x = ni;
    r.iter()
        .map(|c| {
            let v = c * x % Q;
            x = x * gi % Q;
            centre(v)
        })
        .collect()
}

#[derive(Clone)]
pub struct Ntru {
    pub f: Vec<i64>,
    pub pk: Tv,
    pub attempts: u64,
}

pub fn ntru_gen(key: &[u8], nonce: &[u8]) -> Ntru {
    for i in 0u64.. {
        let r = prng(key, &[nonce, &put_int_unbalanced(i, 81)], 2 * N);
        let mut f: Vec<i64> = small(&r[..N]).iter().map(|x| 3 * x).collect();
        f[0] += 1;
        let g: Vec<i64> = small(&r[N..]).iter().map(|x| 3 * x).collect();
        let (ef, eg) = (eval_all(&f), eval_all(&g));
        if ef.iter().all(|x| *x != 0) && eg.iter().all(|x| *x != 0) {
            let h: Vec<i64> = ef.iter().zip(&eg).map(|(a, b)| powmod(*a, Q - 2) * b % Q).collect();
            return Ntru { f, pk: poly_out(&interpolate(&h)), attempts: i + 1 };
        }
    }
    unreachable!()
}

/// The retry counter counts in trit values 0, 1, 2, least significant first.
pub fn put_int_unbalanced(mut v: u64, n: usize) -> Tv {
    let mut o = Vec::with_capacity(n);
    for _ in 0..n {
        o.push((v % 3) as u8);
        v /= 3;
    }
    o
}

pub fn ntru_pk_ok(pk: &[u8]) -> bool {
    match poly_in(pk) {
        Some(p) => eval_all(&p).iter().all(|x| *x != 0),
        None => false,
    }
}

pub fn ntru_encr(s: &mut Sponge, prng_key: &[u8], nonce: &[u8], pk: &[u8], k: &[u8]) -> Tv {
    let r = prng(prng_key, &[pk, k, nonce], N);
    let h = poly_in(pk).unwrap();
    let rh = mulp(&small(&r), &h);
    s.absorb(&poly_out(&rh));
    s.commit();
    let mut m = s.encr(k);
    m.extend(s.squeeze(N - 243));
    let y: Vec<i64> = rh.iter().zip(small(&m)).map(|(a, b)| centre(a + b)).collect();
    poly_out(&y)
}

pub fn ntru_decr(s: &mut Sponge, f: &[i64], y: &[u8]) -> Option<Tv> {
    let y = poly_in(y)?;
    let t = mulp(f, &y);
    let m: Vec<u8> = t.iter().map(|c| c.rem_euclid(3) as u8).collect();
    let rh: Vec<i64> = y.iter().zip(small(&m)).map(|(a, b)| centre(a - b)).collect();
    s.absorb(&poly_out(&rh));
    s.commit();
    let k = s.decr(&m[..243]);
    if s.squeeze(N - 243) == m[243..] {
        Some(k)
    } else {
        None
    }
}

// ------------------------------------------------------------------ fields

pub fn size_enc(n: usize) -> Tv {
    // number of trytes, then the balanced base-27 digits
    let mut d = Vec::new();
    let mut x = n as i128;
    while x != 0 {
        let mut r = x.rem_euclid(27);
        if r > 13 {
            r -= 27;
        }
        d.push(r as i64);
        x = (x - r) / 27;
    }
    let mut o = put_int(d.len() as i64, 3);
    for r in d {
        o.extend(put_int(r, 3));
    }
    o
}

pub struct Out {
    pub s: Sponge,
    pub b: Tv,
}

impl Out {
    pub fn absorb(&mut self, x: &[u8]) {
        self.s.absorb(x);
        self.b.extend_from_slice(x);
    }
    pub fn mask(&mut self, x: &[u8]) {
        let y = self.s.encr(x);
        self.b.extend(y);
    }
    pub fn trytes_absorb(&mut self, x: &[u8]) {
        self.absorb(&size_enc(x.len() / 3));
        self.absorb(x);
    }
    pub fn trytes_mask(&mut self, x: &[u8]) {
        self.mask(&size_enc(x.len() / 3));
        self.mask(x);
    }
    pub fn join(&mut self, msgid: &[u8], link: &Sponge) {
        let mut l = link.clone();
        self.s.join(&mut l);
        self.b.extend_from_slice(msgid);
    }
    pub fn mac(&mut self) {
        self.s.commit();
        let t = self.s.squeeze(243);
        self.b.extend(t);
    }
    pub fn sig_hash(&mut self) -> Tv {
        self.s.commit();
        self.s.squeeze(234)
    }
}

pub struct In<'a> {
    pub s: Sponge,
    pub b: &'a [u8],
}

type R<T> = Option<T>;

impl<'a> In<'a> {
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() < n {
            return None;
        }
        let (a, b) = self.b.split_at(n);
        self.b = b;
        Some(a)
    }
    pub fn absorb(&mut self, n: usize) -> R<Tv> {
        let x = self.take(n)?.to_vec();
        self.s.absorb(&x);
        Some(x)
    }
    pub fn mask(&mut self, n: usize) -> R<Tv> {
        let y = self.take(n)?.to_vec();
        Some(self.s.decr(&y))
    }
    fn size(&mut self, f: fn(&mut Self, usize) -> R<Tv>) -> R<usize> {
        let d = get_int(&f(self, 3)?);
        if !(0..=13).contains(&d) {
            return None;
        }
        let mut v = 0i128;
        let mut m = 1i128;
        let mut last = 1;
        for _ in 0..d {
            last = get_int(&f(self, 3)?);
            v += m * last as i128;
            m *= 27;
        }
        if last <= 0 || v > 2_026_277_576_509_488_133 {
            return None;
        }
        Some(v as usize)
    }
    pub fn trytes_absorb(&mut self) -> R<Tv> {
        let n = self.size(Self::absorb)?;
        if n > self.b.len() / 3 {
            return None;
        }
        self.absorb(3 * n)
    }
    pub fn trytes_mask(&mut self) -> R<Tv> {
        let n = self.size(Self::mask)?;
        if n > self.b.len() / 3 {
            return None;
        }
        self.mask(3 * n)
    }
    pub fn count(&mut self) -> R<usize> {
        self.size(Self::absorb)
    }
    pub fn count_masked(&mut self) -> R<usize> {
        self.size(Self::mask)
    }
    pub fn join(&mut self, links: &dyn Fn(&[u8]) -> Option<Sponge>) -> R<()> {
        let id = self.take(81)?;
        let mut l = links(id)?;
        self.s.join(&mut l);
        Some(())
    }
    pub fn mac(&mut self) -> R<()> {
        self.s.commit();
        let t = self.s.squeeze(243);
        if self.take(243)? == &t[..] {
            Some(())
        } else {
            None
        }
    }
    pub fn sig_hash(&mut self) -> Tv {
        self.s.commit();
        self.s.squeeze(234)
    }
    pub fn sig(&mut self, h: &[u8]) -> R<Tv> {
        let (pk, n) = mss_recover(self.b, h)?;
        self.take(n)?;
        Some(pk)
    }
}

pub fn str_tv(s: &str) -> Tv {
    let mut v = Vec::new();
    for ch in s.chars() {
        let k = if ch == '9' { 0 } else { ch as i64 - 'A' as i64 + 1 };
        v.extend(put_int(if k > 13 { k - 27 } else { k }, 3));
    }
    v
}

// ------------------------------------------------------------------ self test

pub fn selftest() {
    // size and integer encodings
    for v in [-9841i64, -1, 0, 1, 13, 14, 9841] {
        assert_eq!(get_int(&put_int(v, 9)), v);
    }
    // published Troika vectors: rate 243, padding with a single 1
    let troika = |x: &[u8]| -> Tv {
        let mut p = Perm::new();
        let mut v = x.to_vec();
        v.push(1);
        for b in v.chunks(243) {
            for i in 0..b.len() {
                p.set(i, b[i]);
            }
            for i in b.len()..243 {
                p.set(i, 0);
            }
            p.permute();
        }
        (0..243).map(|i| p.get(i)).collect()
    };
    assert_eq!(troika(&[0])[..30], [0, 0, 2, 0, 0, 0, 2, 0, 2, 1, 0, 2, 2, 2, 0, 2, 0, 1, 0, 0, 1, 2, 2, 0, 1, 1, 1, 0, 0, 1]);
    assert_eq!(troika(&[0, 0])[..30], [2, 0, 2, 0, 0, 2, 1, 1, 1, 1, 1, 0, 1, 2, 0, 0, 1, 1, 1, 0, 1, 2, 2, 1, 2, 2, 2, 1, 2, 0]);
    assert_eq!(troika(&[0; 243])[..30], [0, 2, 2, 1, 2, 1, 0, 1, 2, 1, 1, 1, 1, 2, 2, 1, 1, 1, 0, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 2]);
    let k = str_tv("KEY").into_iter().cycle().take(243).collect::<Vec<_>>();
    let n = ntru_gen(&k, &str_tv("N"));
    let mut a = Sponge::new();
    a.absorb(&k);
    let mut b = a.clone();
    let y = ntru_encr(&mut a, &k, &[1, 2], &n.pk, &k);
    assert_eq!(ntru_decr(&mut b, &n.f, &y), Some(k.clone()));
    assert_eq!(a.fp(), b.fp());
    assert!(ntru_pk_ok(&n.pk));
    let m = Mss::gen(&k, &[1], 1);
    let h = prng(&k, &[&[2]], 234);
    for i in 0..2 {
        let s = m.sign_at(&h, i);
        assert_eq!(mss_recover(&s, &h).unwrap().0, m.pk());
    }
    // agreement with the library on single pieces
    let key = to_trits(&k);
    let pr = iota_mam::prng::PRNG::init_trits(&key);
    let mine = prng(&k, &[&[1, 2, 0, 1]], 700);
    assert_eq!(from_trits(&pr.gen_trits(&to_trits(&[1, 2, 0, 1]), 700)), mine, "prng");
    let (_, pk) = iota_mam::ntru::gen(&pr, slice(&str_tv("N")));
    assert_eq!(from_slice(pk.trits()), n.pk, "ntru pk");
    println!("selftest ok (ntru attempts {})", n.attempts);
}
