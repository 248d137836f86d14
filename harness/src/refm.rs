//! The reference model: what /repo is documented to compute, written from the standards (FIPS 180-4, RFC 2104/8018,
//! BIP-32, BIP-39, Ed25519-BIP32 V2, the container format), independently of /repo's code.
use keychain::Network;
use std::sync::OnceLock;

pub const ADA: u32 = 0x8000_0717;
pub const ETH: u32 = 0x8000_003c;
pub const BTC: u32 = 0x8000_0000;
pub const NETS: [u32; 3] = [ADA, ETH, BTC];
pub const H: u32 = 0x8000_0000;

pub fn net_name(n: u32) -> &'static str {
    match n {
        ADA => "ADA",
        ETH => "ETH",
        BTC => "BTC",
        _ => "?",
    }
}
pub fn net(n: u32) -> Network {
    Network(n)
}

// ------------------------------------------------------------------ SHA-2

fn primes(n: usize) -> Vec<u64> {
    let mut v = vec![];
    let mut k = 2u64;
    while v.len() < n {
        if (2..k).take_while(|d| d * d <= k).all(|d| k % d != 0) {
            v.push(k);
        }
        k += 1;
    }
    v
}
/// floor(frac(x^(1/e)) * 2^64), by integer search
fn root_frac(x: u64, e: u32) -> u64 {
    // find r = floor(x^(1/e) * 2^64) with 320-bit arithmetic in limbs of 32 bits
    fn mul(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = vec![0u32; a.len() + b.len()];
        for i in 0..a.len() {
            let mut c = 0u64;
            for j in 0..b.len() {
                let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + b.len()] = c as u32;
        }
        r
    }
    let target_shift = 64 * e as usize; // x << target_shift
    let mut target = vec![0u32; target_shift / 32 + 4];
    target[target_shift / 32] = x as u32;
    target[target_shift / 32 + 1] = (x >> 32) as u32;
    let le = |a: &[u32], b: &[u32]| {
        let n = a.len().max(b.len());
        for i in (0..n).rev() {
            let (x, y) = (a.get(i).cloned().unwrap_or(0), b.get(i).cloned().unwrap_or(0));
            if x != y {
                return x < y;
            }
        }
        true
    };
    let mut r: u128 = 0;
    for bit in (0..80).rev() {
        let c = r | (1u128 << bit);
        let l = [c as u32, (c >> 32) as u32, (c >> 64) as u32];
        let mut p = l.to_vec();
        for _ in 1..e {
            p = mul(&p, &l);
        }
        if le(&p, &target) {
            r = c;
        }
    }
    r as u64
}
struct K {
    k: [u64; 80],
    h: [u64; 8],
}
fn consts() -> &'static K {
    static C: OnceLock<K> = OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        let mut k = [0; 80];
        let mut h = [0; 8];
        for i in 0..80 {
            k[i] = root_frac(p[i], 3);
        }
        for i in 0..8 {
            h[i] = root_frac(p[i], 2);
        }
        K { k, h }
    })
}
pub fn sha512(m: &[u8]) -> [u8; 64] {
    let c = consts();
    let mut h = c.h;
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 128 != 112 {
        d.push(0);
    }
    d.extend_from_slice(&((m.len() as u128) * 8).to_be_bytes());
    for b in d.chunks(128) {
        compress512(c, &mut h, b);
    }
    let mut o = [0; 64];
    for i in 0..8 {
        o[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
fn compress512(c: &K, h: &mut [u64; 8], b: &[u8]) {
    let mut w = [0u64; 80];
    for i in 0..16 {
        let mut a = [0; 8];
        a.copy_from_slice(&b[8 * i..8 * i + 8]);
        w[i] = u64::from_be_bytes(a);
    }
    for i in 16..80 {
        let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
        let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..80 {
        let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}
pub fn sha256(m: &[u8]) -> [u8; 32] {
    let c = consts();
    let k: Vec<u32> = c.k[..64].iter().map(|x| (x >> 32) as u32).collect();
    let mut h = [0u32; 8];
    for i in 0..8 {
        h[i] = (c.h[i] >> 32) as u32;
    }
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for b in d.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
pub fn hmac512(key: &[u8], m: &[u8]) -> [u8; 64] {
    let mut k = [0u8; 128];
    if key.len() > 128 {
        k[..64].copy_from_slice(&sha512(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut a: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    a.extend_from_slice(m);
    let mut b: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    b.extend_from_slice(&sha512(&a));
    sha512(&b)
}
/// PBKDF2-HMAC-SHA512, one block, with this file's own SHA-512.
pub fn pbkdf2_own(pw: &[u8], salt: &[u8], c: u32) -> [u8; 64] {
    let kc = consts();
    let mut k = [0u8; 128];
    if pw.len() > 128 {
        k[..64].copy_from_slice(&sha512(pw));
    } else {
        k[..pw.len()].copy_from_slice(pw);
    }
    let (mut hi, mut ho) = (kc.h, kc.h);
    compress512(kc, &mut hi, &k.iter().map(|b| b ^ 0x36).collect::<Vec<u8>>());
    compress512(kc, &mut ho, &k.iter().map(|b| b ^ 0x5c).collect::<Vec<u8>>());
    let mut s = salt.to_vec();
    s.extend_from_slice(&[0, 0, 0, 1]);
    let mut u = hmac512(pw, &s);
    let mut t = u;
    let mut blk = [0u8; 128];
    blk[64] = 0x80;
    blk[126] = 0x06; // (128+64)*8 = 1536
    let put = |h: &[u64; 8], b: &mut [u8]| {
        for i in 0..8 {
            b[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
        }
    };
    for _ in 1..c {
        blk[..64].copy_from_slice(&u);
        let mut h = hi;
        compress512(kc, &mut h, &blk);
        put(&h, &mut blk);
        let mut h = ho;
        compress512(kc, &mut h, &blk);
        put(&h, &mut u);
        for i in 0..64 {
            t[i] ^= u[i];
        }
    }
    t
}
/// The same by the third-party library (memoized by the harness).
pub fn pbkdf2_lib(pw: &[u8], salt: &[u8], c: u32, len: usize) -> Vec<u8> {
    let mut mac = cryptoxide::hmac::Hmac::new(cryptoxide::sha2::Sha512::new(), pw);
    let mut o = vec![0; len];
    cryptoxide::pbkdf2::pbkdf2(&mut mac, salt, c, &mut o);
    o
}
pub fn keccak256(m: &[u8]) -> [u8; 32] {
    use cryptoxide::digest::Digest;
    let mut h = cryptoxide::sha3::Sha3::keccak256();
    h.input(m);
    let mut o = [0; 32];
    h.result(&mut o);
    o
}
pub fn ripemd160(m: &[u8]) -> [u8; 20] {
    // RIPEMD-160, from its specification
    const R1: [usize; 80] = [
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3,
        10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0,
        5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13,
    ];
    const R2: [usize; 80] = [
        5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15,
        5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15,
        10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11,
    ];
    const S1: [u32; 80] = [
        11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
        11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
        9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
    ];
    const S2: [u32; 80] = [
        8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
        9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
        8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
    ];
    const K1: [u32; 5] = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E];
    const K2: [u32; 5] = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0];
    fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
        match j {
            0 => x ^ y ^ z,
            1 => (x & y) | (!x & z),
            2 => (x | !y) ^ z,
            3 => (x & z) | (y & !z),
            _ => x ^ (y | !z),
        }
    }
    let mut h = [0x67452301u32, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend_from_slice(&((m.len() as u64) * 8).to_le_bytes());
    for b in d.chunks(64) {
        let x: Vec<u32> =
            (0..16).map(|i| u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]])).collect();
        let (mut a, mut bb) = (h, h);
        for j in 0..80 {
            let t = a[0]
                .wrapping_add(f(j / 16, a[1], a[2], a[3]))
                .wrapping_add(x[R1[j]])
                .wrapping_add(K1[j / 16])
                .rotate_left(S1[j])
                .wrapping_add(a[4]);
            a = [a[4], t, a[1], a[2].rotate_left(10), a[3]];
            let t = bb[0]
                .wrapping_add(f(4 - j / 16, bb[1], bb[2], bb[3]))
                .wrapping_add(x[R2[j]])
                .wrapping_add(K2[j / 16])
                .rotate_left(S2[j])
                .wrapping_add(bb[4]);
            bb = [bb[4], t, bb[1], bb[2].rotate_left(10), bb[3]];
        }
        let t = h[1].wrapping_add(a[2]).wrapping_add(bb[3]);
        h[1] = h[2].wrapping_add(a[3]).wrapping_add(bb[4]);
        h[2] = h[3].wrapping_add(a[4]).wrapping_add(bb[0]);
        h[3] = h[4].wrapping_add(a[0]).wrapping_add(bb[1]);
        h[4] = h[0].wrapping_add(a[1]).wrapping_add(bb[2]);
        h[0] = t;
    }
    let mut o = [0; 20];
    for i in 0..5 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}

// ------------------------------------------------------------------ BIP-39

pub const SIZES: [usize; 6] = [12, 16, 20, 24, 28, 32]; // entropy bytes; words are size*3/4

static W: [&str; 8] = [
    include_str!("../data/words/english.txt"),
    include_str!("../data/words/french.txt"),
    include_str!("../data/words/japanese.txt"),
    include_str!("../data/words/korean.txt"),
    include_str!("../data/words/chinese_simplified.txt"),
    include_str!("../data/words/chinese_traditional.txt"),
    include_str!("../data/words/italian.txt"),
    include_str!("../data/words/spanish.txt"),
];
/// The published lists, in the order of keychain's language numbers.
pub fn lists() -> &'static Vec<Vec<&'static str>> {
    static L: OnceLock<Vec<Vec<&'static str>>> = OnceLock::new();
    L.get_or_init(|| W.iter().map(|t| t.lines().collect()).collect())
}
/// First eight bytes of the SHA-256 of each published list.
pub const LIST_DIGESTS: [&str; 8] = [
    "2f5eed53a4727b4b",
    "ebc3959ab7801a1d",
    "2eed0aef492291e0",
    "9e95f86c167de88f",
    "5c5942792bd8340c",
    "417b26b3d8500a4a",
    "d392c49fdb700a24",
    "46846a5a0139d1e3",
];
pub fn list_digest(l: usize) -> String {
    crate::engine::hex(&sha256(W[l].as_bytes())[..8])
}
pub fn word_no(lang: usize, w: &str) -> Option<u16> {
    static M: OnceLock<Vec<std::collections::HashMap<&'static str, u16>>> = OnceLock::new();
    let m = M.get_or_init(|| {
        lists().iter().map(|l| l.iter().enumerate().map(|(i, w)| (*w, i as u16)).collect()).collect()
    });
    m[lang].get(w).cloned()
}
fn bit(b: &[u8], i: usize) -> u16 {
    (b[i / 8] >> (7 - i % 8) & 1) as u16
}
pub fn checksum_bits(ent: &[u8]) -> usize {
    ent.len() * 8 / 32
}
pub fn words(ent: &[u8]) -> Vec<u16> {
    let mut b = ent.to_vec();
    b.extend_from_slice(&sha256(ent));
    let n = ent.len() * 8 + checksum_bits(ent);
    b.resize(b.len().max(n / 8 + 2), 0);
    (0..n / 11).map(|k| (0..11).fold(0, |a, j| a << 1 | bit(&b, 11 * k + j))).collect()
}
/// (entropy, checksum in the words, checksum it should have)
pub fn split_words(w: &[u16]) -> (Vec<u8>, u8, u8) {
    let n = w.len() * 11;
    let cs = n / 33;
    let e = n - cs;
    let b = |i: usize| w[i / 11] >> (10 - i % 11) & 1;
    let ent: Vec<u8> = (0..e / 8).map(|k| (0..8).fold(0u8, |a, j| a << 1 | b(8 * k + j) as u8)).collect();
    let got = (e..n).fold(0u8, |a, i| a << 1 | b(i) as u8);
    let want = (sha256(&ent)[0] as u16 >> (8 - cs)) as u8;
    (ent, got, want)
}
pub fn supported_words(n: usize) -> bool {
    n >= 9 && n <= 24 && n % 3 == 0
}
pub fn phrase(w: &[u16], lang: usize) -> String {
    w.iter().map(|i| lists()[lang][*i as usize]).collect::<Vec<_>>().join(" ")
}
pub fn seed_of(phrase: &str, pass: &[u8]) -> Vec<u8> {
    let mut s = b"mnemonic".to_vec();
    s.extend_from_slice(pass);
    pbkdf2_lib(phrase.as_bytes(), &s, 2048, 64)
}
/// Is this text a phrase of `words` words with a matching checksum?
pub fn phrase_ok(text: &str, lang: usize, nwords: usize) -> bool {
    let mut w = vec![];
    for p in text.split(' ') {
        match word_no(lang, p) {
            Some(i) => w.push(i),
            None => return false,
        }
    }
    if w.len() != nwords || !supported_words(w.len()) {
        return false;
    }
    let (_, got, want) = split_words(&w);
    got == want
}

// ------------------------------------------------------------------ BIP-32 over secp256k1

const N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc,
    0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
pub fn order() -> [u8; 32] {
    N
}
/// n/2 (rounded down): the largest s of a low-s signature
pub fn half_order() -> [u8; 32] {
    let mut o = N;
    let mut c = 0;
    for b in o.iter_mut() {
        let x = *b;
        *b = x >> 1 | c << 7;
        c = x & 1;
    }
    o
}
fn add_raw(a: &[u8; 32], b: &[u8; 32]) -> ([u8; 32], bool) {
    let mut o = [0; 32];
    let mut c = 0u16;
    for i in (0..32).rev() {
        let t = a[i] as u16 + b[i] as u16 + c;
        o[i] = t as u8;
        c = t >> 8;
    }
    (o, c != 0)
}
pub fn sub_raw(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut o = [0; 32];
    let mut c = 0i16;
    for i in (0..32).rev() {
        let t = a[i] as i16 - b[i] as i16 - c;
        o[i] = t as u8;
        c = (t < 0) as i16;
    }
    o
}
pub fn add_mod_n(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let (s, c) = add_raw(a, b);
    if c || s >= N {
        sub_raw(&s, &N)
    } else {
        s
    }
}
pub fn scalar_ok(k: &[u8]) -> bool {
    k.len() == 32 && k[..] < N[..] && k.iter().any(|b| *b != 0)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct X {
    pub depth: u8,
    pub fp: [u8; 4],
    pub index: u32,
    pub cc: [u8; 32],
    pub key: [u8; 32],
}
pub fn pub65(key: &[u8; 32]) -> [u8; 65] {
    let sk = secp256k1::SecretKey::parse(key).expect("scalar");
    secp256k1::PublicKey::from_secret_key(&sk).serialize()
}
pub fn compress(p: &[u8; 65]) -> [u8; 33] {
    let mut o = [0; 33];
    o[0] = 2 + (p[64] & 1);
    o[1..].copy_from_slice(&p[1..33]);
    o
}
fn a32(b: &[u8]) -> [u8; 32] {
    let mut o = [0; 32];
    o.copy_from_slice(b);
    o
}
impl X {
    pub fn master(seed: &[u8]) -> Option<X> {
        let i = hmac512(b"Bitcoin seed", seed);
        if !scalar_ok(&i[..32]) {
            return None;
        }
        Some(X { depth: 0, fp: [0; 4], index: 0, cc: a32(&i[32..]), key: a32(&i[..32]) })
    }
    pub fn pub65(&self) -> [u8; 65] {
        pub65(&self.key)
    }
    pub fn child(&self, index: u32) -> Option<X> {
        if self.depth == 255 {
            return None;
        }
        let p33 = compress(&self.pub65());
        let mut d = vec![];
        if index >= H {
            d.push(0);
            d.extend_from_slice(&self.key);
        } else {
            d.extend_from_slice(&p33);
        }
        d.extend_from_slice(&index.to_be_bytes());
        let i = hmac512(&self.cc, &d);
        let il = a32(&i[..32]);
        if il >= N {
            return None;
        }
        let key = add_mod_n(&il, &self.key);
        if key == [0; 32] {
            return None;
        }
        let id = ripemd160(&sha256(&p33));
        Some(X { depth: self.depth + 1, fp: [id[0], id[1], id[2], id[3]], index, cc: a32(&i[32..]), key })
    }
    pub fn body(&self) -> Vec<u8> {
        let mut o = vec![self.depth];
        o.extend_from_slice(&self.fp);
        o.extend_from_slice(&self.index.to_be_bytes());
        o.extend_from_slice(&self.cc);
        o.extend_from_slice(&self.key);
        o
    }
    pub fn ser(&self) -> Vec<u8> {
        with_checksum(&self.body())
    }
    pub fn parse(d: &[u8]) -> Option<X> {
        if d.len() != 77 || with_checksum(&d[..73]) != d || !scalar_ok(&d[41..73]) {
            return None;
        }
        Some(X {
            depth: d[0],
            fp: [d[1], d[2], d[3], d[4]],
            index: u32::from_be_bytes([d[5], d[6], d[7], d[8]]),
            cc: a32(&d[9..41]),
            key: a32(&d[41..73]),
        })
    }
}
pub fn with_checksum(body: &[u8]) -> Vec<u8> {
    let mut o = body.to_vec();
    let c = sha256(&sha256(body));
    o.extend_from_slice(&c[..4]);
    o
}
/// Four bytes that somebody might take for the checksum of that body, but for one of them they are not.
pub fn near_checksums(body: &[u8]) -> Vec<[u8; 4]> {
    let four = |b: &[u8]| [b[0], b[1], b[2], b[3]];
    let right = {
        let w = with_checksum(body);
        four(&w[w.len() - 4..])
    };
    let mut v: Vec<[u8; 4]> = (0..=255u8).map(|b| [b; 4]).collect();
    // a part of the right one, the rest filled
    for keep in 0..16 {
        for fill in [0u8, 0xff, 0x20, b'0'] {
            let mut c = [fill; 4];
            (0..4).filter(|j| keep >> j & 1 == 1).for_each(|j| c[j] = right[j]);
            v.push(c);
        }
    }
    // every order of its bytes, shifts, neighbours, complements
    for o in 0..256usize {
        v.push([right[o & 3], right[o >> 2 & 3], right[o >> 4 & 3], right[o >> 6]]);
    }
    let n = u32::from_be_bytes(right);
    for k in 0..32 {
        for m in [n.rotate_left(k), n << k, n >> k, n ^ (1 << k), n.wrapping_add(1 << k), n.wrapping_sub(1 << k), 1 << k, (1u64 << k) as u32 - 1] {
            v.push(m.to_be_bytes());
            v.push((!m).to_be_bytes());
            v.push(m.to_le_bytes());
        }
    }
    // other hashes, of other parts, at other places
    let l = body.len();
    let parts: Vec<&[u8]> = [(0, l), (4, l), (0, 41.min(l)), (0, 45.min(l)), (13.min(l), l), (41.min(l), l), (42.min(l), l), (l, l)].iter().map(|r| &body[r.0.min(r.1)..r.1]).collect();
    for p in parts {
        let (s1, s5, k, r) = (sha256(p), sha512(p), keccak256(p), ripemd160(p));
        let s2 = sha256(&s1);
        let hashes: Vec<Vec<u8>> = vec![
            s1.to_vec(), s2.to_vec(), sha256(&s2).to_vec(), s5.to_vec(), k.to_vec(), keccak256(&k).to_vec(), r.to_vec(), ripemd160(&s1).to_vec(), sha512(&s5).to_vec(), p.to_vec(),
        ];
        for h in hashes {
            for o in 0..(h.len() + 1).saturating_sub(4) {
                let mut c = four(&h[o..]);
                v.push(c);
                c.reverse();
                v.push(c);
            }
        }
    }
    v.extend_from_slice(&[*b"none", *b"NULL", *b"null", [0xde, 0xad, 0xbe, 0xef], [0, 0, 0, 1], [1, 0, 0, 0]]);
    v
}

// ------------------------------------------------------------------ wallet keys

/// The key a wallet stores for a network.
pub fn stored_key(net: u32, seed: &[u8]) -> Vec<u8> {
    if net == ADA {
        let mut o = sha512(&seed[..32]).to_vec();
        o[0] &= 0b1111_1000;
        o[31] &= 0b0001_1111;
        o[31] |= 0b0100_0000;
        o.extend_from_slice(&seed[32..64]);
        o
    } else {
        X::master(seed).expect("master key").ser()
    }
}
pub fn stored_ok(net: u32, k: &[u8]) -> bool {
    if net == ADA {
        k.len() == 96 && k[0] & 7 == 0 && k[31] & 0xe0 == 0x40
    } else {
        X::parse(k).is_some()
    }
}
fn ada_node(key: &[u8], path: &[u32]) -> ed25519_bip32::XPrv {
    let mut a = [0; 96];
    a.copy_from_slice(key);
    let mut k = ed25519_bip32::XPrv::from_bytes_verified(a).expect("cardano key");
    for i in path {
        k = k.derive(ed25519_bip32::DerivationScheme::V2, *i);
    }
    k
}
/// The public key at a path; None where BIP-32 has no key.
pub fn pub_key(net: u32, stored: &[u8], path: &[u32]) -> Option<Vec<u8>> {
    if net == ADA {
        Some(ada_node(stored, path).public().as_ref().to_vec())
    } else {
        let mut x = X::parse(stored)?;
        for i in path {
            x = x.child(*i)?;
        }
        Some(x.pub65().to_vec())
    }
}
/// Is `sig` (64 bytes) a signature of `msg` by the key at the path?
pub fn verify64(net: u32, pubkey: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    if net == ADA {
        cryptoxide::ed25519::verify(msg, &pubkey[..32], sig)
    } else {
        let mut p = [0; 65];
        p.copy_from_slice(pubkey);
        let mut s = [0; 64];
        s.copy_from_slice(&sig[..64]);
        let pk = secp256k1::PublicKey::parse(&p).expect("public key");
        secp256k1::verify(
            &secp256k1::Message::parse(&keccak256(msg)),
            &secp256k1::Signature::parse(&s),
            &pk,
        )
    }
}
/// Ethereum-style recovery.
pub fn recover65(msg: &[u8], sig: &[u8]) -> Option<Vec<u8>> {
    let mut s = [0; 64];
    s.copy_from_slice(&sig[..64]);
    let id = secp256k1::RecoveryId::parse(sig[64]).ok()?;
    secp256k1::recover(&secp256k1::Message::parse(&keccak256(msg)), &secp256k1::Signature::parse(&s), &id)
        .ok()
        .map(|p| p.serialize().to_vec())
}
pub fn sig_len(net: u32) -> usize {
    if net == ADA {
        64
    } else {
        65
    }
}
/// The components for which a network does not allow this path.
pub fn offending(net: u32, p: &[u32; 5]) -> Vec<u32> {
    let mut v = vec![];
    if net != BTC && p[0] != H + 44 {
        v.push(p[0]);
    }
    let coin = match net {
        ADA => p[1] == ADA,
        ETH => p[1] == ETH,
        _ => p[1] == H || p[1] == H + 1,
    };
    if !coin {
        v.push(p[1]);
    }
    if p[2] < H {
        v.push(p[2]);
    }
    if p[3] > 1 {
        v.push(p[3]);
    }
    if p[4] >= H {
        v.push(p[4]);
    }
    v
}
pub fn coin(net: u32) -> u32 {
    net
}
pub fn std_path(net: u32) -> [u32; 5] {
    [H + 44, coin(net), H, 0, 0]
}
/// (least, greatest) entropy bits of the network
pub fn seed_bits(net: u32) -> (usize, usize) {
    if net == ADA {
        (96, 256)
    } else {
        (128, 256)
    }
}

// ------------------------------------------------------------------ container and document

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                o.push(B64[(v >> (18 - 6 * k) & 63) as usize] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
pub enum B {
    Bytes(Vec<u8>),
    /// decoders differ: the unused bits of the last digit are not zero, or the
    /// padding is missing or irregular
    Loose(Vec<u8>),
    Bad,
}
pub fn unb64(s: &str) -> B {
    let s = s.as_bytes();
    let pad = s.iter().rev().take_while(|c| **c == b'=').count();
    let d = &s[..s.len() - pad];
    if d.len() % 4 == 1 {
        return B::Bad;
    }
    let regular = s.len() % 4 == 0 && pad <= 2;
    let mut v = 0u32;
    let mut n = 0;
    let mut o = vec![];
    for c in d {
        let k = match B64.iter().position(|x| x == c) {
            Some(k) => k as u32,
            None => return B::Bad,
        };
        v = v << 6 | k;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((v >> n) as u8);
            v &= (1 << n) - 1;
        }
    }
    if v != 0 || !regular {
        B::Loose(o)
    } else {
        B::Bytes(o)
    }
}
pub fn unb64_strict(s: &str) -> Option<Vec<u8>> {
    match unb64(s) {
        B::Bytes(b) => Some(b),
        _ => None,
    }
}

pub fn seal(plain: &[u8], pw: &str, salt: &[u8; 32], nonce: &[u8; 12]) -> Vec<u8> {
    let key = pbkdf2_lib(pw.as_bytes(), salt, 19162, 32);
    let mut ct = vec![0; plain.len()];
    let mut tag = [0; 16];
    if plain.is_empty() {
        // the library's cipher does not take an empty input: derive the tag by RFC 8439 from the empty text
        tag = empty_tag(&key, nonce);
    } else {
        cryptoxide::chacha20poly1305::ChaCha20Poly1305::new(&key, nonce, &[]).encrypt(plain, &mut ct, &mut tag);
    }
    let mut o = salt.to_vec();
    o.extend_from_slice(nonce);
    o.extend_from_slice(&tag);
    o.extend_from_slice(&ct);
    o
}
fn empty_tag(key: &[u8], nonce: &[u8]) -> [u8; 16] {
    let mut t = [0; 16];
    cryptoxide::chacha20poly1305::ChaCha20Poly1305::new(key, nonce, &[]).encrypt(&[], &mut [], &mut t);
    t
}
pub fn unseal(c: &[u8], pw: &str) -> Option<Vec<u8>> {
    if c.len() < 60 {
        return None;
    }
    let key = pbkdf2_lib(pw.as_bytes(), &c[..32], 19162, 32);
    let mut o = vec![0; c.len() - 60];
    if cryptoxide::chacha20poly1305::ChaCha20Poly1305::new(&key, &c[32..44], &[]).decrypt(&c[60..], &mut o, &c[44..60]) {
        Some(o)
    } else {
        None
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Doc {
    pub version: u64,
    pub seed: Option<Vec<u8>>,
    pub mnemonic: Option<String>,
    pub dictionary: Option<String>,
    pub keys: Vec<(u32, Vec<u8>)>,
}
pub const LANG_NAMES: [&str; 8] = [
    "English",
    "French",
    "Japanese",
    "Korean",
    "ChineseSimplified",
    "ChineseTraditional",
    "Italian",
    "Spanish",
];
fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
impl Doc {
    pub fn inner(&self) -> String {
        let keys: Vec<String> = self.keys.iter().map(|(n, k)| format!("[{},\"{}\"]", n, b64(k))).collect();
        if self.version == 1 {
            return format!("{{\"keys\":[{}]}}", keys.join(","));
        }
        let o = |x: &Option<String>| x.as_ref().map(|s| js(s)).unwrap_or("null".into());
        format!(
            "{{\"seed\":{},\"mnemonic\":{},\"dictionary\":{},\"keys\":[{}]}}",
            o(&self.seed.as_ref().map(|s| b64(s))),
            o(&self.mnemonic),
            o(&self.dictionary),
            keys.join(",")
        )
    }
    pub fn text(&self) -> String {
        wrap(self.version, &self.inner())
    }
    /// Strictly what releases write.
    pub fn read(plain: &[u8]) -> Result<Doc, String> {
        let v: serde_json::Value = serde_json::from_slice(plain).map_err(|e| format!("document: {}", e))?;
        let o = v.as_object().ok_or("document: not an object")?;
        ensure!(o.len() == 2, "document: fields {:?}", o.keys().collect::<Vec<_>>());
        let version = o.get("version").and_then(|v| v.as_u64()).ok_or("document: version")?;
        let data = o.get("data").and_then(|d| d.as_str()).ok_or("document: data")?;
        let inner = unb64_strict(data).ok_or("document: data base64")?;
        let w: serde_json::Value = serde_json::from_slice(&inner).map_err(|e| format!("contents: {}", e))?;
        let o = w.as_object().ok_or("contents: not an object")?;
        let mut names: Vec<&str> = o.keys().map(|s| s.as_str()).collect();
        names.sort();
        match version {
            1 => ensure!(names == ["keys"], "contents: fields {:?}", names),
            2 => ensure!(names == ["dictionary", "keys", "mnemonic", "seed"], "contents: fields {:?}", names),
            _ => return Err(format!("version {}", version)),
        }
        let s = |k: &str| -> Result<Option<String>, String> {
            match o.get(k) {
                None | Some(serde_json::Value::Null) => Ok(None),
                Some(serde_json::Value::String(s)) => Ok(Some(s.clone())),
                _ => Err(format!("contents: {}", k)),
            }
        };
        let seed = match s("seed")? {
            None => None,
            Some(t) => Some(unb64_strict(&t).ok_or("contents: seed base64")?),
        };
        let mut keys = vec![];
        for e in o.get("keys").and_then(|k| k.as_array()).ok_or("contents: keys")? {
            let a = e.as_array().ok_or("contents: key entry")?;
            ensure!(a.len() == 2, "contents: key entry");
            let n = a[0].as_u64().ok_or("contents: network")? as u32;
            let k = unb64_strict(a[1].as_str().ok_or("contents: key")?).ok_or("contents: key base64")?;
            ensure!(!keys.iter().any(|(m, _)| *m == n), "contents: two keys for network {}", n);
            keys.push((n, k));
        }
        keys.sort();
        Ok(Doc { version, seed, mnemonic: s("mnemonic")?, dictionary: s("dictionary")?, keys })
    }
    pub fn open(c: &[u8], pw: &str) -> Result<Doc, String> {
        Doc::read(&unseal(c, pw).ok_or("does not decrypt in the documented format")?)
    }
}
pub fn wrap(version: u64, inner: &str) -> String {
    format!("{{\"version\":{},\"data\":\"{}\"}}", version, b64(inner.as_bytes()))
}

/// n bytes with some order in them.
pub fn orderly(n: usize) -> Vec<Vec<u8>> {
    use crate::env::stream_byte;
    let mut v: Vec<Vec<u8>> = vec![];
    let r = |k: u64| -> Vec<u8> { (0..n as u64).map(|j| stream_byte(k, j)).collect() };
    let over = |p: &[u8]| -> Vec<u8> { p.iter().cycle().take(n).cloned().collect() };
    for b in 0..=255u8 {
        v.push(vec![b; n]);
        // counting up and down
        v.push((0..n).map(|j| b.wrapping_add(j as u8)).collect());
        v.push((0..n).map(|j| b.wrapping_sub((j as u8).wrapping_mul(17))).collect());
    }
    for k in 0..24 {
        for p in [3, 4, 5, 6, 8, 11, 12, n / 2, n - 1] {
            v.push(over(&r(700 + k)[..p.min(n)]));
        }
        // the same forwards and backwards, complemented, the second half zero, ones, the first
        let a = r(800 + k);
        let h = n / 2;
        v.push(a[..h].iter().chain(a[..h].iter().rev()).cloned().chain(vec![0; n]).take(n).collect());
        v.push(a[..h].iter().cloned().chain(a[..h].iter().map(|x| !x)).chain(vec![0; n]).take(n).collect());
        for (x, from, to) in [(0, 0, h), (0, h, n), (0xff, 0, h), (0xff, h, n), (0, 0, n - 1), (0, 1, n), (0, 0, n - 4), (0, 4, n), (0xff, 1, n), (0xff, 0, n - 1)] {
            let mut a = r(900 + k);
            a[from..to].iter_mut().for_each(|b| *b = x);
            v.push(a);
        }
        // printable, digits, bytes in order
        v.push(r(1000 + k).iter().map(|x| b' ' + x % 95).collect());
        v.push(r(1100 + k).iter().map(|x| b'0' + x % 10).collect());
        v.push(r(1200 + k).iter().map(|x| b"0123456789abcdef"[*x as usize % 16]).collect());
        let mut a = r(1300 + k);
        a.sort();
        v.push(a.clone());
        a.reverse();
        v.push(a);
        v.push(r(1400 + k).iter().map(|x| x & 0x0f).collect());
        v.push(r(1500 + k).iter().map(|x| x & 0x80).collect());
    }
    for j in 0..n * 8 {
        let mut a = vec![0u8; n];
        a[j / 8] = 0x80 >> (j % 8);
        v.push(a.clone());
        a.iter_mut().for_each(|b| *b = !*b);
        v.push(a);
    }
    v
}
