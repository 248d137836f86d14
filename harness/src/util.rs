//! The alphabets the checks enumerate over, and small helpers.
use crate::refm::*;
use keychain::{Error, KeyError, KeyPath, Language};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct P(pub [u32; 5]);
impl KeyPath for P {
    fn purpose(&self) -> u32 {
        self.0[0]
    }
    fn coin(&self) -> u32 {
        self.0[1]
    }
    fn account(&self) -> u32 {
        self.0[2]
    }
    fn change(&self) -> u32 {
        self.0[3]
    }
    fn address(&self) -> u32 {
        self.0[4]
    }
}
pub fn path_text(p: &[u32; 5]) -> String {
    let mut s = String::from("m");
    for c in p {
        if *c >= H {
            s += &format!("/{}'", c - H);
        } else {
            s += &format!("/{}", c);
        }
    }
    s
}

pub const LANGS: [Language; 8] = [
    Language::English,
    Language::French,
    Language::Japanese,
    Language::Korean,
    Language::ChineseSimplified,
    Language::ChineseTraditional,
    Language::Italian,
    Language::Spanish,
];

/// A short name of an error's kind.
pub fn kind(e: &Error) -> String {
    match e {
        Error::WrongPassword => "WrongPassword".into(),
        Error::NotEnoughData => "NotEnoughData".into(),
        Error::SeedIsNotSaved => "SeedIsNotSaved".into(),
        Error::CantCalculateSeedSize(..) => "CantCalculateSeedSize".into(),
        Error::InvalidSeedSize(n) => format!("InvalidSeedSize({})", n),
        Error::KeyDoesNotExist(n) => format!("KeyDoesNotExist({:x})", n.0),
        Error::KeyAlreadyExist(n) => format!("KeyAlreadyExist({:x})", n.0),
        Error::NetworkIsNotSupported(n) => format!("NetworkIsNotSupported({:x})", n.0),
        Error::DataError(_) => "DataError".into(),
        Error::KeyError(n, k) => format!("KeyError({:x},{})", n.0, key_kind(k)),
        Error::MnemonicError(_) => "MnemonicError".into(),
        Error::KeyPathError(_) => "KeyPathError".into(),
    }
}
pub fn key_kind(k: &KeyError) -> &'static str {
    match k {
        KeyError::InvalidKeyPath(_) => "Path",
        KeyError::InvalidMnemonic(_) => "Mnemonic",
        KeyError::InvalidKeySize(..) => "KeySize",
        KeyError::InvalidKeyData(_) => "KeyData",
        KeyError::InvalidSignatureSize(..) => "SigSize",
        KeyError::SignError(_) => "Sign",
    }
}
/// An answer in comparable form.
pub fn show<T: AsRef<[u8]>>(r: &Result<T, Error>) -> String {
    match r {
        Ok(b) => format!("Ok:{}", crate::engine::hex(b.as_ref())),
        Err(e) => format!("Err:{}:{}", kind(e), e),
    }
}

pub fn uniq32(mut v: Vec<u32>) -> Vec<u32> {
    v.sort();
    v.dedup();
    v
}
/// About 200 child numbers: all small ones, the neighbours of powers of two and ten, patterns; below 2^31.
pub fn idx_soft() -> Vec<u32> {
    let mut v: Vec<u32> = (0..=40).collect();
    for k in 5..32 {
        let p = 1u64 << k;
        for d in [-1i64, 0, 1] {
            v.push(((p as i64 + d) as u64 & 0x7fff_ffff) as u32);
        }
    }
    let mut p = 10u64;
    while p < H as u64 {
        for d in [-1i64, 0, 1] {
            v.push((p as i64 + d) as u32);
        }
        p *= 10;
    }
    v.extend_from_slice(&[
        44, 49, 84, 60, 1815, 0x717, 0x3c, 0x01020304, 0x7f7f7f7f, 0x00ff00ff, 0x7f00ff00, 0x55555555, 0x2aaaaaaa,
        0x00010000, 0x12345678, 0x78563412, 0x7ffffffe, 0x7fffffff, 999_999_999, 2_147_483_647, 1_000_000_007,
    ]);
    uniq32(v)
}
/// The same, and each of them hardened.
pub fn idx_all() -> Vec<u32> {
    let s = idx_soft();
    let mut v = s.clone();
    v.extend(s.iter().map(|i| i + H));
    uniq32(v)
}
/// A dozen representative ones.
pub fn idx_few() -> Vec<u32> {
    vec![0, 1, 2, 9, 10, 255, 256, 65535, 65536, 0x01020304, 0x7ffffffe, 0x7fffffff]
}

/// 64-byte seeds: constant, one-bit, counting and mixed patterns.
pub fn seed_n(k: usize) -> Vec<u8> {
    match k {
        0 => vec![0; 64],
        1 => vec![0xff; 64],
        2 => (0..64).map(|i| i as u8).collect(),
        3 => {
            let mut v = vec![0; 64];
            v[0] = 1;
            v
        }
        4 => {
            let mut v = vec![0; 64];
            v[63] = 1;
            v
        }
        5 => {
            let mut v = vec![0; 64];
            v[31] = 0x80;
            v
        }
        6 => {
            let mut v = vec![0xff; 64];
            v[32] = 0x7f;
            v
        }
        7 => (0..64).map(|i| if i < 32 { 0xaa } else { 0x55 }).collect(),
        k => (0..64).map(|i| crate::env::stream_byte(0x5eed_0000 + k as u64, i)).collect(),
    }
}

pub fn msg_n(k: usize) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => vec![0],
        2 => vec![0, 0],
        3 => b"message".to_vec(),
        4 => b"messagf".to_vec(),
        5 => vec![0xff; 32],
        6 => vec![0; 32],
        7 => (0..=255).collect(),
        k => (0..(k * 7)).map(|i| crate::env::stream_byte(0x3e55 + k as u64, i as u64)).collect(),
    }
}

/// Mixed radix: the digits of i.
pub fn digits(mut i: u64, radix: &[u64]) -> Vec<usize> {
    radix
        .iter()
        .map(|r| {
            let d = i % r;
            i /= r;
            d as usize
        })
        .collect()
}
pub fn prod(radix: &[u64]) -> u64 {
    radix.iter().product()
}

/// Passwords: lengths around the hash block, one-byte differences, every class of character.
pub fn passwords() -> Vec<String> {
    let mut v: Vec<String> = vec![
        "".into(),
        "a".into(),
        "b".into(),
        "A".into(),
        " ".into(),
        " a".into(),
        "a ".into(),
        "aa".into(),
        "ab".into(),
        "ba".into(),
        "password".into(),
        "passwore".into(),
        "Password".into(),
        "p\u{e4}ssword".into(),
        "pa\u{308}ssword".into(),
        "\u{1f511}".into(),
        "\u{1f512}".into(),
        "\0a".into(),
        "a\0b".into(),
        "\u{1}".into(),
        "\u{7f}".into(),
        "\n".into(),
        "\t".into(),
        "0".into(),
        "00".into(),
        "null".into(),
    ];
    for n in [31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300] {
        v.push("x".repeat(n));
    }
    for n in [64, 127, 128, 129, 256, 300] {
        v.push(format!("{}y", "x".repeat(n - 1)));
    }
    v
}

/// Sizes where buffers and counters end: the neighbours of the powers of two up to 2^20, and others.
pub fn big_sizes() -> Vec<usize> {
    let mut v = vec![600, 700, 768, 1000, 1500, 3000, 5000, 10_000, 12_288, 20_000, 30_000, 50_000, 49_152, 100_000, 200_000, 1_000_000];
    for k in 9..21 {
        v.extend_from_slice(&[(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.sort();
    v
}
/// That many bytes, of a kind.
pub fn bytes_n(n: usize, k: usize) -> Vec<u8> {
    (0..n)
        .map(|j| match k {
            0 => 0,
            1 => 0xff,
            k => crate::env::stream_byte(0xb16 + k as u64, j as u64),
        })
        .collect()
}
/// Pairs of long passwords that differ in one place: at an end, in the middle, by one character more or less.
pub fn long_passwords() -> Vec<(String, String)> {
    let mut v = vec![];
    for n in [400, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 1 << 20] {
        let a: String = (0..n).map(|j| (b'a' + (j * 7 % 26) as u8) as char).collect();
        for p in [0, 64, 128, 255, 256, n / 2, n - 1] {
            v.push((a.clone(), format!("{}#{}", &a[..p], &a[p + 1..])));
        }
        v.push((a.clone(), a[..n - 1].to_string()));
        v.push((a.clone(), format!("{}\u{1}", a)));
        v.push((a.clone(), a[..256].to_string()));
        v.push((a.clone(), a[..128].to_string()));
        v.push((a.clone(), String::new()));
    }
    v
}

/// Every manager the default build can make: subsets of the three networks (bit 0 ADA, 1 ETH, 2 BTC).
pub fn subset(bits: usize) -> Vec<u32> {
    (0..3).filter(|k| bits >> k & 1 == 1).map(|k| NETS[k]).collect()
}
pub fn manager(bits: usize) -> keychain::KeychainManager {
    let n: Vec<keychain::Network> = subset(bits).into_iter().map(net).collect();
    match keychain::KeychainManager::with_networks(&n) {
        Ok(m) => m,
        Err(e) => panic!("no manager for {:?}: {}", n, e),
    }
}
/// Words of the phrases of that manager.
pub fn manager_words(bits: usize) -> usize {
    let b = subset(bits).iter().map(|n| seed_bits(*n).0).max().unwrap();
    b / 32 * 3
}

/// A valid phrase of n words.
pub fn phrase_n(nwords: usize, k: u64, lang: usize) -> String {
    let ent: Vec<u8> = (0..nwords / 3 * 4).map(|i| crate::env::stream_byte(0xbeef + k, i as u64)).collect();
    phrase(&words(&ent), lang)
}
/// A phrase that is valid in language a, and whose words language b has too; valid in b as well if asked.
pub fn phrase_of_two(nwords: usize, a: usize, b: usize, k: u64, valid: bool) -> Option<String> {
    type Shared = std::sync::OnceLock<Vec<Vec<(u16, u16)>>>;
    static S: Shared = Shared::new();
    let common = &S.get_or_init(|| {
        (0..64).map(|x| (0..2048u16).filter_map(|w| word_no(x % 8, lists()[x / 8][w as usize]).map(|v| (w, v))).collect()).collect()
    })[a * 8 + b];
    if a == b || common.is_empty() || !valid && common.iter().all(|x| x.0 == x.1) {
        return None;
    }
    let at = |j: u64| (crate::env::stream_byte(0x2c0 + k, 2 * j) as usize) << 8 | crate::env::stream_byte(0x2c0 + k, 2 * j + 1) as usize;
    let mut w: Vec<(u16, u16)> = (0..nwords as u64).map(|j| common[at(j) % common.len()]).collect();
    let ok = |w: &[u16]| {
        let (_, g, e) = split_words(w);
        g == e
    };
    for j in 0..common.len() {
        w[nwords - 2] = common[(j + k as usize) % common.len()];
        for x in common {
            w[nwords - 1] = *x;
            let first: Vec<u16> = w.iter().map(|x| x.0).collect();
            if !ok(&first) {
                continue;
            }
            let other: Vec<u16> = w.iter().map(|x| x.1).collect();
            if ok(&other) == valid {
                return Some(phrase(&first, a));
            }
        }
    }
    None
}
pub fn phrase_seed(p: &str) -> Vec<u8> {
    seed_of(p, b"")
}
