//! C16, C17, C18, C20, C24: containers and what is in them.
use super::base;
use super::keys::factory;
use crate::engine::*;
use crate::env::{self, stream_byte, Ans};
use crate::refm::{self, net, unb64, wrap, Doc, ADA, B, BTC, ETH, LANG_NAMES, NETS};
use crate::util::*;
use keychain::crypt::{self, DecryptError};
use keychain::{Error, KeychainManager, Language, Network, OsEntropy};
use serde_json::Value;

pub const SALT: [u8; 32] = [0x42; 32];
pub const NONCE: [u8; 12] = [0x24; 12];
/// A container of the documented format (made by the model), all with one salt.
pub fn sealed(plain: &[u8], pw: &str) -> Vec<u8> {
    refm::seal(plain, pw, &SALT, &NONCE)
}
pub fn scripted<T>(seed: u64, f: impl FnOnce() -> T) -> T {
    env::script(seed, &[]);
    let r = f();
    env::unscript();
    r
}
fn encrypt(data: &[u8], pw: &str) -> Vec<u8> {
    scripted(3, || crypt::encrypt(data, pw, &OsEntropy::new()))
}
/// A wallet document: from a seed or a phrase, with these networks.
pub fn doc(seed: Option<&[u8]>, phrase: Option<(&str, usize)>, nets: &[u32]) -> Doc {
    let s = match (seed, phrase) {
        (Some(s), _) => s.to_vec(),
        (_, Some((p, _))) => refm::seed_of(p, b""),
        _ => seed_n(33),
    };
    let mut keys: Vec<(u32, Vec<u8>)> = nets
        .iter()
        .map(|n| (*n, if NETS.contains(n) { refm::stored_key(*n, &s) } else { vec![1, 2, 3, *n as u8] }))
        .collect();
    keys.sort();
    Doc {
        version: 2,
        seed: seed.map(|s| s.to_vec()),
        mnemonic: phrase.map(|p| p.0.to_string()),
        dictionary: phrase.map(|p| LANG_NAMES[p.1].to_string()),
        keys,
    }
}

const READERS: [&str; 6] = ["keychain_from_data", "change_password", "add_network", "get_keys_data", "retrieve_mnemonic", "decrypt"];
fn reader(op: usize, m: &KeychainManager, c: &[u8], pw: &str) -> Result<(), String> {
    let r = match op {
        0 => m.keychain_from_data(c, pw).map(|_| ()),
        1 => m.change_password(c, pw, "new").map(|_| ()),
        2 => m.add_network(c, pw, net(BTC)).map(|_| ()),
        3 => m.get_keys_data(c, pw).map(|_| ()),
        4 => m.retrieve_mnemonic(c, pw).map(|_| ()),
        _ => {
            return crypt::decrypt(c, pw).map(|_| ()).map_err(|e| {
                match e {
                    DecryptError::NotEnoughData => "NotEnoughData",
                    DecryptError::DecryptionFailed => "WrongPassword",
                }
                .to_string()
            })
        }
    };
    r.map_err(|e| kind(&e))
}
/// Every reader refuses it in the prescribed way.
fn refused(m: &KeychainManager, c: &[u8], pw: &str, ops: &[usize], what: &dyn Fn() -> String, cx: &mut Cx) -> R {
    let want = if c.len() < 60 { "NotEnoughData" } else { "WrongPassword" };
    for op in ops {
        let r = scripted(3, || caught(|| reader(*op, m, c, pw)));
        cx.step();
        match r {
            Err(p) => return Err(format!("{}: {} panicked: {}", what(), READERS[*op], p)),
            Ok(Ok(())) => return Err(format!("{}: {} accepted it", what(), READERS[*op])),
            Ok(Err(k)) => {
                ensure!(k == want, "{}: {} says {}, should be {}", what(), READERS[*op], k, want);
                cx.outcome(want);
            }
        }
        cx.state(hash2(hash2(hash(c), hash(pw.as_bytes())), *op as u64));
    }
    Ok(())
}
const ALL_OPS: [usize; 6] = [0, 1, 2, 3, 4, 5];

/// The container the alterations start from: made by the real code, a wallet with ADA and ETH.
fn victim(k: usize) -> (Vec<u8>, String) {
    let pw = ["", "password", "x"][k % 3].to_string();
    if k < 3 {
        let m = manager(3);
        let p = phrase_n(12, 5, 0);
        (scripted(9, || m.keychain_data_from_mnemonic(&p, &pw, None)).expect("wallet"), pw)
    } else {
        let n = [0, 1, 40, 200][k % 4];
        let d: Vec<u8> = (0..n).map(|i| stream_byte(k as u64, i)).collect();
        (encrypt(&d, &pw), pw)
    }
}

pub fn c16(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let np = passwords().len() as u64;
    d.push(Domain::new("all pairs of passwords", np * np, |i, cx| {
        let pws = passwords();
        let n = pws.len() as u64;
        let (a, b) = (&pws[(i % n) as usize], &pws[(i / n) as usize]);
        let data = b"some secret data";
        let c = encrypt(data, a);
        let r = crypt::decrypt(&c, b);
        cx.steps(2);
        cx.state(i);
        let m = manager(7);
        match (r, a == b) {
            (Ok(x), true) => {
                ensure!(x == data, "password {:?}: {} decrypted as {}", a, hex(data), hex(&x));
                cx.outcome("opened");
                Ok(())
            }
            (Err(DecryptError::DecryptionFailed), false) => refused(&m, &c, b, &[0, 1, 2, 3, 4], &|| format!("{:?} for {:?}", b, a), cx),
            (Ok(_), false) => Err(format!("encrypted under {:?}, opened with {:?}", a, b)),
            (Err(e), _) => Err(format!("encrypted under {:?}, decrypted with {:?}: {}", a, b, e)),
        }
    }));
    let nc = if th { 0x11_0000u64 / 16 } else { 400 };
    d.push(Domain::new("one-character passwords are all different", nc, move |i, cx| {
        let step = if nc == 400 { 7 } else { 16 };
        let c = match std::char::from_u32((i * step) as u32) {
            Some(c) if c != '\0' => c,
            _ => return Ok(()),
        };
        let a = c.to_string();
        let k = encrypt(b"payload", &a);
        ensure!(crypt::decrypt(&k, &a).ok().as_deref() == Some(&b"payload"[..]), "{:?} does not open its own", a);
        let up = c.to_uppercase().to_string();
        let lo = c.to_lowercase().to_string();
        for o in [up, lo, format!("{}{}", a, a), format!(" {}", a), format!("{} ", a), String::new()] {
            if o != a {
                ensure!(crypt::decrypt(&k, &o).is_err(), "{:?} opened with {:?}", a, o);
                cx.step();
            }
        }
        cx.state(i | 1 << 40);
        Ok(())
    }));
    let lens = if th { 3000 } else { 700 };
    d.push(Domain::new("payloads of every length", lens * 3, move |i, cx| {
        let k = digits(i, &[3, lens]);
        let n = if k[1] as u64 == lens - 1 { 1 << 17 } else { k[1] };
        let data: Vec<u8> = (0..n).map(|j| [0, 0xff, stream_byte(i, j as u64)][k[0]]).collect();
        let c = encrypt(&data, "pw");
        ensure!(c.len() == data.len() + 60, "{} bytes encrypted to {}", data.len(), c.len());
        let r = crypt::decrypt(&c, "pw").map_err(|e| format!("{} bytes: {}", n, e))?;
        ensure!(r == data, "{} bytes come back different", n);
        ensure!(crypt::decrypt(&c, "pv").is_err(), "{} bytes opened with another password", n);
        cx.steps(3);
        cx.state_of(&c);
        cx.outcome("opened");
        Ok(())
    }));
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("big payloads, whole and altered", nbig * 2, move |i, cx| {
        let k = digits(i, &[2, nbig]);
        let n = big_sizes()[k[1]];
        let data = bytes_n(n, k[0] * 2);
        let c = encrypt(&data, "pw");
        ensure!(c.len() == n + 60, "{} bytes encrypted to {}", n, c.len());
        ensure!(crypt::decrypt(&c, "pw").ok().as_ref() == Some(&data), "{} bytes come back different", n);
        ensure!(refm::unseal(&c, "pw").as_ref() == Some(&data), "{} bytes: the container is not the agreed one", n);
        let bad = |x: &[u8], what: String| -> R {
            match crypt::decrypt(x, "pw") {
                Ok(_) => Err(format!("{} bytes, {}: opened", n, what)),
                Err(_) => Ok(()),
            }
        };
        ensure!(crypt::decrypt(&c, "pv").is_err(), "{} bytes opened with another password", n);
        for j in [0, 31, 32, 43, 44, 59, 60, 61, c.len() - 1] {
            let mut x = c.clone();
            x[j] ^= 1;
            bad(&x, format!("byte {} changed", j))?;
        }
        let mut q = 1;
        while q < n {
            for j in [60 + q, c.len() - q] {
                let mut x = c.clone();
                x[j] ^= 0x80;
                bad(&x, format!("byte {} changed", j))?;
            }
            bad(&c[..c.len() - q], format!("{} bytes cut", q))?;
            bad(&c[..60 + q], format!("cut to {} bytes", q))?;
            let mut x = c.clone();
            x.extend(std::iter::repeat(0).take(q));
            bad(&x, format!("{} bytes added", q))?;
            cx.steps(5);
            q *= 4;
        }
        cx.steps(13);
        cx.state_of(&c);
        cx.outcome("opened");
        Ok(())
    }));
    let nl = long_passwords().len() as u64;
    d.push(Domain::new("long passwords", nl, move |i, cx| {
        let (a, b) = long_passwords().swap_remove(i as usize);
        let data = bytes_n(100, 4);
        let what = || format!("passwords of {} and {} characters", a.len(), b.len());
        for (x, y) in [(&a, &b), (&b, &a)] {
            let c = encrypt(&data, x);
            ensure!(crypt::decrypt(&c, x).ok().as_ref() == Some(&data), "{}: does not open", what());
            ensure!(crypt::decrypt(&c, y).is_err(), "{}: opens with the other", what());
            ensure!(refm::unseal(&c, x).as_ref() == Some(&data), "{}: not the agreed container", what());
            cx.steps(3);
        }
        let (c, _) = victim(1);
        refused(&manager(7), &c, &a, &ALL_OPS, &what, cx)?;
        cx.state(hash2(i, 16));
        Ok(())
    }));
    let flips: u64 = if th { 12_000 } else { 7000 };
    d.push(Domain::new("every flipped bit of a wallet, every reading operation", flips, move |i, cx| {
        let (c, pw) = victim(1);
        if i >= 8 * c.len() as u64 {
            return Ok(());
        }
        let mut x = c.clone();
        x[(i / 8) as usize] ^= 1 << (i % 8);
        refused(&manager(7), &x, &pw, &ALL_OPS, &|| format!("bit {} flipped", i), cx)?;
        if i == 0 {
            let k = manager(7).keychain_from_data(&c, &pw);
            ensure!(k.is_ok(), "the unaltered wallet does not open");
            let bits = 8 * c.len() as u64;
            ensure!(bits <= flips, "the wallet has {} bits", bits);
        }
        Ok(())
    }));
    let vs = if th { 8 } else { 4 };
    d.push(Domain::new("every flipped bit of other containers", vs * 2080, move |i, cx| {
        let k = digits(i, &[2080, vs]);
        let (mut c, pw) = victim(3 + k[1]);
        if k[0] >= 8 * c.len() {
            return Ok(());
        }
        c[k[0] / 8] ^= 1 << (k[0] % 8);
        refused(&manager(7), &c, &pw, &[5, 1], &|| format!("bit {} of container {} flipped", k[0], k[1]), cx)
    }));
    d.push(Domain::new("every value of the tag bytes", 16 * 256, |i, cx| {
        let k = digits(i, &[256, 16]);
        let (mut c, pw) = victim(6);
        let j = 44 + k[1];
        if c[j] == k[0] as u8 {
            return Ok(());
        }
        c[j] = k[0] as u8;
        refused(&manager(7), &c, &pw, &[5], &|| format!("tag byte {}", k[1]), cx)
    }));
    d.push(Domain::new("every truncation and extension", 3 * 2000, |i, cx| {
        let k = digits(i, &[2000, 3]);
        let (c, pw) = victim(0);
        let n = c.len();
        let x = match k[1] {
            0 if k[0] < n => c[..k[0]].to_vec(),
            1 if k[0] > 0 && k[0] <= n => c[k[0]..].to_vec(),
            2 if k[0] > 0 && k[0] < 400 => {
                let mut x = c.clone();
                x.extend((0..(k[0] + 1) / 2).map(|j| if k[0] % 2 == 0 { 0 } else { c[j % n] }));
                x
            }
            _ => return Ok(()),
        };
        refused(&manager(7), &x, &pw, &ALL_OPS, &|| format!("cut or extended to {} bytes ({})", x.len(), k[1]), cx)
    }));
    d.push(Domain::new("a byte removed, inserted or exchanged at every place", 5 * 1000, |i, cx| {
        let k = digits(i, &[1000, 5]);
        let (c, pw) = victim(1);
        if k[0] + 1 >= c.len() {
            return Ok(());
        }
        let mut x = c.clone();
        match k[1] {
            0 => {
                x.remove(k[0]);
            }
            1 => x.insert(k[0], 0),
            2 => x.insert(k[0], c[k[0]]),
            3 => x.swap(k[0], k[0] + 1),
            _ => {
                let n = x.len();
                x.swap(k[0], n - 1 - k[0]);
            }
        }
        if x == c {
            return Ok(());
        }
        refused(&manager(7), &x, &pw, &[0, 1, 5], &|| format!("edit {} at {}", k[1], k[0]), cx)
    }));
    d.push(Domain::new("parts of two containers mixed", 1 << 4, |i, cx| {
        if i == 0 || i == 15 {
            return Ok(());
        }
        let a = encrypt(b"the first payload", "password");
        let b = scripted(11, || crypt::encrypt(b"the 2nd payload..", "password", &OsEntropy::new()));
        let cut = [0, 32, 44, 60, a.len()];
        let mut x = vec![];
        for k in 0..4 {
            let s = if i >> k & 1 == 0 { &a } else { &b };
            x.extend_from_slice(&s[cut[k]..cut[k + 1]]);
        }
        refused(&manager(7), &x, "password", &ALL_OPS, &|| format!("mixed {:04b}", i), cx)
    }));
    d.push(Domain::new("short and patterned inputs", 200 * 4, |i, cx| {
        let k = digits(i, &[200, 4]);
        let c: Vec<u8> = (0..k[0]).map(|j| [0, 0xff, 0x5c, stream_byte(4, j as u64)][k[1]]).collect();
        refused(&manager(7), &c, "pw", &ALL_OPS, &|| format!("{} bytes", c.len()), cx)
    }));
    base(
        "C16",
        "containers made by the real code are offered, unaltered under every password and altered in every listed way, to crypt::decrypt and every reading operation of a real manager, which must refuse in the prescribed way; non-trivial when password or container differ",
        "46 passwords in all pairs; payloads of all lengths; all one-bit changes of wallets and containers, all tag byte values, all prefixes and suffixes, extensions, one-byte removals, insertions and exchanges, mixtures of two containers; PBKDF2 results are memoized by exact input",
        d,
    )
}

// ------------------------------------------------------------------ documents

#[derive(Debug, Clone, PartialEq)]
pub enum Class {
    /// no wallet document: every operation gives an error
    Invalid,
    /// the statement leaves open whether it is one
    Open,
    Valid(Doc),
}
fn tokens_ok(v: &Value) -> bool {
    // a number written as a float
    match v {
        Value::Number(n) => n.is_u64() || n.is_i64(),
        _ => true,
    }
}
/// Counts the members of every object as written (serde_json's Value drops repeated names).
fn has_repeats(text: &[u8]) -> bool {
    struct V(bool);
    impl<'de> serde_json_visit::Visit<'de> for V {
        fn repeated(&mut self) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    serde_json_visit::walk(text, &mut v);
    v.0
}
/// A minimal walker over valid JSON text that reports repeated member names.
mod serde_json_visit {
    pub trait Visit<'de> {
        fn repeated(&mut self);
    }
    pub fn walk<'de, V: Visit<'de>>(t: &'de [u8], v: &mut V) {
        let mut i = 0;
        value(t, &mut i, v);
    }
    fn ws(t: &[u8], i: &mut usize) {
        while *i < t.len() && b" \t\r\n".contains(&t[*i]) {
            *i += 1;
        }
    }
    fn string(t: &[u8], i: &mut usize) -> String {
        let s = *i;
        *i += 1;
        while *i < t.len() && t[*i] != b'"' {
            if t[*i] == b'\\' {
                *i += 1;
            }
            *i += 1;
        }
        *i += 1;
        serde_json::from_slice(&t[s..(*i).min(t.len())]).unwrap_or_default()
    }
    fn value<'de, V: Visit<'de>>(t: &'de [u8], i: &mut usize, v: &mut V) {
        ws(t, i);
        if *i >= t.len() {
            return;
        }
        match t[*i] {
            b'{' => {
                *i += 1;
                let mut names = vec![];
                loop {
                    ws(t, i);
                    if *i >= t.len() || t[*i] == b'}' {
                        *i += 1;
                        return;
                    }
                    if t[*i] == b',' {
                        *i += 1;
                        continue;
                    }
                    let n = string(t, i);
                    if names.contains(&n) {
                        v.repeated();
                    }
                    names.push(n);
                    ws(t, i);
                    *i += 1; // ':'
                    value(t, i, v);
                }
            }
            b'[' => {
                *i += 1;
                loop {
                    ws(t, i);
                    if *i >= t.len() || t[*i] == b']' {
                        *i += 1;
                        return;
                    }
                    if t[*i] == b',' {
                        *i += 1;
                        continue;
                    }
                    value(t, i, v);
                }
            }
            b'"' => {
                string(t, i);
            }
            _ => {
                while *i < t.len() && !b",]} \t\r\n".contains(&t[*i]) {
                    *i += 1;
                }
            }
        }
    }
}

/// Is this a wallet document, and which?
pub fn classify(plain: &[u8]) -> Class {
    use Class::*;
    let v: Value = match serde_json::from_slice(plain) {
        Ok(v) => v,
        // some readers skip over a number no number type holds
        Err(e) if e.to_string().contains("out of range") => return Open,
        Err(_) => return Invalid,
    };
    let o = match &v {
        Value::Object(o) => o,
        Value::Array(_) => return Open,
        _ => return Invalid,
    };
    let (ver, data) = match (o.get("version"), o.get("data")) {
        (Some(a), Some(b)) => (a, b),
        _ => return Invalid,
    };
    let data = match data {
        Value::String(s) => s,
        _ => return Invalid,
    };
    if !ver.is_number() {
        return Invalid;
    }
    if o.len() > 2 || has_repeats(plain) || !tokens_ok(ver) {
        return Open;
    }
    let version = match ver.as_u64() {
        Some(1) => 1,
        Some(2) => 2,
        _ => return Invalid,
    };
    let (inner, loose) = match unb64(data) {
        B::Bytes(b) => (b, false),
        B::Loose(b) => (b, true),
        B::Bad => return Invalid,
    };
    let c = classify_inner(version, &inner);
    if loose && c != Invalid {
        return Open;
    }
    c
}
fn classify_inner(version: u64, inner: &[u8]) -> Class {
    use Class::*;
    let w: Value = match serde_json::from_slice(inner) {
        Ok(v) => v,
        // some readers skip over a number no number type holds
        Err(e) if e.to_string().contains("out of range") => return Open,
        Err(_) => return Invalid,
    };
    let o = match &w {
        Value::Object(o) => o,
        Value::Array(_) => return Open,
        _ => return Invalid,
    };
    let mut open = has_repeats(inner);
    for k in o.keys() {
        let known = if version == 1 { k == "keys" } else { ["keys", "seed", "mnemonic", "dictionary"].contains(&k.as_str()) };
        open |= !known;
    }
    let mut keys: Vec<(u32, Vec<u8>)> = vec![];
    match o.get("keys") {
        Some(Value::Array(a)) => {
            for e in a {
                let e = match e {
                    Value::Array(e) if e.len() == 2 => e,
                    _ => return Invalid,
                };
                if !e[0].is_number() {
                    return Invalid;
                }
                if !tokens_ok(&e[0]) {
                    open = true;
                }
                let n = match e[0].as_u64() {
                    Some(n) if n >> 32 == 0 => n as u32,
                    _ if open => 0,
                    _ => return Invalid,
                };
                let k = match &e[1] {
                    Value::String(s) => match unb64(s) {
                        B::Bytes(b) => b,
                        B::Loose(b) => {
                            open = true;
                            b
                        }
                        B::Bad => return Invalid,
                    },
                    _ => return Invalid,
                };
                if keys.iter().any(|(m, _)| *m == n) {
                    open = true;
                }
                keys.push((n, k));
            }
        }
        _ => return Invalid,
    }
    let mut d = Doc { version, seed: None, mnemonic: None, dictionary: None, keys };
    d.keys.sort();
    if version == 1 {
        return if open { Open } else { Valid(d) };
    }
    for f in ["seed", "mnemonic", "dictionary"] {
        let s = match o.get(f) {
            None => {
                open = true;
                continue;
            }
            Some(Value::Null) => continue,
            Some(Value::String(s)) => s.clone(),
            Some(Value::Object(_)) if f == "dictionary" => {
                open = true;
                continue;
            }
            _ => return Invalid,
        };
        match f {
            "seed" => match unb64(&s) {
                B::Bytes(b) => d.seed = Some(b),
                B::Loose(b) => {
                    open = true;
                    d.seed = Some(b)
                }
                B::Bad => return Invalid,
            },
            "mnemonic" => d.mnemonic = Some(s),
            _ => {
                if !LANG_NAMES.contains(&s.as_str()) {
                    return Invalid;
                }
                d.dictionary = Some(s);
            }
        }
    }
    if d.seed.is_some() && d.mnemonic.is_some() {
        open = true;
    }
    if open {
        Open
    } else {
        Valid(d)
    }
}
/// A manager that knows `bits` opens, backs up and extends a container with these contents.
pub fn judge(plain: &[u8], bits: usize, add: u32, deep: bool, what: &dyn Fn() -> String, cx: &mut Cx) -> R {
    let pw = "pw";
    let c = sealed(plain, pw);
    let class = classify(plain);
    cx.state(hash2(hash(plain), bits as u64));
    judge_container(&c, pw, &class, bits, add, deep, what, cx)
}
pub fn judge_container(c: &[u8], pw: &str, class: &Class, bits: usize, add: u32, deep: bool, what: &dyn Fn() -> String, cx: &mut Cx) -> R {
    let m = manager(bits);
    let open = caught(|| m.keychain_from_data(c, pw)).map_err(|p| format!("{}: opening panicked: {}", what(), p))?;
    let keys = caught(|| m.get_keys_data(c, pw)).map_err(|p| format!("{}: key backup panicked: {}", what(), p))?;
    let mnem = caught(|| m.retrieve_mnemonic(c, pw)).map_err(|p| format!("{}: phrase backup panicked: {}", what(), p))?;
    let added = scripted(5, || caught(|| m.add_network(c, pw, Network(add))))
        .map_err(|p| format!("{}: adding a network panicked: {}", what(), p))?;
    cx.steps(4);
    let d = match class {
        Class::Open => {
            cx.outcome("left open");
            return Ok(());
        }
        Class::Invalid => {
            cx.outcome("no document");
            ensure!(open.is_err(), "{}: opened", what());
            ensure!(keys.is_err(), "{}: keys backed up", what());
            ensure!(mnem.is_err(), "{}: phrase backed up", what());
            ensure!(added.is_err(), "{}: extended", what());
            for e in [open.err(), keys.err(), mnem.err(), added.err()] {
                let e = e.unwrap();
                ensure!(!matches!(e, Error::WrongPassword | Error::NotEnoughData), "{}: {}", what(), e);
                let _ = e.to_string();
            }
            return Ok(());
        }
        Class::Valid(d) => d,
    };
    let mut got = keys.map_err(|e| format!("{}: keys not backed up: {}", what(), e))?.into_iter().map(|(n, k)| (n.0, k)).collect::<Vec<_>>();
    got.sort();
    ensure!(got == d.keys, "{}: backup gives {:?}", what(), got);
    match (&mnem, &d.mnemonic, &d.dictionary) {
        (Ok((t, l)), Some(m), Some(x)) => {
            ensure!(t == m && LANG_NAMES[*l as usize] == x, "{}: phrase '{}' in {:?}", what(), t, l)
        }
        (Err(Error::SeedIsNotSaved), None, _) | (Err(Error::SeedIsNotSaved), _, None) => {}
        _ => return Err(format!("{}: phrase backup gives {:?}", what(), mnem)),
    }
    let sup = subset(bits);
    let mine: Vec<&(u32, Vec<u8>)> = d.keys.iter().filter(|(n, _)| sup.contains(n)).collect();
    let good = mine.iter().all(|(n, k)| refm::stored_ok(*n, k) && !(*n == ETH && k[0] >= 254));
    match open {
        Ok(k) => {
            ensure!(good, "{}: opened with an invalid key", what());
            let mut nets: Vec<u32> = k.networks().into_iter().map(|n| n.0).collect();
            nets.sort();
            let want: Vec<u32> = mine.iter().map(|(n, _)| *n).collect();
            ensure!(nets == want, "{}: wallet has networks {:x?}, should be {:x?}", what(), nets, want);
            if deep {
                for (n, s) in &mine {
                    let p = refm::std_path(*n);
                    let w = refm::pub_key(*n, s, &p);
                    let g = k.pub_key(&net(*n), &P(p));
                    ensure!(g.as_ref().ok() == w.as_ref(), "{}: {} key {}", what(), refm::net_name(*n), show(&g));
                    cx.step();
                }
            }
            cx.outcome("opened");
        }
        Err(e) => {
            ensure!(!good, "{}: not opened: {}", what(), e);
            ensure!(matches!(e, Error::KeyError(..) | Error::DataError(_)), "{}: {}", what(), e);
            cx.outcome("invalid key");
        }
    }
    // adding
    enum Add {
        Must(Vec<u8>),
        May,
        Not(&'static str),
    }
    let seed_key = |s: &[u8]| refm::stored_key(add, s);
    let want = if !sup.contains(&add) {
        Add::Not("NetworkIsNotSupported")
    } else if d.keys.iter().any(|(n, _)| *n == add) {
        Add::Not("KeyAlreadyExist")
    } else if let Some(s) = &d.seed {
        if s.len() == 64 {
            Add::Must(seed_key(s))
        } else {
            Add::Not("")
        }
    } else if let (Some(m), Some(l)) = (&d.mnemonic, &d.dictionary) {
        let lang = LANG_NAMES.iter().position(|x| x == l).unwrap();
        if refm::phrase_ok(m, lang, manager_words(bits)) {
            Add::Must(seed_key(&refm::seed_of(m, b"")))
        } else if m.split(' ').all(|w| refm::word_no(lang, w).is_some()) {
            Add::May
        } else {
            Add::Not("")
        }
    } else {
        Add::Not("SeedIsNotSaved")
    };
    match (added, want) {
        (_, Add::May) => cx.outcome("adding left open"),
        (Ok(c2), Add::Must(k)) => {
            let mut e = d.clone();
            e.version = 2;
            e.keys.push((add, k));
            e.keys.sort();
            let g = Doc::open(&c2, pw).map_err(|e| format!("{}: extended wallet: {}", what(), e))?;
            ensure!(g == e, "{}: extended to {:?}, should be {:?}", what(), g, e);
            cx.outcome("extended");
        }
        (Err(e), Add::Not(k)) => {
            ensure!(kind(&e).starts_with(k), "{}: adding says {}, should be {}", what(), kind(&e), k);
            cx.outcome("not extended");
        }
        (Ok(_), Add::Not(k)) => return Err(format!("{}: extended instead of {}", what(), k)),
        (Err(e), Add::Must(_)) => return Err(format!("{}: not extended: {}", what(), e)),
    }
    Ok(())
}

pub struct Fix {
    pub seed: Option<Vec<u8>>,
    pub phrase: Option<(String, usize)>,
    pub password: String,
    pub blob: Vec<u8>,
    pub keys: Vec<(u32, Vec<u8>)>,
    pub pubs: Vec<(u32, String, Vec<u8>, Vec<u8>)>,
}
pub fn fixtures() -> &'static Vec<Fix> {
    static F: std::sync::OnceLock<Vec<Fix>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let v: Value = serde_json::from_str(include_str!("../../data/fixtures.json")).expect("fixtures");
        v.as_array()
            .unwrap()
            .iter()
            .map(|x| {
                let s = |k: &str| x[k].as_str().unwrap_or("").to_string();
                let seed = s("kind") == "seed";
                let mut keys: Vec<(u32, Vec<u8>)> = x["keys"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|e| (e[0].as_u64().unwrap() as u32, unhex(e[1].as_str().unwrap())))
                    .collect();
                keys.sort();
                Fix {
                    seed: if seed { Some(unhex(&s("source"))) } else { None },
                    phrase: if seed {
                        None
                    } else {
                        Some((s("source"), LANG_NAMES.iter().position(|l| *l == s("lang")).expect("language")))
                    },
                    password: s("password"),
                    blob: unhex(&s("blob")),
                    keys,
                    pubs: x["pubs"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|e| {
                            let g = |i: usize| e[i].as_str().unwrap().to_string();
                            (e[0].as_u64().unwrap() as u32, g(1), unhex(&g(2)), unhex(&g(3)))
                        })
                        .collect(),
                }
            })
            .collect()
    })
}
pub fn lang(l: usize) -> Language {
    LANGS[l]
}

pub fn c17(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let nf = fixtures().len() as u64;
    d.push(Domain::new("wallets written by the earlier release", nf * 7, |i, cx| {
        let bits = (i % 7 + 1) as usize;
        let f = &fixtures()[(i / 7) as usize];
        let what = || format!("earlier wallet {} for manager {}", i / 7, bits);
        let dd = Doc::open(&f.blob, &f.password).map_err(|e| format!("{}: {}", what(), e))?;
        ensure!(dd.keys == f.keys && dd.seed == f.seed, "{}: the model reads it differently", what());
        let class = Class::Valid(dd);
        for add in NETS {
            judge_container(&f.blob, &f.password, &class, bits, add, true, &what, cx)?;
        }
        let m = manager(bits);
        let k = m.keychain_from_data(&f.blob, &f.password).map_err(|e| format!("{}: {}", what(), e))?;
        for (n, p, pk, sig) in &f.pubs {
            if !subset(bits).contains(n) {
                continue;
            }
            let g = keychain::GenericKeyPath::from(p).map_err(|e| e.to_string())?;
            ensure!(k.pub_key(&net(*n), &g).ok().as_ref() == Some(pk), "{}: key at {}", what(), p);
            ensure!(
                k.sign(&net(*n), FIX_MSG, &g).is_ok() && matches!(k.verify(&net(*n), FIX_MSG, sig, &g), Ok(true)),
                "{}: the earlier signature at {} does not verify",
                what(),
                p
            );
            cx.steps(3);
        }
        cx.state(i);
        Ok(())
    }).chunk(1));
    // documents written by the model in the old formats
    let ul = [5u32, 0x8000_0001];
    d.push(Domain::new("documents of versions 1 and 2 in every shape", 8 * 10 * 8 * 4 * 2, move |i, cx| {
        let k = digits(i, &[8, 10, 8, 4, 2]);
        let mut nets = if k[0] == 0 { vec![] } else { subset(k[0]) };
        for j in 0..2 {
            if k[3] >> j & 1 == 1 {
                nets.push(ul[j]);
            }
        }
        let bits = k[2].max(1);
        let ph;
        let dd = match k[1] {
            0 => doc(Some(&seed_n(34)), None, &nets),
            1 => doc(None, None, &nets),
            l => {
                ph = phrase_n(manager_words(bits), l as u64, l - 2);
                doc(None, Some((&ph, l - 2)), &nets)
            }
        };
        let mut dd = dd;
        if k[4] == 1 {
            if k[1] != 1 {
                return Ok(());
            }
            dd.version = 1;
        }
        let add = NETS[k[2] % 3];
        cx.sample(&format!("version {} {}", dd.version, k[1].min(2)), || dd.text());
        judge(dd.text().as_bytes(), bits, add, !th && i % 4 == 0 || th, &|| format!("document {}", dd.text()), cx)
    }));
    d.push(Domain::new("versions", 70_000 + 40, |i, cx| {
        let v = if i < 70_000 {
            i.to_string()
        } else {
            let odd = ["-1", "-2", "65537", "65538", "131073", "131074", "4294967297", "4294967298", "18446744073709551617",
                "18446744073709551618", "\"1\"", "\"2\"", "\"V2\"", "null", "true", "[2]", "{\"2\":null}", "\"\"", "-65534", "02"];
            match odd.get((i - 70_000) as usize) {
                Some(s) => s.to_string(),
                None => return Ok(()),
            }
        };
        let dd = doc(Some(&seed_n(34)), None, &NETS);
        let body = if v == "1" { Doc { version: 1, ..dd.clone() }.inner() } else { dd.inner() };
        let text = format!("{{\"version\":{},\"data\":\"{}\"}}", v, refm::b64(body.as_bytes()));
        let good = v == "1" || v == "2";
        let class = classify(text.as_bytes());
        ensure!(matches!(class, Class::Valid(_)) == good, "model: version {}", v);
        let class = if good { class } else { Class::Invalid };
        cx.state(hash(text.as_bytes()));
        judge_container(&sealed(text.as_bytes(), "pw"), "pw", &class, 7, ETH, false, &|| format!("version {}", v), cx)
    }));
    // what is written now
    let npw = passwords().len() as u64;
    d.push(Domain::new("what is written now", 7 * 9 * npw, move |i, cx| {
        let k = digits(i, &[7, 9, npw]);
        let bits = k[0] + 1;
        let m = manager(bits);
        let pw = &passwords()[k[2]];
        let (c, want) = if k[1] == 0 {
            let s = seed_n(35);
            (scripted(6, || m.keychain_data_from_seed(&s, pw)), doc(Some(&s), None, &subset(bits)))
        } else {
            let l = k[1] - 1;
            let p = phrase_n(manager_words(bits), 3, l);
            (scripted(6, || m.keychain_data_from_mnemonic(&p, pw, Some(LANGS[l]))), doc(None, Some((&p, l)), &subset(bits)))
        };
        let c = c.map_err(|e| format!("making a wallet: {}", e))?;
        let got = Doc::open(&c, pw).map_err(|e| format!("new wallet under {:?}: {}", pw, e))?;
        ensure!(got == want, "new wallet holds {:?}, should be {:?}", got, want);
        cx.step();
        cx.state_of(&c);
        cx.outcome("written");
        // and after a change of the password and an added network
        let c2 = scripted(8, || m.change_password(&c, pw, "next")).map_err(|e| e.to_string())?;
        let got = Doc::open(&c2, "next").map_err(|e| format!("changed wallet: {}", e))?;
        ensure!(got == want, "changed wallet holds {:?}", got);
        cx.step();
        Ok(())
    }));
    // the key derivation and the cipher against fully independent code
    let n = if th { npw } else { 12 };
    d.push(Domain::new("key derivation against an own PBKDF2", n, move |i, cx| {
        let pw = &passwords()[(i * (if th { 1 } else { 4 })) as usize % npw as usize];
        memo(false);
        let c = encrypt(b"payload of the container", pw);
        memo(true);
        let own = refm::pbkdf2_own(pw.as_bytes(), &c[..32], 19162);
        ensure!(own[..32] == refm::pbkdf2_lib(pw.as_bytes(), &c[..32], 19162, 32)[..], "model: PBKDF2 of {:?}", pw);
        let p = refm::unseal(&c, pw).ok_or(format!("{:?}: not the documented format", pw))?;
        ensure!(p == b"payload of the container", "{:?}: {}", pw, hex(&p));
        cx.steps(2);
        cx.state_of(&own);
        Ok(())
    }).chunk(1));
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("passwords of every length", (600 + nbig) * 3, move |i, cx| {
        let k = digits(i, &[3, 600 + nbig]);
        let n = if k[1] < 600 { k[1] } else { big_sizes()[k[1] - 600] };
        let pw: String = match k[0] {
            0 => (0..n).map(|j| (b'!' + (j * 7 % 90) as u8) as char).collect(),
            1 => "x".repeat(n),
            _ => "\u{e9}\u{3042} ".chars().cycle().take(n).collect(),
        };
        let dd = doc(Some(&seed_n(34)), None, &NETS);
        let c = sealed(dd.text().as_bytes(), &pw);
        let m = manager(7);
        let what = || format!("a password of {} bytes, kind {}", pw.len(), k[0]);
        let w = m.keychain_from_data(&c, &pw).map_err(|e| format!("{}: the earlier wallet does not open: {}", what(), e))?;
        ensure!(w.networks().len() == 3, "{}: networks", what());
        let c = scripted(6, || m.keychain_data_from_seed(&seed_n(34), &pw)).map_err(|e| format!("{}: {}", what(), e))?;
        let got = Doc::open(&c, &pw).map_err(|e| format!("{}: new wallet: {}", what(), e))?;
        ensure!(got == dd, "{}: new wallet holds {:?}", what(), got);
        cx.steps(2);
        cx.state_of(&c);
        Ok(())
    }));
    base(
        "C17",
        "wallets written by the base release (committed fixtures) and documents written by the model in the formats of versions 1 and 2 are opened, backed up and extended by the real code and compared with the model; containers written now are decoded by the model alone; non-trivial when a wallet is opened or written",
        "23 fixtures x 7 managers; versions 1 and 2 x all network sets with 0-2 unknown networks x seed/none/8 languages x 7 managers; version numbers 0..69999 and odd forms; new wallets for 7 managers x 9 sources x 46 passwords; passwords of every length to 599 and around powers of two to 1,000,000, in three kinds",
        d,
    )
}
const LONG_PW: &str = "a password that is longer than one block of the hash function the key is derived with, which has 128 bytes, and so is hashed first";
const FIX_MSG: &[u8] = b"fixture";

// ------------------------------------------------------------------ C18

const OPS18: [&str; 15] = [
    "generate_mnemonic", "data_from_seed", "data_from_mnemonic", "add_network", "change_password", "encrypt", "generate 9 words",
    "change to the same password", "change to the empty password", "encrypt nothing", "encrypt much", "encrypt under a long password",
    "data_from_seed for one network", "data_from_seed of the same seed under the empty password", "encrypt under no password",
];
/// What an operation made: (phrase, container).
enum Made {
    Phrase(String),
    Container(Vec<u8>, &'static str),
}
struct World {
    m: KeychainManager,
    m9: KeychainManager,
    os: OsEntropy,
    base: Vec<u8>,
}
fn world() -> World {
    let base = sealed(doc(Some(&seed_n(36)), None, &[ADA]).text().as_bytes(), "pw");
    World { m: manager(7), m9: manager(1), os: OsEntropy::new(), base }
}
fn act(w: &World, op: usize) -> Result<Made, Error> {
    Ok(match op {
        0 => Made::Phrase(w.m.generate_mnemonic(None)?),
        1 => Made::Container(w.m.keychain_data_from_seed(&seed_n(37), "pw")?, "pw"),
        2 => Made::Container(w.m.keychain_data_from_mnemonic(&phrase_n(12, 6, 2), "", Some(Language::Japanese))?, ""),
        3 => Made::Container(w.m.add_network(&w.base, "pw", net(ETH))?, "pw"),
        4 => Made::Container(w.m.change_password(&w.base, "pw", "new")?, "new"),
        5 => Made::Container(crypt::encrypt(b"some data", "pw", &w.os), "pw"),
        6 => Made::Phrase(w.m9.generate_mnemonic(Some(Language::Spanish))?),
        7 => Made::Container(w.m.change_password(&w.base, "pw", "pw")?, "pw"),
        8 => Made::Container(w.m.change_password(&w.base, "pw", "")?, ""),
        9 => Made::Container(crypt::encrypt(b"", "pw", &w.os), "pw"),
        10 => Made::Container(crypt::encrypt(&[7; 70_000], "pw", &w.os), "pw"),
        11 => Made::Container(crypt::encrypt(b"some data", LONG_PW, &w.os), LONG_PW),
        12 => Made::Container(w.m9.keychain_data_from_seed(&seed_n(37), "pw")?, "pw"),
        13 => Made::Container(w.m.keychain_data_from_seed(&seed_n(37), "")?, ""),
        _ => Made::Container(crypt::encrypt(b"some data", "", &w.os), ""),
    })
}
/// Are both in it, at places that do not overlap?
pub fn apart(h: &[u8], a: &[u8], b: &[u8]) -> bool {
    (0..(h.len() + 1).saturating_sub(a.len()))
        .any(|i| h[i..i + a.len()] == *a && find(h, b, Some((i, i + a.len()))).is_some())
}
pub fn find(h: &[u8], n: &[u8], not: Option<(usize, usize)>) -> Option<usize> {
    (0..(h.len() + 1).saturating_sub(n.len())).find(|i| {
        h[*i..*i + n.len()] == *n && not.map(|(a, b)| *i + n.len() <= a || *i >= b).unwrap_or(true)
    })
}
/// Runs a history of operations with these answers of the random source.
fn fault_run(ops: &[usize], answers: &[Ans], seed: u64, cx: &mut Cx) -> R {
    let w = world();
    env::script(seed, answers);
    let r = fault_steps(&w, ops, answers, cx);
    env::unscript();
    r
}
fn fault_steps(w: &World, ops: &[usize], answers: &[Ans], cx: &mut Cx) -> R {
    let mut log = String::new();
    for op in ops {
        let r = caught(|| act(w, *op));
        let (bytes, draws) = env::take_log();
        let failed = draws.iter().any(|d| matches!(d.got, Err(e) if e != libc::EINTR));
        log += &format!("{}:{:?};", OPS18[*op], draws.iter().map(|d| d.got).collect::<Vec<_>>());
        let what = || format!("answers {:?}, {}", answers, log);
        cx.step();
        match r {
            Err(p) => {
                ensure!(failed, "{}: panicked although no read failed: {}", what(), p);
                cx.outcome("no result (panic)");
            }
            Ok(Err(e)) => {
                ensure!(failed, "{}: {} although no read failed", what(), e);
                cx.outcome("no result (error)");
            }
            Ok(Ok(_)) if failed => return Err(format!("{}: gave a result although a read failed", what())),
            Ok(Ok(Made::Phrase(p))) => {
                let lang = if *op == 6 { 7 } else { 0 };
                let nw = if *op == 6 { 9 } else { 12 };
                ensure!(refm::phrase_ok(&p, lang, nw), "{}: '{}' is no phrase", what(), p);
                let w: Vec<u16> = p.split(' ').map(|x| refm::word_no(lang, x).unwrap()).collect();
                let ent = refm::split_words(&w).0;
                ensure!(
                    find(&bytes, &ent, None).is_some(),
                    "{}: entropy {} is not what the source delivered for it ({})",
                    what(),
                    hex(&ent),
                    hex(&bytes)
                );
                cx.outcome("phrase");
            }
            Ok(Ok(Made::Container(c, pw))) => {
                ensure!(c.len() >= 60, "{}: {} bytes", what(), c.len());
                let s = find(&bytes, &c[..32], None);
                ensure!(s.is_some(), "{}: salt {} was not delivered for it ({})", what(), hex(&c[..32]), hex(&bytes));
                ensure!(
                    apart(&bytes, &c[..32], &c[32..44]),
                    "{}: nonce {} was not delivered for it, apart from the salt ({})",
                    what(),
                    hex(&c[32..44]),
                    hex(&bytes)
                );
                ensure!(refm::unseal(&c, pw).is_some(), "{}: the container does not open", what());
                cx.outcome("container");
            }
        }
    }
    cx.state_of(log.as_bytes());
    cx.sample(&format!("{} deviations", answers.iter().filter(|a| **a != Ans::Full).count()), || log.clone());
    Ok(())
}
fn answers() -> Vec<Ans> {
    vec![
        Ans::Full,
        Ans::Err(libc::EINTR),
        Ans::Err(libc::EIO),
        Ans::Short(1),
        Ans::Short(15),
        Ans::Err(libc::EAGAIN),
        Ans::Err(libc::ENOSYS),
        Ans::Short(31),
        Ans::Short(11),
        Ans::Err(libc::EFAULT),
        Ans::Err(libc::EPERM),
    ]
}
/// All placements of up to n deviations on the first `len` answers.
fn plans(len: usize, n: usize) -> Vec<Vec<Ans>> {
    let al = answers();
    let mut out = vec![vec![]];
    fn go(cur: &mut Vec<Ans>, from: usize, len: usize, left: usize, al: &[Ans], out: &mut Vec<Vec<Ans>>) {
        if left == 0 {
            return;
        }
        for p in from..len {
            let keep = cur.len();
            while cur.len() < p {
                cur.push(Ans::Full);
            }
            for a in &al[1..] {
                cur.push(*a);
                out.push(cur.clone());
                go(cur, p + 1, len, left - 1, al, out);
                cur.pop();
            }
            cur.truncate(keep);
        }
    }
    go(&mut vec![], 0, len, n, &al, &mut out);
    out
}
pub fn c18(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let p1 = plans(if th { 10 } else { 8 }, 2);
    let np = p1.len() as u64;
    d.push(Domain::new("two operations, up to two deviations of the source", np * 49, move |i, cx| {
        let k = digits(i, &[np, 7, 7]);
        fault_run(&[k[1], k[2]], &p1[k[0]], 21, cx)
    }));
    let p2 = plans(if th { 12 } else { 10 }, 1);
    let np2 = p2.len() as u64;
    d.push(Domain::new("three operations, one deviation", np2 * 343, move |i, cx| {
        let k = digits(i, &[np2, 7, 7, 7]);
        fault_run(&[k[1], k[2], k[3]], &p2[k[0]], 22, cx)
    }));
    let p2 = plans(6, 1);
    let np2 = p2.len() as u64;
    d.push(Domain::new("every operation after every other, one deviation", np2 * 225, move |i, cx| {
        let k = digits(i, &[np2, 15, 15]);
        fault_run(&[k[1], k[2]], &p2[k[0]], 27, cx)
    }));
    let deep = if th { 6 } else { 4 };
    d.push(Domain::new("histories of one container", 8u64.pow(deep), move |i, cx| {
        let k = digits(i, &vec![8; deep as usize]);
        let m = manager(7);
        let mut cur = sealed(doc(Some(&seed_n(36)), None, &[ADA]).text().as_bytes(), "pw");
        let mut pw = "pw";
        let mut seen: Vec<Vec<u8>> = vec![cur[..32].to_vec(), cur[32..44].to_vec()];
        let mut names = String::new();
        env::script(28, &[]);
        let r = (|| {
            for o in &k {
                let (name, to, r) = match o {
                    0 => ("to the same", pw, m.change_password(&cur, pw, pw)),
                    1 => ("to the empty", "", m.change_password(&cur, pw, "")),
                    2 => ("to a", "a", m.change_password(&cur, pw, "a")),
                    3 => ("to pw", "pw", m.change_password(&cur, pw, "pw")),
                    4 => ("add Ethereum", pw, m.add_network(&cur, pw, net(ETH))),
                    5 => ("add Bitcoin", pw, m.add_network(&cur, pw, net(BTC))),
                    6 => ("wrong password", pw, m.change_password(&cur, "wrong", pw)),
                    _ => ("made again", "pw", m.keychain_data_from_seed(&seed_n(36), "pw")),
                };
                let (bytes, _) = env::take_log();
                names = format!("{}{}; ", names, name);
                cx.step();
                let c = match r {
                    Ok(c) => c,
                    Err(_) => continue,
                };
                for (what, part) in [("salt", &c[..32]), ("nonce", &c[32..44])] {
                    ensure!(!seen.iter().any(|s| s == part), "{}the {} {} was used before", names, what, hex(part));
                    ensure!(find(&bytes, part, None).is_some(), "{}the {} {} was not delivered for it ({})", names, what, hex(part), hex(&bytes));
                    seen.push(part.to_vec());
                }
                pw = to;
                cur = c;
                ensure!(refm::unseal(&cur, pw).is_some(), "{}it does not open", names);
            }
            Ok(())
        })();
        env::unscript();
        cx.state_of(&cur);
        r
    }));
    let p3 = plans(if th { 6 } else { 4 }, if th { 4 } else { 3 });
    let np3 = p3.len() as u64;
    d.push(Domain::new("one operation and a following one, many deviations", np3 * 7, move |i, cx| {
        let k = digits(i, &[np3, 7]);
        fault_run(&[k[1], (k[1] + k[0]) % 7], &p3[k[0]], 23, cx)
    }));
    d.push(Domain::new("only short answers of every size", 50 * 7, |i, cx| {
        let k = digits(i, &[50, 7]);
        fault_run(&[k[1], k[1]], &vec![Ans::Short(k[0] + 1); 120], 24, cx)?;
        let mixed: Vec<Ans> = (0..200).map(|j| if j % 2 == 0 { Ans::Err(libc::EINTR) } else { Ans::Short(k[0] + 1) }).collect();
        fault_run(&[k[1], k[1]], &mixed, 25, cx)
    }));
    d.push(Domain::new("every byte the source can deliver", 256 * 7, |i, cx| {
        let k = digits(i, &[256, 7]);
        let w = world();
        // 44 or 16 bytes, one of them peculiar
        let mut b: Vec<u8> = vec![k[0] as u8; 44];
        b[k[0] % 44] ^= 0x5a;
        env::script_bytes(&b);
        let r = fault_steps(&w, &[k[1]], &[], cx);
        env::unscript();
        r
    }));
    let many = if th { 400 } else { 120 };
    d.push(Domain::new("long histories never use anything twice", 15, move |op, cx| {
        let w = world();
        env::script(26 + op, &[]);
        let r = (|| {
            let mut seen: Vec<Vec<u8>> = vec![];
            for j in 0..many {
                let o = if op == 6 { j % 15 } else { op as usize };
                let made = act(&w, o).map_err(|e| e.to_string())?;
                let mut parts: Vec<Vec<u8>> = vec![];
                match &made {
                    Made::Phrase(p) => parts.push(p.clone().into_bytes()),
                    Made::Container(c, _) => {
                        parts.push(c[..32].to_vec());
                        parts.push(c[32..44].to_vec());
                    }
                }
                for p in parts {
                    ensure!(!seen.contains(&p), "{}: {} used before", OPS18[o], hex(&p));
                    cx.state_of(&p);
                    seen.push(p);
                }
                cx.step();
            }
            Ok(())
        })();
        env::unscript();
        r
    }).chunk(1));
    let mut c = base(
        "C18",
        "histories of real operations run against a scripted system random source; every result's salt, nonce and entropy must be whole, disjoint pieces of what the source delivered during that very operation, an operation with a failed read must give none, and all others must succeed; non-trivial when the source deviates",
        "7 operations in all pairs with up to 2 deviations on the first 8 answers, all triples with 1 on the first 10, single operations with up to 3 on the first 4; deviations: interrupted, I/O error, would block, not implemented, bad address, not permitted, and short answers of 1, 11, 15, 31 bytes; constant short answers of 1..50 bytes with and without interruptions; 15 operations in all pairs with 1 deviation on the first 6 answers; all histories of 4 changes of one container",
        d,
    );
    c.assumptions.push("the source is getrandom(2), as used by the locked dependency getrandom 0.1.6".into());
    c
}

// ------------------------------------------------------------------ C20

pub fn c20(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    fn change(m: &KeychainManager, c: &[u8], old: &str, new: &str) -> Result<Vec<u8>, Error> {
        scripted(12, || m.change_password(c, old, new))
    }
    fn check(m: &KeychainManager, plain: &[u8], old: &str, new: &str, cx: &mut Cx) -> Result<Vec<u8>, String> {
        let c = sealed(plain, old);
        let before = c.clone();
        let what = || format!("{} bytes from {:?} to {:?}", plain.len(), old, new);
        let n = change(m, &c, old, new).map_err(|e| format!("{}: {}", what(), e))?;
        ensure!(c == before, "{}: the original container was altered", what());
        let p = refm::unseal(&n, new).ok_or(format!("{}: does not open with the new password", what()))?;
        ensure!(p == plain, "{}: contents {} became {}", what(), hex(plain), hex(&p));
        ensure!(crypt::decrypt(&n, new).ok().as_deref() == Some(plain), "{}: decrypt", what());
        if old != new {
            ensure!(refm::unseal(&n, old).is_none() && crypt::decrypt(&n, old).is_err(), "{}: opens with the old one", what());
        }
        cx.steps(3);
        cx.state_of(&n);
        cx.outcome(if old == new { "same password" } else { "changed" });
        Ok(n)
    }
    let np = passwords().len() as u64;
    d.push(Domain::new("all pairs of passwords", np * np, move |i, cx| {
        let pws = passwords();
        let k = digits(i, &[np, np]);
        let (a, b) = (&pws[k[0]], &pws[k[1]]);
        let m = manager(7);
        let dd = doc(Some(&seed_n(38)), None, &NETS).text();
        check(&m, dd.as_bytes(), a, b, cx)?;
        // with b as the old password of a's container
        let c = sealed(dd.as_bytes(), a);
        match change(&m, &c, b, "third") {
            Err(Error::WrongPassword) if a != b => {
                cx.outcome("refused");
                ensure!(m.keychain_from_data(&c, a).is_ok(), "{:?}: the original does not open any more", a);
            }
            Ok(_) if a == b => {}
            r => return Err(format!("container under {:?}, old password {:?}: {}", a, b, show(&r))),
        }
        cx.steps(2);
        Ok(())
    }));
    let lens = if th { 2500 } else { 700 };
    d.push(Domain::new("contents of every length", lens * 2, move |i, cx| {
        let k = digits(i, &[2, lens]);
        let p: Vec<u8> = (0..k[1]).map(|j| if k[0] == 0 { 0 } else { stream_byte(i, j as u64) }).collect();
        check(&manager(1 + k[1] % 7), &p, "old", "new", cx).map(|_| ())
    }));
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("big contents", nbig * 2, move |i, cx| {
        let k = digits(i, &[2, nbig]);
        check(&manager(1 + k[1] % 7), &bytes_n(big_sizes()[k[1]], k[0] * 2), "old", "new", cx).map(|_| ())
    }));
    let nl = long_passwords().len() as u64;
    d.push(Domain::new("long passwords", nl, move |i, cx| {
        let (a, b) = long_passwords().swap_remove(i as usize);
        let dd = doc(Some(&seed_n(38)), None, &NETS).text();
        check(&manager(7), dd.as_bytes(), &a, &b, cx)?;
        check(&manager(7), dd.as_bytes(), &b, &a, cx)?;
        check(&manager(7), dd.as_bytes(), "old", &a, cx).map(|_| ())
    }));
    d.push(Domain::new("every kind of document", 7 * 10 * 2 * 7, |i, cx| {
        let k = digits(i, &[7, 10, 2, 7]);
        let mut nets = subset(k[0] + 1);
        nets.push(77);
        let ph = phrase_n(12, k[1] as u64, k[1].max(2) - 2);
        let mut dd = match k[1] {
            0 => doc(Some(&seed_n(39)), None, &nets),
            1 => doc(None, None, &nets),
            l => doc(None, Some((&ph, l - 2)), &nets),
        };
        if k[2] == 1 {
            dd = Doc { version: 1, seed: None, mnemonic: None, dictionary: None, ..dd };
        }
        let mut text = dd.text();
        if i % 3 == 0 {
            text = format!(" {} ", text.replace(",", " , "));
        }
        check(&manager(k[3] + 1), text.as_bytes(), "old", "new", cx).map(|_| ())
    }));
    const PW: [&str; 5] = ["", "a", "b", "A", "\u{e4}"];
    d.push(Domain::new("chains of changes, with wrong attempts between", 5u64.pow(4) * 5, |i, cx| {
        let k = digits(i, &[5, 5, 5, 5, 5]);
        let m = manager(7);
        let ph = phrase_n(12, 1, 0);
        let dd = doc(None, Some((&ph, 0)), &NETS).text();
        let mut cur = PW[k[0]];
        let mut c = sealed(dd.as_bytes(), cur);
        for j in 1..4 {
            let wrong = PW[k[4]];
            if wrong != cur {
                match change(&m, &c, wrong, PW[k[j]]) {
                    Err(Error::WrongPassword) => {}
                    r => return Err(format!("chain {:?}: wrong old password: {}", k, show(&r))),
                }
            }
            c = change(&m, &c, cur, PW[k[j]]).map_err(|e| format!("chain {:?}: {}", k, e))?;
            cur = PW[k[j]];
            for p in PW {
                let r = refm::unseal(&c, p);
                ensure!(r.is_some() == (p == cur), "chain {:?}: after step {}, {:?} opens: {}", k, j, p, r.is_some());
                if let Some(x) = r {
                    ensure!(x == dd.as_bytes(), "chain {:?}: contents changed", k);
                }
            }
            cx.steps(2);
            cx.state_of(&c);
        }
        let kc = m.keychain_from_data(&c, cur).map_err(|e| format!("chain {:?}: {}", k, e))?;
        ensure!(kc.networks().len() == 3, "chain {:?}: networks", k);
        Ok(())
    }));
    base(
        "C20",
        "the real change_password is applied to containers sealed by the model and its results are opened by the model: contents byte for byte, new password only; wrong old passwords are tried in every position; non-trivial when the passwords differ",
        "46 x 46 passwords; contents of every length; all kinds of documents x 7 managers; chains of three changes over five passwords with a wrong attempt before each",
        d,
    )
}

// ------------------------------------------------------------------ C24

fn docs24(k: usize) -> (Doc, usize, u32) {
    let ph = phrase_n(12, 4, 0);
    match k {
        0 => (doc(Some(&seed_n(40)), None, &[ADA, BTC]), 7, ETH),
        1 => (doc(None, Some((&ph, 0)), &[ETH]), 7, BTC),
        2 => (Doc { version: 1, ..doc(None, None, &[ADA, ETH]) }, 7, BTC),
        _ => (doc(Some(&seed_n(41)), None, &[ETH, 9]), 6, BTC),
    }
}
/// values a byte is replaced with
fn bytes24(th: bool) -> Vec<u8> {
    if th {
        return (0..=255).collect();
    }
    b"\x00\x1f \"'\\/,:[]{}-+.0123456789eEntfAZaz=_\x7f\x80\xc3\xff".to_vec()
}
pub fn c24(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let bs = bytes24(th);
    let nb = bs.len() as u64;
    let max = 1200u64;
    let bs1 = bs.clone();
    let nd = if th { 4 } else { 2 };
    d.push(Domain::new("every byte of the document replaced", nd * max * nb, move |i, cx| {
        let k = digits(i, &[nb, max, nd]);
        let (dd, bits, add) = docs24(if th { k[2] } else { [2, 3][k[2]] });
        let mut text = dd.text().into_bytes();
        if k[1] >= text.len() || text[k[1]] == bs1[k[0]] {
            return Ok(());
        }
        text[k[1]] = bs1[k[0]];
        judge(&text, bits, add, false, &|| format!("document {} with byte {} changed", k[2], k[1]), cx)
    }));
    let bs1 = bs.clone();
    d.push(Domain::new("every byte of the contents replaced", 4 * 800 * nb, move |i, cx| {
        let k = digits(i, &[nb, 800, 4]);
        let (dd, bits, add) = docs24(k[2]);
        let mut inner = dd.inner().into_bytes();
        if k[1] >= inner.len() || inner[k[1]] == bs1[k[0]] {
            return Ok(());
        }
        // inside the base64 of keys and seeds only a few
        let c = inner[k[1]];
        if !th && (c.is_ascii_alphanumeric() || c == b'+' || c == b'/') && k[1] % 7 != 0 && k[0] % 4 != 0 {
            return Ok(());
        }
        inner[k[1]] = bs1[k[0]];
        let text = format!("{{\"version\":{},\"data\":\"{}\"}}", dd.version, refm::b64(&inner));
        judge(text.as_bytes(), bits, add, false, &|| format!("contents {} with byte {} changed: {}", k[2], k[1], String::from_utf8_lossy(&inner)), cx)
    }));
    d.push(Domain::new("every truncation, deletion and repetition", 4 * 6 * 1200, |i, cx| {
        let k = digits(i, &[1200, 6, 4]);
        let (dd, bits, add) = docs24(k[2]);
        let inner = dd.inner().into_bytes();
        let outer = dd.text().into_bytes();
        let src = if k[1] < 3 { &outer } else { &inner };
        if k[0] >= src.len() {
            return Ok(());
        }
        let mut x = src.clone();
        match k[1] % 3 {
            0 => x.truncate(k[0]),
            1 => {
                x.remove(k[0]);
            }
            _ => x.insert(k[0], src[k[0]]),
        }
        let text = if k[1] < 3 { x } else { format!("{{\"version\":{},\"data\":\"{}\"}}", dd.version, refm::b64(&x)).into_bytes() };
        judge(&text, bits, add, false, &|| format!("document {} edited ({}) at {}", k[2], k[1], k[0]), cx)
    }));
    d.push(Domain::new("short contents", 65536 + 257, |i, cx| {
        let p: Vec<u8> = if i == 0 {
            vec![]
        } else if i <= 256 {
            vec![(i - 1) as u8]
        } else {
            vec![((i - 257) >> 8) as u8, (i - 257) as u8]
        };
        if i > 256 && i % 16 != 1 {
            // two bytes: mostly through one operation
            let c = sealed(&p, "pw");
            let m = manager(7);
            let r = caught(|| m.keychain_from_data(&c, "pw")).map_err(|e| format!("{}: {}", hex(&p), e))?;
            cx.step();
            ensure!(r.is_err() || classify(&p) == Class::Open, "{}: opened", hex(&p));
            return Ok(());
        }
        judge(&p, 7, ETH, false, &|| hex(&p), cx)
    }));
    // structured
    let vals: Vec<String> = vec![
        "null", "true", "0", "1", "2", "-1", "1.5", "\"\"", "\"x\"", "[]", "{}", "\"AAAA\"", "\"AA==\"", "\"AA=\"", "\"A\"", "\"====\"",
        "\"AA==AA==\"", "\"AAA\\u0041\"", "[[]]", "[null]", "[0]", "[[0]]", "[[0,\"AAAA\"]]", "[[2147483708,\"AAAA\"]]",
        "[[2147483648,\"AAAA\"]]", "[[2147485463,\"AAAA\"]]", "[[0,\"AAAA\",0]]", "[[\"0\",\"AAAA\"]]", "[[0,null]]", "[[0,[1,2]]]",
        "[[-1,\"AAAA\"]]", "[[4294967296,\"AAAA\"]]", "[[4294967295,\"AAAA\"]]", "[[0,\"AAA\"]]", "[{\"0\":\"AAAA\"}]", "{\"0\":\"AAAA\"}",
        "[[0,\"\"],[1,\"\"]]", "[[2147483708,\"\"]]", "\"English\"", "\"english\"", "\"Klingon\"", "\"Spanish\"", "\" English\"", "\"English\\u0000\"",
        "\"abandon\"", "\"abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about\"",
        "\"abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon\"",
        "\"abandon  abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about\"",
        "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "1e400", "18446744073709551616",
    ]
    .into_iter()
    .map(|s| s.to_string())
    .collect();
    let mut vals = vals;
    for n in [0usize, 1, 31, 32, 63, 64, 65, 76, 77, 78, 95, 96, 97, 128] {
        vals.push(format!("\"{}\"", refm::b64(&vec![7u8; n])));
    }
    for n in NETS {
        vals.push(format!("[[{},\"{}\"]]", n, refm::b64(&refm::stored_key(n, &seed_n(42)))));
        for m in NETS {
            if m != n {
                vals.push(format!("[[{},\"{}\"]]", n, refm::b64(&refm::stored_key(m, &seed_n(42)))));
            }
        }
    }
    vals.push(String::new()); // the member is left out
    let nv = vals.len() as u64;
    let v1 = vals.clone();
    let fields = ["seed", "mnemonic", "dictionary", "keys"];
    fn inner_with(set: &[(&str, &str)]) -> String {
        let s0 = format!("\"{}\"", refm::b64(&seed_n(43)));
        let k0 = format!("[[{},\"{}\"]]", ADA, refm::b64(&refm::stored_key(ADA, &seed_n(43))));
        let mut f = vec![("seed", s0.as_str()), ("mnemonic", "null"), ("dictionary", "null"), ("keys", k0.as_str())];
        for (n, v) in set {
            f.iter_mut().find(|x| x.0 == *n).unwrap().1 = v;
        }
        let m: Vec<String> = f.iter().filter(|x| !x.1.is_empty()).map(|x| format!("\"{}\":{}", x.0, x.1)).collect();
        format!("{{{}}}", m.join(","))
    }
    d.push(Domain::new("every value in every member", nv * 4 * 3, move |i, cx| {
        let k = digits(i, &[nv, 4, 3]);
        let mut set = vec![(fields[k[1]], v1[k[0]].as_str())];
        if k[2] == 1 && k[1] != 0 {
            set.push(("seed", "null"));
        }
        if k[2] == 2 {
            if k[1] != 0 {
                set.push(("seed", "null"));
            }
            if k[1] != 1 {
                set.push(("mnemonic", v1[45].as_str()));
            }
            if k[1] != 2 {
                set.push(("dictionary", "\"English\""));
            }
        }
        let inner = inner_with(&set);
        judge(wrap(2, &inner).as_bytes(), 7, ETH, true, &|| format!("contents {}", inner), cx)?;
        judge(wrap(1, &inner).as_bytes(), 3, ETH, false, &|| format!("version 1 contents {}", inner), cx)
    }));
    let v1 = vals.clone();
    d.push(Domain::new("every pair of values for phrase and language", nv * nv, move |i, cx| {
        let k = digits(i, &[nv, nv]);
        let inner = inner_with(&[("seed", "null"), ("mnemonic", &v1[k[0]]), ("dictionary", &v1[k[1]])]);
        judge(wrap(2, &inner).as_bytes(), 7, BTC, false, &|| format!("contents {}", inner), cx)
    }));
    let v1 = vals.clone();
    d.push(Domain::new("every value as the document, its version or its data", nv * 3, move |i, cx| {
        let k = digits(i, &[nv, 3]);
        let good = refm::b64(inner_with(&[]).as_bytes());
        let text = match k[1] {
            0 => v1[k[0]].clone(),
            1 => format!("{{\"version\":{},\"data\":\"{}\"}}", v1[k[0]], good),
            _ => format!("{{\"version\":2,\"data\":{}}}", v1[k[0]]),
        };
        judge(text.as_bytes(), 7, ETH, false, &|| format!("document {}", text), cx)
    }));
    // equivalent spellings
    d.push(Domain::new("equivalent spellings", 4 * 24 * 12, |i, cx| {
        let k = digits(i, &[4, 24, 12]);
        let (dd, bits, add) = docs24(k[0]);
        let perm = {
            let mut v = vec![0, 1, 2, 3];
            let mut o = vec![];
            let mut j = k[1];
            for n in (1..=4).rev() {
                let f: usize = (1..n).product();
                o.push(v.remove(j / f % n));
                j %= f;
            }
            o
        };
        let o: Value = serde_json::from_str(&dd.inner()).unwrap();
        let names = ["seed", "mnemonic", "dictionary", "keys"];
        let esc = |s: &str| -> String {
            match k[2] % 4 {
                0 => serde_json::to_string(s).unwrap(),
                1 => {
                    let t: String = s.encode_utf16().map(|c| format!("\\u{:04x}", c)).collect();
                    format!("\"{}\"", t)
                }
                2 => serde_json::to_string(s).unwrap().replace("/", "\\/"),
                _ => {
                    let t: String = s.encode_utf16().map(|c| format!("\\u{:04X}", c)).collect();
                    format!("\"{}\"", t)
                }
            }
        };
        let sp = [["", ""], [" ", ""], ["\n\t", "\r "]][k[2] / 4];
        fn put(v: &Value, esc: &dyn Fn(&str) -> String, sp: &[&str; 2]) -> String {
            match v {
                Value::String(s) => esc(s),
                Value::Array(a) => format!(
                    "[{}{}{}]",
                    sp[0],
                    a.iter().map(|x| put(x, esc, sp)).collect::<Vec<_>>().join(&format!("{},{}", sp[1], sp[0])),
                    sp[1]
                ),
                v => v.to_string(),
            }
        }
        let mem: Vec<String> = perm
            .iter()
            .filter_map(|j| {
                let n = names[*j];
                o.get(n).map(|v| format!("{}{}{}:{}{}", sp[0], esc(n), sp[1], sp[0], put(v, &esc, &sp)))
            })
            .collect();
        let inner = format!("{}{{{}{}}}{}", sp[0], mem.join(","), sp[1], sp[0]);
        let data = esc(&refm::b64(inner.as_bytes()));
        let text = if k[1] % 2 == 0 {
            format!("{}{{{}:{}{},{}:{}}}{}", sp[0], esc("version"), dd.version, sp[1], esc("data"), data, sp[1])
        } else {
            format!("{}{{{}:{},{}{}:{}{}}}", sp[1], esc("data"), data, sp[0], esc("version"), sp[0], dd.version)
        };
        let class = classify(text.as_bytes());
        ensure!(class == Class::Valid(dd.clone()), "model: spelling {}", text);
        judge(text.as_bytes(), bits, add, true, &|| format!("spelling {} of {}", text, inner), cx)
    }));
    let v1: Vec<String> = vals.clone();
    d.push(Domain::new("every value as the keys of version 1", nv * 7, move |i, cx| {
        let k = digits(i, &[nv, 7]);
        if v1[k[0]].is_empty() {
            return judge(wrap(1, "{}").as_bytes(), k[1] + 1, ETH, false, &|| "no keys".into(), cx);
        }
        let inner = format!("{{\"keys\":{}}}", v1[k[0]]);
        judge(wrap(1, &inner).as_bytes(), k[1] + 1, ETH, true, &|| format!("version 1 contents {}", inner), cx)
    }));
    d.push(Domain::new("stored keys of every size, in both versions", 2 * 3 * 160 * 4, |i, cx| {
        let k = digits(i, &[2, 3, 160, 4]);
        let n = NETS[k[1]];
        // one key of that many bytes, beside the others or alone
        let mut dd = doc(None, None, if k[3] & 1 == 0 { &NETS } else { &[] });
        dd.version = 1 + k[0] as u64;
        dd.keys.retain(|x| x.0 != n);
        let good = refm::stored_key(n, &seed_n(45));
        dd.keys.push((n, good.iter().cloned().chain(std::iter::repeat(0)).take(k[2]).collect()));
        dd.keys.sort();
        let bits = if k[3] & 2 == 0 { 7 } else { 1 << k[1] };
        judge(dd.text().as_bytes(), bits, NETS[(k[1] + 1) % 3], true, &|| format!("{} key of {} bytes in version {}", refm::net_name(n), k[2], dd.version), cx)
    }));
    d.push(Domain::new("keys of unknown networks are kept", 12 * 7 * 3, |i, cx| {
        let k = digits(i, &[12, 7, 3]);
        let unknown = [0, 1, 5, 1815, 60, 0x7fff_ffff, 0x8000_0001, 0x8000_003b, 0x8000_003d, 0x8000_0716, 0xffff_ffff, 44][k[0]];
        let bits = k[1] + 1;
        let add = NETS[k[2]];
        let mut dd = doc(Some(&seed_n(44)), None, &NETS.iter().cloned().filter(|n| *n != add).collect::<Vec<_>>());
        for (j, l) in [(0u32, 0usize), (7, 1), (9, 500)] {
            dd.keys.push((unknown ^ (j << 8), vec![0xee; l]));
        }
        dd.keys.sort();
        judge(dd.text().as_bytes(), bits, add, true, &|| format!("unknown network {:x}", unknown), cx)
    }));
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("big valid wallets", nbig * 5, move |i, cx| {
        let k = digits(i, &[5, nbig]);
        let n = big_sizes()[k[1]].min(200_001);
        let add = NETS[k[1] % 3];
        let mut dd = doc(Some(&seed_n(44)), None, &NETS.iter().cloned().filter(|x| *x != add).collect::<Vec<_>>());
        let mut text = None;
        match k[0] {
            0 => dd.keys.push((7, bytes_n(n, 2))),
            1 => dd.keys.extend((0..n as u32 / 50).map(|j| (j.wrapping_mul(0x9e37_79b1) | 3, bytes_n(8, 3)))),
            2 => text = Some(dd.text() + &" ".repeat(n)),
            3 => text = Some("\n".repeat(n) + &dd.text()),
            _ => text = Some(dd.text().replace(":", &format!(":{}", "\t".repeat(n / 20)))),
        }
        dd.keys.sort();
        dd.keys.dedup_by_key(|x| x.0);
        let text = text.unwrap_or_else(|| dd.text());
        judge(text.as_bytes(), 7, add, true, &|| format!("big wallet {:?} of {} bytes", k, text.len()), cx)
    }));
    d.push(Domain::new("deep and long documents", 60, |i, cx| {
        let n = [10usize, 100, 126, 127, 128, 129, 200, 1000, 10_000, 50_000][(i % 10) as usize];
        let text = match i / 10 {
            0 => "[".repeat(n),
            1 => format!("{}{}", "[".repeat(n), "]".repeat(n)),
            2 => "{\"version\":".repeat(n),
            3 => wrap(2, &"[".repeat(n)),
            4 => wrap(2, &format!("{{\"seed\":null,\"mnemonic\":null,\"dictionary\":null,\"keys\":{}{}}}", "[".repeat(n), "]".repeat(n))),
            _ => {
                let e: Vec<String> = (0..n.min(3000)).map(|j| format!("[{},\"AAAA\"]", j)).collect();
                wrap(2, &format!("{{\"seed\":null,\"mnemonic\":null,\"dictionary\":null,\"keys\":[{}]}}", e.join(",")))
            }
        };
        judge(text.as_bytes(), 7, ETH, false, &|| format!("deep {}", i), cx)
    }));
    base(
        "C24",
        "contents sealed by the model under the right password are opened, backed up and extended by the real code; an own reading of the format sorts them into invalid (all four operations must give errors), valid (answers must equal the model's) and left open (no panic only: repeated or unknown members, array forms, floats, loose base64, missing optional members); non-trivial when the contents differ from a valid document",
        "every byte of 4 documents and their contents replaced by 41 (thorough 256) values; all truncations, deletions, repetitions; all contents of up to 2 bytes; ~75 values in every member and pair of phrase and language; all member orders x escapes x blanks; unknown networks; nesting to 50000",
        d,
    )
}
#[allow(dead_code)]
pub fn keep(n: u32) -> Box<dyn keychain::KeyFactory> {
    factory(n)
}
