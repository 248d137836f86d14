//! C32-C35: values, the user's own word lists and networks, no traces.
use super::base;
use super::cont::{doc, scripted, sealed};
use super::ffi::{at, cs, Hands, NULL};
use super::keys::{factory, wallet};
use crate::cffi::{invoke, Buf, Call, Raw, Val};
use crate::engine::*;
use crate::env::{self, stream_byte, Ans};
use crate::refm::{self, net, Doc, ADA, BTC, ETH, H, NETS, SIZES};
use crate::trace::traced;
use crate::util::*;
use bip39::dictionary::{DefaultDictionary, Error as DictError, Language as Lang};
use bip39::{Entropy, MnemonicIndex, MnemonicString, Mnemonics, Seed, Type};
use keychain::{Error, GenericKeyPath, Key, KeyError, KeyFactory, KeyPath, Keychain, KeychainManager, Network, SeedSize};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

// ------------------------------------------------------------------ C32

/// Are two values equal, said both ways round?
fn eq_both<T: PartialEq>(a: &T, b: &T) -> Result<bool, String> {
    let e = a == b;
    ensure!((b == a) == e, "equal one way round only");
    ensure!((a != b) == !e && (b != a) == !e, "both equal and unequal");
    Ok(e)
}
/// The answer of a comparison, and the operators' agreement with it.
fn cmp_both<T: Ord>(a: &T, b: &T) -> Result<Ordering, String> {
    let o = a.cmp(b);
    ensure!(b.cmp(a) == o.reverse(), "ordered {:?} one way and {:?} the other", o, b.cmp(a));
    ensure!(a.partial_cmp(b) == Some(o), "partial order {:?}, order {:?}", a.partial_cmp(b), o);
    ensure!((a < b) == (o == Ordering::Less) && (a <= b) == (o != Ordering::Greater), "operators and order differ");
    ensure!((a == b) == (o == Ordering::Equal), "equality and order differ");
    Ok(o)
}
fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn ent(b: &[u8]) -> Result<Entropy, String> {
    Entropy::from_slice(b).map_err(|e| format!("entropy {}: {}", hex(b), e))
}
fn seed64(b: &[u8]) -> Result<Seed, String> {
    Seed::from_slice(b).map_err(|e| format!("seed {}: {}", hex(b), e))
}
fn back(size: usize, bg: usize) -> Vec<u8> {
    match bg {
        0 => vec![0; size],
        1 => vec![0xff; size],
        2 => (0..size).map(|j| j as u8).collect(),
        bg => (0..size).map(|j| stream_byte(0xc32 + bg as u64, j as u64)).collect(),
    }
}
fn ent_pair(a: &[u8], b: &[u8], cx: &mut Cx) -> R {
    let (x, y) = (ent(a)?, ent(b)?);
    let t = |e: String| format!("entropies {} and {}: {}", hex(a), hex(b), e);
    let e = eq_both(&x, &y).map_err(t)?;
    ensure!(e == (a == b), "entropies {} and {} are {}", hex(a), hex(b), if e { "equal" } else { "unequal" });
    cmp_both(&x, &y).map_err(t)?;
    cx.steps(2);
    cx.outcome(if e { "equal" } else { "unequal" });
    Ok(())
}
fn seed_pair(a: &[u8], b: &[u8], cx: &mut Cx) -> R {
    let (x, y) = (seed64(a)?, seed64(b)?);
    let e = eq_both(&x, &y).map_err(|e| format!("seeds {} and {}: {}", hex(a), hex(b), e))?;
    ensure!(e == (a == b), "seeds {} and {} are {}", hex(a), hex(b), if e { "equal" } else { "unequal" });
    cx.step();
    cx.outcome(if e { "equal" } else { "unequal" });
    Ok(())
}
/// The entropies whose order is looked at in threes.
fn order_set() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for s in SIZES {
        for bg in 0..4 {
            v.push(back(s, bg));
        }
        for p in [0, 1, s / 2, s - 1] {
            let mut x = vec![0; s];
            x[p] = 1;
            v.push(x.clone());
            x[p] = 0x80;
            v.push(x);
        }
    }
    v
}
fn index_list(n: usize, k: usize) -> Vec<u16> {
    (0..n).map(|j| stream_byte(0x1d0 + k as u64, 2 * j as u64) as u16 | (stream_byte(0x1d0 + k as u64, 2 * j as u64 + 1) as u16 & 7) << 8).collect()
}
fn mn(v: &[u16]) -> Result<Mnemonics, String> {
    Mnemonics::from_mnemonics(v.iter().map(|n| MnemonicIndex(*n)).collect()).map_err(|e| format!("{:?}: {}", v, e))
}
/// Decimal numbers in a text.
fn numbers(s: &str) -> Vec<String> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
}
fn edges32() -> Vec<u32> {
    let mut v: Vec<u32> = (0..=64).collect();
    for k in 5..=32u64 {
        for d in [-2i64, -1, 0, 1, 2] {
            v.push(((1i64 << k) + d) as u64 as u32);
        }
    }
    v.extend_from_slice(&NETS);
    v.extend(NETS.iter().flat_map(|n| [n + 1, n.wrapping_sub(1), n & 0x7fff_ffff, n.swap_bytes(), n.rotate_left(8), n.rotate_left(16)]));
    let mut p = 10u64;
    while p < 1 << 32 {
        v.extend_from_slice(&[p as u32, p as u32 - 1]);
        p *= 10;
    }
    uniq32(v)
}
const TYPES: [Type; 6] = [Type::Type9Words, Type::Type12Words, Type::Type15Words, Type::Type18Words, Type::Type21Words, Type::Type24Words];

pub fn c32(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let bgs: u64 = if th { 12 } else { 4 };
    // entropies that differ in one or two bits
    d.push(Domain::new("entropies with two bits changed", 6 * bgs * 257, move |i, cx| {
        let k = digits(i, &[6, bgs, 257]);
        let s = SIZES[k[0]];
        if k[2] > 8 * s {
            return Ok(());
        }
        let a = back(s, k[1]);
        let flip = |v: &mut Vec<u8>, b: usize| {
            if b < 8 * s {
                v[b / 8] ^= 0x80 >> (b % 8)
            }
        };
        let mut b = a.clone();
        flip(&mut b, k[2]);
        cx.state_of(&b);
        for j in 0..=k[2] {
            let mut c = b.clone();
            flip(&mut c, j);
            ent_pair(&a, &c, cx)?;
        }
        Ok(())
    }));
    d.push(Domain::new("entropies of different sizes", 36 * 8 * 3, |i, cx| {
        let k = digits(i, &[6, 6, 8, 3]);
        let (s, l) = (SIZES[k[0]], SIZES[k[1]]);
        let long = back(32, k[2]);
        // one the beginning, the end, or the zero-filled copy of the other
        let (a, b) = match k[3] {
            0 => (long[..s].to_vec(), long[..l].to_vec()),
            1 => (long[32 - s..].to_vec(), long[32 - l..].to_vec()),
            _ => {
                let mut b = vec![0; l];
                let n = s.min(l);
                b[..n].copy_from_slice(&long[..n]);
                (long[..s].to_vec(), b)
            }
        };
        ent_pair(&a, &b, cx)
    }));
    let set = order_set();
    let n = set.len() as u64;
    d.push(Domain::new("the order of any three entropies", n * n, move |i, cx| {
        let (a, b) = (ent(&set[(i / n) as usize])?, ent(&set[(i % n) as usize])?);
        let o = cmp_both(&a, &b).map_err(|e| format!("{} and {}: {}", a, b, e))?;
        for c in set.iter() {
            let c = ent(c)?;
            if o != Ordering::Greater && b <= c {
                ensure!(a <= c, "{} <= {} <= {}, but not the first and last", a, b, c);
                if o == Ordering::Less {
                    ensure!(a < c, "{} < {} <= {}, but not the first and last", a, b, c);
                }
            }
            cx.step();
        }
        cx.outcome(&format!("{:?}", o));
        Ok(())
    }));
    d.push(Domain::new("copies of entropies", 6 * 32 * 256, |i, cx| {
        let k = digits(i, &[6, 32, 256]);
        let s = SIZES[k[0]];
        if k[1] >= s {
            return Ok(());
        }
        let mut b = back(s, 3);
        b[k[1]] = k[2] as u8;
        let e = ent(&b)?;
        let want = hex(&b);
        ensure!(format!("{}", e) == want && format!("{:?}", e) == want, "entropy {} prints as {} and {:?}", want, e, e);
        let c = e.clone();
        let c2 = c.clone();
        ensure!(c == e && c.as_ref() == &b[..] && c.get_type() == TYPES[k[0]], "a copy of {} is {}", want, c);
        drop(e);
        ensure!(c.as_ref() == &b[..], "a copy of {} became {} when the original was dropped", want, hex(c.as_ref()));
        drop(c2);
        ensure!(c.as_ref() == &b[..] && &*c == &b[..], "a copy of {} became {} when another copy was dropped", want, hex(c.as_ref()));
        cx.steps(4);
        cx.state_of(&b);
        Ok(())
    }));
    d.push(Domain::new("seeds with two bits changed", bgs * 513, move |i, cx| {
        let a = back(64, (i / 513) as usize);
        let j = (i % 513) as usize;
        let mut b = a.clone();
        if j < 512 {
            b[j / 8] ^= 0x80 >> (j % 8);
        }
        cx.state_of(&b);
        for l in 0..=j {
            let mut c = b.clone();
            if l < 512 {
                c[l / 8] ^= 0x80 >> (l % 8);
            }
            seed_pair(&a, &c, cx)?;
        }
        Ok(())
    }));
    d.push(Domain::new("seeds with two bytes changed", 64 * 64 * 2, |i, cx| {
        let k = digits(i, &[64, 64, 2]);
        let a = back(64, 2 + k[2]);
        for x in 1..=255u8 {
            // the changes cancel each other in an exclusive or, in a sum
            for m in 0..3 {
                let mut b = a.clone();
                match m {
                    0 => {
                        b[k[0]] ^= x;
                        b[k[1]] ^= x;
                    }
                    1 => {
                        b[k[0]] = b[k[0]].wrapping_add(x);
                        b[k[1]] = b[k[1]].wrapping_sub(x);
                    }
                    _ => b.swap(k[0], k[1]),
                }
                seed_pair(&a, &b, cx)?;
            }
        }
        // the same part at another place
        let mut b = a.clone();
        b.rotate_left(k[0]);
        if k[1] % 2 == 1 {
            b.reverse();
        }
        cx.state_of(&b);
        seed_pair(&a, &b, cx)
    }));
    d.push(Domain::new("seeds in print", 64 * 256, |i, cx| {
        let mut b = back(64, 3);
        b[(i / 256) as usize] = i as u8;
        let s = seed64(&b)?;
        let mut a = [0; 64];
        a.copy_from_slice(&b);
        let s2 = Seed::from_bytes(a);
        let want = hex(&b);
        ensure!(format!("{}", s) == want && format!("{:?}", s) == want, "seed {} prints as {} and {:?}", want, s, s);
        ensure!(s == s2 && s.as_ref() == &b[..] && &*s2 == &b[..], "seed {} is kept as {} and {}", want, hex(s.as_ref()), hex(&s2));
        drop(s);
        ensure!(s2.as_ref() == &b[..], "seed {} became {} when its twin was dropped", want, hex(&s2));
        cx.steps(4);
        cx.state_of(&b);
        Ok(())
    }));
    d.push(Domain::new("lists of word numbers", 6 * 24 * 24 * 8, |i, cx| {
        let k = digits(i, &[6, 24, 24, 8]);
        let n = SIZES[k[0]] * 3 / 4;
        if k[1] >= n || k[2] >= n {
            return Ok(());
        }
        let a = index_list(n, 1);
        let mut b = a.clone();
        match k[3] {
            0 => b.swap(k[1], k[2]),
            1 => {
                b[k[1]] ^= 1;
                b[k[2]] ^= 1;
            }
            2 => b[k[1]] ^= 1 << (k[2] % 11),
            3 => b[k[1]] = 0,
            4 => b[k[1]] = 2047,
            5 => b[k[1]..].rotate_left(k[2].min(n - k[1] - 1)),
            6 => b = a[..n].to_vec(),
            _ => b = index_list(SIZES[k[2] % 6] * 3 / 4, 1),
        }
        let (x, y) = (mn(&a)?, mn(&b)?);
        let e = eq_both(&x, &y).map_err(|e| format!("{:?} and {:?}: {}", a, b, e))?;
        ensure!(e == (a == b), "word numbers {:?} and {:?} are {}", a, b, if e { "equal" } else { "unequal" });
        let c = y.clone();
        ensure!(c == y, "a copy of {:?} differs", b);
        drop(y);
        ensure!(c.as_ref().iter().map(|x| x.0).collect::<Vec<_>>() == b, "a copy of {:?} is {:?}", b, c);
        cx.steps(3);
        cx.outcome(if e { "equal" } else { "unequal" });
        cx.state(hash(format!("{:?}", b).as_bytes()));
        Ok(())
    }));
    d.push(Domain::new("every two word numbers", 2048, |i, cx| {
        let a = MnemonicIndex::new(i as u16).map_err(|e| e.to_string())?;
        ensure!(a.0 == i as u16, "word number {} kept as {}", i, a.0);
        for j in 0..2048u16 {
            let b = MnemonicIndex::new(j).map_err(|e| e.to_string())?;
            ensure!((a == b) == (i as u16 == j), "word numbers {} and {}", i, j);
            ensure!(a.cmp(&b) == (i as u16).cmp(&j) && a.partial_cmp(&b) == Some((i as u16).cmp(&j)), "order of word numbers {} and {}", i, j);
            cx.step();
        }
        cx.state(i);
        Ok(())
    }));
    // phrases
    d.push(Domain::new("phrases", 8 * 6 * 64, |i, cx| {
        let k = digits(i, &[8, 6, 64]);
        let (l, n) = (k[0], SIZES[k[1]] * 3 / 4);
        let text = |e: &[u8]| refm::phrase(&refm::words(e), l);
        let mut eb = back(SIZES[k[1]], 3);
        let a = text(&eb);
        let b = match k[2] {
            0 => a.clone(),
            1..=31 => {
                let w = k[2] % n;
                eb[w] ^= 1;
                text(&eb)
            }
            32..=40 => text(&back(SIZES[k[2] % 6], 3)),
            41 => text(&back(SIZES[k[1]], 0)),
            42 => text(&back(SIZES[k[1]], 1)),
            _ => {
                let mut w: Vec<&str> = a.split(' ').collect();
                w.swap(k[2] % n, 0);
                w.join(" ")
            }
        };
        let mk = |s: &str| MnemonicString::new(LANGS[l].to_dict(), s.into()).map_err(|e| format!("'{}': {}", s, e));
        let (x, y) = (mk(&a)?, mk(&b)?);
        let e = eq_both(&x, &y).map_err(|e| format!("'{}' and '{}': {}", a, b, e))?;
        ensure!(e == (a == b), "phrases '{}' and '{}' are {}", a, b, if e { "equal" } else { "unequal" });
        cmp_both(&x, &y).map_err(|e| format!("'{}' and '{}': {}", a, b, e))?;
        ensure!(format!("{}", y) == b && &*y == b, "phrase '{}' prints as '{}'", b, y);
        let c = y.clone();
        drop(y);
        ensure!(&*c == b && format!("{}", c) == b, "a copy of '{}' is '{}'", b, c);
        cx.steps(4);
        cx.outcome(if e { "equal" } else { "unequal" });
        cx.state_of(b.as_bytes());
        Ok(())
    }));
    // kinds of phrases
    const CHARS: &[u8] = b"0123456789 +-.,w\t\n\0abtypeTYPE_";
    let nc = CHARS.len() as u64;
    d.push(Domain::new("kinds of phrases and their names", 1 + nc + nc * nc + nc * nc * nc + 7 * 32, move |i, cx| {
        let mut s = String::new();
        let m = nc * nc * nc;
        if i < 1 + nc + nc * nc + m {
            let (len, mut r) = if i == 0 { (0, 0) } else if i <= nc { (1, i - 1) } else if i <= nc + nc * nc { (2, i - 1 - nc) } else { (3, i - 1 - nc - nc * nc) };
            for _ in 0..len {
                s.push(CHARS[(r % nc) as usize] as char);
                r /= nc;
            }
        } else {
            let k = i - (1 + nc + nc * nc + m);
            let w = ["9", "12", "15", "18", "21", "24", "6"][(k % 7) as usize];
            s = match k / 7 {
                0 => format!("{} words", w),
                1 => format!("Type{}Words", w),
                2 => format!("{}{}", w, w),
                3 => format!("{}\u{0}", w),
                4 => format!("{}.0", w),
                5 => format!("-{}", w),
                6 => w.chars().rev().collect(),
                7 => w.chars().map(|c| char::from_u32(c as u32 + 0xfee0).unwrap()).collect(),
                8 => w.chars().map(|c| char::from_u32(c as u32 - 48 + 0x660).unwrap()).collect(),
                n => (w.parse::<u64>().unwrap() + (n - 8) * 256).to_string(),
            };
        }
        let r = s.parse::<Type>();
        cx.step();
        match TYPES.iter().find(|t| t.mnemonic_count().to_string() == s) {
            Some(t) => {
                ensure!(r == Ok(*t), "'{}' is read as {:?}", s, r);
                ensure!(t.to_string() == s, "{:?} prints as {}", t, t);
                cx.outcome("read");
            }
            None => {
                ensure!(r.is_err(), "'{}' is read as {:?}", s, r);
                cx.outcome("refused");
            }
        }
        cx.state_of(s.as_bytes());
        Ok(())
    }));
    d.push(Domain::new("two kinds of phrases", 36, |i, cx| {
        let (a, b) = (i as usize / 6, i as usize % 6);
        let (x, y) = (TYPES[a], TYPES[b]);
        ensure!(eq_both(&x, &y)? == (a == b), "{:?} and {:?}", x, y);
        cmp_both(&x, &y)?;
        let words = [9, 12, 15, 18, 21, 24];
        ensure!(x.mnemonic_count() == words[a] && x.to_key_size() == words[a] / 3 * 32 && x.checksum_size_bits() == words[a] / 3, "sizes of {:?}", x);
        ensure!(Type::default() == Type::Type18Words, "the default is {:?}", Type::default());
        cx.steps(3);
        Ok(())
    }));
    // network numbers
    let e = edges32();
    let n = e.len() as u64;
    d.push(Domain::new("every two of many network numbers", n, move |i, cx| {
        let a = Network(e[i as usize]);
        let copy = a;
        ensure!(copy == a && copy.0 == e[i as usize] && hash_of(&copy) == hash_of(&a), "a copy of {:?}", a);
        ensure!(numbers(&a.to_string()) == vec![a.0.to_string()], "network {} prints as {}", a.0, a);
        let j = serde_json::to_string(&a).map_err(|e| e.to_string())?;
        ensure!(j == a.0.to_string(), "network {} is written as {}", a.0, j);
        let b: Network = serde_json::from_str(&j).map_err(|e| format!("{}: {}", j, e))?;
        ensure!(b == a, "network {} is read as {}", j, b);
        let set: HashSet<Network> = e.iter().map(|x| Network(*x)).collect();
        ensure!(set.len() == e.len() && set.contains(&a), "network {} gets lost in a set", a.0);
        for x in e.iter() {
            let b = Network(*x);
            ensure!(eq_both(&a, &b)? == (a.0 == *x), "networks {} and {}", a.0, x);
            if a.0 != *x {
                ensure!(a.to_string() != b.to_string(), "networks {} and {} print alike", a.0, x);
            }
            cx.step();
        }
        cx.state(a.0 as u64);
        Ok(())
    }));
    d.push(Domain::new("two languages", 64, |i, cx| {
        let (a, b) = (LANGS[i as usize / 8], LANGS[i as usize % 8]);
        ensure!(eq_both(&a, &b)? == (i / 8 == i % 8), "{:?} and {:?}", a, b);
        ensure!((hash_of(&a) == hash_of(&b)) == (i / 8 == i % 8), "hashes of {:?} and {:?}", a, b);
        ensure!(a as u32 == (i / 8) as u32, "{:?} has number {}", a, a as u32);
        let j = serde_json::to_string(&a).map_err(|e| e.to_string())?;
        ensure!(j == format!("\"{}\"", refm::LANG_NAMES[i as usize / 8]), "{:?} is written as {}", a, j);
        let c: keychain::Language = serde_json::from_str(&j).map_err(|e| e.to_string())?;
        ensure!(c == a, "{} is read as {:?}", j, c);
        ensure!(keychain::Language::default() == LANGS[0], "the default is {:?}", keychain::Language::default());
        cx.steps(4);
        Ok(())
    }));
    // what errors say
    d.push(Domain::new("numbers in errors", 70_000, |i, cx| {
        let n = i as usize;
        let has = |s: String, n: String, what: &str| -> R {
            ensure!(numbers(&s).contains(&n), "the error of {} {} reads '{}'", what, n, s);
            Ok(())
        };
        if let Err(e) = Type::from_word_count(n) {
            ensure!(e == bip39::Error::WrongNumberOfWords(n), "{} words: {:?}", n, e);
            has(e.to_string(), n.to_string(), "number of words")?;
        }
        if let Err(e) = Type::from_entropy_size(n) {
            ensure!(e == bip39::Error::WrongKeySize(n), "{} bits: {:?}", n, e);
            has(e.to_string(), n.to_string(), "entropy size")?;
        }
        if n < 65_536 {
            if let Err(e) = MnemonicIndex::new(n as u16) {
                ensure!(e == bip39::Error::MnemonicOutOfBound(n as u16), "word number {}: {:?}", n, e);
                has(e.to_string(), n.to_string(), "word number")?;
            }
        }
        if n != 64 && n < 4000 {
            let e = Seed::from_slice(&vec![0; n]).err().ok_or(format!("a seed of {} bytes", n))?;
            ensure!(e == bip39::Error::InvalidSeedSize(n), "{} bytes: {:?}", n, e);
            has(e.to_string(), n.to_string(), "seed size")?;
            has(e.to_string(), "64".into(), "seed size")?;
        }
        if n < 65_536 {
            let (a, b) = ((n / 256) as u8, n as u8);
            let e = bip39::Error::InvalidChecksum(a, b);
            let s = e.to_string();
            let at: Vec<String> = numbers(&s);
            ensure!(at == vec![format!("{:08b}", a), format!("{:08b}", b)], "checksums {} and {} read '{}'", a, b, s);
        }
        cx.steps(5);
        cx.state(i);
        Ok(())
    }));
    let e = edges32();
    d.push(Domain::new("what a wallet's errors say", e.len() as u64, move |i, cx| {
        let n = e[i as usize];
        let w = Network(n);
        let name = w.to_string();
        // network, size and word errors name what they are about
        for (e, k) in [
            (Error::KeyDoesNotExist(w), "missing"),
            (Error::KeyAlreadyExist(w), "present"),
            (Error::NetworkIsNotSupported(w), "unsupported"),
            (Error::KeyError(w, KeyError::InvalidKeySize(71, 96)), "key"),
        ] {
            ensure!(e.to_string().contains(&name), "the error of a {} network {} reads '{}'", k, n, e);
        }
        let (a, b) = (n as usize, e[(i as usize * 7 + 3) % e.len()] as usize);
        for (e, want) in [
            (Error::InvalidSeedSize(a), vec![a]),
            (Error::CantCalculateSeedSize(a, b), vec![a, b]),
            (Error::KeyError(w, KeyError::InvalidKeySize(a, b)), vec![a, b]),
            (Error::KeyError(w, KeyError::InvalidSignatureSize(a, b)), vec![a, b]),
        ] {
            let have = numbers(&e.to_string());
            ensure!(want.iter().all(|x| have.contains(&x.to_string())), "the error of {:?} reads '{}'", want, e);
        }
        cx.steps(8);
        cx.state(n as u64);
        Ok(())
    }));
    d.push(Domain::new("phrases too short and too long", 7 * 6 * 8, |i, cx| {
        let k = digits(i, &[7, 6, 8]);
        let (bits, n, l) = (k[0] + 1, SIZES[k[1]] * 3 / 4, k[2]);
        let want = manager_words(bits);
        let e = match manager(bits).keychain_data_from_mnemonic(&phrase_n(n, 5, l), "pw", Some(LANGS[l])) {
            Ok(_) => {
                ensure!(n == want, "{} words accepted for {}", n, want);
                return Ok(());
            }
            Err(e) => e.to_string(),
        };
        ensure!(n != want, "{} words refused: {}", n, e);
        let has = numbers(&e);
        ensure!(has.contains(&n.to_string()) && has.contains(&want.to_string()), "{} words for {}: '{}'", n, want, e);
        // it says which of the two it is
        let (s, l) = (e.contains("short"), e.contains("long"));
        ensure!(s == (n < want) && l == (n > want), "{} words for {}: '{}'", n, want, e);
        cx.step();
        cx.outcome(if n < want { "too short" } else { "too long" });
        cx.state_of(e.as_bytes());
        Ok(())
    }));
    base(
        "C32",
        "two values must be equal exactly when their bytes, words, numbers or texts are, ordered consistently with that, equal to their copies, unchanged by the end of other copies, and print exactly what they are; non-trivial when a comparison with an unequal partner or a refusal is decided",
        &format!("all entropies and seeds within two changed bits of {} backgrounds, all pairs of bytes of a seed changed alike; all pairs of 2048 word numbers; all texts of up to 3 of {} characters as a kind of phrase; {} network numbers", bgs, nc, n),
        d,
    )
}

// ------------------------------------------------------------------ C33

/// A word list of the user's own, with a record of what was looked up in it.
struct Own {
    name: &'static str,
    sep: &'static str,
    words: Rc<Vec<String>>,
    no: Rc<HashMap<String, u16>>,
    asked: RefCell<Vec<String>>,
}
impl Lang for Own {
    fn name(&self) -> &'static str {
        self.name
    }
    fn separator(&self) -> &'static str {
        self.sep
    }
    fn lookup_mnemonic(&self, w: &str) -> Result<MnemonicIndex, DictError> {
        self.asked.borrow_mut().push(w.into());
        match self.no.get(w) {
            Some(n) => Ok(MnemonicIndex(*n)),
            None => Err(DictError::MnemonicWordNotFoundInDictionary(format!("no <{}> here", w))),
        }
    }
    fn lookup_word(&self, m: MnemonicIndex) -> Result<String, DictError> {
        match self.words.get(m.0 as usize) {
            Some(w) => Ok(w.clone()),
            None => Err(DictError::MnemonicWordNotFoundInDictionary(format!("no word {}", m.0))),
        }
    }
}
const LISTS: usize = 9;
fn own_word(list: usize, n: usize) -> String {
    match list {
        // plain, in another order
        0 => refm::lists()[0][2047 - n].to_string(),
        // one character each
        1 => char::from_u32(0x4e00 + n as u32).unwrap().to_string(),
        // one the beginning of others
        2 => "ab".chars().cycle().take(n % 64 + 1).collect::<String>() + &"c".repeat(n / 64),
        // capitals and small letters differ
        3 => format!("{:011b}", n).replace('0', "x").replace('1', "X"),
        // accents, composed and not, and blanks at the ends
        4 => format!("{}{}", ["\u{e9}", "e\u{301}", "e", "E", "\u{c9}", "\u{a0}e", "e\u{a0}", "\u{feff}e"][n % 8], n / 8),
        // the empty word is one of them
        5 => if n == 77 { String::new() } else { format!("w{}", n) },
        // several words, as some would say
        6 => format!("a_word\tnumber_{}", n),
        // outside the basic plane, and long
        7 => format!("\u{1f511}{}", "q".repeat(n)),
        // punctuation
        8 => format!("'{}\"\\", n),
        // a built-in list in another order
        9..=16 => refm::lists()[list - 9][(n + 5) % 2048].to_string(),
        // a built-in list in which two words changed places
        _ => refm::lists()[list - 17][match n {
            2 => 2040,
            2040 => 2,
            _ => n,
        }]
        .to_string(),
    }
}
fn own_lists() -> &'static Vec<Vec<String>> {
    static S: std::sync::OnceLock<Vec<Vec<String>>> = std::sync::OnceLock::new();
    S.get_or_init(|| (0..LISTS + 16).map(|l| (0..2048).map(|n| own_word(l, n)).collect()).collect())
}
const SEPS: [&str; 12] = [" ", "-", ", ", "\u{3000}", "/", "\n", "::", "\u{2022}", "\0", ".", "  ", " - "];
type Shared = (Rc<Vec<String>>, Rc<HashMap<String, u16>>);
fn own(list: usize, sep: usize) -> Own {
    thread_local! { static C: RefCell<HashMap<usize, Shared>> = RefCell::new(HashMap::new()); }
    let (words, no) = C.with(|c| {
        c.borrow_mut()
            .entry(list)
            .or_insert_with(|| {
                let w = own_lists()[list].clone();
                let no: HashMap<String, u16> = w.iter().enumerate().map(|(i, w)| (w.clone(), i as u16)).collect();
                assert!(no.len() == 2048, "list {} repeats itself", list);
                (Rc::new(w), Rc::new(no))
            })
            .clone()
    });
    Own { name: "the user's own", sep: SEPS[sep], words, no, asked: RefCell::new(vec![]) }
}
/// Word numbers of a phrase of that list with the word v at position p; made valid if asked.
fn own_phrase(n: usize, p: usize, v: usize, valid: bool) -> Vec<u16> {
    let mut e: Vec<u8> = back(n / 3 * 4, 3);
    for j in 0..11 {
        let b = 11 * p + j;
        if b < e.len() * 8 {
            e[b / 8] = e[b / 8] & !(0x80 >> (b % 8)) | ((v >> (10 - j) & 1) as u8 * (0x80 >> (b % 8)));
        }
    }
    let mut w = refm::words(&e);
    if !valid {
        w[p] = v as u16;
    }
    w
}
fn own_both_ways(l: &Own, w: &[u16], cx: &mut Cx) -> R {
    let words: Vec<&str> = w.iter().map(|n| &*l.words[*n as usize]).collect();
    let text = words.join(l.sep);
    let m = mn(w)?;
    let s = m.to_string(l);
    ensure!(&*s == text, "word numbers {:?} are written {:?}, should be {:?}", w, &*s, text);
    l.asked.borrow_mut().clear();
    let r = Mnemonics::from_string(l, &text).map_err(|e| format!("{:?}: {}", text, e))?;
    let got: Vec<u16> = r.as_ref().iter().map(|n| n.0).collect();
    ensure!(got == w, "{:?} is read as {:?}, should be {:?}", text, got, w);
    ensure!(l.asked.borrow().iter().all(|a| words.contains(&&**a)), "{:?}: asked for {:?}", text, l.asked.borrow());
    let ms = MnemonicString::new(l, text.clone()).map_err(|e| format!("{:?}: {}", text, e))?;
    ensure!(&*ms == text, "{:?} is kept as {:?}", text, &*ms);
    cx.steps(3);
    cx.state_of(text.as_bytes());
    Ok(())
}
/// Lists whose words never hold a separator's characters, and each other.
fn clash(list: usize, sep: usize) -> bool {
    own_lists()[list].iter().any(|w| w.contains(SEPS[sep]) || SEPS[sep].chars().any(|c| w.starts_with(c) || w.ends_with(c)))
}

pub fn c33(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    d.push(Domain::new("every word of every list", (LISTS * SEPS.len() * 2048) as u64, move |i, cx| {
        let k = digits(i, &[2048, LISTS as u64, SEPS.len() as u64]);
        if clash(k[1], k[2]) {
            return Ok(());
        }
        let l = own(k[1], k[2]);
        let w = MnemonicIndex::new(k[0] as u16).map_err(|e| e.to_string())?;
        ensure!(w.to_word(&l) == own_word(k[1], k[0]), "word {} of list {} is {:?}", k[0], k[1], w.to_word(&l));
        let back = MnemonicIndex::from_word(&l, &own_word(k[1], k[0])).map_err(|e| e.to_string())?;
        ensure!(back == w, "{:?} of list {} has number {}", own_word(k[1], k[0]), k[1], back.0);
        for (n, p) in if th {
            [9, 12, 15, 18, 21, 24].iter().flat_map(|n| (0..*n).map(move |p| (*n, p))).collect()
        } else {
            let n = [9, 12, 15, 18, 21, 24][k[0] % 6];
            vec![(n, 0), (n, k[0] / 6 % n), (n, n - 1)]
        } {
            own_both_ways(&l, &own_phrase(n, p, k[0], false), cx)?;
        }
        cx.outcome("both ways");
        Ok(())
    }));
    d.push(Domain::new("phrases and entropies", (LISTS * SEPS.len() * 6 * 64) as u64, |i, cx| {
        let k = digits(i, &[LISTS as u64, SEPS.len() as u64, 6, 64]);
        if clash(k[0], k[1]) {
            return Ok(());
        }
        let (l, n) = (own(k[0], k[1]), SIZES[k[2]] * 3 / 4);
        let w = own_phrase(n, k[3] % n, k[3] * 32 + 5, true);
        own_both_ways(&l, &w, cx)?;
        let e = Entropy::from_mnemonics(&mn(&w)?).map_err(|e| format!("{:?}: {}", w, e))?;
        let again = e.to_mnemonics().to_string(&l);
        let text: Vec<&str> = w.iter().map(|n| &*l.words[*n as usize]).collect();
        let text = text.join(l.sep);
        ensure!(&*again == text, "{:?} comes back as {:?}", text, &*again);
        for pass in ["", "TREZOR"] {
            let s = Seed::from_mnemonic_string(&again, pass.as_bytes());
            let want = refm::seed_of(&text, pass.as_bytes());
            ensure!(s.as_ref() == &want[..], "seed of {:?} and '{}': {}, should be {}", text, pass, s, hex(&want));
        }
        cx.steps(3);
        cx.outcome("seed");
        Ok(())
    }));
    d.push(Domain::new("every number of words", (LISTS * SEPS.len() * 64) as u64, |i, cx| {
        let k = digits(i, &[LISTS as u64, SEPS.len() as u64, 64]);
        if clash(k[0], k[1]) || k[2] == 0 {
            return Ok(());
        }
        let l = own(k[0], k[1]);
        let words: Vec<&str> = (0..k[2]).map(|j| &*l.words[(j * 97 + 3) % 2048]).collect();
        let text = words.join(l.sep);
        let r = Mnemonics::from_string(&l, &text);
        let s = MnemonicString::new(&l, text.clone());
        if refm::supported_words(k[2]) {
            ensure!(r.is_ok() && s.is_ok(), "{} words refused", k[2]);
            cx.outcome("read");
        } else {
            let want = bip39::Error::WrongNumberOfWords(k[2]);
            ensure!(r == Err(want), "{} words: {:?}", k[2], r);
            ensure!(s == Err(bip39::Error::WrongNumberOfWords(k[2])), "{} words: {:?}", k[2], s);
            cx.outcome("refused");
        }
        cx.steps(2);
        cx.state_of(text.as_bytes());
        Ok(())
    }));
    const BAD: usize = 20;
    d.push(Domain::new("words that are not in the list", (LISTS * SEPS.len() * 24 * BAD) as u64, |i, cx| {
        let k = digits(i, &[LISTS as u64, SEPS.len() as u64, 24, BAD as u64]);
        if clash(k[0], k[1]) {
            return Ok(());
        }
        let l = own(k[0], k[1]);
        let n = [9, 12, 15, 18, 21, 24][(k[2] + k[3]) % 6];
        let p = k[2] % n;
        let mut words: Vec<String> = own_phrase(n, 0, 1500, true).iter().map(|w| l.words[*w as usize].clone()).collect();
        let w = words[p].clone();
        let s = SEPS[k[1]];
        words[p] = match k[3] {
            0 => String::new(),
            1 => format!(" {}", w),
            2 => format!("{} ", w),
            3 => w.to_uppercase(),
            4 => w.to_lowercase(),
            5 => w.chars().skip(1).collect(),
            6 => w.chars().rev().skip(1).collect::<String>().chars().rev().collect(),
            7 => format!("{}s", w),
            8 => "abandon".into(),
            9 => format!("{}\u{301}", w),
            10 => format!("{}\n", w),
            11 => format!("\u{3000}{}", w),
            12 => format!("{}\t", w),
            13 => s.into(),
            14 => format!("{}\0", w),
            15 => format!("{}{}", w, w),
            16 => "0".into(),
            17 => "word 7 of them".into(),
            18 => format!("\u{feff}{}", w),
            _ => w.trim().into(),
        };
        let text = words.join(s);
        let split: Vec<&str> = text.split(s).collect();
        let nums: Vec<Option<u16>> = split.iter().map(|w| l.no.get(*w).cloned()).collect();
        let r = Mnemonics::from_string(&l, &text);
        let ms = MnemonicString::new(&l, text.clone()).map(|_| ());
        cx.steps(2);
        cx.state_of(text.as_bytes());
        ensure!(l.asked.borrow().iter().all(|a| split.contains(&&**a)), "{:?}: asked for {:?}", text, l.asked.borrow());
        let errs: Vec<bip39::Error> = split
            .iter()
            .zip(&nums)
            .filter(|x| x.1.is_none())
            .map(|x| bip39::Error::LanguageError(DictError::MnemonicWordNotFoundInDictionary(format!("no <{}> here", x.0))))
            .collect();
        let wrong = if refm::supported_words(split.len()) { None } else { Some(bip39::Error::WrongNumberOfWords(split.len())) };
        if errs.is_empty() && wrong.is_none() {
            let want: Vec<u16> = nums.iter().map(|n| n.unwrap()).collect();
            let got: Vec<u16> = r.map_err(|e| format!("{:?}: {}", text, e))?.as_ref().iter().map(|n| n.0).collect();
            ensure!(got == want && ms.is_ok(), "{:?} is read as {:?}", text, got);
            cx.outcome("read");
        } else {
            let ok = |e: &bip39::Error| errs.contains(e) || wrong.as_ref() == Some(e);
            match (r, ms) {
                (Err(e), Err(f)) => ensure!(ok(&e) && ok(&f), "{:?} gives {:?} and {:?}", text, e, f),
                (r, m) => return Err(format!("{:?} is read: {:?}, {:?}", text, r, m)),
            }
            cx.outcome("refused");
        }
        Ok(())
    }));
    d.push(Domain::new("lists called like others", (LISTS as u64 + 16) * NAMES as u64 * 512, move |i, cx| {
        let k = digits(i, &[LISTS as u64 + 16, NAMES as u64, 512]);
        let mut l = own(k[0], 0);
        if clash(k[0], 0) {
            return Ok(());
        }
        l.name = list_name(k[1]);
        let n = [9, 12, 15, 18, 21, 24][k[2] % 6];
        let v = k[2] * 4 + k[0] % 4;
        own_both_ways(&l, &own_phrase(n, k[2] % n, v, k[2] % 2 == 0), cx)?;
        own_both_ways(&l, &vec![if k[2] % 3 == 0 { 2 } else { v as u16 }; n], cx)?;
        let w = own_word(k[0], v);
        ensure!(MnemonicIndex::from_word(&l, &w) == Ok(MnemonicIndex(v as u16)), "{:?} of the list {}: {:?}", w, l.name, MnemonicIndex::from_word(&l, &w));
        ensure!(MnemonicIndex(v as u16).to_word(&l) == w, "word {} of the list {}: {:?}", v, l.name, MnemonicIndex(v as u16).to_word(&l));
        // words of a built-in list that are not in this one
        let x = refm::lists()[k[1] % 8][v];
        match MnemonicIndex::from_word(&l, x) {
            Ok(n) => ensure!(l.no.get(x) == Some(&n.0), "{:?} of the list {}: {:?}", x, l.name, n),
            Err(_) => ensure!(!l.no.contains_key(x), "{:?} of the list {} is refused", x, l.name),
        }
        cx.steps(3);
        cx.outcome("both ways");
        Ok(())
    }));
    // the built-in kind of list with words of the user's own
    d.push(Domain::new("a built-in list with other words", 20 * 2048, |i, cx| {
        let k = digits(i, &[20, 2048]);
        let list = if k[0] < 4 { [0, 1, 3, 8][k[0]] } else { LISTS + k[0] - 4 };
        let dict = shown_dict(list);
        ensure!(dict.name() == dict.name && dict.separator() == " ", "{} with separator {:?}", dict.name(), dict.separator());
        let w = own_word(list, k[1]);
        ensure!(dict.lookup_word(MnemonicIndex(k[1] as u16)) == Ok(w.clone()), "word {}: {:?}", k[1], dict.lookup_word(MnemonicIndex(k[1] as u16)));
        ensure!(dict.lookup_mnemonic(&w) == Ok(MnemonicIndex(k[1] as u16)), "{:?}: {:?}", w, dict.lookup_mnemonic(&w));
        for x in [w.to_uppercase(), w.to_lowercase(), format!("{}s", w), w.chars().skip(1).collect(), format!(" {}", w), refm::lists()[k[0] % 8][k[1]].into()] {
            let want = own_lists()[list].iter().position(|y| *y == x);
            match dict.lookup_mnemonic(&x) {
                Ok(n) => ensure!(want == Some(n.0 as usize), "{:?} has number {}", x, n.0),
                Err(e) => ensure!(want.is_none() && e == DictError::MnemonicWordNotFoundInDictionary(x.clone()), "{:?}: {:?}", x, e),
            }
            cx.step();
        }
        let n = k[1] as u16 | 2048 << (k[1] % 5);
        ensure!(dict.lookup_word(MnemonicIndex(n)).is_err(), "word {}: {:?}", n, dict.lookup_word(MnemonicIndex(n)));
        let p = own_phrase(12, k[1] % 12, k[1], false);
        let text = p.iter().map(|n| own_word(list, *n as usize)).collect::<Vec<_>>().join(" ");
        ensure!(&*mn(&p)?.to_string(dict) == text, "{:?} is written {:?}", p, &*mn(&p)?.to_string(dict));
        let r = Mnemonics::from_string(dict, &text).map_err(|e| format!("{:?}: {}", text, e))?;
        ensure!(r.as_ref().iter().map(|n| n.0).collect::<Vec<_>>() == p, "{:?} is read as {:?}", text, r);
        cx.steps(5);
        cx.outcome("both ways");
        cx.state_of(text.as_bytes());
        Ok(())
    }));
    base(
        "C33",
        "phrases in word lists the user brings must be joined and split with the list's own separator, looked up unaltered and answered with the list's own numbers, words and errors; non-trivial when a phrase is read both ways or refused",
        &format!("{} word lists of 2048 words x {} separators: every word ({}), 64 entropies of 6 sizes, 1-63 words, {} alterations of each of 24 words", LISTS, SEPS.len(), if th { "at every position of every length" } else { "at 3 positions" }, BAD),
        d,
    )
}
const NAMES: usize = 14;
/// What a user may call a list: like a built-in one, or not at all.
fn list_name(k: usize) -> &'static str {
    match k {
        0..=7 => LANGS[k].to_dict().name(),
        8 => "",
        9 => "English",
        10 => "ENGLISH",
        11 => "en",
        12 => "shelf",
        _ => "\0",
    }
}
fn shown_dict(list: usize) -> &'static DefaultDictionary {
    thread_local! { static C: RefCell<HashMap<usize, &'static DefaultDictionary>> = RefCell::new(HashMap::new()); }
    C.with(|c| {
        *c.borrow_mut().entry(list).or_insert_with(|| {
            let mut words = [""; 2048];
            for n in 0..2048 {
                words[n] = Box::leak(own_word(list, n).into_boxed_str());
            }
            Box::leak(Box::new(DefaultDictionary { words, name: if list < LISTS { "shelf" } else { list_name((list - LISTS) % 8) } }))
        })
    })
}

// ------------------------------------------------------------------ C34

/// What a network of the user's own was asked.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Asked {
    Make(u32, Vec<u8>),
    Open(u32, Vec<u8>),
    Key(u32, [u32; 5]),
    Sign(u32, Vec<u8>, [u32; 5]),
    Verify(u32, Vec<u8>, Vec<u8>, [u32; 5]),
}
impl Asked {
    fn net(&self) -> u32 {
        match self {
            Asked::Make(n, _) | Asked::Open(n, _) | Asked::Key(n, _) | Asked::Sign(n, _, _) | Asked::Verify(n, _, _, _) => *n,
        }
    }
}
/// Its answers.
#[derive(Clone)]
struct Answers {
    stored: Vec<u8>,
    key: Vec<u8>,
    sig: Vec<u8>,
    good: bool,
    /// (where, which error): 0 making, 1 opening, 2 key, 3 signing, 4 verifying
    fail: Option<(usize, usize)>,
}
impl Answers {
    fn new() -> Self {
        Answers { stored: vec![1, 2, 3], key: vec![4, 5], sig: vec![6], good: true, fail: None }
    }
}
const FAULTS: usize = 7;
fn fault(k: usize) -> KeyError {
    match k {
        0 => KeyError::InvalidKeySize(71, 96),
        1 => KeyError::InvalidKeyData("the key is rusty".into()),
        2 => KeyError::InvalidSignatureSize(0, usize::MAX),
        3 => KeyError::SignError("out of \0ink".into()),
        4 => KeyError::InvalidKeyPath(GenericKeyPath::from("x").err().unwrap()),
        5 => match manager(1).keychain_data_from_mnemonic("abandon", "", None) {
            Err(Error::MnemonicError(e)) => KeyError::InvalidMnemonic(e),
            _ => panic!("one word is no phrase"),
        },
        _ => KeyError::InvalidKeyPath(GenericKeyPath::from("m/1/2/3/4/y").err().unwrap()),
    }
}
fn same_fault(e: &Error, n: u32, k: usize) -> bool {
    let want = fault(k);
    match e {
        Error::KeyError(net, f) => net.0 == n && key_kind(f) == key_kind(&want) && f.to_string() == want.to_string() && format!("{:?}", f) == format!("{:?}", want),
        _ => false,
    }
}
type Log = Rc<RefCell<Vec<Asked>>>;
#[derive(Clone)]
struct Rec {
    net: u32,
    size: (usize, usize),
    log: Log,
    a: Answers,
}
impl Rec {
    fn new(net: u32, log: &Log, a: &Answers) -> Self {
        Rec { net, size: (128, 256), log: log.clone(), a: a.clone() }
    }
    fn note(&self, a: Asked) {
        self.log.borrow_mut().push(a)
    }
    fn fails(&self, at: usize) -> Result<(), KeyError> {
        match self.a.fail {
            Some((w, k)) if w == at => Err(fault(k)),
            _ => Ok(()),
        }
    }
}
fn five(p: &dyn KeyPath) -> [u32; 5] {
    [p.purpose(), p.coin(), p.account(), p.change(), p.address()]
}
impl KeyFactory for Rec {
    fn network(&self) -> Network {
        Network(self.net)
    }
    fn seed_size(&self) -> SeedSize {
        SeedSize { min: self.size.0, max: self.size.1 }
    }
    fn key_from_data(&self, data: &[u8]) -> Result<Box<dyn Key>, KeyError> {
        self.note(Asked::Open(self.net, data.to_vec()));
        self.fails(1)?;
        Ok(Box::new(self.clone()))
    }
    fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> {
        self.note(Asked::Make(self.net, seed.to_vec()));
        self.fails(0)?;
        Ok(self.a.stored.clone())
    }
}
impl Key for Rec {
    fn network(&self) -> Network {
        Network(self.net)
    }
    fn pub_key(&self, p: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
        self.note(Asked::Key(self.net, five(p)));
        self.fails(2)?;
        Ok(self.a.key.clone())
    }
    fn sign(&self, m: &[u8], p: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
        self.note(Asked::Sign(self.net, m.to_vec(), five(p)));
        self.fails(3)?;
        Ok(self.a.sig.clone())
    }
    fn verify(&self, m: &[u8], s: &[u8], p: &dyn KeyPath) -> Result<bool, KeyError> {
        self.note(Asked::Verify(self.net, m.to_vec(), s.to_vec(), five(p)));
        self.fails(4)?;
        Ok(self.a.good)
    }
}
fn of_recs(v: Vec<Rec>) -> Result<KeychainManager, String> {
    KeychainManager::with_factories(v.into_iter().map(|r| -> Box<dyn KeyFactory> { Box::new(r) }).collect()).map_err(|e| e.to_string())
}
/// The log says exactly this, some of it perhaps more than once; it is emptied.
fn only(log: &Log, want: &[Asked], what: &dyn Fn() -> String) -> R {
    let l = std::mem::take(&mut *log.borrow_mut());
    for a in &l {
        ensure!(want.contains(a), "{}: asked {:?}, wanted {:?}", what(), a, want);
    }
    for a in want {
        ensure!(l.contains(a), "{}: {:?} was not asked, but {:?}", what(), a, l);
    }
    Ok(())
}
fn read_doc(c: &[u8], pw: &str) -> Result<Doc, String> {
    Doc::open(c, pw)
}
/// Everything asked of one wallet with the networks `recs`, in the wallet, against what they answer.
fn ask_all(k: &Keychain, r: &Rec, path: &[u32; 5], msg: &[u8], sig: &[u8], cx: &mut Cx) -> R {
    let n = Network(r.net);
    let what = |w: &str| format!("{} of network {:#x} at {:x?} for {} bytes, {} bytes", w, r.net, path, msg.len(), sig.len());
    let judge = |w: usize, res: Result<Vec<u8>, Error>, good: Vec<u8>| -> R {
        match (res, r.a.fail) {
            (Err(e), Some((f, k))) if f == w => ensure!(same_fault(&e, r.net, k), "{}: {:?}, the key said {:?}", what("failure"), e, fault(k)),
            (Err(e), _) => return Err(format!("{}: {}", what("use"), e)),
            (Ok(_), Some((f, _))) if f == w => return Err(format!("{}: the key's error is lost", what("use"))),
            (Ok(v), _) => ensure!(v == good, "{}: {}, the key said {}", what("answer"), hex(&v), hex(&good)),
        }
        Ok(())
    };
    r.log.borrow_mut().clear();
    judge(2, k.pub_key(&n, &P(*path)), r.a.key.clone())?;
    only(&r.log, &[Asked::Key(r.net, *path)], &|| what("pub_key"))?;
    judge(3, k.sign(&n, msg, &P(*path)), r.a.sig.clone())?;
    only(&r.log, &[Asked::Sign(r.net, msg.to_vec(), *path)], &|| what("sign"))?;
    judge(4, k.verify(&n, msg, sig, &P(*path)).map(|b| vec![b as u8]), vec![r.a.good as u8])?;
    only(&r.log, &[Asked::Verify(r.net, msg.to_vec(), sig.to_vec(), *path)], &|| what("verify"))?;
    cx.steps(3);
    Ok(())
}
fn absent(k: &Keychain, n: u32) -> R {
    let p = P([1, 2, 3, 4, 5]);
    ensure!(!k.has_network(&Network(n)), "the wallet has network {:#x}", n);
    let gone = |e: Option<Error>| matches!(e, Some(Error::KeyDoesNotExist(Network(x))) if x == n);
    ensure!(gone(k.pub_key(&Network(n), &p).err()), "pub_key of an absent network {:#x}: {:?}", n, k.pub_key(&Network(n), &p));
    ensure!(gone(k.sign(&Network(n), b"x", &p).err()), "sign with an absent network {:#x}", n);
    ensure!(gone(k.verify(&Network(n), b"x", b"y", &p).err()), "verify with an absent network {:#x}", n);
    Ok(())
}
fn listed(k: &Keychain) -> Vec<u32> {
    let mut v: Vec<u32> = k.networks().into_iter().map(|n| n.0).collect();
    v.sort();
    v
}
/// Makes a wallet with these networks, opens it, uses each; from a seed or a phrase.
fn whole_life(recs: &[Rec], seed: Result<&[u8], (&str, usize)>, cx: &mut Cx) -> R {
    let log = &recs[0].log;
    let m = of_recs(recs.to_vec())?;
    let s64 = match seed {
        Ok(s) => s.to_vec(),
        Err((p, _)) => refm::seed_of(p, b""),
    };
    log.borrow_mut().clear();
    let c = scripted(34, || match seed {
        Ok(s) => m.keychain_data_from_seed(s, "pw"),
        Err((p, l)) => m.keychain_data_from_mnemonic(p, "pw", Some(LANGS[l])),
    })
    .map_err(|e| format!("making: {}", e))?;
    let want: Vec<Asked> = recs.iter().map(|r| Asked::Make(r.net, s64.clone())).collect();
    only(log, &want, &|| format!("making a wallet of {}", hex(&s64)))?;
    let dd = read_doc(&c, "pw")?;
    let mut keys: Vec<(u32, Vec<u8>)> = recs.iter().map(|r| (r.net, r.a.stored.clone())).collect();
    keys.sort();
    ensure!(dd.keys == keys, "stored keys {:x?}, the networks gave {:x?}", dd.keys, keys);
    let mut back: Vec<(u32, Vec<u8>)> = m.get_keys_data(&c, "pw").map_err(|e| e.to_string())?.into_iter().map(|(n, k)| (n.0, k)).collect();
    back.sort();
    ensure!(back == keys, "keys of the backup {:x?}, the networks gave {:x?}", back, keys);
    only(log, &[], &|| "a backup".into())?;
    let k = m.keychain_from_data(&c, "pw").map_err(|e| format!("opening: {}", e))?;
    let want: Vec<Asked> = recs.iter().map(|r| Asked::Open(r.net, r.a.stored.clone())).collect();
    only(log, &want, &|| "opening".into())?;
    let mut nets: Vec<u32> = recs.iter().map(|r| r.net).collect();
    nets.sort();
    ensure!(listed(&k) == nets, "networks {:x?}, should be {:x?}", listed(&k), nets);
    for r in recs {
        ensure!(k.has_network(&Network(r.net)) && m.has_network(&Network(r.net)), "network {:#x} is missing", r.net);
        ensure!(m.get_key_factory(&Network(r.net)).map(|f| f.network().0) == Some(r.net), "factory of {:#x}", r.net);
        ask_all(&k, r, &[r.net, 1, 2, 3, 4], &r.net.to_be_bytes(), b"sig", cx)?;
    }
    for n in [r_not(&nets, 0), r_not(&nets, 1)] {
        absent(&k, n)?;
    }
    only(log, &[], &|| "asking absent networks".into())?;
    // numbers near those are other networks
    for n in near(recs[0].net).into_iter().filter(|n| !nets.contains(n)) {
        ensure!(!m.has_network(&Network(n)) && m.get_key_factory(&Network(n)).is_none(), "the manager of {:x?} has network {:#x}", nets, n);
        ensure!(!k.has_network(&Network(n)), "the wallet of {:x?} has network {:#x}", nets, n);
        let r = m.add_network(&c, "pw", Network(n));
        ensure!(matches!(r, Err(Error::NetworkIsNotSupported(Network(x))) if x == n), "adding {:#x} with a manager of {:x?}: {:?}", n, nets, r.map(|_| ()));
        cx.step();
    }
    only(log, &[], &|| "adding unknown networks".into())?;
    cx.steps(6);
    cx.state_of(&c);
    Ok(())
}
/// Every number one step, one bit or one usual conversion away.
fn near(n: u32) -> Vec<u32> {
    let mut v: Vec<u32> = (0..32).map(|b| n ^ 1 << b).collect();
    v.extend([n.wrapping_add(1), n.wrapping_sub(1), !n, n.swap_bytes(), n.reverse_bits(), n.wrapping_neg(), n & 0xff, n & 0xffff, n & !H, n | H, n << 8, n >> 8]);
    v.sort();
    v.dedup();
    v.retain(|x| *x != n);
    v
}
/// A number that is near those and not one of them.
fn r_not(v: &[u32], k: u32) -> u32 {
    let mut n = v[0] ^ (1 << k) ^ H;
    while v.contains(&n) {
        n = n.wrapping_add(1);
    }
    n
}
/// Opens a wallet with these networks by its document.
fn opened(recs: &[Rec]) -> Result<Keychain, String> {
    let m = of_recs(recs.to_vec())?;
    let mut keys: Vec<(u32, Vec<u8>)> = recs.iter().map(|r| (r.net, r.a.stored.clone())).collect();
    keys.sort();
    let dd = Doc { version: 2, seed: Some(seed_n(2)), mnemonic: None, dictionary: None, keys };
    m.keychain_from_data(&sealed(dd.text().as_bytes(), "pw"), "pw").map_err(|e| format!("opening: {}", e))
}

pub fn c34(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let e = edges32();
    let ne = e.len() as u64;
    d.push(Domain::new("a wallet of every number of a network", ne * 4, move |i, cx| {
        let n = e[(i % ne) as usize];
        let log = Log::default();
        let a = |k: u8| Answers { stored: vec![k, n as u8], key: vec![k, 1], sig: vec![k, 2, 3], good: k % 2 == 0, fail: None };
        let recs: Vec<Rec> = match i / ne {
            0 => vec![n],
            1 => vec![n, !n],
            2 => vec![n ^ 1, n, n ^ 0x100],
            _ => vec![n.wrapping_add(1), n.wrapping_sub(1), n, n ^ H],
        }
        .into_iter()
        .enumerate()
        .map(|(j, n)| Rec::new(n, &log, &a(j as u8)))
        .collect();
        cx.outcome("a wallet");
        whole_life(&recs, Ok(&seed_n(20)), cx)
    }));
    d.push(Domain::new("every byte of the seed", 64 * 256, |i, cx| {
        let mut s = seed_n(9);
        s[(i / 256) as usize] = i as u8;
        let log = Log::default();
        cx.outcome("a seed");
        whole_life(&[Rec::new(5, &log, &Answers::new())], Ok(&s), cx)
    }));
    d.push(Domain::new("phrases in every language", 8 * 6 * 16, |i, cx| {
        let k = digits(i, &[8, 6, 16]);
        let log = Log::default();
        let p = phrase_n(SIZES[k[1]] * 3 / 4, 340 + k[2] as u64, k[0]);
        let mut r = Rec::new(7, &log, &Answers::new());
        let mut q = Rec::new(9, &log, &Answers { stored: vec![9; k[2]], ..Answers::new() });
        let b = SIZES[k[1]] * 8;
        r.size = (b, 256.max(b));
        q.size = (96, b);
        cx.outcome("a phrase");
        whole_life(&[r, q], Err((&p, k[0])), cx)
    }));
    let mut lens: Vec<usize> = (0..400).collect();
    lens.extend(big_sizes());
    let nl = lens.len() as u64;
    let l2 = lens.clone();
    d.push(Domain::new("stored keys of every length", nl * 4, move |i, cx| {
        let n = l2[(i % nl) as usize];
        let kind = (i / nl) as usize;
        let log = Log::default();
        let r = Rec::new(11, &log, &Answers { stored: bytes_n(n, kind), ..Answers::new() });
        let q = Rec::new(12, &log, &Answers { stored: bytes_n(n / 2, 3), ..Answers::new() });
        cx.outcome("a stored key");
        whole_life(&[r, q], Ok(&seed_n(21)), cx)
    }));
    d.push(Domain::new("answers of every length", nl * 3 * 2, move |i, cx| {
        let k = digits(i, &[nl, 3, 2]);
        let n = lens[k[0]];
        let log = Log::default();
        let r = Rec::new(13, &log, &Answers { key: bytes_n(n, k[1]), sig: bytes_n(n, k[1] + 1), good: k[2] == 1, ..Answers::new() });
        let w = opened(&[r.clone(), Rec::new(14, &log, &Answers::new())])?;
        cx.state(hash2(i, 1));
        cx.outcome("an answer");
        ask_all(&w, &r, &[1, 2, 3, 4, 5], &bytes_n(n, k[1]), &bytes_n(n, 2), cx)
    }));
    let ix = idx_all();
    let ni = ix.len() as u64;
    d.push(Domain::new("every component of the path", ni * 5 * 4, move |i, cx| {
        let k = digits(i, &[ni, 5, 4]);
        let mut p = [[0; 5], [H; 5], [1, 2, 3, 4, 5], [H + 44, H + 60, H, 0, 0]][k[2]];
        p[k[1]] = ix[k[0]];
        let log = Log::default();
        let r = Rec::new(H + 60, &log, &Answers::new());
        let w = opened(&[r.clone(), Rec::new(60, &log, &Answers::new())])?;
        cx.state(hash(format!("{:?}", p).as_bytes()));
        cx.outcome("a path");
        ask_all(&w, &r, &p, b"message", b"signature", cx)?;
        // a path out of a text is the same path
        let g = GenericKeyPath::from(&path_text(&p)).map_err(|e| e.to_string())?;
        w.pub_key(&Network(r.net), &g).map_err(|e| e.to_string())?;
        only(&log, &[Asked::Key(r.net, p)], &|| path_text(&p))
    }));
    let few: [u32; 6] = [0, 1, 44, H - 1, H, u32::MAX];
    d.push(Domain::new("any five components", 6u64.pow(5), move |i, cx| {
        let k = digits(i, &[6; 5]);
        let p = [few[k[0]], few[k[1]], few[k[2]], few[k[3]], few[k[4]]];
        let log = Log::default();
        let r = Rec::new(1815, &log, &Answers::new());
        let w = Keychain::new(vec![Box::new(r.clone())]);
        cx.state(i);
        cx.outcome("a path");
        ask_all(&w, &r, &p, b"", b"", cx)
    }));
    d.push(Domain::new("every byte of messages and signatures", 256 * 8 * 2, |i, cx| {
        let k = digits(i, &[256, 8, 2]);
        let mut x = bytes_n(1 << k[1], 3);
        let p = x.len() - 1;
        x[if k[2] == 0 { 0 } else { p }] = k[0] as u8;
        let log = Log::default();
        let r = Rec::new(17, &log, &Answers { key: x.clone(), sig: x.clone(), ..Answers::new() });
        let w = Keychain::new(vec![Box::new(r.clone())]);
        cx.state(i);
        cx.outcome("a byte");
        ask_all(&w, &r, &[9, 8, 7, 6, 5], &x, &x, cx)
    }));
    let e = edges32();
    d.push(Domain::new("every failure of a key", ne * 5 * FAULTS as u64, move |i, cx| {
        let k = digits(i, &[5, FAULTS as u64, ne]);
        let n = e[k[2]];
        let log = Log::default();
        let bad = Rec::new(n, &log, &Answers { fail: Some((k[0], k[1])), ..Answers::new() });
        let good = Rec::new(n ^ 1, &log, &Answers::new());
        let m = of_recs(vec![bad.clone(), good.clone()])?;
        let what = |w: &str| format!("{} of network {:#x} failing with {:?}", w, n, fault(k[1]));
        let made = scripted(1, || m.keychain_data_from_seed(&seed_n(22), "pw"));
        let phrase = scripted(1, || m.keychain_data_from_mnemonic(&phrase_n(12, 3, 0), "pw", None));
        let part = Doc { version: 2, seed: Some(seed_n(22)), mnemonic: None, dictionary: None, keys: vec![(n ^ 1, vec![1, 2, 3])] };
        let added = scripted(1, || m.add_network(&sealed(part.text().as_bytes(), "pw"), "pw", Network(n)));
        cx.steps(3);
        let lost = |r: &Result<Vec<u8>, Error>, w: &str| -> R {
            match r {
                Ok(_) => ensure!(k[0] != 0, "{}: the error is lost", what(w)),
                Err(e) => ensure!(k[0] == 0 && same_fault(e, n, k[1]), "{}: {:?}", what(w), e),
            }
            Ok(())
        };
        lost(&made, "making")?;
        lost(&phrase, "making from a phrase")?;
        lost(&added, "adding")?;
        // the other network can still be added by this manager
        let other = Doc { keys: vec![(n, vec![1, 2, 3])], ..part.clone() };
        let c = scripted(1, || m.add_network(&sealed(other.text().as_bytes(), "pw"), "pw", Network(n ^ 1))).map_err(|e| format!("{}: {}", what("adding another"), e))?;
        cx.outcome(key_kind(&fault(k[1])));
        cx.state(hash2(i, 5));
        match m.keychain_from_data(&c, "pw") {
            Err(e) => ensure!(k[0] == 1 && same_fault(&e, n, k[1]), "{}: {:?}", what("opening"), e),
            Ok(w) => {
                ensure!(k[0] != 1, "{}: the error is lost", what("opening"));
                ask_all(&w, &bad, &[1, 2, 3, 4, 5], b"m", b"s", cx)?;
                ask_all(&w, &good, &[1, 2, 3, 4, 5], b"m", b"s", cx)?;
                ask_all(&w, &bad, &[5, 4, 3, 2, 1], b"m2", b"s2", cx)?;
            }
        }
        Ok(())
    }));
    d.push(Domain::new("many networks", 140 * 4, move |i, cx| {
        let k = digits(i, &[140, 4]);
        let n = match k[0] {
            x @ 0..=127 => x + 1,
            x => [200, 255, 256, 257, 300, 500, 511, 512, 513, 777, 1000, 1024][x - 128],
        };
        if k[1] >= 2 && n > 300 && !th {
            return Ok(());
        }
        let log = Log::default();
        let recs: Vec<Rec> = (0..n as u32)
            .map(|j| {
                let net = match k[1] {
                    0 => j,
                    1 => j << 22 | j >> 10,
                    2 => H + j * 3,
                    _ => (j as u64 * 2654435761 % (1 << 32)) as u32,
                };
                Rec::new(net, &log, &Answers { stored: j.to_be_bytes().to_vec(), key: j.to_le_bytes().to_vec(), sig: vec![j as u8; 1 + j as usize % 70], good: j % 2 == 0, fail: None })
            })
            .collect();
        cx.outcome("many");
        whole_life(&recs, Ok(&seed_n(23)), cx)?;
        let w = Keychain::new(recs.iter().map(|r| -> Box<dyn Key> { Box::new(r.clone()) }).collect());
        let mut nets: Vec<u32> = recs.iter().map(|r| r.net).collect();
        nets.sort();
        ensure!(listed(&w) == nets, "{} keys: networks {:x?}", n, listed(&w));
        for r in [&recs[0], &recs[n / 2], &recs[n - 1]] {
            ask_all(&w, r, &[1, 2, 3, 4, 5], b"m", b"s", cx)?;
        }
        absent(&w, r_not(&nets, 3))
    }));
    // with built-in networks, and networks the manager does not know
    d.push(Domain::new("among built-in networks", 8 * 8 * 16, |i, cx| {
        let k = digits(i, &[8, 8, 16]);
        let own = [77u32, H + 61, 0, u32::MAX];
        let log = Log::default();
        // factories of the manager: built-in ones by k[0], own ones by the mask k[2]; the wallet has k[1] and all own ones
        let mut f: Vec<Box<dyn KeyFactory>> = subset(k[0]).into_iter().map(factory).collect();
        let recs: Vec<Rec> = own.iter().enumerate().map(|(j, n)| Rec::new(*n, &log, &Answers { stored: vec![j as u8; 5 + j], ..Answers::new() })).collect();
        for (j, r) in recs.iter().enumerate() {
            if k[2] >> j & 1 == 1 {
                f.push(Box::new(r.clone()));
            }
        }
        if f.is_empty() {
            return Ok(());
        }
        let m = KeychainManager::with_factories(f).map_err(|e| e.to_string())?;
        let mut dd = doc(Some(&seed_n(24)), None, &subset(k[1]));
        for r in &recs {
            dd.keys.push((r.net, r.a.stored.clone()));
        }
        dd.keys.sort();
        let w = m.keychain_from_data(&sealed(dd.text().as_bytes(), "pw"), "pw").map_err(|e| e.to_string())?;
        let mine: Vec<&Rec> = recs.iter().enumerate().filter(|(j, _)| k[2] >> j & 1 == 1).map(|x| x.1).collect();
        only(&log, &mine.iter().map(|r| Asked::Open(r.net, r.a.stored.clone())).collect::<Vec<_>>(), &|| format!("opening {:?}", k))?;
        let mut nets: Vec<u32> = mine.iter().map(|r| r.net).chain(subset(k[0] & k[1])).collect();
        nets.sort();
        ensure!(listed(&w) == nets, "{:?}: networks {:x?}, should be {:x?}", k, listed(&w), nets);
        for n in NETS {
            let p = refm::std_path(n);
            if nets.contains(&n) {
                let want = refm::pub_key(n, &refm::stored_key(n, &seed_n(24)), &p);
                ensure!(w.pub_key(&net(n), &P(p)).ok() == want, "{} among others", refm::net_name(n));
                cx.step();
            } else {
                absent(&w, n)?;
            }
        }
        only(&log, &[], &|| "using built-in networks".into())?;
        for (j, r) in recs.iter().enumerate() {
            if k[2] >> j & 1 == 1 {
                ask_all(&w, r, &[1, 2, 3, 4, 5], b"m", b"s", cx)?;
            } else {
                absent(&w, r.net)?;
                ensure!(!m.has_network(&Network(r.net)) && m.get_key_factory(&Network(r.net)).is_none(), "the manager has network {:#x}", r.net);
            }
        }
        cx.outcome("mixed");
        cx.state(i);
        Ok(())
    }));
    d.push(Domain::new("numbers near the built-in networks", 7 * 2, |i, cx| {
        let (bits, j) = (i as usize % 7 + 1, i as usize / 7);
        let m = manager(bits);
        let have = subset(bits);
        let dd = if j == 0 { doc(Some(&seed_n(26)), None, &[]) } else { doc(None, Some((&phrase_n(12, 35, 0), 0)), &[]) };
        let c = sealed(dd.text().as_bytes(), "pw");
        for n in NETS.iter().flat_map(|n| near(*n)).filter(|n| !have.contains(n)) {
            ensure!(!m.has_network(&Network(n)) && m.get_key_factory(&Network(n)).is_none(), "the manager of {:x?} has network {:#x}", have, n);
            let r = m.add_network(&c, "pw", Network(n));
            ensure!(matches!(r, Err(Error::NetworkIsNotSupported(Network(x))) if x == n), "adding {:#x} with a manager of {:x?}: {:?}", n, have, r.map(|_| ()));
            let k = m.keychain_from_data(&sealed(Doc { keys: vec![(n, vec![1; 96])], ..dd.clone() }.text().as_bytes(), "pw"), "pw").map_err(|e| format!("opening with an unknown network {:#x}: {}", n, e))?;
            absent(&k, n)?;
            ensure!(k.networks().is_empty(), "the wallet has {:x?}", listed(&k));
            if !NETS.contains(&n) {
                // whether the other number is refused or passed over is left open
                if let Ok(m) = KeychainManager::with_networks(&[Network(n), net(NETS[0])]) {
                    ensure!(!m.has_network(&Network(n)) && !m.has_network(&net(NETS[1])), "a manager of {:#x} has it", n);
                }
            }
            cx.steps(3);
            cx.state(hash2(i, n as u64));
        }
        cx.outcome("no such network");
        Ok(())
    }));
    // adding own networks one after the other
    d.push(Domain::new("adding", 24 * 3 * 8, |i, cx| {
        let k = digits(i, &[24, 3, 8]);
        let own = [3u32, H + 3, 0xffff, u32::MAX];
        let mut ord = vec![0, 1, 2, 3];
        let mut r = k[0];
        for j in (1..4).rev() {
            ord.swap(j, r % (j + 1));
            r /= j + 1;
        }
        let log = Log::default();
        let recs: Vec<Rec> = own.iter().enumerate().map(|(j, n)| Rec::new(*n, &log, &Answers { stored: bytes_n(j * 33, 2 + k[2] % 4), ..Answers::new() })).collect();
        let m = of_recs(recs.clone())?;
        let (p, s) = (phrase_n(12, 34, k[2]), seed_n(25));
        let mut dd = Doc { keys: vec![], ..if k[1] == 0 { doc(Some(&s), None, &[]) } else { doc(None, Some((&p, k[2])), &[]) } };
        let seed = if k[1] == 0 { s } else { refm::seed_of(&p, b"") };
        let mut c = sealed(dd.text().as_bytes(), "pw");
        for j in ord {
            log.borrow_mut().clear();
            c = scripted(j as u64, || m.add_network(&c, "pw", Network(own[j]))).map_err(|e| format!("adding {:#x}: {}", own[j], e))?;
            only(&log, &[Asked::Make(own[j], seed.clone())], &|| format!("adding {:#x}", own[j]))?;
            dd.keys.push((own[j], recs[j].a.stored.clone()));
            dd.keys.sort();
            let got = read_doc(&c, "pw")?;
            ensure!(got.text() == dd.text(), "after adding {:#x}: {}, should be {}", own[j], got.text(), dd.text());
            if k[1] == 2 {
                c = scripted(9, || m.change_password(&c, "pw", "pw")).map_err(|e| e.to_string())?;
                only(&log, &[], &|| "changing the password".into())?;
            }
            let again = m.add_network(&c, "pw", Network(own[j]));
            ensure!(matches!(again, Err(Error::KeyAlreadyExist(Network(x))) if x == own[j]), "adding {:#x} twice", own[j]);
            only(&log, &[], &|| "adding twice".into())?;
            cx.steps(2);
            cx.state_of(&c);
        }
        cx.outcome("added");
        Ok(())
    }));
    base(
        "C34",
        "a network the user brings must be given exactly the seed, stored key, path, message and signature, and its answers and errors must come back unaltered under its own number, with no other network asked; non-trivial when the network's own key answered or failed",
        &format!("{} network numbers; every byte of a seed; stored keys, messages, signatures and answers of {} lengths; {} values of each path component and 6^5 paths; {} kinds of failure at 5 places; up to 1024 networks", ne, nl, ni, FAULTS),
        d,
    )
}

// ------------------------------------------------------------------ C35

const PW: &str = "Correct-Horse 77 battery!";
const PW2: &str = "another: Staple 0x2f gizmo";
const SECRET_LANG: usize = 1;
/// What must never be in a message.
struct Secrets {
    seed: Vec<u8>,
    phrase: String,
    keys: Vec<Vec<u8>>,
    /// wallets under PW: of the seed, of the phrase; with every network, with none
    c: [Vec<u8>; 4],
}
fn secrets() -> &'static Secrets {
    thread_local! { static S: std::cell::OnceCell<&'static Secrets> = const { std::cell::OnceCell::new() }; }
    S.with(|s| {
        *s.get_or_init(|| {
            let seed = seed_n(3535);
            let phrase = phrase_n(12, 3535, SECRET_LANG);
            let ph = Some((&*phrase, SECRET_LANG));
            let c = [
                sealed(doc(Some(&seed), None, &NETS).text().as_bytes(), PW),
                sealed(doc(None, ph, &NETS).text().as_bytes(), PW),
                sealed(doc(Some(&seed), None, &[]).text().as_bytes(), PW),
                sealed(doc(None, ph, &[]).text().as_bytes(), PW),
            ];
            let keys = [seed.clone(), refm::seed_of(&phrase, b"")].iter().flat_map(|s| NETS.map(|n| refm::stored_key(n, s))).collect();
            Box::leak(Box::new(Secrets { seed, phrase, keys, c }))
        })
    })
}
/// Is a part of those bytes in the text, in one of the usual ways to print bytes?
fn prints(text: &str, b: &[u8]) -> bool {
    let low = text.to_lowercase();
    (0..b.len().saturating_sub(5)).any(|i| {
        let w = &b[i..i + 6];
        let list = |f: &dyn Fn(&u8) -> String| w.iter().map(f).collect::<Vec<_>>().join(", ");
        low.contains(&hex(w))
            || low.contains(&list(&|x| x.to_string()))
            || low.contains(&list(&|x| format!("{:x}", x)))
            || low.contains(&list(&|x| format!("0x{:x}", x)))
            || low.contains(&list(&|x| format!("{:02x}", x)))
            || text.contains(&refm::b64(w))
            || std::str::from_utf8(w).map_or(false, |s| text.contains(s))
    })
}
fn no_secret(text: &str, extra: &[u8], quoted: &str) -> R {
    let s = secrets();
    let text = &text.replace(quoted, "");
    for p in [PW, PW2] {
        for i in 0..p.len() - 4 {
            ensure!(!text.contains(&p[i..i + 5]), "a message tells a password: '{}'", text);
        }
    }
    ensure!(!prints(text, &s.seed) && !prints(text, &refm::seed_of(&s.phrase, b"")), "a message tells the seed: '{}'", text);
    for k in s.keys.iter().map(|k| &k[..]).chain([extra]) {
        ensure!(!prints(text, k), "a message tells a stored key: '{}'", text);
    }
    let words = s.phrase.split(' ').filter(|w| w.chars().count() > 3 && text.contains(*w)).count();
    ensure!(words < 2, "a message tells the phrase: '{}'", text);
    Ok(())
}
/// What an operation said when it failed.
type Said = Option<Vec<String>>;
fn said<T>(r: Result<T, Error>) -> Said {
    r.err().map(|e| vec![e.to_string(), format!("{:?}", e), format!("{:#?}", e)])
}
struct Deed {
    name: String,
    /// stored key and word it was given
    extra: Vec<u8>,
    quoted: String,
    /// does it fail?
    fails: Option<bool>,
    run: Box<dyn Fn() -> Said>,
}
fn deed(v: &mut Vec<Deed>, name: String, fails: impl Into<Option<bool>>, run: impl Fn() -> Said + 'static) {
    v.push(Deed { name, extra: vec![], quoted: "\u{0}\u{0}".into(), fails: fails.into(), run: Box::new(run) })
}
fn managers(bits: usize) -> &'static KeychainManager {
    thread_local! { static M: RefCell<HashMap<usize, &'static KeychainManager>> = RefCell::new(HashMap::new()); }
    M.with(|m| *m.borrow_mut().entry(bits).or_insert_with(|| Box::leak(Box::new(manager(bits)))))
}
fn the_wallet(bits: usize) -> &'static Keychain {
    thread_local! { static M: RefCell<HashMap<usize, &'static Keychain>> = RefCell::new(HashMap::new()); }
    M.with(|m| *m.borrow_mut().entry(bits).or_insert_with(|| Box::leak(Box::new(wallet(bits, &secrets().seed).expect("a wallet")))))
}
fn rust_deeds() -> Vec<Deed> {
    let mut v = vec![];
    for bits in 1..8usize {
        let m = move || managers(bits);
        deed(&mut v, format!("new {}", bits), false, move || {
            let n: Vec<Network> = subset(bits).into_iter().map(net).collect();
            said(KeychainManager::with_networks(&n).map(|_| ()))
        });
        for l in 0..9usize {
            deed(&mut v, format!("generate {} {}", bits, l), false, move || said(scripted(l as u64, || m().generate_mnemonic(LANGS.get(l).cloned()))));
        }
        for n in (0..131usize).chain([255, 256, 1000, 4096]) {
            deed(&mut v, format!("from seed of {} {}", n, bits), n != 64, move || {
                let mut s = secrets().seed.clone();
                s.extend(seed_n(3536));
                s.extend(vec![7; 4096]);
                said(scripted(2, || m().keychain_data_from_seed(&s[..n], PW)))
            });
        }
        // phrases: a bad word at each place, exchanged and missing words, other languages
        for p in 0..12usize {
            for how in 0..5 {
                let bad = ["zzyzx", "", "Correct", "motvide", "\u{e9}"][how];
                deed(&mut v, format!("from a phrase with '{}' as word {} {}", bad, p, bits), true, move || {
                    let mut w: Vec<&str> = secrets().phrase.split(' ').collect();
                    w[p] = bad;
                    said(scripted(2, || m().keychain_data_from_mnemonic(&w.join(" "), PW, Some(LANGS[SECRET_LANG]))))
                });
                if !bad.is_empty() {
                    v.last_mut().unwrap().quoted = bad.into();
                }
            }
            deed(&mut v, format!("from a phrase of {} words {}", p, bits), true, move || {
                let w: Vec<&str> = secrets().phrase.split(' ').take(p).collect();
                said(scripted(2, || m().keychain_data_from_mnemonic(&w.join(" "), PW, Some(LANGS[SECRET_LANG]))))
            });
            deed(&mut v, format!("from a phrase with words {} and 0 exchanged {}", p, bits), None, move || {
                let mut w: Vec<&str> = secrets().phrase.split(' ').collect();
                w.swap(p, 0);
                said(scripted(2, || m().keychain_data_from_mnemonic(&w.join(" "), PW, Some(LANGS[SECRET_LANG]))))
            });
            deed(&mut v, format!("from a phrase with two blanks before word {} {}", p, bits), true, move || {
                let mut w: Vec<String> = secrets().phrase.split(' ').map(|s| s.into()).collect();
                w[p] = format!(" {}", w[p]);
                said(scripted(2, || m().keychain_data_from_mnemonic(&w.join(" "), PW, Some(LANGS[SECRET_LANG]))))
            });
        }
        for l in 0..9usize {
            deed(&mut v, format!("from a phrase, language {} {}", l, bits), None, move || {
                said(scripted(2, || m().keychain_data_from_mnemonic(&secrets().phrase, PW, LANGS.get(l).cloned())))
            });
            // the first word may be quoted
            v.last_mut().unwrap().quoted = refm::phrase(&[refm::words(&(0..16).map(|i| stream_byte(0xbeef + 3535, i as u64)).collect::<Vec<u8>>())[0]], SECRET_LANG);
        }
        // containers: right, wrong password, altered, cut
        for c in 0..4usize {
            for how in 0..12usize {
                for op in 0..7usize {
                    deed(&mut v, format!("operation {} on wallet {} treated {} {}", op, c, how, bits), if how == 0 { None } else { Some(true) }, move || {
                        let mut x = secrets().c[c].clone();
                        let l = x.len();
                        let mut pw = PW;
                        match how {
                            0 => {}
                            1 => pw = PW2,
                            2 => pw = "",
                            3 => pw = &PW[1..],
                            4 => x[0] ^= 1,
                            5 => x[40] ^= 1,
                            6 => x[50] ^= 1,
                            7 => x[l - 1] ^= 1,
                            8 => x.truncate(l - 1),
                            9 => x.truncate(59),
                            10 => x.clear(),
                            _ => x.extend_from_slice(PW.as_bytes()),
                        }
                        scripted(3, || match op {
                            0 => said(m().keychain_from_data(&x, pw).map(|_| ())),
                            1 => said(m().change_password(&x, pw, PW2)),
                            2 => said(m().get_keys_data(&x, pw)),
                            3 => said(m().retrieve_mnemonic(&x, pw)),
                            n => said(m().add_network(&x, pw, net(NETS[n - 4]))),
                        })
                    });
                }
            }
        }
        // a wallet's answers
        for n in NETS {
            for j in 0..16usize {
                let path = {
                    let mut p = refm::std_path(n);
                    match j {
                        0 => {}
                        1 => p[0] = 44,
                        2 => p[1] ^= 1,
                        3 => p[2] ^= H,
                        4 => p[3] = 2,
                        5 => p[4] |= H,
                        6 => p = [0; 5],
                        7 => p = [u32::MAX; 5],
                        j => p[4] = 1 << j,
                    }
                    p
                };
                let w = move || the_wallet(bits);
                deed(&mut v, format!("pub_key of {} at {} {}", refm::net_name(n), path_text(&path), bits), None, move || said(w().pub_key(&net(n), &P(path))));
                deed(&mut v, format!("sign for {} at {} {}", refm::net_name(n), path_text(&path), bits), None, move || said(w().sign(&net(n), b"a message", &P(path))));
                for s in [0usize, 1, 63, 64, 65, 66, 1000] {
                    deed(&mut v, format!("verify {} bytes for {} at {} {}", s, refm::net_name(n), path_text(&path), bits), None, move || {
                        said(w().verify(&net(n), b"a message", &bytes_n(s, 4), &P(path)))
                    });
                }
            }
        }
    }
    // stored keys, whole and damaged
    for k in 0..6usize {
        for how in 0..24usize {
            let n = NETS[k % 3];
            let damaged = move || {
                let mut b = secrets().keys[k].clone();
                let l = b.len();
                match how {
                    0 => {}
                    1 => b.truncate(l - 1),
                    2 => b.push(0),
                    3 => b.clear(),
                    4 => b.truncate(l / 2),
                    5 => b.extend(b.clone()),
                    6 => b[0] ^= 0x80,
                    7 => b[l - 1] ^= 1,
                    8 => b[31] ^= 0x20,
                    9 => b[0] ^= 1,
                    10 => b[4] ^= 1,
                    11 => b[l - 33] ^= 1,
                    12 => b.iter_mut().skip(l / 2).for_each(|x| *x = 0),
                    j => b[j * (l - 1) / 24] ^= 4,
                }
                b
            };
            deed(&mut v, format!("opening stored key {} damaged {}", k, how), None, move || {
                factory(n).key_from_data(&damaged()).err().map(|e| vec![e.to_string(), format!("{:?}", e)])
            });
            deed(&mut v, format!("opening a wallet of stored key {} damaged {}", k, how), None, move || {
                let dd = Doc { version: 2, seed: None, mnemonic: None, dictionary: None, keys: vec![(n, damaged())] };
                said(managers(7).keychain_from_data(&sealed(dd.text().as_bytes(), PW), PW).map(|_| ()))
            });
            if n != ADA {
                deed(&mut v, format!("extended key {} damaged {}", k, how), None, move || {
                    secp256k1_bip32::XPrv::from_data(&damaged()).err().map(|e| vec![e.to_string(), format!("{:?}", e)])
                });
            }
        }
        // a seed of the wrong size given to a network
        for l in [0usize, 1, 15, 16, 31, 32, 63, 64, 65, 128] {
            let n = NETS[k % 3];
            deed(&mut v, format!("{} from {} bytes", refm::net_name(n), l), None, move || {
                let mut s = secrets().seed.clone();
                s.extend(seed_n(3536));
                factory(n).key_data_from_seed(&s[..l]).err().map(|e| vec![e.to_string(), format!("{:?}", e)])
            });
        }
    }
    // paths
    for p in ["m/44'/60'/0'/0/0", "m/44'/60'/0'/0", "x", "", "m/a/b/c/d/e", "m/4294967296'/0/0/0/0", "m//0/0/0/0", "m/44'/1815'/0'/2/9"] {
        deed(&mut v, format!("path '{}'", p), None, move || GenericKeyPath::from(p).err().map(|e| vec![e.to_string(), format!("{:?}", e)]));
    }
    for j in 0..8u32 {
        let (a, c, x) = ((j & 1) * H, (j >> 1 & 1) * 5, (j >> 2 & 1) * u32::MAX);
        use keychain::networks::{bitcoin, cardano, ethereum};
        deed(&mut v, format!("bitcoin path {} {} {}", a, c, x), None, move || bitcoin::KeyPath::bip44(false, a, c, x).err().map(|e| vec![e.to_string()]));
        deed(&mut v, format!("cardano path {} {} {}", a, c, x), None, move || cardano::KeyPath::new(a, c, x).err().map(|e| vec![e.to_string()]));
        deed(&mut v, format!("ethereum path {}", a), None, move || ethereum::KeyPath::new(a).err().map(|e| vec![e.to_string()]));
    }
    // words and seeds
    for n in 0..40usize {
        deed(&mut v, format!("entropy of {} bytes", n), None, move || Entropy::from_slice(&secrets().seed[..n]).err().map(|e| vec![e.to_string(), format!("{:?}", e)]));
        deed(&mut v, format!("seed of {} bytes", n), true, move || Seed::from_slice(&secrets().seed[..n]).err().map(|e| vec![e.to_string(), format!("{:?}", e)]));
        deed(&mut v, format!("entropy of {} words", n), None, move || {
            let w = index_list(n, 9);
            Mnemonics::from_mnemonics(w.iter().map(|n| MnemonicIndex(*n)).collect()).and_then(|m| Entropy::from_mnemonics(&m)).err().map(|e| vec![e.to_string(), format!("{:?}", e)])
        });
    }
    for l in 0..8usize {
        deed(&mut v, format!("phrases in list {}", l), false, move || {
            let d = LANGS[l].to_dict();
            let e = Entropy::generate(TYPES[l % 6], |b| b.copy_from_slice(&secrets().seed[..b.len()]));
            let s = e.to_mnemonics().to_string(d);
            let m = Mnemonics::from_string(d, &s).and_then(|m| Entropy::from_mnemonics(&m));
            let _ = (format!("{} {:?}", e, e), Seed::from_mnemonic_string(&s, PW.as_bytes()).to_string());
            m.err().map(|e| vec![e.to_string()])
        });
    }
    v
}
/// The same by way of C; what is handed out is released.
fn c_deeds() -> Vec<Deed> {
    let mut v = vec![];
    fn hands() -> &'static Hands {
        thread_local! { static H: std::cell::OnceCell<&'static Hands> = const { std::cell::OnceCell::new() }; }
        H.with(|h| *h.get_or_init(|| Box::leak(Box::new(Hands::new(at(&secrets().c[0]), cs(PW)).expect("handles")))))
    }
    fn call(c: &Call) -> Said {
        let r = match invoke(&hands().m, &hands().k, c) {
            Ok(r) => r,
            Err(e) => return Some(vec![e]),
        };
        let v = r.value();
        r.release();
        match v {
            Val::Error(_, m) => Some(vec![String::from_utf8_lossy(&m).into_owned()]),
            _ => None,
        }
    }
    deed(&mut v, "C: new".into(), false, || match invoke(&NULL, &NULL, &Call::ManagerNew) {
        Ok(Raw::Manager(h)) => {
            Raw::Manager(h).release();
            None
        }
        _ => Some(vec!["no manager".into()]),
    });
    // An enum value outside the header's eight is not a call the interface allows.
    for l in 0..8u32 {
        deed(&mut v, format!("C: generate {}", l), false, move || {
            scripted(1, || call(&Call::Generate(l)))
        });
    }
    for n in [0usize, 1, 32, 63, 64, 65, 128] {
        deed(&mut v, format!("C: from seed of {}", n), n != 64, move || {
            let s = [secrets().seed.clone(), seed_n(3536)].concat();
            scripted(1, || call(&Call::FromSeed(Buf::At(&s[..n]), cs(PW))))
        });
    }
    for p in 0..13usize {
        deed(&mut v, format!("C: from a phrase with a bad word {}", p), p < 12, move || {
            let mut w: Vec<&str> = secrets().phrase.split(' ').collect();
            if p < 12 {
                w[p] = "zzyzx";
            }
            scripted(1, || call(&Call::FromMnemonic(cs(&w.join(" ")), cs(PW), SECRET_LANG as u32)))
        });
        deed(&mut v, format!("C: from a phrase of {} words", p), p < 12, move || {
            let w: Vec<&str> = secrets().phrase.split(' ').take(p).collect();
            scripted(1, || call(&Call::FromMnemonic(cs(&w.join(" ")), cs(PW), SECRET_LANG as u32)))
        });
    }
    for c in 0..4usize {
        for how in 0..5usize {
            for op in 0..7usize {
                deed(&mut v, format!("C: operation {} on wallet {} treated {}", op, c, how), if how == 0 { None } else { Some(true) }, move || {
                    let mut x = secrets().c[c].clone();
                    let l = x.len();
                    let mut pw = PW;
                    match how {
                        0 => {}
                        1 => pw = PW2,
                        2 => x[50] ^= 1,
                        3 => x.truncate(l - 1),
                        _ => x.truncate(20),
                    }
                    let b = Buf::At(&x);
                    scripted(3, || match op {
                        0 => call(&Call::Open(b, cs(pw))),
                        1 => call(&Call::Change(b, cs(pw), cs(PW2))),
                        2 => call(&Call::Keys(b, cs(pw))),
                        3 => call(&Call::Phrase(b, cs(pw))),
                        n => call(&Call::Add(b, cs(pw), NETS[n - 4])),
                    })
                });
            }
        }
    }
    for n in [ADA, ETH, BTC, 5] {
        for j in 0..4usize {
            let mut p = if n == 5 { refm::std_path(ETH) } else { refm::std_path(n) };
            p[3] += j as u32;
            deed(&mut v, format!("C: pub_key {:x} {}", n, j), None, move || call(&Call::PubKey(n, p)));
            deed(&mut v, format!("C: sign {:x} {}", n, j), None, move || call(&Call::Sign(n, at(b"a message"), p)));
            for l in [0, 64, 65] {
                deed(&mut v, format!("C: verify {:x} {} {}", n, j, l), None, move || call(&Call::Verify(n, at(b"a message"), at(&bytes_n(l, 2)), p)));
            }
        }
        deed(&mut v, format!("C: has {:x}", n), false, move || call(&Call::Has(n)));
    }
    deed(&mut v, "C: networks".into(), false, || call(&Call::Networks));
    for p in ["m/44'/60'/0'/0/0", "m/44'/60'/0'/0", "x", ""] {
        deed(&mut v, format!("C: path '{}'", p), None, move || call(&Call::PathText(cs(p))));
    }
    for j in 0..4u32 {
        deed(&mut v, format!("C: bitcoin path {}", j), None, move || call(&Call::Btc(j as u8 % 3, j > 1, j * (H / 2), j, j)));
        deed(&mut v, format!("C: cardano path {}", j), None, move || call(&Call::Ada(j * (H / 2), j, j)));
        deed(&mut v, format!("C: ethereum path {}", j), None, move || call(&Call::Eth(j * (H / 2))));
        deed(&mut v, format!("C: metamask path {}", j), None, move || call(&Call::Metamask(j * (H / 2))));
    }
    // an internal failure, after the library was set up: still nothing is printed
    for op in 0..5usize {
        deed(&mut v, format!("C: operation {} without random numbers", op), true, move || {
            let s = secrets();
            crate::cffi::init_library();
            env::script(1, &[Ans::Err(libc::EIO); 8]);
            let r = match op {
                0 => call(&Call::Generate(0)),
                1 => call(&Call::FromSeed(Buf::At(&s.seed), cs(PW))),
                2 => call(&Call::FromMnemonic(cs(&s.phrase), cs(PW), SECRET_LANG as u32)),
                3 => call(&Call::Change(Buf::At(&s.c[0]), cs(PW), cs(PW2))),
                _ => call(&Call::Add(Buf::At(&s.c[2]), cs(PW), BTC)),
            };
            env::unscript();
            quiet_panics();
            r
        });
    }
    v
}
/// The deed is done; then what it left behind and what it said are looked at.
fn watch(v: &[Deed], i: u64, cx: &mut Cx) -> R {
    let x = &v[i as usize];
    let _ = (secrets(), managers(7), the_wallet(7));
    // the first time, the code under test may set itself up
    let (said, left) = traced(|| (x.run)())?;
    ensure!(left.is_empty(), "{}: {}", x.name, left.join("; "));
    if let Some(f) = x.fails {
        ensure!(f == said.is_some(), "{}: {:?}", x.name, said);
    }
    cx.outcome(if said.is_some() { "failed" } else { "done" });
    cx.step();
    cx.state(hash(x.name.as_bytes()));
    for s in said.into_iter().flatten() {
        no_secret(&s, &x.extra, &x.quoted).map_err(|e| format!("{}: {}", x.name, e))?;
        cx.state_of(s.as_bytes());
    }
    Ok(())
}
pub fn c35(t: Tier) -> Check {
    let mut d = vec![];
    let v = rust_deeds();
    d.push(Domain::new("every operation", v.len() as u64, move |i, cx| watch(&v, i, cx)));
    let v = c_deeds();
    d.push(Domain::new("every C function", v.len() as u64, move |i, cx| watch(&v, i, cx)));
    d.push(Domain::new("errors of a network of the user's own", 5 * FAULTS as u64, |i, cx| {
        let k = digits(i, &[5, FAULTS as u64]);
        let log = Log::default();
        let r = Rec::new(3, &log, &Answers { fail: Some((k[0], k[1])), stored: secrets().keys[0].clone(), ..Answers::new() });
        let m = of_recs(vec![r.clone()])?;
        let (e, left) = traced(|| {
            let c = match scripted(2, || m.keychain_data_from_seed(&secrets().seed, PW)) {
                Ok(c) => c,
                Err(e) => return said::<()>(Err(e)),
            };
            let w = match m.keychain_from_data(&c, PW) {
                Ok(w) => w,
                Err(e) => return said::<()>(Err(e)),
            };
            let p = P([1, 2, 3, 4, 5]);
            said(w.pub_key(&Network(3), &p)).or(said(w.sign(&Network(3), b"m", &p))).or(said(w.verify(&Network(3), b"m", b"s", &p)))
        })?;
        ensure!(left.is_empty(), "{:?}: {}", k, left.join("; "));
        let e = e.ok_or(format!("{:?}: the error is lost", k))?;
        for s in &e {
            no_secret(s, &[], "\0\0")?;
        }
        cx.step();
        cx.outcome("failed");
        cx.state(i);
        Ok(())
    }));
    // the cases of the other checks, under the same eyes
    let per = if t == Tier::Thorough { 4000 } else { 250 };
    let mut others: Vec<(&'static str, Domain, u64)> = vec![];
    let mut sizes = vec![0u64];
    for id in super::ids() {
        // C29 runs threads of its own
        if id == "C29" || id == "C35" {
            continue;
        }
        for dom in super::get(id, Tier::Quick).unwrap().domains {
            let n = dom.size.min(per);
            sizes.push(sizes[sizes.len() - 1] + n);
            others.push((id, dom, n));
        }
    }
    let all = sizes[sizes.len() - 1];
    d.push(Domain::new("cases of the other checks", all, move |i, cx| {
        let j = sizes.partition_point(|s| *s <= i) - 1;
        let (id, dom, n) = &others[j];
        // evenly apart, the first and the last among them
        let x = if *n < 2 { 0 } else { ((i - sizes[j]) as u128 * (dom.size - 1) as u128 / (*n - 1) as u128) as u64 };
        quiet_panics();
        let mut own = Cx::default();
        let (_, left) = traced(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (dom.run)(x, &mut own).is_ok())))?;
        ensure!(left.is_empty(), "case {} of '{}' of {}: {}", x, dom.name, id, left.join("; "));
        cx.outcome(id);
        cx.step();
        cx.state(hash2(j as u64, x));
        Ok(())
    }));
    let mut c = base(
        "C35",
        "while the operation runs the kernel hands each system call over: none may write, create, open for writing, use the network or start anything, the environment must be the same, and what a failure says must not contain a password, a seed, a stored key or two words of a phrase; non-trivial for every operation done or failed",
        "every public operation of the four crates and every C function, done and failing in each way it can: 7 managers, 4 wallets in 12 conditions, 135 seed lengths, 12 x 8 alterations of a phrase, 16 paths x 7 signature lengths, 144 damaged stored keys, 5 failures of the random source; 250 (thorough 4000) cases of each domain of the other checks",
        d,
    );
    c.assumptions = vec!["system calls are made through the syscall instruction of the thread under test".into()];
    c
}
