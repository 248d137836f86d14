//! C39: what calls need in memory while they run, and what they keep.
use super::base;
use super::cont::{doc, sealed};
use super::keys::{factory, key_of};
use crate::engine::*;
use crate::env;
use crate::refm::{self, net, BTC, ETH, NETS};
use crate::util::*;
use bip39::dictionary::Language;
use bip39::{Entropy, MnemonicIndex, MnemonicString, Mnemonics, Seed};
use keychain::networks::{bitcoin, cardano, ethereum};
use keychain::{crypt, GenericKeyPath, KeyPath, Keychain, KeychainManager, Network, OsEntropy};
use secp256k1_bip32::XPrv;
use std::any::Any;
use std::rc::Rc;

/// A call ready to be made: the number of bytes it is given, and the call, which may be made again.
struct Ready {
    given: usize,
    call: Box<dyn Fn() -> Box<dyn Any>>,
}
fn ready<T: 'static>(given: usize, f: impl Fn() -> T + 'static) -> Ready {
    Ready { given, call: Box::new(move || Box::new(f())) }
}
const SHAPES: usize = 11;
/// A text of about n bytes; `k` tells texts of the same size and shape apart.
fn text(n: usize, shape: usize, k: u64) -> String {
    let (head, unit) = match shape {
        0 => ("", "a"),
        1 => ("", "abandon "),
        2 => ("", "\u{fdfa}"),
        3 => ("a", "\u{301}\u{323}"),
        4 => ("", "1"),
        5 => ("m/", "44'/"),
        6 => ("", "\u{10fffd}"),
        7 => ("", " "),
        8 => ("", "\u{3000}\u{3042}"),
        9 => ("", "\"\\\n\0"),
        _ => ("", "\u{ac01}"),
    };
    let mut s = String::from(head);
    while s.len() + unit.len() <= n {
        s.push_str(unit);
    }
    if k > 0 {
        let t = format!("{:x}", k);
        while s.len() + t.len() > n && s.pop().is_some() {}
        s.push_str(&t);
    }
    s
}
fn bytes(n: usize, shape: usize, k: u64) -> Vec<u8> {
    let mut v = match shape {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => vec![0x80; n],
        _ => bytes_n(n, shape),
    };
    for (i, b) in k.to_le_bytes().iter().enumerate() {
        if i < v.len() {
            v[i] ^= b;
        }
    }
    v
}
/// Contents of a wallet of about n bytes.
fn contents(n: usize, shape: usize, k: u64) -> String {
    let d = doc(Some(&seed_n(k as usize % 50)), None, &[ETH]);
    let inner = d.inner();
    let fill = |unit: &str, sep: &str| vec![unit; n / (unit.len() + sep.len()).max(1)].join(sep);
    match shape {
        // an unknown member
        0 => refm::wrap(2, &format!("{{\"more\":\"{}\",{}", text(n, 0, k), &inner[1..])),
        1 => refm::wrap(2, &format!("{{\"more\":[{}],{}", fill("0", ","), &inner[1..])),
        // keys of unknown networks, one long key
        2 => {
            let keys: Vec<String> = (0..n / 20).map(|i| format!("[{},\"AAAA\"]", i + 7 + k as usize % 1000)).collect();
            refm::wrap(2, &format!("{{\"seed\":null,\"mnemonic\":null,\"dictionary\":null,\"keys\":[{}]}}", keys.join(",")))
        }
        3 => {
            let mut d = d;
            d.keys.push((5, bytes(n * 9 / 16, 4, k)));
            d.text()
        }
        // a long phrase, a long seed
        4 => {
            let mut d = d;
            d.seed = None;
            d.mnemonic = Some(text(n, 1, k));
            d.dictionary = Some("English".into());
            d.text()
        }
        5 => {
            let mut d = d;
            d.seed = Some(bytes(n * 9 / 16, 4, k));
            d.text()
        }
        // blanks, brackets
        6 => format!("{}{}", text(n, 7, 0), d.text()),
        7 => refm::wrap(2, &format!("{{\"more\":{}{},{}", "[".repeat(n / 2), "]".repeat(n / 2), &inner[1..])),
        8 => "[".repeat(n),
        9 => refm::wrap(2, &format!("{{\"seed\":null,\"mnemonic\":null,\"dictionary\":\"{}\",\"keys\":[]}}", text(n, 0, k))),
        _ => refm::wrap(2, &format!("{{\"{}\":0,{}", text(n, 0, k), &inner[1..])),
    }
}
fn phrase_of(k: u64, lang: usize) -> String {
    phrase_n(12, k, lang)
}

type Make = fn(&Held, usize, usize, u64) -> Ready;
/// Things that outlive the calls.
#[derive(Clone)]
struct Held {
    m: Rc<KeychainManager>,
    w: Rc<Keychain>,
    x: Rc<XPrv>,
}
fn held() -> Held {
    let x = XPrv::from_seed(&Seed::from_slice(&seed_n(3)).unwrap()).unwrap();
    let m = manager(7);
    let w = m.keychain_from_data(&sealed(doc(Some(&seed_n(3)), None, &NETS).text().as_bytes(), "pw"), "pw").ok().expect("wallet");
    Held { m: Rc::new(m), w: Rc::new(w), x: Rc::new(x) }
}
fn scripted<T>(k: u64, f: impl FnOnce() -> T) -> T {
    // what the script itself needs is not the call's
    {
        let _s = env::Suspend::new();
        env::script(k, &[]);
    }
    let r = f();
    let _s = env::Suspend::new();
    env::unscript();
    r
}
fn lang(k: usize) -> usize {
    k % 8
}
/// (name, does the size count, does the input differ with k, how to make it)
fn ops() -> Vec<(&'static str, bool, bool, Make)> {
    fn d(l: usize) -> &'static bip39::dictionary::DefaultDictionary {
        LANGS[lang(l)].to_dict()
    }
    vec![
        ("Entropy::from_slice", true, true, |_, n, s, k| {
            let b = bytes(n, s, k);
            ready(n, move || Entropy::from_slice(&b))
        }),
        ("Seed::from_slice", true, true, |_, n, s, k| {
            let b = bytes(n, s, k);
            ready(n, move || Seed::from_slice(&b))
        }),
        ("entropy to words and back", false, true, |_, n, s, k| {
            let b = bytes(refm::SIZES[n % 6], s, k);
            ready(b.len(), move || {
                let m = Entropy::from_slice(&b).unwrap().to_mnemonics();
                let e = Entropy::from_mnemonics(&m);
                (m, e)
            })
        }),
        ("Mnemonics::from_mnemonics", true, true, |_, n, _, k| {
            let v: Vec<u16> = (0..n / 2).map(|i| ((i as u64 * 7 + k) % 2100) as u16).collect();
            ready(n, move || {
                let l: Vec<MnemonicIndex> = v.iter().map(|n| MnemonicIndex(*n)).collect();
                Mnemonics::from_mnemonics(l)
            })
        }),
        ("Mnemonics::from_string", true, true, |_, n, s, k| {
            let t = text(n, s, k);
            ready(n, move || Mnemonics::from_string(d(s), &t))
        }),
        ("a phrase to words and back", false, true, |_, n, _, k| {
            let t = phrase_of(k, lang(n));
            ready(t.len(), move || {
                let m = Mnemonics::from_string(d(n), &t).unwrap();
                let s = m.to_string(d(n));
                (m, s)
            })
        }),
        ("MnemonicString::new", true, true, |_, n, s, k| {
            let t = text(n, s, k);
            ready(n, move || MnemonicString::new(d(s), t.clone()))
        }),
        ("MnemonicIndex::from_word", true, true, |_, n, s, k| {
            let t = text(n, s, k);
            ready(n, move || MnemonicIndex::from_word(d(s), &t))
        }),
        ("MnemonicIndex::to_word", false, true, |_, n, _, k| {
            let i = MnemonicIndex((k % 2048) as u16);
            ready(2, move || (d(n).lookup_word(i), MnemonicIndex::new((n % 65536) as u16)))
        }),
        ("Language::lookup_mnemonic", true, true, |_, n, s, k| {
            let t = text(n, s, k);
            ready(n, move || d(s).lookup_mnemonic(&t))
        }),
        ("Seed::from_mnemonic_string", true, true, |_, n, s, k| {
            let t = phrase_of(1, lang(s));
            let p = text(n, s, k);
            ready(n + t.len(), move || {
                let m = MnemonicString::new(d(s), t.clone()).unwrap();
                Seed::from_mnemonic_string(&m, p.as_bytes())
            })
        }),
        ("hex", true, true, |_, n, s, k| {
            let b = bytes(n, s, k);
            let t = text(n, s, k);
            let good = bip39::util::hex::encode(&b);
            ready(4 * n, move || (bip39::util::hex::encode(&b), bip39::util::hex::decode(&t), bip39::util::hex::decode(&good)))
        }),
        ("XPrv::from_data", true, true, |_, n, s, k| {
            let b = bytes(n, s, k);
            ready(n, move || XPrv::from_data(&b))
        }),
        ("XPrv::derive", false, true, |h, n, _, k| {
            let x = h.x.clone();
            let i = (n as u32).wrapping_add(k as u32) | if k % 2 == 1 { refm::H } else { 0 };
            ready(4, move || x.derive(i).map(|y| (y.serialize(), y.public().serialize(), y.public().serialize_compressed())))
        }),
        ("XPrv::sign", true, true, |h, n, s, k| {
            let x = h.x.clone();
            let b = bytes(n, s, k);
            ready(n, move || x.sign(&b))
        }),
        ("XPub::verify", true, true, |h, n, s, k| {
            let x = h.x.clone();
            let b = bytes(n, s, k);
            let sig = x.sign(b"m").unwrap();
            ready(2 * n + 65, move || (x.public().verify(&b, &sig), x.public().verify(b"m", &b), x.public().verify(b"m", &sig)))
        }),
        ("GenericKeyPath::from", true, true, |_, n, s, k| {
            let t = text(n, s, k);
            ready(n, move || GenericKeyPath::from(&t))
        }),
        ("GenericKeyPath::to_string", false, true, |_, n, _, k| {
            let t = format!("m/{}'/{}/0/{}/7'", n % 77, k % 1000, n % 3);
            ready(t.len(), move || GenericKeyPath::from(&t).map(|p| (p.to_string(), p.purpose())))
        }),
        ("path constructors", false, true, |_, n, _, k| {
            let a = (n as u32).wrapping_mul(0x1000_0001).wrapping_add(k as u32);
            ready(12, move || {
                (bitcoin::KeyPath::bip84(false, a, 0, a), cardano::KeyPath::new(a, 1, 5), ethereum::KeyPath::new(a), ethereum::KeyPath::new_metamask(a))
            })
        }),
        ("key_from_data", true, true, |_, n, s, k| {
            let b = bytes(n, s, k);
            ready(3 * n, move || NETS.iter().map(|t| key_of(*t, &b)).collect::<Vec<_>>())
        }),
        ("key_from_data of good keys", false, true, |_, n, _, k| {
            let t = NETS[n % 3];
            let b = refm::stored_key(t, &seed_n(k as usize % 50));
            ready(b.len(), move || key_of(t, &b))
        }),
        ("key_data_from_seed", true, true, |_, n, s, k| {
            let b = bytes(n, s, k);
            ready(3 * n, move || NETS.iter().map(|t| factory(*t).key_data_from_seed(&b)).collect::<Vec<_>>())
        }),
        ("Keychain::pub_key", false, true, |h, n, _, k| {
            let (w, t) = (h.w.clone(), NETS[n % 3]);
            let mut p = refm::std_path(t);
            p[4] = k as u32;
            ready(20, move || w.pub_key(&net(t), &P(p)))
        }),
        ("Keychain, other accounts", false, true, |h, n, _, k| {
            let (w, t) = (h.w.clone(), NETS[k as usize % 3]);
            let mut p = refm::std_path(t);
            p[2] = refm::H | (k as u32 / 3);
            p[3] = n as u32 / 8 & 1;
            ready(20, move || (w.pub_key(&net(t), &P(p)), w.sign(&net(t), b"m", &P(p)), w.verify(&net(t), b"m", &[0; 64], &P(p))))
        }),
        ("Keychain, other purposes", false, true, |h, _, _, k| {
            let w = h.w.clone();
            let mut p = refm::std_path(BTC);
            p[0] = k as u32;
            p[1] = refm::H | (k as u32 & 1);
            ready(20, move || (w.pub_key(&net(BTC), &P(p)), w.sign(&net(BTC), b"m", &P(p)), w.verify(&net(BTC), b"m", &[0; 65], &P(p))))
        }),
        ("Keychain, other messages", false, true, |h, n, _, k| {
            let (w, t) = (h.w.clone(), NETS[k as usize % 3]);
            let b = bytes(n.max(3), 4, k / 3 + 1);
            let p = P(refm::std_path(t));
            ready(2 * n, move || {
                let s = w.sign(&net(t), &b, &p).unwrap();
                (w.verify(&net(t), &b, &s, &p), s)
            })
        }),
        ("Keychain, wrong paths", false, true, |h, n, _, k| {
            let (w, t) = (h.w.clone(), NETS[n % 3]);
            let mut p = refm::std_path(t);
            p[n / 3 % 5] ^= 0x8000_0000;
            p[4] ^= (k as u32) << 1;
            ready(20, move || (w.pub_key(&net(t), &P(p)), w.sign(&net(t), b"m", &P(p)), w.verify(&net(t), b"m", &[0; 65], &P(p))))
        }),
        ("Keychain, other networks", false, true, |h, _, _, k| {
            let w = h.w.clone();
            ready(20, move || (w.pub_key(&Network(k as u32), &P(refm::std_path(ETH))), w.has_network(&Network(k as u32)), w.networks()))
        }),
        ("Keychain::sign", true, true, |h, n, s, k| {
            let w = h.w.clone();
            let b = bytes(n, s, k);
            ready(3 * n, move || NETS.iter().map(|t| w.sign(&net(*t), &b, &P(refm::std_path(*t)))).collect::<Vec<_>>())
        }),
        ("Keychain::verify", true, true, |h, n, s, k| {
            let w = h.w.clone();
            let b = bytes(n, s, k);
            let sig: Vec<Vec<u8>> = NETS.iter().map(|t| w.sign(&net(*t), b"m", &P(refm::std_path(*t))).unwrap()).collect();
            ready(6 * n + 194, move || {
                NETS.iter()
                    .enumerate()
                    .map(|(i, t)| {
                        let p = P(refm::std_path(*t));
                        (w.verify(&net(*t), &b, &sig[i], &p), w.verify(&net(*t), b"m", &b, &p), w.verify(&net(*t), b"m", &sig[i], &p))
                    })
                    .collect::<Vec<_>>()
            })
        }),
        ("managers", false, false, |_, n, _, _| {
            ready(1, move || match n % 3 {
                0 => KeychainManager::new(),
                1 => KeychainManager::with_networks(&[net(NETS[n / 3 % 3])]),
                _ => KeychainManager::with_networks(&[]),
            })
        }),
        ("with_networks", true, true, |_, n, s, k| {
            let v: Vec<Network> = (0..n / 4).map(|i| if s % 2 == 0 { net(NETS[i % 3]) } else { Network(i as u32 + k as u32) }).collect();
            ready(n, move || KeychainManager::with_networks(&v))
        }),
        ("generate_mnemonic", false, true, |h, n, _, k| {
            let m = h.m.clone();
            ready(1, move || scripted(k, || m.generate_mnemonic(if n % 9 == 8 { None } else { Some(LANGS[n % 9]) })))
        }),
        ("keychain_data_from_seed", true, true, |h, n, s, k| {
            let m = h.m.clone();
            let b = bytes(n, s, k);
            ready(n, move || scripted(1, || m.keychain_data_from_seed(&b, "pw")))
        }),
        ("keychain_data_from_seed, good", true, true, |h, n, s, k| {
            let m = h.m.clone();
            let (p, sd) = (text(n, s, 0), seed_n(k as usize % 3000));
            ready(n + 64, move || scripted(1, || m.keychain_data_from_seed(&sd, &p)))
        }),
        ("keychain_data_from_mnemonic", true, true, |h, n, s, k| {
            let m = h.m.clone();
            let t = text(n, s, k);
            ready(n, move || scripted(1, || m.keychain_data_from_mnemonic(&t, "pw", Some(LANGS[s % 8]))))
        }),
        ("keychain_data_from_mnemonic, good", false, true, |h, n, s, k| {
            let m = h.m.clone();
            let t = phrase_n(manager_words(7), k, n % 8);
            ready(t.len(), move || scripted(1, || m.keychain_data_from_mnemonic(&t, "pw", Some(LANGS[n % 8]))))
        }),
        ("opening anything", true, true, |h, n, s, k| {
            let m = h.m.clone();
            let b = bytes(n, s, k);
            ready(n, move || (m.keychain_from_data(&b, "pw").map(|_| ()), crypt::decrypt(&b, "pw")))
        }),
        ("opening with another password", true, true, |h, n, s, k| {
            let m = h.m.clone();
            let c = sealed(contents(0, 10, 1).as_bytes(), "pw");
            let p = text(n, s, k);
            ready(n + c.len(), move || m.keychain_from_data(&c, &p).map(|_| ()))
        }),
        ("opening contents", true, true, |h, n, s, k| {
            let m = h.m.clone();
            let c = sealed(contents(n, s, k).as_bytes(), "pw");
            ready(c.len(), move || m.keychain_from_data(&c, "pw"))
        }),
        ("opening a wallet", false, true, |h, n, _, k| {
            let m = h.m.clone();
            let c = sealed(doc(Some(&seed_n(k as usize % 50)), None, &subset(1 + n % 7)).text().as_bytes(), "pw");
            ready(c.len(), move || m.keychain_from_data(&c, "pw"))
        }),
        ("change_password", true, true, |h, n, s, k| {
            let m = h.m.clone();
            let c = sealed(&bytes(n, s, k), "pw");
            let p = text(n / 2, s, 0);
            ready(c.len() + p.len(), move || scripted(1, || (m.change_password(&c, "pw", "new"), m.change_password(&c, "pw", &p), m.change_password(&c, "no", "new"))))
        }),
        ("add_network", true, true, |h, n, s, k| {
            let m = h.m.clone();
            let c = sealed(contents(n, s, k).as_bytes(), "pw");
            ready(c.len(), move || scripted(1, || (m.add_network(&c, "pw", net(BTC)), m.add_network(&c, "pw", net(ETH)), m.add_network(&c, "pw", Network(9)))))
        }),
        ("backups", true, true, |h, n, s, k| {
            let m = h.m.clone();
            let c = sealed(contents(n, s, k).as_bytes(), "pw");
            ready(c.len(), move || (m.retrieve_mnemonic(&c, "pw"), m.get_keys_data(&c, "pw")))
        }),
        ("encrypt and decrypt", true, true, |_, n, s, k| {
            let b = bytes(n, s, k);
            ready(n, move || {
                let c = scripted(1, || crypt::encrypt(&b, "pw", &OsEntropy::new()));
                let r = crypt::decrypt(&c, "pw");
                (c, r)
            })
        }),
    ]
}
struct Seen {
    peak: i64,
    kept: i64,
}
fn made(r: &Ready) -> Seen {
    env::count_begin();
    let v = (r.call)();
    drop(v);
    let (kept, peak) = env::count_end();
    Seen { peak, kept }
}
/// Room for a call that is given so many bytes.
const ROOM: i64 = 256 << 10;
const EACH: i64 = 64;
fn fits(what: &dyn Fn() -> String, r: &Ready, cx: &mut Cx) -> R {
    let s = made(r);
    cx.step();
    if s.peak > 65536 {
        cx.max("bytes needed for each given, times 10", (s.peak as u64 - 65536) * 10 / (r.given as u64 + 1));
    }
    if r.given < 4096 {
        cx.max("bytes needed when given less than 4096", s.peak as u64);
    }
    ensure!(
        s.peak <= ROOM + EACH * r.given as i64,
        "{}: given {} bytes, it needs {} bytes of memory",
        what(),
        r.given,
        s.peak
    );
    if s.kept > 0 {
        // once more with the same: something kept for later calls is not kept again
        let again = [made(r).kept, made(r).kept];
        cx.steps(2);
        ensure!(again[0] <= 0 || again[1] <= 0, "{}: every call leaves {} bytes allocated", what(), again[1]);
        cx.outcome("kept something once");
    }
    Ok(())
}
thread_local! {
    static WARM: std::cell::OnceCell<Held> = const { std::cell::OnceCell::new() };
}
/// Everything was called before, so that what is made on first use is there.
fn warm() -> Held {
    WARM.with(|w| {
        w.get_or_init(|| {
            let h = held();
            for (_, _, _, make) in ops() {
                for n in [0, 5, 24, 40, 64] {
                    for s in 0..3 {
                        let r = make(&h, n, s, 1);
                        (r.call)();
                    }
                }
            }
            h
        })
        .clone()
    })
}

pub fn c39(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let mut sizes: Vec<usize> = (0..=70).collect();
    sizes.extend_from_slice(&[81, 95, 96, 97, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10_000, 20_000]);
    sizes.extend_from_slice(&[65_535, 65_536, 65_537, 262_144, 1_000_000]);
    if th {
        sizes.extend(71..1100);
        sizes.extend_from_slice(&[3 << 20, 10_000_000]);
        sizes.sort();
        sizes.dedup();
    }
    let nz = sizes.len() as u64;
    let no = ops().len() as u64;
    let sh = SHAPES as u64;
    d.push(Domain::new("every call with inputs of every size and shape", no * sh * nz, move |i, cx| {
        let k = digits(i, &[sh, no, nz]);
        let h = warm();
        let (name, sized, _, make) = ops()[k[1]];
        let n = sizes[k[2]];
        if !sized && n > 300 {
            return Ok(());
        }
        cx.state(i);
        let r = make(&h, n, k[0], 0);
        fits(&|| format!("{}, size {}, shape {}", name, n, k[0]), &r, cx)
    }));
    let nums: Vec<String> = {
        let mut v: Vec<String> = idx_all().iter().map(|n| n.to_string()).collect();
        for k in 32..72u32 {
            for o in [-1i128, 0, 1] {
                v.push(((1i128 << k) + o).to_string());
            }
        }
        for k in 1..40 {
            v.push(format!("1{}", "0".repeat(k)));
            v.push("9".repeat(k));
        }
        for s in ["-1", "-9223372036854775808", "1e9", "1e300", "-1e300", "0.5", "1E+18", "true", "null", "\"4294967295\"", "[4294967295]", "{}"] {
            v.push(s.into());
        }
        v.sort();
        v.dedup();
        v
    };
    let nn = nums.len() as u64;
    d.push(Domain::new("every number in every place that takes one", nn * 10, move |i, cx| {
        let k = digits(i, &[10, nn]);
        let h = warm();
        let x = &nums[k[1]];
        cx.state(i);
        let inner = |seed: &str, dict: &str, net: &str, key: &str, more: &str| {
            format!("{{\"seed\":{},\"mnemonic\":null,\"dictionary\":{},\"keys\":[[{},{}]]{}}}", seed, dict, net, key, more)
        };
        let text = match k[0] {
            0..=4 => {
                let t: Vec<String> = (0..5).map(|j| if j == k[0] { format!("{}'", x) } else { "0".into() }).collect();
                let t = format!("m/{}", t.join("/"));
                let r = ready(t.len(), move || GenericKeyPath::from(&t).map(|p| p.to_string()));
                return fits(&|| format!("the path with {} in place {}", x, k[0]), &r, cx);
            }
            5 => format!("{{\"version\":{},\"data\":\"e30=\"}}", x),
            6 => refm::wrap(2, &inner("null", "null", x, "\"AAAA\"", "")),
            7 => refm::wrap(2, &inner(x, x, "7", "\"AAAA\"", "")),
            8 => refm::wrap(2, &inner("null", "null", "7", x, "")),
            _ => refm::wrap(2, &inner("null", "null", "7", "\"AAAA\"", &format!(",\"size\":{}", x))),
        };
        let c = sealed(text.as_bytes(), "pw");
        let m = h.m.clone();
        let r = ready(c.len(), move || {
            scripted(1, || (m.keychain_from_data(&c, "pw"), m.get_keys_data(&c, "pw"), m.retrieve_mnemonic(&c, "pw"), m.add_network(&c, "pw", net(ETH))))
        });
        fits(&|| format!("contents {}", text), &r, cx)
    }));
    let deep = if th { 3 } else { 2 };
    let few: Vec<usize> = (0..no as usize).collect();
    d.push(Domain::new("every short history of calls, made again and again", no.pow(deep), move |i, cx| {
        let k = digits(i, &vec![no; deep as usize]);
        let h = warm();
        let all = ops();
        let rs: Vec<Ready> = k.iter().map(|o| all[few[*o]].3(&h, 40, 1, 1)).collect();
        cx.state(i);
        let mut kept = [0; 4];
        for round in 0..4 {
            env::count_begin();
            let held: Vec<Box<dyn Any>> = rs.iter().map(|r| (r.call)()).collect();
            drop(held);
            kept[round] = env::count_end().0;
        }
        cx.steps(4 * rs.len() as u64);
        let name = || k.iter().map(|o| all[*o].0).collect::<Vec<_>>().join(", then ");
        ensure!(kept[2] <= 0 || kept[3] <= 0, "{}: every round leaves {} bytes allocated", name(), kept[3]);
        Ok(())
    }));
    let many: u64 = if th { 6000 } else { 1000 };
    d.push(Domain::new("many calls with other inputs", no * 4, move |i, cx| {
        let k = digits(i, &[no, 4]);
        let h = warm();
        let (name, _, differs, make) = ops()[k[0]];
        if !differs {
            return Ok(());
        }
        let n = [40, 0, 64, 24][k[1]];
        let mut level = vec![0i64];
        for j in 0..many {
            let r = make(&h, n + if n == 0 { 3 + j as usize % 50 } else { 0 }, [4, 0, 1, 3][k[1]], j + 1);
            level.push(level[j as usize] + made(&r).kept);
            cx.step();
        }
        cx.state(i);
        // what grows without bound has grown in every octave
        let at: Vec<i64> = [8, 4, 2, 1].iter().map(|o| level[many as usize / o]).collect();
        let c = at[3];
        ensure!(
            at.windows(2).any(|w| w[1] <= w[0]),
            "{}: after {}, {}, {} and {} calls {:?} bytes more are allocated",
            name,
            many / 8,
            many / 4,
            many / 2,
            many,
            at
        );
        cx.outcome(if c > 0 { "kept something" } else { "kept nothing" });
        Ok(())
    }).chunk(1));
    d.push(Domain::new("objects made and dropped", 8 * 7 * 4, |i, cx| {
        let k = digits(i, &[7, 8, 4]);
        warm();
        let sd = seed_n(k[1]);
        let c = sealed(doc(Some(&sd), None, &NETS).text().as_bytes(), "pw");
        let bits = k[0] + 1;
        let r = ready(c.len(), move || {
            let m = manager(bits);
            let w = m.keychain_from_data(&c, "pw").unwrap();
            let mut got = vec![];
            for j in 0..8u32 {
                for t in NETS {
                    let mut p = refm::std_path(t);
                    p[4] = j;
                    got.push((w.pub_key(&net(t), &P(p)), if k[2] > 0 { Some(w.sign(&net(t), &[j as u8; 40], &P(p))) } else { None }));
                }
            }
            if k[2] > 1 {
                let _ = w.pub_key(&net(ETH), &P([1; 5]));
            }
            if k[2] > 2 {
                drop(m);
                got.push((w.pub_key(&net(BTC), &P(refm::std_path(BTC))), None));
            }
            drop(w);
            got
        });
        cx.state(i);
        fits(&|| format!("a wallet used and dropped, case {}", i), &r, cx)
    }));
    base(
        "C39",
        "every call is made with the allocator counting what this thread allocates and frees: the highest level while it runs is compared with the room stated for the bytes it was given; what is left after its result was dropped may not be left again by the same call, nor grow with calls that differ; non-trivial when something is allocated",
        "44 kinds of calls x 11 shapes x ~100 sizes to 1,000,000 bytes; ~800 numbers x 10 places; all pairs of calls (triples in the thorough tier), four rounds; 1000 calls of each kind with different inputs, of four sizes; wallets used and dropped. Room: 256 KiB and 64 bytes for each byte given",
        d,
    )
}
