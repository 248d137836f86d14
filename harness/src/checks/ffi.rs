//! C26, C27, C28: the C interface.
use super::base;
use super::cont::{doc, scripted, sealed};
use super::keys::wallet;
use crate::cffi::{self, ask, invoke, Buf, Call, Raw, Val, H, S};
use crate::engine::*;
use crate::env::{self, stream_byte, Ans};
use crate::refm::{self, net, Doc, ADA, BTC, ETH, NETS};
use crate::util::*;
use keychain::networks::{bitcoin, cardano, ethereum};
use keychain::{Error, GenericKeyPath, KeyPath, Keychain, KeychainManager, Network};

pub fn leak(b: &[u8]) -> &'static [u8] {
    Box::leak(b.to_vec().into_boxed_slice())
}
/// A string argument.
pub fn cs(t: &str) -> S<'static> {
    let mut b = t.as_bytes().to_vec();
    b.push(0);
    Some(leak(&b))
}
pub fn at(b: &[u8]) -> Buf<'static> {
    Buf::At(leak(b))
}
/// The documented code of each error.
fn code(e: &Error) -> i32 {
    match e {
        Error::WrongPassword => 0,
        Error::NotEnoughData => 1,
        Error::SeedIsNotSaved => 2,
        Error::CantCalculateSeedSize(..) => 3,
        Error::DataError(_) => 4,
        Error::InvalidSeedSize(_) => 5,
        Error::KeyDoesNotExist(_) => 6,
        Error::KeyAlreadyExist(_) => 7,
        Error::NetworkIsNotSupported(_) => 8,
        Error::KeyError(..) => 9,
        Error::KeyPathError(_) => 10,
        Error::MnemonicError(_) => 11,
    }
}
fn text(x: &S) -> String {
    let b = x.expect("string");
    std::str::from_utf8(&b[..b.len() - 1]).expect("utf-8").to_string()
}
fn buf<'a>(x: &Buf<'a>) -> &'a [u8] {
    match x {
        Buf::At(b) => b,
        _ => &[],
    }
}
fn path_val<K: KeyPath>(p: K) -> Val {
    Val::Path([p.purpose(), p.coin(), p.account(), p.change(), p.address()])
}
/// The same operation of the Rust interface.
fn rust(m: &KeychainManager, k: &Keychain, c: &Call) -> Result<Val, Error> {
    Ok(match c {
        Call::ManagerNew => {
            KeychainManager::new()?;
            Val::Handle
        }
        Call::Has(n) => Val::Bool(m.has_network(&Network(*n))),
        Call::Generate(l) => Val::Text(m.generate_mnemonic(Some(LANGS[*l as usize]))?.into_bytes()),
        Call::FromSeed(s, pw) => Val::Data(m.keychain_data_from_seed(buf(s), &text(pw))?),
        Call::FromMnemonic(t, pw, l) => {
            Val::Data(m.keychain_data_from_mnemonic(&text(t), &text(pw), Some(LANGS[*l as usize]))?)
        }
        Call::Open(d, pw) => {
            m.keychain_from_data(buf(d), &text(pw))?;
            Val::Handle
        }
        Call::Add(d, pw, n) => Val::Data(m.add_network(buf(d), &text(pw), Network(*n))?),
        Call::Change(d, pw, np) => Val::Data(m.change_password(buf(d), &text(pw), &text(np))?),
        Call::Keys(d, pw) => {
            let mut v: Vec<(u32, Vec<u8>)> = m.get_keys_data(buf(d), &text(pw))?.into_iter().map(|(n, k)| (n.0, k)).collect();
            v.sort();
            Val::Backup(v)
        }
        Call::Phrase(d, pw) => {
            let (t, l) = m.retrieve_mnemonic(buf(d), &text(pw))?;
            Val::Info(t.into_bytes(), l as u32)
        }
        Call::Networks => {
            let mut v: Vec<u32> = k.networks().into_iter().map(|n| n.0).collect();
            v.sort();
            Val::Nets(v)
        }
        Call::PubKey(n, p) => Val::Data(k.pub_key(&Network(*n), &P(*p))?),
        Call::Sign(n, d, p) => Val::Data(k.sign(&Network(*n), buf(d), &P(*p))?),
        Call::Verify(n, d, s, p) => Val::Bool(k.verify(&Network(*n), buf(d), buf(s), &P(*p))?),
        Call::PathText(t) => path_val(GenericKeyPath::from(&text(t)).map_err(Error::from)?),
        Call::Btc(0, t, a, c, x) => path_val(bitcoin::KeyPath::bip44(*t, *a, *c, *x).map_err(Error::from)?),
        Call::Btc(1, t, a, c, x) => path_val(bitcoin::KeyPath::bip49(*t, *a, *c, *x).map_err(Error::from)?),
        Call::Btc(_, t, a, c, x) => path_val(bitcoin::KeyPath::bip84(*t, *a, *c, *x).map_err(Error::from)?),
        Call::Ada(a, c, x) => path_val(cardano::KeyPath::new(*a, *c, *x).map_err(Error::from)?),
        Call::Eth(a) => path_val(ethereum::KeyPath::new(*a).map_err(Error::from)?),
        Call::Metamask(a) => path_val(ethereum::KeyPath::new_metamask(*a).map_err(Error::from)?),
    })
}
/// Containers are compared as salt, nonce and document (the order of networks in it is free).
fn norm(c: &Call, v: Val) -> Result<String, String> {
    let pw = match c {
        Call::FromSeed(_, pw) | Call::FromMnemonic(_, pw, _) | Call::Add(_, pw, _) => Some(pw),
        Call::Change(_, _, np) => Some(np),
        _ => None,
    };
    Ok(match (v, pw) {
        (Val::Data(d), Some(pw)) => {
            let pw = text(pw);
            let p = refm::unseal(&d, &pw).ok_or(format!("{:?}: a container that does not open", c))?;
            let body = match Doc::read(&p) {
                Ok(d) => d.text(),
                Err(_) => hex(&p),
            };
            format!("container {} {}", hex(&d[..44]), body)
        }
        (v, _) => format!("{:?}", v),
    })
}
/// Handles of the C interface; released when dropped.
pub struct Hands {
    pub m: H,
    pub k: H,
}
pub const NULL: H = H(std::ptr::null_mut());
impl Hands {
    pub fn new(container: Buf, pw: S) -> Result<Hands, String> {
        let m = match invoke(&NULL, &NULL, &Call::ManagerNew)? {
            Raw::Manager(h) => h,
            r => return Err(format!("no manager: {:?}", r.value())),
        };
        let k = match invoke(&m, &NULL, &Call::Open(container, pw))? {
            Raw::Keychain(h) => h,
            r => return Err(format!("no wallet: {:?}", r.value())),
        };
        Ok(Hands { m, k })
    }
}
impl Drop for Hands {
    fn drop(&mut self) {
        Raw::Keychain(self.k).release();
        Raw::Manager(self.m).release();
    }
}
/// The world of the C checks: one wallet with all networks, its handles and its Rust twins.
pub struct World {
    pub full: Vec<u8>,
    pub h: Hands,
    pub m: KeychainManager,
    pub k: Keychain,
}
pub fn container(nets: &[u32], phrase: bool) -> Vec<u8> {
    let p = phrase_n(12, 110, 2);
    let d = if phrase { doc(None, Some((&p, 2)), nets) } else { doc(Some(&seed_n(60)), None, nets) };
    sealed(d.text().as_bytes(), "pw")
}
fn world() -> &'static World {
    thread_local! { static W: std::cell::OnceCell<&'static World> = const { std::cell::OnceCell::new() }; }
    W.with(|w| {
        *w.get_or_init(|| {
            let full = sealed(doc(Some(&seed_n(60)), None, &NETS).text().as_bytes(), "pw");
            let h = Hands::new(Buf::At(&full), cs("pw")).expect("handles");
            Box::leak(Box::new(World { full, h, m: manager(7), k: wallet(7, &seed_n(60)).expect("wallet") }))
        })
    })
}
/// The C call against the Rust call.
fn compare(c: &Call, seed: u64, answers: &[Ans], cx: &mut Cx) -> R {
    let w = world();
    env::script(seed, answers);
    let g = ask(&w.h.m, &w.h.k, c);
    env::unscript();
    let g = g.map_err(|e| format!("{:?}: {}", c, e))?;
    env::script(seed, answers);
    let r = caught(|| rust(&w.m, &w.k, c));
    env::unscript();
    cx.steps(2);
    match (g, r) {
        (Val::Error(c2, msg), Ok(Err(e))) => {
            ensure!(c2 == code(&e), "{:?}: code {} for {}", c, c2, kind(&e));
            let want = e.to_string().replace('\0', "");
            let got = String::from_utf8_lossy(&msg).replace('\0', "");
            ensure!(got == want, "{:?}: message {:?}, in Rust {:?}", c, got, want);
            cx.outcome(kind(&e).split('(').next().unwrap());
            cx.state(hash2(hash(format!("{:?}", c).as_bytes()), c2 as u64));
        }
        (Val::Error(c2, msg), Err(p)) => {
            ensure!(c2 == -1, "{:?}: code {} ({}) for the panic {}", c, c2, String::from_utf8_lossy(&msg), p);
            cx.outcome("Panic");
            cx.state(hash2(hash(format!("{:?}", c).as_bytes()), c2 as u64));
        }
        (Val::Error(n, msg), Ok(Ok(v))) => {
            return Err(format!("{:?}: failed with {} '{}', in Rust {:?}", c, n, String::from_utf8_lossy(&msg), v))
        }
        (v, Ok(Ok(x))) => {
            let (v, x) = (norm(c, v)?, norm(c, x)?);
            ensure!(v == x, "{:?}: {}, in Rust {}", c, v, x);
            cx.outcome("answer");
            cx.state(hash2(hash(format!("{:?}", c).as_bytes()), hash(v.as_bytes())));
        }
        (v, r) => return Err(format!("{:?}: {:?}, in Rust {:?}", c, v, r.map(|r| r.map_err(|e| e.to_string())))),
    }
    Ok(())
}

pub fn c26(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    d.push(Domain::new("network numbers", 1, |_, cx| {
        ensure!(cffi::network_numbers() == [ADA, ETH, BTC], "network numbers {:x?}", cffi::network_numbers());
        ensure!([net(ADA), net(ETH), net(BTC)] == [Network::CARDANO, Network::ETHEREUM, Network::BITCOIN], "Rust network numbers");
        compare(&Call::ManagerNew, 1, &[], cx)?;
        compare(&Call::Networks, 1, &[], cx)
    }));
    d.push(Domain::new("manager knows a network", 4096 + 64, |i, cx| {
        let n = if i < 64 { NETS[(i % 3) as usize] ^ (1u32.wrapping_shl(i as u32 / 3) & if i < 3 { 0 } else { !0 }) } else { (i as u32 - 64).wrapping_mul(0x0010_0001) ^ 0x8000_0000 };
        compare(&Call::Has(n), 1, &[], cx)
    }));
    let acc = idx_all();
    let few = uniq32(vec![0, 1, 2, 3, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
    let (na, nf) = (acc.len() as u64, few.len() as u64);
    let (a1, f1) = (acc.clone(), few.clone());
    d.push(Domain::new("path constructors", 9 * na * nf * nf + 2 * na, move |i, cx| {
        let two = i >= 9 * na * nf * nf;
        let c = if two {
            let j = (i - 9 * na * nf * nf) as usize;
            if j % 2 == 0 { Call::Eth(a1[j / 2]) } else { Call::Metamask(a1[j / 2]) }
        } else {
            let k = digits(i, &[9, na, nf, nf]);
            let (a, ch, ad) = (a1[k[1]], f1[k[2]], f1[k[3]]);
            match k[0] {
                f @ 0..=5 => Call::Btc(f as u8 / 2, f % 2 == 1, a, ch, ad),
                6 => Call::Ada(a, ch, ad),
                // change and address from the large alphabet
                7 => Call::Btc(0, true, f1[k[2]], f1[k[3]], a),
                _ => Call::Ada(f1[k[2]], f1[k[3]], a),
            }
        };
        compare(&c, 1, &[], cx)
    }));
    let al: Vec<char> = "m/'0h4- ".chars().collect();
    d.push(Domain::new("path texts of up to 5 characters", (0..=5).map(|n| 8u64.pow(n)).sum(), move |mut i, cx| {
        let mut n = 0;
        while i >= 8u64.pow(n) {
            i -= 8u64.pow(n);
            n += 1;
        }
        let t: String = (0..n).map(|_| {
            let c = al[(i % 8) as usize];
            i /= 8;
            c
        }).collect();
        path_text_case(&t, cx)
    }));
    let comp = ["0", "0'", "1", "44'", "49'", "84'", "60'", "1815'", "1'", "2147483647", "2147483648", "2147483647'", "4294967295", "4294967296", "", "x", "-1", "1\u{e9}", "'", "00", "0x1", " 1", "1''"];
    let nc = comp.len() as u64;
    d.push(Domain::new("path texts of components", nc * nc * nc * 3 + 7 * nc, move |i, cx| {
        let t = if i < nc * nc * nc * 3 {
            let k = digits(i, &[nc, nc, nc, 3]);
            let (a, b, c) = (comp[k[0]], comp[k[1]], comp[k[2]]);
            match k[3] {
                0 => format!("m/44'/{}/{}/{}/0", a, b, c),
                1 => format!("m/{}/60'/0'/{}/{}", a, b, c),
                _ => format!("{}/{}/0'/0/{}", a, b, c),
            }
        } else {
            let k = digits(i - nc * nc * nc * 3, &[7, nc]);
            let mut v = vec!["m"];
            for _ in 0..k[0] {
                v.push(comp[k[1]]);
            }
            v.join("/")
        };
        path_text_case(&t, cx)
    }));
    let paths = paths();
    let np = paths.len() as u64;
    let nets = [ADA, ETH, BTC, 0, 0x8000_0005, 0xffff_ffff];
    let p1 = paths.clone();
    d.push(Domain::new("public keys", np * 6, move |i, cx| {
        let k = digits(i, &[np, 6]);
        compare(&Call::PubKey(nets[k[1]], p1[k[0]]), 1, &[], cx)
    }));
    let p1 = paths.clone();
    d.push(Domain::new("signatures", np * 6 * 6, move |i, cx| {
        let k = digits(i, &[np, 6, 6]);
        let m = if k[2] == 0 { vec![] } else { msg_n(k[2]) };
        compare(&Call::Sign(nets[k[1]], Buf::At(&m), p1[k[0]]), 1, &[], cx)
    }));
    d.push(Domain::new("verdicts", 3 * 140 * 3, move |i, cx| {
        let k = digits(i, &[3, 140, 3]);
        let n = NETS[k[0]];
        let p = refm::std_path(n);
        let m = msg_n(2);
        let mut s = world().k.sign(&net(n), &m, &P(p)).map_err(|e| e.to_string())?;
        let mut p2 = p;
        let mut m2 = m.clone();
        if k[1] < 70 {
            s.resize(k[1], 7); // every length
        } else if k[1] < 70 + s.len() {
            s[k[1] - 70] ^= 0x10; // every byte
        }
        match k[2] {
            1 => p2[4] = 1,
            2 => m2.push(1),
            _ => {}
        }
        compare(&Call::Verify(n, Buf::At(&m2), Buf::At(&s), p2), 1, &[], cx)
    }));
    // containers: every operation that reads one, on every kind of wallet
    d.push(Domain::new("operations on containers", 26 * 8 * 8, |i, cx| {
        let k = digits(i, &[8, 8, 26]);
        let (c, pw) = containers().swap_remove(k[2]);
        let pws = ["", "wrong", "pw2", "p\u{e4}ss"];
        let given = if k[1] % 2 == 0 { pw.clone() } else { pws[k[1] / 2].to_string() };
        let b = Buf::At(&c);
        let g = format!("{}\0", given);
        let g: S = Some(g.as_bytes());
        let np = format!("{}\0", pws[k[1] / 2]);
        let call = match k[0] {
            0 => Call::Open(b, g),
            1 => Call::Add(b, g, ADA),
            2 => Call::Add(b, g, ETH),
            3 => Call::Add(b, g, BTC),
            4 => Call::Add(b, g, 5),
            5 => Call::Change(b, g, Some(np.as_bytes())),
            6 => Call::Keys(b, g),
            _ => Call::Phrase(b, g),
        };
        compare(&call, 40 + i, &[], cx)
    }));
    d.push(Domain::new("wallets opened by both", 26 * 6 * 3, |i, cx| {
        let k = digits(i, &[6, 3, 26]);
        let (c, pw) = containers().swap_remove(k[2]);
        let w = world();
        let g = format!("{}\0", pw);
        let r = w.m.keychain_from_data(&c, &pw);
        let x = invoke(&w.h.m, &NULL, &Call::Open(Buf::At(&c), Some(g.as_bytes())))?;
        cx.step();
        if let (Ok(kc), Raw::Keychain(h)) = (&r, &x) {
            let n = NETS[k[1]];
            let mut p = refm::std_path(n);
            p[4] = k[0] as u32;
            for call in [Call::Networks, Call::PubKey(n, p), Call::Sign(n, Buf::At(b"to sign"), p), Call::Verify(n, Buf::At(b"to sign"), Buf::At(&[1; 65]), p)] {
                let a = ask(&NULL, h, &call).map_err(|e| format!("{:?}: {}", call, e))?;
                let b = rust(&w.m, kc, &call);
                cx.steps(2);
                match (&a, &b) {
                    (Val::Error(c, m), Err(e)) => ensure!(*c == code(e) && *m == e.to_string().into_bytes(), "{:?}: {} for {}", call, c, e),
                    (a, Ok(b)) => ensure!(a == b, "{:?}: {:?}, in Rust {:?}", call, a, b),
                    _ => return Err(format!("{:?}: {:?}, in Rust {:?}", call, a, b.map_err(|e| e.to_string()))),
                }
                cx.state(hash2(hash(format!("{:?}", a).as_bytes()), i));
            }
            cx.outcome("opened by both");
        }
        x.release();
        Ok(())
    }));
    d.push(Domain::new("phrases", 8 * 8 * 12, |i, cx| {
        let k = digits(i, &[8, 8, 12]);
        let p = match k[2] {
            0..=3 => phrase_n(12, 120 + k[2] as u64, k[0]),
            4 => phrase_n(9, 121, k[0]),
            5 => phrase_n(24, 121, k[0]),
            6 => {
                let p = phrase_n(12, 122, k[0]);
                let mut w: Vec<&str> = p.split(' ').collect();
                w.swap(0, 5);
                w.join(" ")
            }
            7 => String::new(),
            8 => "abandon".into(),
            9 => format!("{} ", phrase_n(12, 123, k[0])),
            10 => phrase_n(12, 124, k[0]).replace(' ', "\u{3000}"),
            _ => "\u{1f511} ".repeat(12),
        };
        let pws = passwords();
        compare(&Call::FromMnemonic(cs(&p), cs(&clean(&pws[i as usize % pws.len()])), k[1] as u32), 60 + i, &[], cx)
    }));
    // backups of every language and length, read back through both
    d.push(Domain::new("phrases read back", 8 * 5 * 8, |i, cx| {
        let k = digits(i, &[8, 5, 8]);
        let p = phrase_n(12 + 3 * k[1], 130 + k[2] as u64, k[0]);
        let nets: Vec<u32> = (0..3).filter(|j| k[2] >> j & 1 == 1).map(|j| NETS[j]).collect();
        let b = sealed(doc(None, Some((&p, k[0])), &nets).text().as_bytes(), "pw");
        compare(&Call::Phrase(Buf::At(&b), cs("pw")), 65, &[], cx)?;
        // and from a container the C functions made
        let w = world();
        env::script(66 + i, &[]);
        let c = ask(&w.h.m, &w.h.k, &Call::FromMnemonic(cs(&p), cs("pw"), k[0] as u32));
        env::unscript();
        if let Val::Data(c) = c? {
            let back = ask(&w.h.m, &w.h.k, &Call::Phrase(at(&c), cs("pw")))?;
            ensure!(back == Val::Info(p.clone().into_bytes(), k[0] as u32), "phrase {:?} of language {} is read back as {:?}", p, k[0], back);
            cx.outcome("made and read back");
        }
        Ok(())
    }));
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("big buffers and texts", nbig * 8, move |i, cx| {
        let k = digits(i, &[8, nbig]);
        let n = big_sizes()[k[1]];
        let b = bytes_n(n, 2);
        let t: String = b.iter().map(|x| (b'a' + x % 26) as char).collect();
        let w = world();
        let p = phrase_n(12, 125, 0);
        let big = sealed(&b, "pw");
        let call = match k[0] {
            0 => Call::Sign(NETS[k[1] % 3], Buf::At(&b), refm::std_path(NETS[k[1] % 3])),
            1 => Call::FromSeed(Buf::At(&b), cs("pw")),
            2 => Call::FromMnemonic(cs(&p), cs(&t), 0),
            3 => Call::FromMnemonic(cs(&t), cs("pw"), 0),
            4 => Call::PathText(cs(&t)),
            5 => Call::Change(Buf::At(&w.full), cs("pw"), cs(&t)),
            6 => Call::Change(Buf::At(&big), cs("pw"), cs("q")),
            _ => Call::Open(Buf::At(&b), cs(&t)),
        };
        compare(&call, 85 + i, &[], cx)?;
        if k[0] == 0 {
            let n = NETS[k[1] % 3];
            let s = w.k.sign(&net(n), &b, &P(refm::std_path(n))).map_err(|e| e.to_string())?;
            compare(&Call::Verify(n, Buf::At(&b), Buf::At(&s), refm::std_path(n)), 86, &[], cx)?;
            compare(&Call::Verify(n, Buf::At(&b[1..]), Buf::At(&s), refm::std_path(n)), 86, &[], cx)?;
            compare(&Call::Verify(n, Buf::At(&b), Buf::At(&b), refm::std_path(n)), 86, &[], cx)?;
        }
        Ok(())
    }));
    d.push(Domain::new("raw seeds", 130 * 4, |i, cx| {
        let k = digits(i, &[130, 4]);
        let s: Vec<u8> = (0..k[0]).map(|j| stream_byte(k[1] as u64, j as u64)).collect();
        compare(&Call::FromSeed(Buf::At(&s), cs(["", "pw", "p\u{e4}ss", "x y"][k[1]])), 70 + i, &[], cx)
    }));
    d.push(Domain::new("generated phrases", 8 * 300, |i, cx| compare(&Call::Generate((i % 8) as u32), 80 + i, &[], cx)));
    d.push(Domain::new("passwords", 46 * 46 * 2, |i, cx| {
        let pws = passwords();
        let k = digits(i, &[46, 46, 2]);
        let (a, b) = (clean(&pws[k[0] % pws.len()]), clean(&pws[k[1] % pws.len()]));
        if k[2] == 0 {
            let c = sealed(doc(Some(&seed_n(61)), None, &[ETH]).text().as_bytes(), &a);
            compare(&Call::Change(Buf::At(&c), cs(&a), cs(&b)), 90 + i, &[], cx)
        } else {
            let c = sealed(doc(Some(&seed_n(61)), None, &[ETH]).text().as_bytes(), &a);
            compare(&Call::Keys(Buf::At(&c), cs(&b)), 90 + i, &[], cx)
        }
    }));
    let errs = [libc::EIO, libc::ENOSYS, libc::EAGAIN, libc::EFAULT, libc::EINTR, libc::EPERM];
    d.push(Domain::new("answers of the random source", 5 * 7 * 6 * 8, move |i, cx| {
        let k = digits(i, &[5, 7, 6, 8]);
        let w = world();
        let p = phrase_n(12, 125, 0);
        let b = Buf::At(&w.full);
        let eth = container(&[ETH], true);
        let call = match k[0] {
            0 => Call::Generate(k[3] as u32),
            1 => Call::FromSeed(at(&seed_n(62)), cs("pw")),
            2 => Call::FromMnemonic(cs(&p), cs("pw"), 0),
            3 => Call::Add(at(&eth), cs("pw"), BTC),
            _ => Call::Change(b, cs("pw"), cs("q")),
        };
        // full answers or short ones, then an error at draw k[1]
        let mut a: Vec<Ans> = (0..k[1]).map(|j| if k[3] >> (j % 3) & 1 == 1 { Ans::Short(1 + j) } else { Ans::Full }).collect();
        a.push(Ans::Err(errs[k[2]]));
        compare(&call, 100 + i, &a, cx)?;
        // and afterwards the same handle works
        compare(&call, 100 + i, &[], cx)
    }));
    let mut c = base(
        "C26",
        "each call is made through the C functions (with marked outputs: exactly one of result and error may be written) and through the Rust functions with the same arguments and the same bytes of the random source; values, documents of containers, error codes and messages must agree; non-trivial when both were compared",
        &format!(
            "all constructors over {} x {} x {} indices; all path texts of up to 5 of 8 characters and of 23 components at 3 places; 6 networks x {} paths for keys and x 6 messages for signatures; signatures of 0-69 bytes and with each byte changed; 26 containers x 8 operations x 8 passwords; 12 phrases x 8 x 8 languages; phrases of 5 lengths x 8 languages x 8 network sets read back; seeds of 0-129 bytes; 46 x 46 passwords; 6 errors at 7 draws of the random source",
            na, nf, nf, np
        ),
        d,
    );
    let _ = th;
    c.assumptions.push("the answers of the Rust interface are decided by the other properties".into());
    c
}
fn clean(s: &str) -> String {
    s.replace('\0', "")
}
fn path_text_case(t: &str, cx: &mut Cx) -> R {
    if t.contains('\0') {
        return Ok(());
    }
    let b = format!("{}\0", t);
    compare(&Call::PathText(Some(b.as_bytes())), 1, &[], cx)
}
fn paths() -> Vec<[u32; 5]> {
    let h = refm::H;
    let mut v = vec![];
    for n in NETS {
        let p = refm::std_path(n);
        v.push(p);
        for (j, xs) in [
            (0, vec![h + 49, h + 84, 44, 0, h]),
            (1, vec![h, h + 1, h + 60, h + 1815, 0, h + 2]),
            (2, vec![h + 1, h + 7, 0, 0x7fff_ffff, 0xffff_ffff]),
            (3, vec![1, 2, h]),
            (4, vec![1, 0x7fff_ffff, h, 0xffff_ffff]),
        ] {
            for x in xs {
                let mut q = p;
                q[j] = x;
                v.push(q);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
/// Containers of every kind, with their passwords.
pub fn containers() -> Vec<(Vec<u8>, String)> {
    let d = |nets: &[u32]| doc(Some(&seed_n(63)), None, nets);
    let p12 = phrase_n(12, 130, 4);
    let p9 = phrase_n(9, 131, 0);
    let mut v: Vec<(Vec<u8>, String)> = vec![];
    let mut put = |doc: &Doc, pw: &str| v.push((sealed(doc.text().as_bytes(), pw), pw.to_string()));
    put(&d(&[]), "pw");
    put(&d(&NETS), "pw");
    put(&d(&[ADA]), "");
    put(&d(&[ETH, 5]), "p\u{e4}ss");
    put(&d(&[BTC, 0xffff_ffff, 0]), "pw");
    put(&doc(None, Some((&p12, 4)), &[ETH]), "pw");
    put(&doc(None, Some((&p12, 4)), &NETS), "x");
    put(&doc(None, Some((&p9, 0)), &[ADA]), "pw");
    put(&doc(None, None, &[ADA, BTC]), "pw");
    let mut v1 = doc(None, None, &NETS);
    v1.version = 1;
    put(&v1, "pw");
    let mut bad = d(&[ADA]);
    bad.keys.push((ETH, vec![1; 77]));
    put(&bad, "pw");
    let mut bad = d(&[ETH]);
    bad.keys.push((ADA, vec![]));
    put(&bad, "pw");
    let mut odd = d(&[ETH]);
    odd.seed = Some(vec![1; 63]);
    put(&odd, "pw");
    for t in [
        "", "{", "null", "{\"version\":3,\"data\":\"\"}", "{\"version\":2}", "{\"version\":2,\"data\":\"!\"}", "{\"version\":2,\"data\":\"e30=\"}",
        "\u{0}\u{1}", "{\"version\":2,\"data\":\"eyJrZXlzIjpbWzAsIlx1MDAwMCJdXX0=\"}", "{\"a\\u0000b\":1}",
    ] {
        v.push((sealed(t.as_bytes(), "pw"), "pw".into()));
    }
    v.push((vec![], "pw".into()));
    v.push((vec![1; 59], "pw".into()));
    v.push((vec![1; 60], "pw".into()));
    assert!(v.len() == 26, "{}", v.len());
    v
}

// ------------------------------------------------------------------ C27

/// Calls of the alphabet, successful and failing, with the answers of the random source.
fn calls() -> &'static Vec<(&'static str, Call<'static>, &'static [Ans])> {
    thread_local! { static C: std::cell::OnceCell<&'static Vec<(&'static str, Call<'static>, &'static [Ans])>> = const { std::cell::OnceCell::new() }; }
    C.with(|c| {
        *c.get_or_init(|| {
            let full = at(&world().full);
            let eth = at(&container(&[ETH], true));
            let odd = at(&sealed(
                {
                    let mut d = doc(Some(&seed_n(63)), None, &[ETH, 5]);
                    d.keys.push((7, vec![]));
                    d.keys.push((8, vec![1; 300]));
                    d.text()
                }
                .as_bytes(),
                "pw",
            ));
            let none = at(&sealed(doc(Some(&seed_n(63)), None, &[]).text().as_bytes(), "pw"));
            let junk = at(&sealed(b"{\"version\":2,\"data\":\"\"}", "pw"));
            let pw = cs("pw");
            let bad = cs("bad");
            let p = refm::std_path(ETH);
            let pa = refm::std_path(ADA);
            let mut pb = refm::std_path(BTC);
            pb[3] = 9;
            let sig = leak(&world().k.sign(&net(ETH), b"m", &P(p)).ok().unwrap());
            let err: &'static [Ans] = &[Ans::Err(5), Ans::Err(5), Ans::Err(5)];
            let late: &'static [Ans] = &[Ans::Full, Ans::Err(5), Ans::Err(5)];
            Box::leak(Box::new(vec![
                ("manager", Call::ManagerNew, &[] as &[Ans]),
                ("open", Call::Open(full, pw), &[]),
                ("open none", Call::Open(none, pw), &[]),
                ("open wrong", Call::Open(full, bad), &[]),
                ("open junk", Call::Open(junk, pw), &[]),
                ("open null", Call::Open(Buf::Null(3), pw), &[]),
                ("generate", Call::Generate(0), &[]),
                ("generate japanese", Call::Generate(2), &[]),
                ("generate failed", Call::Generate(0), err),
                ("from seed", Call::FromSeed(at(&seed_n(64)), pw), &[]),
                ("from seed short", Call::FromSeed(at(&[1; 63]), pw), &[]),
                ("from seed failed", Call::FromSeed(at(&seed_n(64)), pw), late),
                ("from phrase", Call::FromMnemonic(cs(&phrase_n(12, 132, 1)), pw, 1), &[]),
                ("from phrase bad", Call::FromMnemonic(cs("abandon"), pw, 0), &[]),
                ("from phrase not text", Call::FromMnemonic(Some(b"\xff\xfe\0"), pw, 0), &[]),
                ("add", Call::Add(eth, pw, BTC), &[]),
                ("add again", Call::Add(eth, pw, ETH), &[]),
                ("add unknown", Call::Add(eth, pw, 77), &[]),
                ("change", Call::Change(full, pw, bad), &[]),
                ("change wrong", Call::Change(full, bad, pw), &[]),
                ("change failed", Call::Change(full, pw, bad), err),
                ("keys", Call::Keys(full, pw), &[]),
                ("keys odd", Call::Keys(odd, pw), &[]),
                ("keys none", Call::Keys(none, pw), &[]),
                ("keys wrong", Call::Keys(full, bad), &[]),
                ("phrase", Call::Phrase(eth, pw), &[]),
                ("phrase none", Call::Phrase(full, pw), &[]),
                ("networks", Call::Networks, &[]),
                ("pub_key", Call::PubKey(ETH, p), &[]),
                ("pub_key cardano", Call::PubKey(ADA, pa), &[]),
                ("pub_key absent", Call::PubKey(99, p), &[]),
                ("pub_key bad path", Call::PubKey(BTC, pb), &[]),
                ("sign", Call::Sign(ETH, at(b"message"), p), &[]),
                ("sign cardano nothing", Call::Sign(ADA, Buf::Null(0), pa), &[]),
                ("sign bad path", Call::Sign(BTC, at(b"x"), pb), &[]),
                ("verify", Call::Verify(ETH, at(b"m"), Buf::At(sig), p), &[]),
                ("verify short", Call::Verify(ETH, at(b"m"), at(&[1; 12]), p), &[]),
                ("path", Call::PathText(cs("m/44'/60'/0'/0/0")), &[]),
                ("path bad", Call::PathText(cs("m/44'/60'/0'/0/x")), &[]),
                ("path null", Call::PathText(None), &[]),
                ("constructor", Call::Btc(2, false, 1, 0, 5), &[]),
                ("constructor bad", Call::Ada(1, 2, 0x8000_0000), &[]),
                ("has", Call::Has(ADA), &[]),
            ]))
        })
    })
}
const NCALLS: usize = 43;
fn warm() -> R {
    thread_local! { static DONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
    if DONE.with(|d| d.replace(true)) {
        return Ok(());
    }
    // what is allocated once and kept: lazily built tables, thread-local data
    let w = world();
    assert!(calls().len() == NCALLS, "{}", calls().len());
    for _ in 0..2 {
        for (_, c, a) in calls() {
            env::script(1, a);
            let r = ask(&w.h.m, &w.h.k, c);
            env::unscript();
            r?;
        }
        for n in cffi::nulls() {
            n.release();
        }
        let h = Hands::new(Buf::At(&w.full), cs("pw"))?;
        drop(h);
    }
    Ok(())
}
struct Held {
    raw: Raw,
    val: Val,
    name: &'static str,
}
/// Makes the calls on fresh handles and releases everything in the given order; nothing may be left or released wrongly.
fn sequence(ops: &[usize], mode: usize, cx: &mut Cx) -> R {
    warm()?;
    let full = &world().full;
    let pw = b"pw\0";
    let cs = calls();
    let what = |e: String| format!("{:?} (released {}): {}", ops.iter().map(|o| cs[*o].0).collect::<Vec<_>>(), MODES[mode], e);
    env::track_begin();
    let r = (|| -> R {
        let h = Hands::new(Buf::At(full), Some(pw))?;
        let mut held: Vec<Held> = {
            let _g = env::Suspend::new();
            Vec::with_capacity(8)
        };
        for o in ops {
            let (name, c, a) = &cs[*o];
            env::script(9, a);
            let raw = invoke(&h.m, &h.k, c);
            env::unscript();
            let raw = raw?;
            let val = raw.value();
            if mode == 0 {
                done(Held { raw, val, name }, false)?;
            } else {
                held.push(Held { raw, val, name });
            }
        }
        let mut h = Some(h);
        if mode >= 3 {
            h = None; // the handles first
        }
        if mode == 2 || mode == 4 {
            held.reverse();
        }
        let twice = mode >= 3;
        let _n = held.len();
        while !held.is_empty() {
            let x = held.remove(0);
            let r = done(x, twice);
            r?;
        }
        drop(h);
        {
            let _g = env::Suspend::new();
            drop(held);
        }
        Ok(())
    })();
    let t = env::track_end();
    cx.steps(ops.len() as u64 + 2);
    r.map_err(|e| what(e))?;
    ensure!(t.errors == 0, "{}", what(env::errors_text(t.errors, t.info)));
    ensure!(t.live_blocks == 0 && t.live_bytes == 0, "{}", what(format!("{} blocks with {} bytes left", t.live_blocks, t.live_bytes)));
    cx.count("allocations followed", t.allocs);
    cx.state(ops.iter().fold(mode as u64, |a, o| a * 64 + *o as u64));
    Ok(())
}
const MODES: [&str; 5] = ["at once", "in order", "in reverse", "after the handles, each twice", "after the handles, in reverse, each twice"];
fn done(x: Held, twice: bool) -> R {
    let now = x.raw.value();
    let same = now == x.val;
    let left = x.raw.release();
    let cleared = left.is_null();
    if twice {
        left.release();
    }
    let _g = env::Suspend::new();
    ensure!(same, "what '{}' gave changed before it was released", x.name);
    ensure!(cleared, "the delete function left the pointer of '{}'", x.name);
    drop(x);
    Ok(())
}
pub fn c27(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let n = NCALLS as u64;
    d.push(Domain::new("every call, every release", n * 5, move |i, cx| {
        let k = digits(i, &[n, 5]);
        cx.sample(calls()[k[0]].0, || format!("released {}", MODES[k[1]]));
        cx.outcome(MODES[k[1]]);
        sequence(&[k[0]], k[1], cx)
    }));
    d.push(Domain::new("every two calls, every release", n * n * 5, move |i, cx| {
        let k = digits(i, &[n, n, 5]);
        cx.outcome(MODES[k[2]]);
        sequence(&[k[1], k[0]], k[2], cx)
    }));
    d.push(Domain::new("every three calls", n * n * n * if th { 5 } else { 1 }, move |i, cx| {
        let k = digits(i, &[n, n, n, 5]);
        let m = if th { k[3] } else { 1 + (k[0] + k[1] + k[2]) % 4 };
        if !th && (k[0] + 2 * k[1] + 3 * k[2]) % 4 != 0 {
            return Ok(());
        }
        cx.outcome(MODES[m]);
        sequence(&[k[2], k[1], k[0]], m, cx)
    }));
    d.push(Domain::new("each call many times", n * 2, move |i, cx| {
        let k = digits(i, &[n, 2]);
        let ops = vec![k[0]; if th { 64 } else { 8 }];
        sequence(&ops, [0, 4][k[1]], cx)
    }));
    d.push(Domain::new("deleting nothing", 12 * 3, |i, cx| {
        warm()?;
        let n = cffi::nulls().swap_remove((i % 12) as usize);
        env::track_begin();
        for _ in 0..=i / 12 {
            n.release();
        }
        let t = env::track_end();
        cx.step();
        cx.state(i);
        ensure!(t.errors == 0 && t.live_blocks == 0, "deleting {:?}: {}", n, env::errors_text(t.errors, t.info));
        Ok(())
    }));
    // the results of every container
    d.push(Domain::new("backups and wallets of every container", 26 * 3 * 5, |i, cx| {
        warm()?;
        let k = digits(i, &[3, 26, 5]);
        let (c, pw) = containers().swap_remove(k[1]);
        let pw = format!("{}\0", pw);
        let call = match k[0] {
            0 => Call::Keys(Buf::At(&c), Some(pw.as_bytes())),
            1 => Call::Phrase(Buf::At(&c), Some(pw.as_bytes())),
            _ => Call::Open(Buf::At(&c), Some(pw.as_bytes())),
        };
        let w = world();
        let _ = ask(&w.h.m, &w.h.k, &call)?;
        env::track_begin();
        let r = (|| -> R {
            let raw = invoke(&w.h.m, &w.h.k, &call)?;
            let val = raw.value();
            done(Held { raw, val, name: "container" }, k[2] % 2 == 1)
        })();
        let t = env::track_end();
        cx.step();
        cx.state(i);
        r.map_err(|e| format!("container {}: {:?}: {}", k[1], call, e))?;
        ensure!(t.errors == 0, "container {}: {}", k[1], env::errors_text(t.errors, t.info));
        ensure!(t.live_blocks == 0, "container {}: {} blocks left", k[1], t.live_blocks);
        Ok(())
    }));
    base(
        "C27",
        "every sequence of calls runs on handles made for it, under an allocator that follows each block made by the library: released once, with its own size and alignment, never again, and (filled on release, never reused) results must stay as they were until released; at the end nothing may be left; non-trivial when allocations were followed",
        &format!(
            "43 calls (successful, refused, panicking): all single and pairs x 5 release orders, {} triples; each call {} times; null results; 26 containers x 3 operations",
            if th { "all x 5 orders" } else { "a quarter of the" }, if th { 64 } else { 8 }
        ),
        d,
    )
}

// ------------------------------------------------------------------ C28

fn strings() -> Vec<(&'static str, S<'static>)> {
    vec![
        ("NULL", None),
        ("empty", cs("")),
        ("text", cs("pw")),
        ("not UTF-8", Some(b"\xff\0")),
        ("cut UTF-8", Some(b"pass\xc3\0")),
        ("overlong", Some(b"\xc0\x80\0")),
        ("surrogate", Some(b"\xed\xa0\x80\0")),
        ("late not UTF-8", Some(b"password \xf0\x9f\x94\0")),
        ("long", cs(&"x".repeat(70_000))),
        ("multi-byte", cs("\u{1f511}\u{e9}")),
        ("path", cs("m/44'/60'/0'/0/0")),
        ("control", cs("\u{1}\n\t\u{7f}")),
    ]
}
fn bufs() -> Vec<(&'static str, Buf<'static>)> {
    let full = world().full.clone();
    vec![
        ("NULL, 0", Buf::Null(0)),
        ("NULL, 1", Buf::Null(1)),
        ("NULL, 64", Buf::Null(64)),
        ("pointer, 0", Buf::Dangling),
        ("1 byte", at(&[0])),
        ("59 bytes", at(&[7; 59])),
        ("60 bytes", at(&[7; 60])),
        ("64 bytes", at(&[0; 64])),
        ("65 bytes", at(&[0xff; 65])),
        ("many bytes", at(&vec![0xa5; 100_000])),
        ("container", at(&full)),
        ("cut container", at(&full[..full.len() - 1])),
        ("junk inside", at(&sealed(b"\xff\xff", "pw"))),
        ("zero byte inside", at(&sealed(b"{\"version\":2,\"data\":\"eyJrZXlzIjpbWzAsIlx1MDAwMCJdXX0=\"}", "pw"))),
        ("zero in name", at(&sealed(b"{\"version\":2,\"data\":\"\",\"\\u0000\":1,\"version\":3}", "pw"))),
        ("zero dictionary", at(&sealed(zero_doc().as_bytes(), "pw"))),
        ("zero phrase", at(&sealed(zero_phrase().as_bytes(), "pw"))),
        ("zero unknown word", at(&sealed(zero_word().as_bytes(), "pw"))),
    ]
}
fn zero_doc() -> String {
    refm::wrap(2, "{\"seed\":null,\"mnemonic\":\"x\",\"dictionary\":\"En\\u0000glish\",\"keys\":[]}")
}
fn zero_phrase() -> String {
    let p = phrase_n(12, 133, 0).replacen(' ', "\\u0000", 1);
    refm::wrap(2, &format!("{{\"seed\":null,\"mnemonic\":\"{}\",\"dictionary\":\"English\",\"keys\":[]}}", p))
}
fn zero_word() -> String {
    let p = phrase_n(12, 133, 0).replacen("a", "\\u0000", 1);
    refm::wrap(2, &format!("{{\"seed\":null,\"mnemonic\":\"{}\",\"dictionary\":\"English\",\"keys\":[]}}", p))
}
/// The call comes back, well formed; then the handles answer as before.
fn survives(m: &H, k: &H, c: &Call, must_fail: Option<bool>, answers: &[Ans], cx: &mut Cx) -> R {
    let w = world();
    env::script(5, answers);
    let r = caught(|| ask(m, k, c));
    env::unscript();
    cx.step();
    let brief = || {
        let mut s = format!("{:?}", c);
        s.truncate((0..=s.len().min(300)).rev().find(|i| s.is_char_boundary(*i)).unwrap());
        s
    };
    let v = r.map_err(|p| format!("{}: unwound into the caller: {}", brief(), p))?.map_err(|e| format!("{}: {}", brief(), e))?;
    let failed = matches!(v, Val::Error(..));
    if let Val::Error(c, _) = &v {
        cx.outcome(if *c == -1 { "error Panic" } else { "error" });
        cx.state(hash(format!("{:?}", v).as_bytes()));
    } else {
        cx.outcome("answer");
        cx.state(hash(brief().as_bytes()));
    }
    if let Some(f) = must_fail {
        ensure!(f == failed, "{}: {:?}", brief(), v);
    }
    // the handles stay usable
    thread_local! { static REF: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) }; }
    let p = refm::std_path(ETH);
    let probe = |j: usize| -> Result<String, String> {
        let c = match j {
            0 => Call::Networks,
            1 => Call::PubKey(ETH, p),
            2 => Call::Generate(3),
            _ => Call::Change(Buf::At(&w.full), Some(b"pw\0"), Some(b"q\0")),
        };
        norm(&c, scripted(6, || ask(&w.h.m, &w.h.k, &c))?)
    };
    let have = REF.with(|r| r.borrow().len());
    if have == 0 {
        let v: Result<Vec<String>, String> = (0..4).map(probe).collect();
        let v = v?;
        ensure!(!v[3].starts_with("Error"), "probe: {}", v[3]);
        REF.with(|r| *r.borrow_mut() = v);
    }
    for j in 0..4 {
        let g = probe(j).map_err(|e| format!("after {}: {}", brief(), e))?;
        let same = REF.with(|r| r.borrow()[j] == g);
        ensure!(same, "after {}: the handles answer {}", brief(), g);
        cx.step();
    }
    Ok(())
}
fn is_text(x: &S) -> bool {
    x.map(|b| std::str::from_utf8(&b[..b.len() - 1]).is_ok()).unwrap_or(false)
}
fn is_buf(x: &Buf) -> bool {
    !matches!(x, Buf::Null(n) if *n > 0)
}
pub fn c28(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let ns = 12u64;
    let nb = 18u64;
    // handles null, strings and buffers of every kind, in every function
    d.push(Domain::new("every buffer and string in every manager function", 7 * nb * ns * 2, move |i, cx| {
        let k = digits(i, &[7, nb, ns, 2]);
        let w = world();
        let b = bufs()[k[1]].1;
        let s = strings()[k[2]].1;
        let m = if k[3] == 0 { w.h.m } else { NULL };
        let c = match k[0] {
            0 => Call::FromSeed(b, s),
            1 => Call::Open(b, s),
            2 => Call::Add(b, s, ETH),
            3 => Call::Change(b, s, cs("q")),
            4 => Call::Change(b, cs("pw"), s),
            5 => Call::Keys(b, s),
            _ => Call::Phrase(b, s),
        };
        let bad = k[3] == 1 || !is_text(&s) || !is_buf(&b);
        survives(&m, &w.h.k, &c, if bad { Some(true) } else { None }, &[], cx)
    }));
    d.push(Domain::new("every pair of strings", ns * ns * 3 * 8, move |i, cx| {
        let k = digits(i, &[ns, ns, 3, 8]);
        let w = world();
        let (a, b) = (strings()[k[0]].1, strings()[k[1]].1);
        let bad = !is_text(&a) || !is_text(&b);
        let c = match k[2] {
            0 => Call::FromMnemonic(a, b, k[3] as u32),
            1 => Call::Change(Buf::At(&w.full), a, b),
            _ => Call::PathText(if k[3] % 2 == 0 { a } else { b }),
        };
        let must = match c {
            Call::PathText(s) => Some(!is_text(&s) || text(&s) != "m/44'/60'/0'/0/0"),
            Call::Change(..) => Some(bad || text(&a) != "pw"),
            _ => Some(true),
        };
        survives(&w.h.m, &w.h.k, &c, must, &[], cx)
    }));
    d.push(Domain::new("every pair of buffers in verify, each in sign", nb * nb * 3 + nb * 3, move |i, cx| {
        let w = world();
        if i < nb * nb * 3 {
            let k = digits(i, &[nb, nb, 3]);
            let (a, b) = (bufs()[k[0]].1, bufs()[k[1]].1);
            let n = NETS[k[2]];
            let bad = !is_buf(&a) || !is_buf(&b);
            survives(&w.h.m, &w.h.k, &Call::Verify(n, a, b, refm::std_path(n)), if bad { Some(true) } else { None }, &[], cx)
        } else {
            let k = digits(i - nb * nb * 3, &[nb, 3]);
            let a = bufs()[k[0]].1;
            let n = NETS[k[1]];
            survives(&w.h.m, &w.h.k, &Call::Sign(n, a, refm::std_path(n)), Some(!is_buf(&a)), &[], cx)
        }
    }));
    d.push(Domain::new("null handles in every call", NCALLS as u64 * 3, |i, cx| {
        let k = digits(i, &[NCALLS as u64, 3]);
        let w = world();
        let (_, c, a) = &calls()[k[0]];
        let (m, kc) = [(NULL, w.h.k), (w.h.m, NULL), (NULL, NULL)][k[1]];
        let needs_m = matches!(c, Call::Has(_) | Call::Generate(_) | Call::FromSeed(..) | Call::FromMnemonic(..) | Call::Open(..) | Call::Add(..) | Call::Change(..) | Call::Keys(..) | Call::Phrase(..));
        let needs_k = matches!(c, Call::Networks | Call::PubKey(..) | Call::Sign(..) | Call::Verify(..));
        let fail = (needs_m && k[1] != 1) || (needs_k && k[1] != 0);
        survives(&m, &kc, c, if fail { Some(true) } else { None }, a, cx)
    }));
    d.push(Domain::new("every length of text", 300 * 4 * 3, |i, cx| {
        let k = digits(i, &[300, 4, 3]);
        let w = world();
        let unit = ["a", "/", "1", "\u{e9}"][k[1]];
        let mut b = unit.repeat(k[0]).into_bytes();
        if k[2] == 1 {
            b.insert(0, b'm');
        }
        if k[2] == 2 {
            b.push(0xc3);
        }
        b.push(0);
        let s: S = Some(&b);
        survives(&w.h.m, &w.h.k, &Call::PathText(s), Some(true), &[], cx)?;
        survives(&w.h.m, &w.h.k, &Call::FromMnemonic(s, cs("pw"), (k[0] % 8) as u32), Some(true), &[], cx)
    }));
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("big buffers and texts", nbig * 9, move |i, cx| {
        let k = digits(i, &[9, nbig]);
        let w = world();
        let n = big_sizes()[k[1]];
        let b = bytes_n(n, 5);
        let t: String = if i % 2 == 0 { "/0".repeat(n / 2 + 1) } else { "\u{e9}".repeat(n / 2 + 1) };
        let (b, t, pw) = (Buf::At(&b), cs(&t), cs("pw"));
        let c = match k[0] {
            0 => Call::FromSeed(b, pw),
            1 => Call::Open(b, t),
            2 => Call::Add(b, pw, ETH),
            3 => Call::Change(b, t, t),
            4 => Call::Verify(NETS[k[1] % 3], Buf::At(b"x"), b, refm::std_path(NETS[k[1] % 3])),
            5 => Call::Verify(NETS[k[1] % 3], b, b, refm::std_path(NETS[k[1] % 3])),
            6 => Call::Phrase(b, t),
            7 => Call::PathText(t),
            _ => Call::FromMnemonic(t, t, 3),
        };
        survives(&w.h.m, &w.h.k, &c, None, &[], cx)
    }));
    d.push(Domain::new("every two bytes as text", 65536 * if th { 3 } else { 1 }, move |i, cx| {
        let w = world();
        let (x, y) = ((i % 65536 >> 8) as u8, i as u8);
        if x == 0 || y == 0 {
            return Ok(());
        }
        let b: Vec<u8> = match i / 65536 {
            0 => vec![b'm', b'/', x, y, 0],
            1 => vec![x, y, 0],
            _ => vec![b'm', b'/', b'1', x, y, b'\'', 0],
        };
        let r = caught(|| ask(&w.h.m, &w.h.k, &Call::PathText(Some(&b)))).map_err(|p| format!("{}: unwound: {}", hex(&b), p))?.map_err(|e| format!("{}: {}", hex(&b), e))?;
        ensure!(matches!(r, Val::Error(..)), "{}: {:?}", hex(&b), r);
        cx.step();
        cx.state(hash(format!("{:?}", r).as_bytes()));
        Ok(())
    }));
    d.push(Domain::new("lengths of buffers", 160 * 7, |i, cx| {
        let k = digits(i, &[160, 7]);
        let w = world();
        let b: Vec<u8> = (0..k[0]).map(|j| stream_byte(8, j as u64)).collect();
        let b = Buf::At(&b);
        let pw = cs("pw");
        let c = match k[1] {
            0 => Call::FromSeed(b, pw),
            1 => Call::Open(b, pw),
            2 => Call::Add(b, pw, ETH),
            3 => Call::Change(b, pw, pw),
            4 => Call::Verify(ADA, Buf::At(b"x"), b, refm::std_path(ADA)),
            5 => Call::Verify(ETH, Buf::At(b"x"), b, refm::std_path(ETH)),
            _ => Call::Keys(b, pw),
        };
        survives(&w.h.m, &w.h.k, &c, None, &[], cx)
    }));
    // documents whose parts are quoted in messages
    d.push(Domain::new("contents with every character in a name, a word and a value", 256 * 6, |i, cx| {
        let k = digits(i, &[256, 6]);
        let w = world();
        let ch = format!("a\\u{:04x}b", k[0]);
        let inner = match k[1] {
            0 => format!("{{\"seed\":null,\"mnemonic\":null,\"dictionary\":\"{}\",\"keys\":[]}}", ch),
            1 => format!("{{\"seed\":\"{}\",\"mnemonic\":null,\"dictionary\":null,\"keys\":[]}}", ch),
            2 => format!("{{\"seed\":null,\"mnemonic\":\"{}\",\"dictionary\":\"English\",\"keys\":[]}}", format!("{} ", ch).repeat(12).trim_end()),
            3 => format!("{{\"seed\":null,\"mnemonic\":null,\"dictionary\":null,\"keys\":\"{}\"}}", ch),
            4 => format!("{{\"seed\":null,\"mnemonic\":null,\"dictionary\":null,\"keys\":[[\"{}\",\"\"]]}}", ch),
            _ => format!("{{\"{}\":1}}", ch),
        };
        let c = sealed(refm::wrap(2, &inner).as_bytes(), "pw");
        for call in [Call::Open(Buf::At(&c), cs("pw")), Call::Add(Buf::At(&c), cs("pw"), ETH)] {
            let must = if k[1] != 2 || matches!(call, Call::Add(..)) { Some(true) } else { None };
            survives(&w.h.m, &w.h.k, &call, must, &[], cx)?;
        }
        Ok(())
    }));
    let errs = [libc::EIO, libc::ENOSYS, libc::EAGAIN, libc::EFAULT];
    d.push(Domain::new("failures of the random source at every read", 5 * 6 * 4 * 8, move |i, cx| {
        let k = digits(i, &[5, 6, 4, 8]);
        let w = world();
        let c = match k[0] {
            0 => Call::Generate(k[3] as u32),
            1 => Call::FromSeed(at(&seed_n(62)), cs("pw")),
            2 => Call::FromMnemonic(cs(&phrase_n(12, 134, 0)), cs("pw"), 0),
            3 => Call::Add(at(&container(&[ETH], true)), cs("pw"), BTC),
            _ => Call::Change(Buf::At(&w.full), cs("pw"), cs("q")),
        };
        let mut a: Vec<Ans> = (0..k[1]).map(|j| if k[3] >> (j % 3) & 1 == 1 { Ans::Short(1 + j) } else { Ans::Full }).collect();
        a.push(Ans::Err(errs[k[2]]));
        a.push(Ans::Err(errs[k[2]]));
        survives(&w.h.m, &w.h.k, &c, None, &a, cx)?;
        survives(&w.h.m, &w.h.k, &c, Some(false), &[], cx)
    }));
    d.push(Domain::new("with the library's panic hook", NCALLS as u64, |i, cx| {
        let w = world();
        let (name, c, a) = &calls()[i as usize];
        cffi::init_library();
        env::script(5, a);
        let r = caught(|| ask(&w.h.m, &w.h.k, c));
        env::unscript();
        cffi::init_library();
        quiet_panics();
        cx.step();
        cx.state(i);
        let v = r.map_err(|p| format!("{}: unwound: {}", name, p))??;
        env::script(5, a);
        let v2 = ask(&w.h.m, &w.h.k, c);
        env::unscript();
        ensure!(norm(c, v.clone())? == norm(c, v2?)?, "{}: another answer with the panic hook: {:?}", name, v);
        Ok(())
    }));
    base(
        "C28",
        "every combination of argument kinds is given to every C function in a process that would die of an abort; the call must come back with exactly one of result and error, a null-terminated UTF-8 message and a known code, the listed malformed arguments must be refused, and four probe calls on the same handles must answer as before; non-trivial when a call came back",
        "12 strings (NULL, empty, not UTF-8 in 5 ways, long, ...) x 18 buffers (NULL with and without length, lengths around the header, damaged and quoted contents) x 7 functions x null handles; all pairs of strings and of buffers; 43 calls with null handles; texts of 0-299 characters; all texts of 2 bytes; buffers of 0-159 bytes; each character in 6 places of the contents; 4 errors at 6 reads; the library's own panic hook",
        d,
    )
}
