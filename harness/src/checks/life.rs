//! C19, C21, C22, C23, C25: the life of a wallet.
use super::base;
use super::cont::{doc, scripted, sealed};
use super::keys::{factory, wallet};
use crate::engine::*;
use crate::env::{self, stream_byte, Ans};
use crate::refm::{self, net, Doc, ADA, BTC, ETH, H, LANG_NAMES, NETS};
use crate::util::*;
use keychain::{Error, Key, KeyError, KeyFactory, KeyPath, Keychain, KeychainManager, Network, SeedSize};
use std::collections::BTreeMap;

// ------------------------------------------------------------------ networks of the user's own

/// A network of the user's own: keys of a built-in kind under another number.
pub struct Cust {
    pub net: u32,
    pub like: u32,
    pub size: (usize, usize),
    pub fail: bool,
}
struct CustKey(u32, Box<dyn Key>);
impl Key for CustKey {
    fn network(&self) -> Network {
        Network(self.0)
    }
    fn pub_key(&self, p: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
        self.1.pub_key(p)
    }
    fn sign(&self, d: &[u8], p: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
        self.1.sign(d, p)
    }
    fn verify(&self, d: &[u8], s: &[u8], p: &dyn KeyPath) -> Result<bool, KeyError> {
        self.1.verify(d, s, p)
    }
}
impl KeyFactory for Cust {
    fn network(&self) -> Network {
        Network(self.net)
    }
    fn seed_size(&self) -> SeedSize {
        SeedSize { min: self.size.0, max: self.size.1 }
    }
    fn key_from_data(&self, d: &[u8]) -> Result<Box<dyn Key>, KeyError> {
        let n = self.net;
        factory(self.like).key_from_data(d).map(|k| -> Box<dyn Key> { Box::new(CustKey(n, k)) })
    }
    fn key_data_from_seed(&self, s: &[u8]) -> Result<Vec<u8>, KeyError> {
        if self.fail {
            return Err(KeyError::InvalidKeySize(s.len(), 3));
        }
        factory(self.like).key_data_from_seed(s)
    }
}
pub fn cust(net: u32, like: u32, size: (usize, usize)) -> Box<dyn KeyFactory> {
    Box::new(Cust { net, like, size, fail: false })
}

// ------------------------------------------------------------------ the model of a wallet's life

const OTHER: u32 = 0x8000_0005;
const PWS: [&str; 5] = ["pw", "", "second", "p\u{e4}ss\u{1f511}", "pW"];
const SOURCES: usize = 13;
/// (seed, phrase and its language)
fn source(k: usize) -> (Option<Vec<u8>>, Option<(String, usize)>) {
    match k {
        0 => (Some(seed_n(50)), None),
        1 => (Some(seed_n(0)), None),
        2..=9 => (None, Some((phrase_n(12, 60 + k as u64, k - 2), k - 2))),
        10 => (None, Some((phrase_n(9, 70, 0), 0))),
        11 => (None, Some((phrase_n(9, 71, 2), 2))),
        _ => (None, None),
    }
}
fn source_doc(k: usize, nets: &[u32]) -> Doc {
    let (s, p) = source(k);
    doc(s.as_deref(), p.as_ref().map(|(t, l)| (t.as_str(), *l)), nets)
}
/// Does a manager with this number of words add a network to it?
enum Adds {
    Key(Vec<u8>),
    /// the phrase has another length than the manager's
    Either(Vec<u8>),
    No(Vec<String>),
}
fn model_add(d: &Doc, sup: bool, words: usize, n: u32, key: impl Fn(&[u8]) -> Vec<u8>, right: bool) -> Adds {
    let mut no = vec![];
    if !right {
        no.push("WrongPassword".to_string());
    }
    if !sup {
        no.push(format!("NetworkIsNotSupported({:x})", n));
    }
    if right && d.keys.iter().any(|(m, _)| *m == n) {
        no.push(format!("KeyAlreadyExist({:x})", n));
    }
    if right && d.seed.is_none() && d.mnemonic.is_none() {
        no.push("SeedIsNotSaved".to_string());
    }
    if !no.is_empty() {
        return Adds::No(no);
    }
    if let Some(s) = &d.seed {
        return Adds::Key(key(s));
    }
    let m = d.mnemonic.as_ref().unwrap();
    let k = key(&refm::seed_of(m, b""));
    if m.split(' ').count() == words {
        Adds::Key(k)
    } else {
        Adds::Either(k)
    }
}
/// A refused or done addition against the model; the new wallet if there is one.
fn judge_add(d: &Doc, r: Result<Vec<u8>, Error>, want: Adds, n: u32, pw: &str, what: &dyn Fn() -> String, cx: &mut Cx) -> Result<Option<(Vec<u8>, Doc)>, String> {
    cx.step();
    match (r, want) {
        (Ok(c), Adds::Key(k)) | (Ok(c), Adds::Either(k)) => {
            let mut e = d.clone();
            e.version = 2;
            e.keys.push((n, k));
            e.keys.sort();
            let g = Doc::open(&c, pw).map_err(|e| format!("{}: {}", what(), e))?;
            ensure!(g == e, "{}: the wallet is now {:?}, should be {:?}", what(), g, e);
            cx.outcome("network added");
            Ok(Some((c, e)))
        }
        (Err(e), Adds::Either(_)) => {
            ensure!(kind(&e) == "MnemonicError", "{}: {}", what(), e);
            cx.outcome("phrase of another length");
            Ok(None)
        }
        (Err(e), Adds::No(k)) => {
            ensure!(k.contains(&kind(&e)), "{}: refused with {}, should be {:?}", what(), kind(&e), k);
            cx.outcome(kind(&e).split('(').next().unwrap());
            Ok(None)
        }
        (Ok(_), Adds::No(k)) => Err(format!("{}: done, should be refused with {:?}", what(), k)),
        (Err(e), Adds::Key(_)) => Err(format!("{}: refused: {}", what(), e)),
    }
}
fn judge_change(d: &Doc, r: Result<Vec<u8>, Error>, right: bool, new: &str, what: &dyn Fn() -> String, cx: &mut Cx) -> Result<Option<Vec<u8>>, String> {
    cx.step();
    match r {
        Ok(c) => {
            ensure!(right, "{}: done under a wrong password", what());
            let g = Doc::open(&c, new).map_err(|e| format!("{}: {}", what(), e))?;
            ensure!(g == *d, "{}: the wallet is now {:?}, should be {:?}", what(), g, d);
            cx.outcome("password changed");
            Ok(Some(c))
        }
        Err(e) => {
            ensure!(!right, "{}: refused: {}", what(), e);
            ensure!(kind(&e) == "WrongPassword", "{}: refused with {}", what(), e);
            cx.outcome("WrongPassword");
            Ok(None)
        }
    }
}
/// The wallet opens with exactly its networks the manager knows, with the model's keys.
fn judge_open(m: &KeychainManager, sup: &[u32], c: &[u8], d: &Doc, pw: &str, deep: bool, what: &dyn Fn() -> String, cx: &mut Cx) -> R {
    let k = m.keychain_from_data(c, pw).map_err(|e| format!("{}: opening: {}", what(), e))?;
    let mut got: Vec<u32> = k.networks().into_iter().map(|n| n.0).collect();
    got.sort();
    let mut want: Vec<u32> = d.keys.iter().map(|e| e.0).filter(|n| sup.contains(n)).collect();
    want.sort();
    ensure!(got == want, "{}: opens with {:x?}, should be {:x?}", what(), got, want);
    cx.step();
    for n in NETS.iter().cloned().chain([OTHER]) {
        ensure!(k.has_network(&Network(n)) == want.contains(&n), "{}: has_network({:x})", what(), n);
    }
    if deep {
        for n in NETS {
            let p = refm::std_path(n);
            let r = k.pub_key(&net(n), &P(p));
            cx.step();
            match (d.keys.iter().find(|e| e.0 == n), want.contains(&n)) {
                (Some((_, s)), true) => {
                    let w = refm::pub_key(n, s, &p);
                    ensure!(r.as_ref().ok() == w.as_ref(), "{}: {} key {}", what(), refm::net_name(n), show(&r));
                }
                _ => match r {
                    Err(Error::KeyDoesNotExist(x)) if x.0 == n => {}
                    r => return Err(format!("{}: absent {}: {}", what(), refm::net_name(n), show(&r))),
                },
            }
        }
    }
    Ok(())
}
fn judge_backup(m: &KeychainManager, c: &[u8], d: &Doc, pw: &str, what: &dyn Fn() -> String, cx: &mut Cx) -> R {
    let mut got: Vec<(u32, Vec<u8>)> =
        m.get_keys_data(c, pw).map_err(|e| format!("{}: key backup: {}", what(), e))?.into_iter().map(|(n, k)| (n.0, k)).collect();
    got.sort();
    ensure!(got == d.keys, "{}: the key backup is {:?}, should be {:?}", what(), got, d.keys);
    let r = m.retrieve_mnemonic(c, pw);
    cx.steps(2);
    match (&r, &d.mnemonic) {
        (Ok((t, l)), Some(p)) => {
            ensure!(t == p, "{}: the phrase backup is '{}', should be '{}'", what(), t, p);
            ensure!(Some(LANG_NAMES[*l as usize].to_string()) == d.dictionary, "{}: phrase language {:?}", what(), l);
            cx.outcome("phrase returned");
        }
        (Err(Error::SeedIsNotSaved), None) => cx.outcome("no phrase"),
        _ => return Err(format!("{}: the phrase backup is {:?}", what(), r.map_err(|e| e.to_string()))),
    }
    Ok(())
}
fn judge_backup_wrong(m: &KeychainManager, c: &[u8], pw: &str, what: &dyn Fn() -> String, cx: &mut Cx) -> R {
    match m.get_keys_data(c, pw) {
        Err(Error::WrongPassword) => {}
        r => return Err(format!("{}: key backup under a wrong password: {:?}", what(), r.map(|v| v.len()).map_err(|e| e.to_string()))),
    }
    match m.retrieve_mnemonic(c, pw) {
        Err(Error::WrongPassword) => {}
        r => return Err(format!("{}: phrase backup under a wrong password: {:?}", what(), r.map_err(|e| e.to_string()))),
    }
    cx.steps(2);
    cx.outcome("WrongPassword");
    Ok(())
}
/// networks of a state: three built-in ones and one no manager knows
fn state_nets(bits: usize) -> Vec<u32> {
    let mut v = subset(bits & 7);
    if bits & 8 != 0 {
        v.push(OTHER);
    }
    v
}

// ------------------------------------------------------------------ histories

/// What a node of the tree of histories is checked for.
#[derive(Clone, Copy, PartialEq)]
enum Look {
    Open,
    Backup,
}
/// Operations of a history.
const NOPS: usize = 12;
fn op_name(o: usize) -> String {
    match o {
        0..=2 => format!("add {}", refm::net_name(NETS[o])),
        3..=5 => format!("add {} by a manager of it alone", refm::net_name(NETS[o - 3])),
        6 => "add under a wrong password".into(),
        7 => "add an unsupported network".into(),
        8..=10 => format!("change the password to {:?}", PWS[o - 8]),
        _ => "change under a wrong password".into(),
    }
}
struct Tree {
    full: KeychainManager,
    alone: Vec<KeychainManager>,
    subs: Vec<KeychainManager>,
    look: Look,
}
impl Tree {
    fn new(look: Look) -> Tree {
        Tree {
            full: manager(7),
            alone: (0..3).map(|k| manager(1 << k)).collect(),
            subs: (1..8).map(manager).collect(),
            look,
        }
    }
    fn visit(&self, c: &[u8], d: &Doc, pw: usize, depth: usize, log: &mut Vec<usize>, cx: &mut Cx) -> R {
        {
            let log1 = log.clone();
            let what = || format!("after {:?}", log1.iter().map(|o| op_name(*o)).collect::<Vec<_>>());
            cx.state(hash2(hash(d.text().as_bytes()), pw as u64));
            let h = log.iter().fold(1usize, |a, o| (a * 13 + o) & 0xffff);
            match self.look {
                Look::Open => {
                    let b = 1 + h % 7;
                    judge_open(&self.full, &NETS, c, d, PWS[pw], false, &what, cx)?;
                    judge_open(&self.subs[b - 1], &subset(b), c, d, PWS[pw], true, &what, cx)?;
                    for o in 0..PWS.len() {
                        if o != pw && (h + o) % 4 == 0 {
                            ensure!(
                                matches!(self.full.keychain_from_data(c, PWS[o]), Err(Error::WrongPassword)),
                                "{}: opens with {:?} too",
                                what(),
                                PWS[o]
                            );
                            cx.step();
                        }
                    }
                }
                Look::Backup => {
                    judge_backup(&self.subs[h % 7], c, d, PWS[pw], &what, cx)?;
                    judge_backup_wrong(&self.full, c, PWS[(pw + 1) % PWS.len()], &what, cx)?;
                }
            }
        }
        if depth == 0 {
            return Ok(());
        }
        for o in 0..NOPS {
            log.push(o);
            self.apply(c, d, pw, o, depth - 1, log, cx)?;
            log.pop();
        }
        Ok(())
    }
    fn apply(&self, c: &[u8], d: &Doc, pw: usize, o: usize, depth: usize, log: &mut Vec<usize>, cx: &mut Cx) -> R {
        let log1 = log.clone();
        let what = || format!("history {:?}", log1.iter().map(|o| op_name(*o)).collect::<Vec<_>>());
        // one stream per position in the history, so that salts repeat across branches of equal length only
        let seed = 100 + log.len() as u64;
        let wrong = PWS[(pw + 3) % PWS.len()];
        let before = c.to_vec();
        let (next, d2, pw2) = match o {
            0..=7 => {
                let n = NETS[o % 3];
                let (m, words, sup, p) = match o {
                    0..=2 => (&self.full, 12, true, PWS[pw]),
                    3..=5 => (&self.alone[o - 3], manager_words(1 << (o - 3)), true, PWS[pw]),
                    6 => (&self.full, 12, true, wrong),
                    _ => (&self.alone[0], 9, false, PWS[pw]),
                };
                let n = if o == 7 { BTC } else { n };
                let r = scripted(seed, || m.add_network(c, p, net(n)));
                let w = model_add(d, sup, words, n, |s| refm::stored_key(n, s), o != 6);
                match judge_add(d, r, w, n, PWS[pw], &what, cx)? {
                    Some((c, d)) => (c, d, pw),
                    None => (c.to_vec(), d.clone(), pw),
                }
            }
            8..=10 => {
                let new = o - 8;
                let r = scripted(seed, || self.full.change_password(c, PWS[pw], PWS[new]));
                (judge_change(d, r, true, PWS[new], &what, cx)?.unwrap(), d.clone(), new)
            }
            _ => {
                let r = scripted(seed, || self.full.change_password(c, wrong, PWS[1]));
                judge_change(d, r, false, PWS[1], &what, cx)?;
                (c.to_vec(), d.clone(), pw)
            }
        };
        ensure!(before == c, "{}: the caller's container changed", what());
        self.visit(&next, &d2, pw2, depth, log, cx)
    }
}
/// (container, document, manager bits) of a wallet freshly made by the real code
fn fresh(bits: usize, src: usize, pw: &str) -> Result<Option<(Vec<u8>, Doc)>, String> {
    let m = manager(bits);
    let (s, p) = source(src);
    let r = scripted(99, || match (&s, &p) {
        (Some(s), _) => Some(m.keychain_data_from_seed(s, pw)),
        (_, Some((t, l))) => Some(m.keychain_data_from_mnemonic(t, pw, Some(LANGS[*l]))),
        _ => None,
    });
    let right = p.as_ref().map(|(t, _)| t.split(' ').count() == manager_words(bits)).unwrap_or(true);
    match r {
        None => Ok(None),
        Some(Err(e)) => {
            ensure!(!right && kind(&e) == "MnemonicError", "making a wallet by manager {} from source {}: {}", bits, src, e);
            Ok(None)
        }
        Some(Ok(c)) => {
            ensure!(right, "a phrase of another length was taken by manager {}", bits);
            let d = source_doc(src, &subset(bits));
            let g = Doc::open(&c, pw)?;
            ensure!(g == d, "new wallet of manager {} from source {}: {:?}, should be {:?}", bits, src, g, d);
            Ok(Some((c, d)))
        }
    }
}
fn histories(look: Look, depth: usize, nsrc: usize, name: &str) -> Domain {
    // first operation as part of the case
    let srcs = [0usize, 4, 10, 2, 1, 9];
    Domain::new(name, 7 * nsrc as u64 * NOPS as u64, move |i, cx| {
        let k = digits(i, &[NOPS as u64, 7, nsrc as u64]);
        let (c, d) = match fresh(k[1] + 1, srcs[k[2]], PWS[0])? {
            Some(x) => x,
            None => return Ok(()),
        };
        let t = Tree::new(look);
        let mut log = vec![k[0]];
        t.apply(&c, &d, 0, k[0], depth - 1, &mut log, cx)?;
        cx.max("depth", depth as u64);
        cx.sample("history", || format!("source {} manager {} first {} then all {} sequences", srcs[k[2]], k[1] + 1, op_name(k[0]), NOPS.pow(depth as u32 - 1)));
        Ok(())
    })
    .chunk(1)
}

// ------------------------------------------------------------------ C19

pub fn c19(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    d.push(Domain::new("making a wallet", 7 * SOURCES as u64 * 46, |i, cx| {
        let k = digits(i, &[7, SOURCES as u64, 46]);
        let pws = passwords();
        let pw = &pws[k[2] % pws.len()];
        if let Some((c, d)) = fresh(k[0] + 1, k[1], pw)? {
            cx.step();
            cx.state_of(&c);
            judge_open(&manager(k[0] + 1), &subset(k[0] + 1), &c, &d, pw, true, &|| format!("new wallet {:?}", k), cx)?;
            cx.outcome("made");
        }
        Ok(())
    }));
    // every operation from every state of the model: with it, every history is covered, as the states are closed
    d.push(Domain::new("adding: every transition from every state", SOURCES as u64 * 16 * 5 * 7 * 4 * 2, |i, cx| {
        let k = digits(i, &[2, 4, 7, 5, 16, SOURCES as u64]);
        let dd = source_doc(k[5], &state_nets(k[4]));
        let pw = PWS[k[3]];
        let c = sealed(dd.text().as_bytes(), pw);
        cx.state(hash2(hash(dd.text().as_bytes()), k[3] as u64));
        let bits = k[2] + 1;
        let m = manager(bits);
        let n = if k[1] == 3 { OTHER } else { NETS[k[1]] };
        let right = k[0] == 0;
        let p = if right { pw } else { PWS[(k[3] + 1 + i as usize % 4) % 5] };
        let what = || format!("adding {:x} by manager {} to {} (password {:?}, given {:?})", n, bits, dd.text(), pw, p);
        let r = scripted(11, || m.add_network(&c, p, Network(n)));
        let w = model_add(&dd, subset(bits).contains(&n), manager_words(bits), n, |s| refm::stored_key(n, s), right);
        if let Some((c2, d2)) = judge_add(&dd, r, w, n, pw, &what, cx)? {
            for b in [7, bits, 1 + i as usize % 7] {
                judge_open(&manager(b), &subset(b), &c2, &d2, pw, true, &what, cx)?;
            }
        }
        judge_open(&m, &subset(bits), &c, &dd, pw, false, &what, cx)
    }));
    d.push(Domain::new("changing: every transition from every state", SOURCES as u64 * 16 * 5 * 5 * 5 * 2, |i, cx| {
        let k = digits(i, &[5, 5, 5, 16, SOURCES as u64, 2]);
        let dd = source_doc(k[4], &state_nets(k[3]));
        let (pw, old, new) = (PWS[k[2]], PWS[k[1]], PWS[k[0]]);
        let c = sealed(dd.text().as_bytes(), pw);
        cx.state(hash2(hash(dd.text().as_bytes()), k[2] as u64));
        let bits = if k[5] == 0 { 7 } else { 1 + i as usize % 7 };
        let m = manager(bits);
        let what = || format!("changing {:?} to {:?}, given {:?}, of {}", pw, new, old, dd.text());
        let r = scripted(12, || m.change_password(&c, old, new));
        if let Some(c2) = judge_change(&dd, r, old == pw, new, &what, cx)? {
            judge_open(&m, &subset(bits), &c2, &dd, new, false, &what, cx)?;
            for o in PWS {
                if o != new {
                    ensure!(matches!(m.keychain_from_data(&c2, o), Err(Error::WrongPassword)), "{}: opens with {:?}", what(), o);
                    cx.step();
                }
            }
        }
        judge_open(&m, &subset(bits), &c, &dd, pw, false, &what, cx)
    }));
    d.push(Domain::new("opening: every manager, every state", SOURCES as u64 * 16 * 5 * 7, |i, cx| {
        let k = digits(i, &[7, 5, 16, SOURCES as u64]);
        let dd = source_doc(k[3], &state_nets(k[2]));
        let c = sealed(dd.text().as_bytes(), PWS[k[1]]);
        let bits = k[0] + 1;
        judge_open(&manager(bits), &subset(bits), &c, &dd, PWS[k[1]], true, &|| format!("opening {}", dd.text()), cx)
    }));
    d.push(histories(Look::Open, if th { 5 } else { 3 }, if th { 6 } else { 3 }, "histories from real wallets"));
    // a long straight history: far more operations than any tree reaches
    d.push(Domain::new("long histories", 7 * 4, move |i, cx| {
        let k = digits(i, &[7, 4]);
        let (mut c, mut dd) = match fresh(k[0] + 1, [0, 4, 1, 7][k[1]], PWS[0])? {
            Some(x) => x,
            None => return Ok(()),
        };
        let m = manager(7);
        let mut pw = PWS[0].to_string();
        for j in 0..(if th { 3000u64 } else { 300 }) {
            let what = || format!("long history {:?} at {}", k, j);
            if j % 7 == 3 {
                let n = NETS[(j % 3) as usize];
                let r = scripted(j, || m.add_network(&c, &pw, net(n)));
                let w = model_add(&dd, true, 12, n, |s| refm::stored_key(n, s), true);
                if let Some((c2, d2)) = judge_add(&dd, r, w, n, &pw, &what, cx)? {
                    c = c2;
                    dd = d2;
                }
            } else {
                let new = format!("{}{}", PWS[(j % 5) as usize], j % 11);
                let r = scripted(j, || m.change_password(&c, &pw, &new));
                c = judge_change(&dd, r, true, &new, &what, cx)?.unwrap();
                pw = new;
            }
        }
        judge_open(&m, &NETS, &c, &dd, &pw, true, &|| format!("after a long history {:?}", k), cx)?;
        cx.max("length", if th { 3000 } else { 300 });
        Ok(())
    }).chunk(1));
    // networks of the user's own
    d.push(Domain::new("networks of the user's own", 16 * 16 * 5 * 2 * 2, |i, cx| {
        let k = digits(i, &[16, 16, 5, 2, 2]);
        // own networks: two with keys of a built-in kind, one that cannot make keys, one built-in
        let all: [(u32, u32, bool); 4] = [(0x8000_0005, ETH, false), (7, ADA, false), (0xffff_ffff, BTC, true), (BTC, BTC, false)];
        let sup: Vec<usize> = (0..4).filter(|j| k[0] >> j & 1 == 1).collect();
        if sup.is_empty() {
            return Ok(());
        }
        let f: Vec<Box<dyn KeyFactory>> = sup
            .iter()
            .map(|j| -> Box<dyn KeyFactory> { Box::new(Cust { net: all[*j].0, like: all[*j].1, size: (128, 256), fail: all[*j].2 }) })
            .collect();
        let m = KeychainManager::with_factories(f).map_err(|e| e.to_string())?;
        let phrase = phrase_n(12, 80, 0);
        let s = if k[3] == 0 { seed_n(51) } else { refm::seed_of(&phrase, b"") };
        let mut dd = if k[3] == 0 { doc(Some(&s), None, &[]) } else { doc(None, Some((&phrase, 0)), &[]) };
        for j in 0..4 {
            if k[1] >> j & 1 == 1 {
                dd.keys.push((all[j].0, refm::stored_key(all[j].1, &s)));
            }
        }
        dd.keys.sort();
        let c = sealed(dd.text().as_bytes(), "pw");
        cx.state(hash2(hash(dd.text().as_bytes()), i));
        let (n, like, fail) = if k[2] < 4 { all[k[2]] } else { (ADA, ADA, false) };
        let supported = sup.iter().any(|j| all[*j].0 == n);
        let right = k[4] == 0;
        let what = || format!("own networks {:?}, adding {:x} to {}", sup, n, dd.text());
        let r = scripted(13, || m.add_network(&c, if right { "pw" } else { "no" }, Network(n)));
        let mut w = model_add(&dd, supported, 12, n, |s| refm::stored_key(like, s), right);
        if let (Adds::Key(_), true) = (&w, fail) {
            w = Adds::No(vec![format!("KeyError({:x},KeySize)", n)]);
        }
        let mut last = (c, dd.clone());
        if let Some(x) = judge_add(&dd, r, w, n, "pw", &what, cx)? {
            last = x;
        }
        let kc = m.keychain_from_data(&last.0, "pw").map_err(|e| format!("{}: {}", what(), e))?;
        let mut got: Vec<u32> = kc.networks().into_iter().map(|n| n.0).collect();
        got.sort();
        let want: Vec<u32> = last.1.keys.iter().map(|e| e.0).filter(|n| sup.iter().any(|j| all[*j].0 == *n)).collect();
        ensure!(got == want, "{}: opens with {:x?}, should be {:x?}", what(), got, want);
        for j in &sup {
            let (n, like, _) = all[*j];
            let p = refm::std_path(like);
            let r = kc.pub_key(&Network(n), &P(p));
            let w = last.1.keys.iter().find(|e| e.0 == n).and_then(|e| refm::pub_key(like, &e.1, &p));
            ensure!(r.as_ref().ok() == w.as_ref(), "{}: key of {:x}: {}", what(), n, show(&r));
            cx.step();
        }
        // making one
        let r = scripted(14, || m.keychain_data_from_seed(&s, "pw"));
        cx.step();
        match (r, sup.contains(&2)) {
            (Err(e), true) => ensure!(kind(&e) == "KeyError(ffffffff,KeySize)", "{}: making: {}", what(), e),
            (Ok(c), false) => {
                let mut e = doc(Some(&s), None, &[]);
                for j in &sup {
                    e.keys.push((all[*j].0, refm::stored_key(all[*j].1, &s)));
                }
                e.keys.sort();
                let g = Doc::open(&c, "pw")?;
                ensure!(g == e, "{}: made {:?}, should be {:?}", what(), g, e);
            }
            (r, _) => return Err(format!("{}: making: {}", what(), r.is_ok())),
        }
        Ok(())
    }));
    base(
        "C19",
        "a model wallet (source, networks with keys, password) is run beside the real code; from every model state every operation is executed on a container of that state and its result must be the model's next state (which is again one of the states, so histories of any length are covered), and all histories of bounded length are executed on containers the real code made; non-trivial when a wallet is made, changed or refused",
        &format!(
            "states: 13 sources (2 seeds, 12-word phrases in 8 languages, two 9-word phrases, none) x 16 network sets x 5 passwords; operations: add (4 networks, 7 managers, right and wrong password), change (5 x 5 passwords, 8 managers), open (7 managers); histories of {} operations of 12 kinds from 7 managers x {} sources; straight histories of {} operations; 15 managers with own networks x 16 states x 5 networks",
            if th { 5 } else { 3 }, if th { 6 } else { 3 }, if th { 3000 } else { 300 }
        ),
        d,
    )
}

// ------------------------------------------------------------------ C25

pub fn c25(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let npw = passwords().len() as u64;
    d.push(Domain::new("every state, every manager", SOURCES as u64 * 16 * 5 * 7, |i, cx| {
        let k = digits(i, &[7, 5, 16, SOURCES as u64]);
        let dd = source_doc(k[3], &state_nets(k[2]));
        let c = sealed(dd.text().as_bytes(), PWS[k[1]]);
        cx.state(hash2(hash(&c), k[0] as u64));
        let m = manager(k[0] + 1);
        let what = || format!("backup by manager {} of {}", k[0] + 1, dd.text());
        judge_backup(&m, &c, &dd, PWS[k[1]], &what, cx)?;
        for o in 0..5 {
            if o != k[1] {
                judge_backup_wrong(&m, &c, PWS[o], &what, cx)?;
            }
        }
        Ok(())
    }));
    d.push(Domain::new("new wallets under every password", 7 * SOURCES as u64 * npw, move |i, cx| {
        let k = digits(i, &[7, SOURCES as u64, npw]);
        let pws = passwords();
        if let Some((c, dd)) = fresh(k[0] + 1, k[1], &pws[k[2]])? {
            cx.state_of(&c);
            let m = manager(1 + (k[0] + k[1]) % 7);
            let what = || format!("backup of new wallet {:?}", k);
            judge_backup(&m, &c, &dd, &pws[k[2]], &what, cx)?;
            judge_backup_wrong(&m, &c, &pws[(k[2] + 1 + i as usize % (pws.len() - 1)) % pws.len()], &what, cx)?;
        }
        Ok(())
    }));
    d.push(Domain::new("a phrase of every word in every language", 8 * 2048, |i, cx| {
        // the phrase starts with the word; its language must come back
        let (l, w) = ((i / 2048) as usize, (i % 2048) as u16);
        let mut ent: Vec<u8> = (0..16).map(|j| stream_byte(900, j)).collect();
        ent[0] = (w >> 3) as u8;
        ent[1] = (w << 5) as u8 | ent[1] & 31;
        let p = refm::phrase(&refm::words(&ent), l);
        let m = manager(2);
        let c = scripted(15, || m.keychain_data_from_mnemonic(&p, "pw", Some(LANGS[l]))).map_err(|e| format!("'{}': {}", p, e))?;
        let dd = doc(None, Some((&p, l)), &[ETH]);
        cx.state_of(p.as_bytes());
        judge_backup(&m, &c, &dd, "pw", &|| format!("phrase '{}'", p), cx)
    }));
    d.push(Domain::new("phrases of words of two languages", 8 * 8 * 7 * 2 * 12, |i, cx| {
        let k = digits(i, &[12, 2, 7, 8, 8]);
        let (a, b, bits) = (k[3], k[4], k[2] + 1);
        let p = match phrase_of_two(manager_words(bits), a, b, k[0] as u64, k[1] == 1) {
            Some(p) => p,
            _ => return Ok(()),
        };
        let m = manager(bits);
        let c = scripted(15, || m.keychain_data_from_mnemonic(&p, "pw", Some(LANGS[a]))).map_err(|e| format!("'{}': {}", p, e))?;
        let mut dd = doc(None, Some((&p, a)), &subset(bits));
        cx.state_of(p.as_bytes());
        let what = || format!("phrase '{}' of language {:?}", p, LANGS[a]);
        judge_backup(&m, &c, &dd, "pw", &what, cx)?;
        let c = scripted(16, || m.change_password(&c, "pw", "new")).map_err(|e| format!("'{}': {}", p, e))?;
        judge_backup(&m, &c, &dd, "new", &what, cx)?;
        if k[0] < 3 && bits != 7 {
            let more = manager(7);
            let n = *NETS.iter().find(|n| !subset(bits).contains(n)).unwrap();
            if manager_words(7) == manager_words(bits) {
                let c = scripted(17, || more.add_network(&c, "new", net(n))).map_err(|e| format!("'{}': {}", p, e))?;
                dd = doc(None, Some((&p, a)), &subset(bits).into_iter().chain(Some(n)).collect::<Vec<_>>());
                judge_backup(&more, &c, &dd, "new", &what, cx)?;
            }
        }
        cx.outcome(if k[1] == 1 { "valid in both languages" } else { "valid in one language" });
        Ok(())
    }));
    d.push(histories(Look::Backup, if th { 5 } else { 3 }, if th { 6 } else { 4 }, "histories from real wallets"));
    d.push(Domain::new("keys of any size and number", 40 * 12 * 2, |i, cx| {
        let k = digits(i, &[40, 12, 2]);
        let mut dd = source_doc(0, &[ETH]);
        for j in 0..k[1] {
            let n = (j as u32).wrapping_mul(0x1357_9bdf) ^ 0x8000_0000;
            let len = if k[0] < 32 { k[0] } else { [63, 64, 65, 96, 127, 255, 256, 1000][k[0] - 32] };
            dd.keys.push((n, (0..len).map(|x| stream_byte(n as u64, x as u64)).collect()));
        }
        dd.keys.sort();
        if k[2] == 1 {
            dd.version = 1;
            dd.seed = None;
        }
        let c = sealed(dd.text().as_bytes(), "pw");
        cx.state_of(&c);
        judge_backup(&manager(1 + k[0] % 7), &c, &dd, "pw", &|| format!("keys {:?}", k), cx)
    }));
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("big keys, many keys, equal keys", nbig * 3 * 3, move |i, cx| {
        let k = digits(i, &[3, 3, nbig]);
        let n = big_sizes()[k[2]].min(200_001);
        let mut dd = source_doc([0, 2, 12][k[1]], &[ETH]);
        match k[0] {
            0 => dd.keys.push((9, bytes_n(n, 2))),
            1 => dd.keys.extend((0..n as u32 / 50).map(|j| (j.wrapping_mul(0x9e37_79b1) | 3, bytes_n(1 + j as usize % 90, 3)))),
            _ => dd.keys.extend((0..1 + n as u32 % 40).map(|j| (j << 3 | 1, bytes_n(n % 100, 2)))),
        }
        dd.keys.sort();
        dd.keys.dedup_by_key(|x| x.0);
        let c = sealed(dd.text().as_bytes(), "pw");
        cx.state_of(&c);
        let what = || format!("keys {:?} ({})", k, n);
        judge_backup(&manager(1 + k[2] % 7), &c, &dd, "pw", &what, cx)?;
        judge_backup_wrong(&manager(1 + k[2] % 7), &c, "pv", &what, cx)
    }));
    base(
        "C25",
        "for every state of the model wallet, and at every node of the tree of histories run on real containers, both backup operations must give exactly the model's phrase, language and keys under the right password and WrongPassword under others; non-trivial when a phrase, its absence or a refusal is returned",
        &format!(
            "13 sources x 16 network sets x 5 passwords x 7 managers; new wallets for 46 passwords; 8 x 2048 first words; histories of {} operations of 12 kinds from 7 managers; stored keys of 0-1000 bytes for up to 12 networks",
            if th { 5 } else { 3 }
        ),
        d,
    )
}

// ------------------------------------------------------------------ C21

/// Everything one asks of a manager and a wallet, each with one comparable answer.
struct Desk<'a> {
    m: &'a KeychainManager,
    k: &'a Keychain,
    bits: usize,
}
const ASKS: usize = 33;
fn ask_name(o: usize) -> &'static str {
    [
        "pub_key A", "pub_key A 2", "sign A", "sign A 2", "verify A good", "verify A bad", "pub_key A bad path", "verify A short",
        "pub_key B", "sign B", "verify B good", "pub_key B bad path", "pub_key C", "sign C", "pub_key absent", "networks",
        "generate", "generate Korean", "from_seed", "from_seed short", "from_mnemonic", "from_mnemonic bad", "open", "open wrong",
        "open damaged", "add", "add existing", "add unsupported", "change", "change wrong", "keys backup", "phrase backup", "failed read",
    ][o]
}
fn shared() -> &'static BTreeMap<usize, (Vec<u8>, Vec<u8>, Vec<Vec<u8>>)> {
    static S: std::sync::OnceLock<BTreeMap<usize, (Vec<u8>, Vec<u8>, Vec<Vec<u8>>)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        (1..8)
            .map(|b| {
                let dd = doc(None, Some((&phrase_n(manager_words(b), 90, 0), 0)), &subset(b));
                let part = doc(Some(&seed_n(52)), None, &[OTHER]);
                let sigs = NETS
                    .iter()
                    .map(|n| {
                        let k = factory(*n).key_from_data(&refm::stored_key(*n, &seed_n(53))).ok().unwrap();
                        k.sign(&msg_n(3), &P(refm::std_path(*n))).ok().unwrap()
                    })
                    .collect();
                (b, (sealed(dd.text().as_bytes(), "pw"), sealed(part.text().as_bytes(), "pw"), sigs))
            })
            .collect()
    })
}
fn shown(r: Result<Vec<u8>, Error>, pw: &str) -> String {
    match r {
        Ok(c) => match refm::unseal(&c, pw) {
            Some(p) => match Doc::read(&p) {
                Ok(d) => format!("wallet {} {}", hex(&c[..44]), d.text()),
                Err(e) => format!("unreadable wallet: {}", e),
            },
            None => "a container that does not open".into(),
        },
        Err(e) => format!("{}: {}", kind(&e), e),
    }
}
impl<'a> Desk<'a> {
    fn ask(&self, o: usize) -> String {
        let have = subset(self.bits);
        let n = |j: usize| have[j % have.len()];
        let at = |n: u32, a: u32| {
            let mut p = refm::std_path(n);
            p[4] = a;
            P(p)
        };
        let bad = |n: u32| {
            let mut p = refm::std_path(n);
            p[3] = 2;
            P(p)
        };
        let sh = &shared()[&self.bits];
        let sig = |n: u32| sh.2[NETS.iter().position(|x| *x == n).unwrap()].clone();
        let msg = msg_n(3);
        let v = |r: Result<bool, Error>| match r {
            Ok(b) => b.to_string(),
            Err(e) => format!("{}: {}", kind(&e), e),
        };
        env::script(500 + o as u64, &[]);
        if o == 32 {
            env::script(1, &[Ans::Err(libc::EIO); 4]);
        }
        let r = caught(|| match o {
            0 => show(&self.k.pub_key(&net(n(0)), &at(n(0), 0))),
            1 => show(&self.k.pub_key(&net(n(0)), &at(n(0), 77))),
            2 => show(&self.k.sign(&net(n(0)), &msg, &at(n(0), 0))),
            3 => show(&self.k.sign(&net(n(0)), b"", &at(n(0), 5))),
            4 => v(self.k.verify(&net(n(0)), &msg, &sig(n(0)), &at(n(0), 0))),
            5 => v(self.k.verify(&net(n(0)), b"another", &sig(n(0)), &at(n(0), 0))),
            6 => show(&self.k.pub_key(&net(n(0)), &bad(n(0)))),
            7 => v(self.k.verify(&net(n(0)), &msg, &sig(n(0))[1..], &at(n(0), 0))),
            8 => show(&self.k.pub_key(&net(n(1)), &at(n(1), 0))),
            9 => show(&self.k.sign(&net(n(1)), &msg, &at(n(1), 0))),
            10 => v(self.k.verify(&net(n(1)), &msg, &sig(n(1)), &at(n(1), 0))),
            11 => show(&self.k.pub_key(&net(n(1)), &bad(n(1)))),
            12 => show(&self.k.pub_key(&net(n(2)), &at(n(2), 3))),
            13 => show(&self.k.sign(&net(n(2)), &msg, &at(n(2), 3))),
            14 => show(&self.k.sign(&Network(OTHER), &msg, &at(ETH, 0))),
            15 => {
                let mut v: Vec<u32> = self.k.networks().into_iter().map(|n| n.0).collect();
                v.sort();
                format!("{:x?} {:?}", v, NETS.map(|n| (self.k.has_network(&net(n)), self.m.has_network(&net(n)), self.m.get_key_factory(&net(n)).map(|f| f.network().0))))
            }
            16 => format!("{:?}", self.m.generate_mnemonic(None).map_err(|e| e.to_string())),
            17 => format!("{:?}", self.m.generate_mnemonic(Some(LANGS[3])).map_err(|e| e.to_string())),
            18 => shown(self.m.keychain_data_from_seed(&seed_n(54), "s"), "s"),
            19 => shown(self.m.keychain_data_from_seed(&seed_n(54)[1..], "s"), "s"),
            20 => shown(self.m.keychain_data_from_mnemonic(&phrase_n(manager_words(self.bits), 91, 7), "m", Some(LANGS[7])), "m"),
            21 => shown(self.m.keychain_data_from_mnemonic("abandon abandon", "m", None), "m"),
            22 | 23 | 24 => {
                let mut c = sh.0.clone();
                if o == 24 {
                    let l = c.len() - 1;
                    c[l] ^= 1;
                }
                match self.m.keychain_from_data(&c, if o == 23 { "no" } else { "pw" }) {
                    Ok(k) => {
                        let mut v: Vec<u32> = k.networks().into_iter().map(|n| n.0).collect();
                        v.sort();
                        format!("{:x?} {}", v, show(&k.pub_key(&net(n(0)), &at(n(0), 0))))
                    }
                    Err(e) => e.to_string(),
                }
            }
            25 => shown(self.m.add_network(&sh.1, "pw", net(n(0))), "pw"),
            26 => shown(self.m.add_network(&sh.0, "pw", net(n(1))), "pw"),
            27 => shown(self.m.add_network(&sh.1, "pw", Network(OTHER)), "pw"),
            28 => shown(self.m.change_password(&sh.0, "pw", "q"), "q"),
            29 => shown(self.m.change_password(&sh.0, "q", "pw"), "pw"),
            30 => {
                let mut v = self.m.get_keys_data(&sh.0, "pw").map(|v| v.into_iter().map(|(n, k)| (n.0, hex(&k))).collect::<Vec<_>>()).unwrap_or_default();
                v.sort();
                format!("{:?}", v)
            }
            31 => format!("{:?}", self.m.retrieve_mnemonic(&sh.0, "pw").map_err(|e| e.to_string())),
            _ => match self.m.change_password(&sh.0, "pw", "q") {
                Ok(_) => "a container without salt".into(),
                Err(_) => "refused".into(),
            },
        });
        env::unscript();
        match r {
            Ok(s) => s,
            Err(_) if o == 32 => "refused".into(),
            Err(p) => format!("panicked: {}", p),
        }
    }
}
fn alone(bits: usize) -> &'static Vec<String> {
    static S: std::sync::OnceLock<Vec<Vec<String>>> = std::sync::OnceLock::new();
    &S.get_or_init(|| {
        (1..8)
            .map(|b| {
                (0..ASKS)
                    .map(|o| {
                        let (m, k) = (manager(b), wallet(b, &seed_n(53)).expect("wallet"));
                        Desk { m: &m, k: &k, bits: b }.ask(o)
                    })
                    .collect()
            })
            .collect()
    })[bits - 1]
}
fn perms(v: &[u32]) -> Vec<Vec<u32>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut o = vec![];
    for j in 0..v.len() {
        let mut r = v.to_vec();
        let x = r.remove(j);
        for mut p in perms(&r) {
            p.insert(0, x);
            o.push(p);
        }
    }
    o
}
/// 16 paths of a network, served and refused ones.
fn turn_path(n: u32, j: usize) -> [u32; 5] {
    const H: u32 = 0x8000_0000;
    let mut p = [H + 44, refm::coin(n), H + (j as u32 >> 2 & 1), j as u32 >> 1 & 1, j as u32 & 1];
    if j >= 8 {
        p = [H + 44, refm::coin(n), H, 0, 0];
        match j {
            8 => p[2] = 0xffff_ffff,
            9 => p[4] = H - 1,
            10 => p[3] = 2,
            11 => p[4] = H,
            12 => p[2] = 0,
            13 => p[0] = H + 49,
            14 => p[0] = 44,
            _ => p[1] = H + 1,
        }
    }
    p
}
fn path_ask_name(x: usize) -> String {
    let n = NETS[x / 48];
    format!("{} {} at {}", refm::net_name(n), ["pub_key", "sign", "verify"][x / 16 % 3], path_text(&turn_path(n, x % 16)))
}
fn path_ask(k: &Keychain, x: usize) -> String {
    let n = NETS[x / 48];
    let p = P(turn_path(n, x % 16));
    let r = caught(|| match x / 16 % 3 {
        0 => show(&k.pub_key(&net(n), &p)),
        1 => show(&k.sign(&net(n), b"turn", &p)),
        _ => {
            // the signature of the standard path: true there and nowhere else
            static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
            let sigs = S.get_or_init(|| {
                NETS.iter()
                    .map(|n| {
                        let k = factory(*n).key_from_data(&refm::stored_key(*n, &seed_n(53))).ok().unwrap();
                        k.sign(b"turn", &P(turn_path(*n, 0))).ok().unwrap()
                    })
                    .collect()
            });
            match k.verify(&net(n), b"turn", &sigs[x / 48], &p) {
                Ok(b) => b.to_string(),
                Err(e) => format!("Error {}: {}", kind(&e), e),
            }
        }
    });
    r.unwrap_or_else(|p| format!("panicked: {}", p))
}
fn path_alone() -> &'static Vec<String> {
    static S: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    S.get_or_init(|| (0..144).map(|x| path_ask(&wallet(7, &seed_n(53)).expect("wallet"), x)).collect())
}
// ------------------------------------------------------------------ long use of one object

/// The j-th question of a walk: network, operation (key, signature, verdict, false verdict, refused path), what changes.
fn long_ask(k: &Keychain, n: u32, op: usize, walk: usize, j: usize) -> String {
    let mut p = refm::std_path(n);
    let mut msg = msg_n(3);
    match walk {
        0 => p[4] = j as u32,
        1 => p[2] = H + j as u32 / 2,
        _ => {
            p[3] = j as u32 & 1;
            p[4] = (j as u32).wrapping_mul(0x9E37_79B1) & 0x7fff_ffff;
            msg = j.to_be_bytes().to_vec();
        }
    }
    match op {
        0 => show(&k.pub_key(&net(n), &P(p))),
        1 => show(&k.sign(&net(n), &msg, &P(p))),
        2 => {
            // the signature of the standard path, asked of all the paths
            let sig = k.sign(&net(n), &msg, &P(refm::std_path(n))).unwrap_or_default();
            format!("{:?}", k.verify(&net(n), &msg, &sig, &P(p)).map_err(|e| e.to_string()))
        }
        3 => {
            p[1] = j as u32;
            show(&k.pub_key(&net(n), &P(p)))
        }
        _ => match k.pub_key(&net(OTHER + j as u32), &P(p)) {
            Ok(_) => "Ok".into(),
            Err(e) => format!("{}:{}", kind(&e), e),
        },
    }
}
/// Asks n questions of one object, each also of a fresh one, and then all of them again in another order.
pub fn long_use(n: usize, what: &str, used: &mut dyn FnMut(usize) -> String, fresh: &mut dyn FnMut(usize) -> String, cx: &mut Cx) -> R {
    let mut first = Vec::with_capacity(n);
    for j in 0..n {
        let (a, b) = (used(j), fresh(j));
        cx.step();
        ensure!(a == b, "{}: question {} in a row: {} instead of {}", what, j, a, b);
        first.push(hash(a.as_bytes()));
        if j % 16 == 0 {
            cx.state(hash2(first[j], j as u64));
        }
    }
    let again = (0..n).map(|j| (j * 7919) % n).chain((n - n.min(300)..n).rev()).chain(0..n.min(300));
    for j in again {
        let a = used(j);
        cx.step();
        ensure!(hash(a.as_bytes()) == first[j], "{}: question {} again after {} others: {}", what, j, n, a);
    }
    Ok(())
}
fn long_domains(th: bool) -> Vec<Domain> {
    let mut d = vec![];
    let lens: &'static [usize] = if th { &[1100, 4200, 70_001] } else { &[1100, 4200] };
    d.push(Domain::new("long use of one wallet", lens.len() as u64 * 3 * 3 * 5, move |i, cx| {
        let k = digits(i, &[5, 3, 3, lens.len() as u64]);
        let (op, walk, n) = (k[0], k[1], NETS[k[2]]);
        let len = lens[k[3]];
        if !th && k[3] == 1 && (op != 0 || walk != 0) {
            return Ok(());
        }
        let w = wallet(7, &seed_n(53))?;
        let mut w2 = wallet(7, &seed_n(53))?;
        let mut asked = 0;
        let what = format!("{} {} {}", refm::net_name(n), ["key", "signature", "verdict", "refused path", "other network"][op], ["addresses", "accounts", "both"][walk]);
        long_use(
            len,
            &what,
            &mut |j| long_ask(&w, n, op, walk, j),
            &mut |j| {
                asked += 1;
                if asked % 40 == 0 {
                    w2 = wallet(7, &seed_n(53)).unwrap_or_else(|e| panic!("{}", e));
                }
                long_ask(&w2, n, op, walk, j)
            },
            cx,
        )?;
        cx.outcome("wallet used long");
        Ok(())
    }).chunk(1));
    d.push(Domain::new("long use of one manager", 7, move |i, cx| {
        let op = i as usize;
        let len = if th { 20_000 } else { 1100 };
        let docs = |j: usize| {
            // the same wallet with other contents
            let mut d = doc(Some(&seed_n(53)), None, &[ADA, ETH]);
            d.keys.push((OTHER + j as u32, vec![j as u8, (j >> 8) as u8]));
            sealed(d.text().as_bytes(), "pw")
        };
        let ask = |m: &KeychainManager, j: usize| -> String {
            env::script(j as u64, &[]);
            let r = match op {
                0 => match m.keychain_from_data(&docs(j), "pw") {
                    Ok(k) => show(&k.pub_key(&net(ETH), &P(refm::std_path(ETH)))),
                    Err(e) => e.to_string(),
                },
                1 => show(&m.get_keys_data(&docs(j), "pw").map(|mut v| {
                    v.sort_by_key(|x| (x.0).0);
                    format!("{:?}", v)
                })),
                2 => {
                    let c = docs(0);
                    show(&m.keychain_from_data(&c[..c.len() - 1 - j % 100], "pw").map(|_| ""))
                }
                3 => show(&m.generate_mnemonic(None)),
                4 => format!("{} {}", m.has_network(&net(j as u32)), m.get_key_factory(&net(j as u32)).is_some()),
                5 => show(&m.add_network(&docs(j), "pw", net(OTHER + j as u32)).map(|_| "")),
                _ => show(&m.keychain_data_from_mnemonic(&phrase_n([12, 15][j % 2], j as u64, j % 8), "pw", Some(super::cont::lang(j * 3 % 8))).map(|c| c.len().to_string())),
            };
            env::unscript();
            r
        };
        let m = manager(7);
        let mut m2 = manager(7);
        let mut asked = 0;
        let len = if op == 6 { len.min(600) } else { len };
        long_use(
            len,
            ["opening", "backup", "damaged", "phrases", "networks", "refused network", "import"][op],
            &mut |j| ask(&m, j),
            &mut |j| {
                asked += 1;
                if asked % 40 == 0 {
                    m2 = manager(7);
                }
                ask(&m2, j)
            },
            cx,
        )?;
        cx.outcome("manager used long");
        Ok(())
    }).chunk(1));
    d
}
pub fn c21(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let a = ASKS as u64;
    d.push(Domain::new("every answer after every two operations", 7 * a * a, move |i, cx| {
        let k = digits(i, &[a, a, 7]);
        let bits = k[2] + 1;
        let (m, kc) = (manager(bits), wallet(bits, &seed_n(53))?);
        let desk = Desk { m: &m, k: &kc, bits };
        let want = alone(bits);
        for (j, o) in [k[1], k[0]].iter().enumerate() {
            let g = desk.ask(*o);
            cx.step();
            ensure!(g == want[*o], "networks {}: '{}' after {} of ['{}', '{}']: {} instead of {}", bits, ask_name(*o), j, ask_name(k[1]), ask_name(k[0]), g, want[*o]);
        }
        let mut last: Vec<usize> = (0..ASKS).collect();
        if !th {
            last.retain(|o| (*o + k[0] + k[1]) % 3 == 0);
        }
        for o in last {
            let g = desk.ask(o);
            cx.step();
            ensure!(g == want[o], "networks {}: '{}' after '{}', '{}' and others: {} instead of {}", bits, ask_name(o), ask_name(k[1]), ask_name(k[0]), g, want[o]);
            cx.state(hash2(hash(g.as_bytes()), (k[0] * 100 + k[1]) as u64));
        }
        cx.outcome(if want[k[0]].starts_with("Err") { "after a refusal" } else { "after an answer" });
        cx.sample(ask_name(k[0]), || want[k[0]].clone());
        Ok(())
    }));
    d.push(Domain::new("every sequence of three operations", if th { 7 * a * a * a } else { a * a * a }, move |i, cx| {
        let k = digits(i, &[a, a, a, 7]);
        let bits = if th { k[3] + 1 } else { [7, 3, 5, 6][(k[0] + k[1] + k[2]) % 4] };
        let (m, kc) = (manager(bits), wallet(bits, &seed_n(53))?);
        let desk = Desk { m: &m, k: &kc, bits };
        let want = alone(bits);
        for o in [k[2], k[1], k[0]] {
            let g = desk.ask(o);
            cx.step();
            ensure!(g == want[o], "networks {}: '{}' in ['{}', '{}', '{}']: {} instead of {}", bits, ask_name(o), ask_name(k[2]), ask_name(k[1]), ask_name(k[0]), g, want[o]);
        }
        cx.state(hash2(i, bits as u64));
        Ok(())
    }));
    d.push(Domain::new("one operation very often", 7 * a, move |i, cx| {
        let k = digits(i, &[a, 7]);
        let bits = k[1] + 1;
        let (m, kc) = (manager(bits), wallet(bits, &seed_n(53))?);
        let desk = Desk { m: &m, k: &kc, bits };
        let want = alone(bits);
        let n = if th { 3000 } else { 270 };
        for j in 0..n {
            let g = desk.ask(k[0]);
            cx.step();
            ensure!(g == want[k[0]], "networks {}: '{}' at repetition {}: {} instead of {}", bits, ask_name(k[0]), j, g, want[k[0]]);
        }
        for o in 0..ASKS {
            let g = desk.ask(o);
            ensure!(g == want[o], "networks {}: '{}' after {} times '{}': {} instead of {}", bits, ask_name(o), n, ask_name(k[0]), g, want[o]);
            cx.step();
        }
        cx.state(i);
        cx.max("repetitions", n);
        Ok(())
    }).chunk(1));
    d.extend(long_domains(th));
    // keys, signatures and verdicts at one path after those at another
    const TP: u64 = 16;
    let tp = 3 * 3 * TP;
    d.push(Domain::new("every path after every other", tp * tp, move |i, cx| {
        let k = digits(i, &[tp, tp]);
        let w = wallet(7, &seed_n(53))?;
        for (j, x) in [k[1], k[0]].iter().enumerate() {
            let g = path_ask(&w, *x);
            cx.step();
            ensure!(g == path_alone()[*x], "{}: {} instead of {}, answer {} of {} and {}", path_ask_name(*x), g, path_alone()[*x], j + 1, path_ask_name(k[1]), path_ask_name(k[0]));
        }
        cx.state(hash2(i, 21));
        cx.outcome(if path_alone()[k[1]].contains("Error") { "after a refused path" } else { "after a served path" });
        Ok(())
    }));
    let kinds = if th { 3 } else { 1 };
    d.push(Domain::new("three paths of a network in turn", 3 * TP * TP * TP * kinds * kinds * kinds, move |i, cx| {
        let k = digits(i, &[TP, TP, TP, 3, kinds, kinds, kinds]);
        let w = wallet(7, &seed_n(53))?;
        for (j, p) in k[..3].iter().enumerate() {
            let x = (k[3] * 3 + k[4 + j]) * TP as usize + p;
            let g = path_ask(&w, x);
            cx.step();
            ensure!(g == path_alone()[x], "{} as answer {} of paths {:?}: {} instead of {}", path_ask_name(x), j + 1, &k[..3], g, path_alone()[x]);
        }
        cx.state(hash2(i, 22));
        Ok(())
    }));
    // two wallets and two managers interleaved
    d.push(Domain::new("two managers and wallets in turn", a * a * 7, move |i, cx| {
        let k = digits(i, &[a, a, 7]);
        let (b1, b2) = (k[2] + 1, 1 + (k[2] + k[0] + k[1]) % 7);
        let (m1, k1) = (manager(b1), wallet(b1, &seed_n(53))?);
        let (m2, k2) = (manager(b2), wallet(b2, &seed_n(53))?);
        let (d1, d2) = (Desk { m: &m1, k: &k1, bits: b1 }, Desk { m: &m2, k: &k2, bits: b2 });
        for (d, b, o) in [(&d1, b1, k[0]), (&d2, b2, k[1]), (&d1, b1, k[1]), (&d2, b2, k[0])] {
            let g = d.ask(o);
            cx.step();
            ensure!(g == alone(b)[o], "networks {}: '{}' beside another: {} instead of {}", b, ask_name(o), g, alone(b)[o]);
        }
        cx.state(hash2(i, 7));
        Ok(())
    }));
    // the other networks make no difference
    d.push(Domain::new("other networks in the wallet or the manager", 3 * 8 * 8 * 10 * 2, |i, cx| {
        let k = digits(i, &[3, 8, 8, 10, 2]);
        let n = NETS[k[0]];
        let own = 1 << k[0];
        let (wb, mb) = (k[1] | own, k[2] | own);
        let s = seed_n(k[3]);
        let dd = doc(Some(&s), None, &state_nets(wb | k[4] << 3));
        let c = sealed(dd.text().as_bytes(), "pw");
        let kc = manager(mb).keychain_from_data(&c, "pw").map_err(|e| e.to_string())?;
        let key = factory(n).key_from_data(&refm::stored_key(n, &s)).map_err(|e| e.to_string())?;
        for a in [0, 1, 0x7fff_ffff] {
            let mut p = refm::std_path(n);
            p[4] = a;
            let w = key.pub_key(&P(p)).map_err(|e| e.to_string())?;
            ensure!(w == refm::pub_key(n, &refm::stored_key(n, &s), &p).unwrap(), "{} key at {}", refm::net_name(n), path_text(&p));
            let g = kc.pub_key(&net(n), &P(p));
            ensure!(g.as_ref().ok() == Some(&w), "wallet {} manager {}: {}", wb, mb, show(&g));
            let m = msg_n(a as usize % 5);
            let g = kc.sign(&net(n), &m, &P(p));
            ensure!(g.is_ok() && g.as_ref().ok() == key.sign(&m, &P(p)).ok().as_ref(), "wallet {} manager {}: signature {}", wb, mb, show(&g));
            let v = kc.verify(&net(n), &m, g.as_ref().unwrap(), &P(p));
            ensure!(matches!(v, Ok(true)), "wallet {} manager {}: verdict", wb, mb);
            cx.steps(3);
            cx.state_of(&w);
        }
        // and what a manager makes for the network
        let r = scripted(16, || manager(mb).keychain_data_from_seed(&s, "pw")).map_err(|e| e.to_string())?;
        let g = Doc::open(&r, "pw")?;
        ensure!(g.keys.iter().find(|e| e.0 == n).map(|e| &e.1) == Some(&refm::stored_key(n, &s)), "manager {} makes another {} key", mb, refm::net_name(n));
        cx.step();
        Ok(())
    }));
    // the internal order of networks
    let keys = if th { 2000 } else { 200 };
    d.push(Domain::new("every internal order of networks", keys * 7, move |i, cx| {
        let k = digits(i, &[keys, 7]);
        let bits = k[1] + 1;
        let want = alone(bits).clone();
        let key = hash(&(k[0] as u64).to_le_bytes()) as u128 | (hash(&(k[0] as u64 + 77777).to_le_bytes()) as u128) << 64;
        let r: Result<(Vec<u32>, u64), String> = env::with_hash_keys(key, || {
            let (m, kc) = (manager(bits), wallet(bits, &seed_n(53))?);
            let order: Vec<u32> = kc.networks().into_iter().map(|n| n.0).collect();
            let desk = Desk { m: &m, k: &kc, bits };
            for o in 0..ASKS {
                let g = desk.ask(o);
                ensure!(g == want[o], "order {:x?}: '{}': {} instead of {}", order, ask_name(o), g, want[o]);
            }
            Ok((order, ASKS as u64))
        });
        let (order, n) = r?;
        cx.steps(n);
        let mut s = order.clone();
        s.sort();
        ensure!(s == { let mut v = subset(bits); v.sort(); v }, "networks {:x?}", order);
        cx.outcome(&format!("order {}", order.iter().map(|n| refm::net_name(*n)).collect::<Vec<_>>().join(",")));
        cx.state(hash2(hash(format!("{:?}", order).as_bytes()), bits as u64));
        Ok(())
    }));
    // the order in which networks, factories and keys are given; repetitions
    d.push(Domain::new("every given order and repetition", 16 * 5 * 3, |i, cx| {
        let k = digits(i, &[16, 5, 3]);
        let bits = 1 + k[0] % 7;
        let have = subset(bits);
        let ps = perms(&have);
        let p = &ps[k[1] % ps.len()];
        let mut l = p.clone();
        if k[0] >= 7 {
            l.extend_from_slice(p);
            l.push(OTHER);
        }
        let desk_m;
        let kc;
        let s = seed_n(53);
        match k[2] {
            0 => {
                desk_m = KeychainManager::with_networks(&l.iter().map(|n| Network(*n)).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
                kc = wallet(bits, &s)?;
            }
            1 => {
                let f: Vec<Box<dyn KeyFactory>> = l.iter().filter(|n| **n != OTHER).map(|n| factory(*n)).collect();
                desk_m = KeychainManager::with_factories(f).map_err(|e| e.to_string())?;
                let c = scripted(17, || desk_m.keychain_data_from_seed(&s, "pw")).map_err(|e| e.to_string())?;
                kc = desk_m.keychain_from_data(&c, "pw").map_err(|e| e.to_string())?;
            }
            _ => {
                desk_m = manager(bits);
                let ks: Result<Vec<_>, _> = l.iter().filter(|n| **n != OTHER).map(|n| factory(*n).key_from_data(&refm::stored_key(*n, &s))).collect();
                kc = Keychain::new(ks.map_err(|e| e.to_string())?);
            }
        }
        ensure!(kc.networks().len() == have.len(), "networks listed: {:?}", kc.networks().len());
        let desk = Desk { m: &desk_m, k: &kc, bits };
        let want = alone(bits);
        for o in 0..ASKS {
            let g = desk.ask(o);
            cx.step();
            ensure!(g == want[o], "given {:x?}: '{}': {} instead of {}", l, ask_name(o), g, want[o]);
        }
        cx.state(i);
        Ok(())
    }));
    let mut c = base(
        "C21",
        "the answer to each of 33 operations (values, errors, decoded containers with their scripted salt and nonce) asked of a new manager and wallet is the reference; the same operation must give the same answer after every sequence of other operations on the same objects, under every internal hash order, given order and in the presence of every other network; non-trivial when answers were compared",
        &format!(
            "33 operations: {} x all sequences of 3, all pairs followed by {} others, {} repetitions of one, two managers and wallets in turn; 7 network sets; {} hash keys per set; 10 seeds x 7 wallets x 7 managers; all given orders with repetitions; 144 (network, operation, path) questions in all pairs, 16 paths per network in all triples",
            if th { "7 network sets" } else { "1 network set each" }, if th { "all" } else { "a third of the" }, if th { 3000 } else { 270 }, keys
        ),
        d,
    );
    c.assumptions.push("the answers of a new manager and wallet are themselves decided by C10-C25".into());
    c
}

// ------------------------------------------------------------------ C22

pub fn c22(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let grid: Vec<usize> = vec![0, 1, 32, 64, 96, 97, 127, 128, 129, 160, 192, 224, 255, 256, 257, 288, 512, usize::MAX];
    let g = grid.len() as u64;
    fn exists(sizes: &[(usize, usize)]) -> Option<bool> {
        let lo = sizes.iter().map(|s| s.0).max();
        let hi = sizes.iter().map(|s| s.1).min();
        match (lo, hi) {
            (Some(l), Some(h)) if l == 0 && h > 0 => None, // the smallest common size is zero
            (Some(l), Some(h)) => Some(l != 0 && l <= h),
            _ => Some(false),
        }
    }
    fn made(sizes: &[(usize, usize)], cx: &mut Cx) -> Result<Option<KeychainManager>, String> {
        let f: Vec<Box<dyn KeyFactory>> = sizes.iter().enumerate().map(|(j, s)| cust(100 + j as u32, NETS[j % 3], *s)).collect();
        let r = KeychainManager::with_factories(f);
        cx.step();
        match (r, exists(sizes)) {
            (r, None) => {
                cx.outcome("left open");
                Ok(r.ok())
            }
            (Ok(m), Some(true)) => {
                cx.outcome("exists");
                Ok(Some(m))
            }
            (Err(Error::CantCalculateSeedSize(..)), Some(false)) => {
                cx.outcome("CantCalculateSeedSize");
                Ok(None)
            }
            (r, w) => Err(format!("sizes {:?}: {:?}, should exist: {:?}", sizes, r.err().map(|e| e.to_string()), w)),
        }
    }
    /// one generated phrase of `bits` bits, from these bytes of the source
    fn generated(m: &KeychainManager, bits: usize, lang: Option<usize>, bytes: &[u8], cx: &mut Cx) -> Result<String, String> {
        env::script_bytes(bytes);
        let r = m.generate_mnemonic(lang.map(|l| LANGS[l]));
        let (del, _) = env::take_log();
        env::unscript();
        let l = lang.unwrap_or(0);
        let p = r.map_err(|e| format!("generating {} bits: {}", bits, e))?;
        cx.step();
        let w: Option<Vec<u16>> = p.split(' ').map(|x| refm::word_no(l, x)).collect();
        let w = w.ok_or(format!("'{}' has words of another language than {}", p, LANG_NAMES[l]))?;
        ensure!(w.len() == bits / 32 * 3, "'{}' has {} words instead of {}", p, w.len(), bits / 32 * 3);
        let (ent, got, want) = refm::split_words(&w);
        ensure!(got == want, "'{}' has a wrong checksum", p);
        ensure!(ent.len() * 8 == bits, "'{}' encodes {} bits", p, ent.len() * 8);
        ensure!(
            del.windows(ent.len()).any(|x| x == &ent[..]),
            "'{}' encodes {}, the source gave {}",
            p,
            hex(&ent),
            hex(&del)
        );
        cx.state_of(p.as_bytes());
        Ok(p)
    }
    fn import(m: &KeychainManager, p: &str, lang: Option<usize>, nets: &[(u32, u32)], cx: &mut Cx) -> R {
        let l = lang.unwrap_or(0);
        let c = scripted(18, || m.keychain_data_from_mnemonic(p, "pw", lang.map(|l| LANGS[l]))).map_err(|e| format!("importing '{}' in {:?}: {}", p, lang, e))?;
        let s = refm::seed_of(p, b"");
        let mut e = doc(None, Some((p, l)), &[]);
        e.keys = nets.iter().map(|(n, like)| (*n, refm::stored_key(*like, &s))).collect();
        e.keys.sort();
        let g = Doc::open(&c, "pw")?;
        ensure!(g == e, "'{}' imports as {:?}, should be {:?}", p, g, e);
        let k = m.keychain_from_data(&c, "pw").map_err(|e| format!("opening the import of '{}': {}", p, e))?;
        ensure!(nets.iter().all(|(n, _)| k.has_network(&Network(*n))) && k.networks().len() == nets.len(), "'{}' opens without a network", p);
        cx.steps(2);
        cx.outcome("generated and imported");
        Ok(())
    }
    let g1 = grid.clone();
    let size = move |k: usize| (g1[k / g1.len()], g1[k % g1.len()]);
    let s1 = size.clone();
    d.push(Domain::new("one or two ranges of seed sizes", 1 + g * g + g * g * g * g, move |i, cx| {
        let mut l = vec![];
        if i > 0 {
            if i <= g * g {
                l.push(s1((i - 1) as usize));
            } else {
                let j = i - 1 - g * g;
                l.push(s1((j % (g * g)) as usize));
                l.push(s1((j / (g * g)) as usize));
            }
        }
        cx.state(hash(format!("{:?}", l).as_bytes()));
        if let Some(m) = made(&l, cx)? {
            let lo = l.iter().map(|s| s.0).max().unwrap();
            if lo % 32 == 0 && refm::supported_words(lo / 32 * 3) {
                let b: Vec<u8> = (0..lo / 8).map(|j| stream_byte(i, j as u64)).collect();
                generated(&m, lo, None, &b, cx)?;
            } else {
                // not a strength BIP-39 has: no phrase at all
                let r = scripted(1, || m.generate_mnemonic(None));
                ensure!(r.is_err(), "sizes {:?}: '{}'", l, r.unwrap());
                cx.outcome("no such phrase");
            }
        }
        Ok(())
    }));
    let g3: Vec<usize> = if th { vec![0, 96, 128, 129, 160, 192, 224, 256, 300] } else { vec![0, 96, 128, 160, 256, 300] };
    let n3 = g3.len() as u64;
    d.push(Domain::new("three ranges of seed sizes", n3.pow(6), move |i, cx| {
        let k = digits(i, &[n3; 6]);
        let l: Vec<(usize, usize)> = (0..3).map(|j| (g3[k[2 * j]], g3[k[2 * j + 1]])).collect();
        if let Some(m) = made(&l, cx)? {
            let lo = l.iter().map(|s| s.0).max().unwrap();
            if lo % 32 == 0 && refm::supported_words(lo / 32 * 3) && i % 8 == 0 {
                generated(&m, lo, None, &vec![i as u8; lo / 8], cx)?;
            }
        }
        Ok(())
    }));
    d.push(Domain::new("lists of built-in networks", 6u64.pow(4), |i, cx| {
        let k = digits(i, &[6, 6, 6, 6]);
        let all = [0, ADA, ETH, BTC, OTHER, 0x7fff_ffff];
        let l: Vec<u32> = k.iter().map(|j| all[*j]).collect();
        let known: Vec<u32> = NETS.iter().cloned().filter(|n| l.contains(n)).collect();
        let r = KeychainManager::with_networks(&l.iter().map(|n| Network(*n)).collect::<Vec<_>>());
        cx.step();
        cx.state(hash(format!("{:?}", l).as_bytes()));
        match r {
            Ok(m) => {
                ensure!(!known.is_empty(), "networks {:x?}: a manager of nothing", l);
                for n in all {
                    ensure!(m.has_network(&Network(n)) == known.contains(&n), "networks {:x?}: has_network({:x})", l, n);
                    ensure!(m.get_key_factory(&Network(n)).map(|f| f.network().0) == Some(n).filter(|n| known.contains(n)), "networks {:x?}: factory of {:x}", l, n);
                }
                let bits = known.iter().map(|n| refm::seed_bits(*n).0).max().unwrap();
                generated(&m, bits, None, &[0x5a; 32], cx)?;
            }
            Err(e) => ensure!(known.is_empty() && matches!(e, Error::CantCalculateSeedSize(..)), "networks {:x?}: {}", l, e),
        }
        Ok(())
    }));
    d.push(Domain::new("every random bit, built-in networks", 7 * 9 * (2 * 128 + 4), |i, cx| {
        let k = digits(i, &[260, 9, 7]);
        let bits = manager_words(k[2] + 1) / 3 * 32;
        let mut b = vec![if k[0] & 1 == 1 { 0xffu8 } else { 0 }; bits / 8];
        let j = k[0] / 2;
        if j < bits {
            b[j / 8] ^= 0x80 >> (j % 8);
        } else if j > 128 {
            for x in 0..b.len() {
                b[x] = stream_byte(i, x as u64);
            }
        }
        let lang = if k[1] == 8 { None } else { Some(k[1]) };
        let m = manager(k[2] + 1);
        let p = generated(&m, bits, lang, &b, cx)?;
        import(&m, &p, lang, &subset(k[2] + 1).into_iter().map(|n| (n, n)).collect::<Vec<_>>(), cx)
    }));
    d.push(Domain::new("every random bit, every strength", 6 * 9 * (256 + 4), |i, cx| {
        let k = digits(i, &[260, 9, 6]);
        let bits = 96 + 32 * k[2];
        let mut b = vec![0u8; bits / 8];
        if k[0] < bits {
            b[k[0] / 8] = 0x80 >> (k[0] % 8);
        } else {
            for x in 0..b.len() {
                b[x] = stream_byte(i, x as u64);
            }
        }
        let lang = if k[1] == 8 { None } else { Some(k[1]) };
        let m = KeychainManager::with_factories(vec![cust(77, ETH, (bits, 256)), cust(78, ADA, (96, bits))]).map_err(|e| e.to_string())?;
        let p = generated(&m, bits, lang, &b, cx)?;
        import(&m, &p, lang, &[(77, ETH), (78, ADA)], cx)
    }));
    d.push(Domain::new("random bytes of period two", 65536, |i, cx| {
        let b: Vec<u8> = [(i >> 8) as u8, i as u8].iter().cycle().take(16).cloned().collect();
        generated(&manager(7), 128, Some(i as usize % 8), &b, cx).map(|_| ())
    }));
    let order: Vec<Vec<Vec<u8>>> = (0..6).map(|k| refm::orderly(12 + 4 * k)).collect();
    let no = order.iter().map(|o| o.len()).max().unwrap() as u64;
    d.push(Domain::new("random bytes with some order in them", 6 * no, move |i, cx| {
        let k = digits(i, &[6, no]);
        let bits = 96 + 32 * k[0];
        let b = match order[k[0]].get(k[1]) {
            Some(b) => b,
            None => return Ok(()),
        };
        let m = KeychainManager::with_factories(vec![cust(77, ETH, (bits, 256)), cust(78, ADA, (96, bits))]).map_err(|e| e.to_string())?;
        let lang = if k[1] % 9 == 8 { None } else { Some(k[1] % 9) };
        let p = generated(&m, bits, lang, b, cx)?;
        import(&m, &p, lang, &[(77, ETH), (78, ADA)], cx)
    }));
    d.push(Domain::new("every word at every place is generated", 2048 * 12, |i, cx| {
        let (w, at) = ((i / 12) as u16, (i % 12) as usize);
        let mut ws: Vec<u16> = vec![0; 12];
        ws[at] = w;
        let (ent, _, _) = refm::split_words(&ws);
        let m = manager(2);
        generated(&m, 128, Some((w as usize + at) % 8), &ent, cx).map(|_| ())
    }));
    base(
        "C22",
        "managers are made from every list of seed size ranges over a grid and must exist exactly when the model says; phrases are generated while the random source delivers chosen bytes, must encode exactly those bytes in the language asked for (decoded by the model) and import into the model's wallet; non-trivial when a manager, its refusal or a phrase was compared",
        &format!("no, one and two ranges over 18 sizes each way ({} lists), three over {}; all lists of 4 of 6 networks; each of 96-256 random bits set and cleared x 8 languages and the default x all strengths; all bytes of period two; ~1400 orderly byte strings x all strengths; all 2048 words at 12 places", 1 + g * g + g.pow(4), n3.pow(6)),
        d,
    )
}

// ------------------------------------------------------------------ C23

/// Importing this text in this language by the manager of built-in networks.
fn import_case(bits: usize, text: &str, lang: usize, default: bool, cx: &mut Cx) -> R {
    let m = manager(bits);
    import_with(&m, manager_words(bits), &subset(bits).into_iter().map(|n| (n, n)).collect::<Vec<_>>(), text, lang, default, cx)
}
fn import_with(m: &KeychainManager, words: usize, nets: &[(u32, u32)], text: &str, lang: usize, default: bool, cx: &mut Cx) -> R {
    let good = refm::phrase_ok(text, lang, words);
    let l = if default { None } else { Some(LANGS[lang]) };
    let r = scripted(19, || caught(|| m.keychain_data_from_mnemonic(text, "pw", l))).map_err(|p| format!("{:?}: panicked: {}", text, p))?;
    cx.step();
    cx.state(hash2(hash(text.as_bytes()), (lang * 32 + words) as u64));
    match r {
        Ok(c) => {
            ensure!(good, "{:?} was imported in {} by a manager of {} words", text, LANG_NAMES[lang], words);
            let s = refm::seed_of(text, b"");
            let mut e = doc(None, Some((text, lang)), &[]);
            e.keys = nets.iter().map(|(n, like)| (*n, refm::stored_key(*like, &s))).collect();
            e.keys.sort();
            let g = Doc::open(&c, "pw")?;
            ensure!(g == e, "{:?} was imported as {:?}, should be {:?}", text, g, e);
            cx.outcome("imported");
        }
        Err(e) => {
            ensure!(!good, "{:?} in {} was refused by a manager of {} words: {}", text, LANG_NAMES[lang], words, e);
            ensure!(kind(&e) == "MnemonicError", "{:?}: refused with {}", text, kind(&e));
            let _ = e.to_string();
            cx.outcome("phrase refused");
        }
    }
    Ok(())
}
pub fn c23(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    d.push(Domain::new("every last word", 2048 * 8 * 2 * 2, |i, cx| {
        let k = digits(i, &[2048, 8, 2, 2]);
        let bits = [1, 7][k[2]];
        let n = manager_words(bits);
        let mut w: Vec<u16> = (0..n as u64).map(|j| (stream_byte(300 + k[3] as u64, 2 * j) as u16) << 3 | stream_byte(300, 2 * j + 1) as u16 & 7).collect();
        w[n - 1] = k[0] as u16;
        import_case(bits, &refm::phrase(&w, k[1]), k[1], k[1] == 0 && k[0] % 2 == 0, cx)
    }));
    d.push(Domain::new("every word at every place", 2048 * 12 * if th { 8 } else { 1 }, move |i, cx| {
        let k = digits(i, &[2048, 12, 8]);
        let l = if th { k[2] } else { (k[0] + k[1]) % 8 };
        let mut w = refm::words(&(0..16).map(|j| stream_byte(310, j)).collect::<Vec<u8>>());
        w[k[1]] = k[0] as u16;
        import_case(2, &refm::phrase(&w, l), l, false, cx)
    }));
    d.push(Domain::new("every exchange, loss and repetition of words", 8 * 2 * 12 * 13 * 3, |i, cx| {
        let k = digits(i, &[12, 13, 3, 2, 8]);
        let bits = [1, 7][k[3]];
        let n = manager_words(bits);
        let p = phrase_n(n, 320, k[4]);
        let mut w: Vec<&str> = p.split(' ').collect();
        if k[0] >= n || k[1] > n {
            return Ok(());
        }
        match k[2] {
            0 if k[1] < n => w.swap(k[0], k[1]),
            1 => {
                let x = w.remove(k[0]);
                w.insert(k[1].min(n - 1), x);
            }
            _ => {
                let x = w[k[0]];
                w.insert(k[1], x);
                if k[1] % 2 == 0 {
                    w.remove((k[1] + 3) % n);
                }
            }
        }
        import_case(bits, &w.join(" "), k[4], false, cx)
    }));
    d.push(Domain::new("every number of words", 30 * 8 * 6 * 4, |i, cx| {
        let k = digits(i, &[30, 8, 6, 4]);
        let sizes = 96 + 32 * k[2];
        let n = k[0];
        let text = if refm::supported_words(n) && k[3] < 2 {
            phrase_n(n, 330 + k[3] as u64, k[1])
        } else {
            // words only: zeros with the last word chosen for the checksum where there is one
            let w: Vec<u16> = (0..n).map(|j| stream_byte(331 + k[3] as u64, j as u64) as u16 * 8).collect();
            refm::phrase(&w, k[1])
        };
        let m = KeychainManager::with_factories(vec![cust(5, ETH, (sizes, 256)), cust(6, ADA, (64, 512))]).map_err(|e| e.to_string())?;
        import_with(&m, sizes / 32 * 3, &[(5, ETH), (6, ADA)], &text, k[1], false, cx)
    }));
    d.push(Domain::new("every separator and edge", 40 * 13 * 8 * 2, |i, cx| {
        let k = digits(i, &[40, 13, 8, 2]);
        let seps = ["  ", "\t", "\n", "\r\n", "\u{a0}", "\u{3000}", ",", "-", "", "_", "\u{2003}", "\u{200b}", " \u{feff}", "\0", ", ", ". ", "   ", " \t", "/", "\u{85}"];
        let bits = [1, 7][k[3]];
        let n = manager_words(bits);
        let p = phrase_n(n, 340, k[2]);
        let w: Vec<&str> = p.split(' ').collect();
        if k[1] > n {
            return Ok(());
        }
        // at place k[1] (0: before the first, n: after the last); with all others single spaces, or everywhere
        let sep = seps[k[0] % 20];
        let text = if k[0] < 20 {
            let mut s = String::new();
            for j in 0..=n {
                if j == k[1] {
                    s += sep;
                } else if j > 0 && j < n {
                    s += " ";
                }
                if j < n {
                    s += w[j];
                }
            }
            s
        } else if k[1] == 0 {
            w.join(sep)
        } else if k[1] == 1 {
            format!(" {}", p)
        } else if k[1] == 2 {
            format!("{} ", p)
        } else if k[1] == 3 {
            format!(" {} ", p)
        } else {
            format!("{}{}{}", p, sep, w[0])
        };
        if text == p {
            return Ok(());
        }
        import_case(bits, &text, k[2], false, cx)
    }));
    d.push(Domain::new("altered words", 12 * 24 * 2, |i, cx| {
        let k = digits(i, &[12, 24, 2]);
        let l = [0, 1, 6, 7][k[1] % 4];
        let p = phrase_n(12, 350, l);
        let mut w: Vec<String> = p.split(' ').map(|s| s.to_string()).collect();
        let x = w[k[0]].clone();
        let first = x.chars().next().unwrap();
        let alt = match k[1] / 4 {
            0 => x.to_uppercase(),
            1 => {
                let mut c = x.chars();
                let f = c.next().unwrap();
                f.to_uppercase().collect::<String>() + c.as_str()
            }
            2 => x.chars().take(4).collect(),
            3 => format!("{}s", x),
            4 => x.chars().rev().collect(),
            _ => format!("{}{}", first, x),
        };
        if alt == x {
            return Ok(());
        }
        w[k[0]] = alt;
        if k[2] == 1 {
            w = w.into_iter().map(|s| s.to_uppercase()).collect();
        }
        import_case(7, &w.join(" "), l, false, cx)
    }));
    d.push(Domain::new("every language as every other", 8 * 9 * 2 * 64, |i, cx| {
        let k = digits(i, &[8, 9, 2, 64]);
        let bits = [1, 7][k[2]];
        let p = phrase_n(manager_words(bits), 400 + k[3] as u64, k[0]);
        import_case(bits, &p, k[1] % 8, k[1] == 8, cx)
    }));
    d.push(Domain::new("words common to two languages", 8 * 8 * 2 * 2, |i, cx| {
        // a phrase of words both languages have: the language given decides
        let k = digits(i, &[8, 8, 2, 2]);
        let (a, b) = (k[0], k[1]);
        let common: Vec<u16> = (0..2048u16).filter(|w| refm::word_no(b, refm::lists()[a][*w as usize]).is_some()).collect();
        if a == b || common.is_empty() {
            return Ok(());
        }
        let bits = [1, 7][k[2]];
        let n = manager_words(bits);
        // find a last word with a matching checksum in language a
        let lead: Vec<u16> = (0..n - 1).map(|j| common[(j * 7 + k[3] * 3) % common.len()]).collect();
        for x in &common {
            let mut w = lead.clone();
            w.push(*x);
            let (_, g, e) = refm::split_words(&w);
            if g == e {
                let p = refm::phrase(&w, a);
                import_case(bits, &p, a, false, cx)?;
                import_case(bits, &p, b, false, cx)?;
                cx.outcome("common words");
            }
        }
        Ok(())
    }));
    d.push(Domain::new("phrases of words of two languages", 8 * 8 * 7 * 2 * 12, |i, cx| {
        let k = digits(i, &[12, 2, 7, 8, 8]);
        let bits = k[2] + 1;
        match phrase_of_two(manager_words(bits), k[3], k[4], 50 + k[0] as u64, k[1] == 1) {
            Some(p) => {
                import_case(bits, &p, k[3], false, cx)?;
                import_case(bits, &p, k[4], false, cx)?;
                cx.outcome("words of two languages");
            }
            _ => {}
        }
        Ok(())
    }));
    d.push(Domain::new("very many words", 24 * 8 * 2, |i, cx| {
        let k = digits(i, &[24, 8, 2]);
        let n = [30, 33, 36, 45, 48, 60, 63, 64, 66, 72, 93, 96, 99, 120, 128, 192, 255, 256, 258, 384, 768, 2048, 3072, 24576][k[0]];
        // entropy of that size with its checksum, as if larger sizes were allowed
        let text = phrase_n(n, 332 + k[2] as u64, k[1]);
        let m = KeychainManager::with_factories(vec![cust(5, ETH, (256, 8192)), cust(6, ADA, (64, 8192))]).map_err(|e| e.to_string())?;
        import_with(&m, 24, &[(5, ETH), (6, ADA)], &text, k[1], false, cx)?;
        import_case([7, 1, 2][k[0] % 3], &text, k[1], false, cx)
    }));
    d.push(Domain::new("phrases of entropy of period two", 65536, |i, cx| {
        let b: Vec<u8> = [(i >> 8) as u8, i as u8].iter().cycle().take(16).cloned().collect();
        let l = i as usize % 8;
        import_case(7, &refm::phrase(&refm::words(&b), l), l, false, cx)
    }));
    let order: Vec<Vec<Vec<u8>>> = (0..6).map(|k| refm::orderly(12 + 4 * k)).collect();
    let no = order.iter().map(|o| o.len()).max().unwrap() as u64;
    d.push(Domain::new("phrases of entropy with some order in it", 6 * no * if th { 8 } else { 2 }, move |i, cx| {
        let k = digits(i, &[6, no, 8]);
        let bits = 96 + 32 * k[0];
        let b = match order[k[0]].get(k[1]) {
            Some(b) => b,
            None => return Ok(()),
        };
        let l = if th { k[2] } else { (k[1] + 4 * k[2]) % 8 };
        let p = refm::phrase(&refm::words(b), l);
        if bits == 128 || bits == 96 {
            return import_case(if bits == 96 { 1 } else { 2 + k[1] % 6 }, &p, l, false, cx);
        }
        let m = KeychainManager::with_factories(vec![cust(5, ETH, (bits, 256)), cust(6, ADA, (64, 512))]).map_err(|e| e.to_string())?;
        import_with(&m, bits / 32 * 3, &[(5, ETH), (6, ADA)], &p, l, false, cx)
    }));
    d.push(Domain::new("one word again and again", 2048 * 8 * 4, |i, cx| {
        let k = digits(i, &[2048, 8, 4]);
        let bits = [1, 7][k[2] % 2];
        let n = manager_words(bits);
        let mut w = vec![k[0] as u16; n];
        // two words by turns
        if k[2] > 1 {
            (0..n).filter(|j| j % 2 == 1).for_each(|j| w[j] = ((k[0] * 3 + 1) % 2048) as u16);
        }
        import_case(bits, &refm::phrase(&w, k[1]), k[1], false, cx)?;
        // and with a last word that fits
        for last in [0, 2047u16] {
            let top = 11 - n / 3;
            w[n - 1] = last >> (11 - top) << (11 - top);
            let (ent, _, _) = refm::split_words(&w);
            import_case(bits, &refm::phrase(&refm::words(&ent), k[1]), k[1], false, cx)?;
        }
        Ok(())
    }));
    d.push(Domain::new("no phrase at all", 40, |i, cx| {
        let long = "abandon ".repeat(5000);
        let t = ["", " ", "  ", "\0", "a", "abandon", "\u{1f511}", "            ", long.as_str(), "\u{fffd}"][(i % 10) as usize];
        import_case([1, 7, 2, 5][(i / 10) as usize], t, (i % 8) as usize, i % 3 == 0, cx)
    }));
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("every length of a raw seed", (301 + nbig) * 7 * 4, move |i, cx| {
        let k = digits(i, &[301 + nbig, 7, 4]);
        let n = if k[0] == 300 { 65536 + 64 } else if k[0] > 300 { big_sizes()[k[0] - 301] } else { k[0] };
        let s: Vec<u8> = (0..n).map(|j| match k[2] {
            0 => 0,
            1 => 0xff,
            2 => stream_byte(360, j as u64),
            _ => j as u8,
        }).collect();
        let bits = k[1] + 1;
        let m = manager(bits);
        let r = scripted(20, || caught(|| m.keychain_data_from_seed(&s, "pw"))).map_err(|p| format!("{} bytes: panicked: {}", n, p))?;
        cx.step();
        cx.state(hash2(hash(&s), bits as u64));
        match r {
            Ok(c) => {
                ensure!(n == 64, "a seed of {} bytes was taken", n);
                let g = Doc::open(&c, "pw")?;
                let e = doc(Some(&s), None, &subset(bits));
                ensure!(g == e, "seed imported as {:?}, should be {:?}", g, e);
                cx.outcome("seed imported");
            }
            Err(e) => {
                ensure!(n != 64, "a seed of 64 bytes was refused: {}", e);
                ensure!(kind(&e) == format!("InvalidSeedSize({})", n), "{} bytes: refused with {}", n, kind(&e));
                cx.outcome("seed refused");
            }
        }
        Ok(())
    }));
    let order = refm::orderly(64);
    d.push(Domain::new("raw seeds with some order in them", order.len() as u64, move |i, cx| {
        let s = &order[i as usize];
        let bits = 1 + i as usize % 7;
        let c = scripted(20, || manager(bits).keychain_data_from_seed(s, "pw")).map_err(|e| format!("seed {}: {}", hex(s), e))?;
        let g = Doc::open(&c, "pw")?;
        let e = doc(Some(s), None, &subset(bits));
        ensure!(g == e, "seed imported as {:?}, should be {:?}", g, e);
        cx.step();
        cx.state_of(s);
        cx.outcome("seed imported");
        Ok(())
    }));
    let kinds = super::bip::looks(0, 0).1;
    d.push(Domain::new("raw seeds of every length that look like something", 300 * kinds, move |i, cx| {
        let k = digits(i, &[kinds, 300]);
        let s = super::bip::looks(k[1], k[0]).0;
        let r = scripted(20, || caught(|| manager(7).keychain_data_from_seed(&s, "pw"))).map_err(|p| format!("{}: panicked: {}", hex(&s), p))?;
        cx.step();
        cx.state_of(&s);
        match r {
            Ok(c) => {
                ensure!(s.len() == 64, "a seed of {} bytes was taken: {}", s.len(), hex(&s));
                let g = Doc::open(&c, "pw")?;
                let e = doc(Some(&s), None, &subset(7));
                ensure!(g == e, "seed imported as {:?}, should be {:?}", g, e);
            }
            Err(e) => ensure!(s.len() != 64 && kind(&e) == format!("InvalidSeedSize({})", s.len()), "seed {}: {}", hex(&s), kind(&e)),
        }
        Ok(())
    }));
    d.push(Domain::new("every bit of a raw seed", 512 * 3, |i, cx| {
        let k = digits(i, &[512, 3]);
        let mut s = seed_n(55);
        s[k[0] / 8] ^= 0x80 >> (k[0] % 8);
        let bits = 1 << k[1];
        let c = scripted(20, || manager(bits).keychain_data_from_seed(&s, "pw")).map_err(|e| e.to_string())?;
        let g = Doc::open(&c, "pw")?;
        let e = doc(Some(&s), None, &subset(bits));
        ensure!(g == e, "seed imported as {:?}, should be {:?}", g, e);
        cx.step();
        cx.state_of(&s);
        cx.outcome("seed imported");
        Ok(())
    }));
    let _ = H;
    base(
        "C23",
        "each text and seed is given to the import operations; whether it is accepted, the wallet made and the kind of the refusal must be what the model (own word lists, own SHA-256 checksum, own seed and key derivation) says; non-trivial when something was imported or refused",
        &format!(
            "all 2048 last words x 8 languages x 2 lengths x 2 stems; all 2048 words at 12 places{}; all exchanges, moves and repetitions of words; 0-29 words x 6 strengths x 8 languages; 20 separators at every place; altered words; all pairs of languages x 64 phrases; seeds of 0-299 and 65600 bytes; every bit of a seed; phrases of all entropies of period two, of ~1400 orderly entropies of each size and of one or two words repeated; orderly seeds; bytes of 20 kinds and 300 lengths as seeds",
            if th { " x 8 languages" } else { "" }
        ),
        d,
    )
}
