//! C40: what the user brings may panic or use the library itself at any of its calls.
use super::base;
use super::cont::{doc, sealed, scripted};
use super::keys::{factory, key_of};
use crate::engine::*;
use crate::refm::{self, net, Doc, ADA, BTC, ETH, H, NETS};
use crate::util::*;
use bip39::dictionary::{Error as DictError, Language as Lang};
use bip39::{Entropy as Bits, MnemonicIndex, MnemonicString, Mnemonics, Type};
use keychain::{crypt, Entropy, Key, KeyError, KeyFactory, KeyPath, Keychain, KeychainManager, Network, SeedSize};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ------------------------------------------------------------------ the traps

type Act = Rc<dyn Fn()>;
#[derive(Default)]
struct Trap {
    count: usize,
    /// what happens at which call
    armed: Vec<(usize, Act)>,
}
thread_local! { static TRAP: RefCell<Trap> = RefCell::new(Trap::default()); }
const OWN_PANIC: &str = "what the user brought panicked";
/// Each call of something the user brought begins so.
fn trip() {
    let act = TRAP.with(|t| {
        let mut t = t.borrow_mut();
        t.count += 1;
        let n = t.count;
        t.armed.iter().position(|a| a.0 == n).map(|p| t.armed.remove(p).1)
    });
    if let Some(a) = act {
        a()
    }
}
fn arm(armed: Vec<(usize, Act)>) {
    TRAP.with(|t| *t.borrow_mut() = Trap { count: 0, armed });
}
/// How many calls there were, and how many of the traps are left.
fn disarm() -> (usize, usize) {
    let t = TRAP.with(|t| std::mem::take(&mut *t.borrow_mut()));
    (t.count, t.armed.len())
}

struct Path([u32; 5]);
impl KeyPath for Path {
    fn purpose(&self) -> u32 {
        trip();
        self.0[0]
    }
    fn coin(&self) -> u32 {
        trip();
        self.0[1]
    }
    fn account(&self) -> u32 {
        trip();
        self.0[2]
    }
    fn change(&self) -> u32 {
        trip();
        self.0[3]
    }
    fn address(&self) -> u32 {
        trip();
        self.0[4]
    }
}
/// A word list: a built-in one backwards.
struct List(usize);
impl List {
    fn no(&self, w: &str) -> Option<u16> {
        refm::lists()[self.0].iter().position(|x| &**x == w).map(|n| 2047 - n as u16)
    }
}
impl Lang for List {
    fn name(&self) -> &'static str {
        trip();
        "backwards"
    }
    fn separator(&self) -> &'static str {
        trip();
        "-"
    }
    fn lookup_mnemonic(&self, w: &str) -> Result<MnemonicIndex, DictError> {
        trip();
        self.no(w).map(MnemonicIndex).ok_or_else(|| DictError::MnemonicWordNotFoundInDictionary(w.into()))
    }
    fn lookup_word(&self, m: MnemonicIndex) -> Result<String, DictError> {
        trip();
        match refm::lists()[self.0].get(2047usize.wrapping_sub(m.0 as usize)) {
            Some(w) => Ok(w.to_string()),
            None => Err(DictError::MnemonicWordNotFoundInDictionary(m.0.to_string())),
        }
    }
}
/// A network: a digest of all it is given.
#[derive(Clone)]
struct Net(u32, Vec<u8>);
fn digest(parts: &[&[u8]]) -> Vec<u8> {
    parts.iter().fold(0u64, |h, p| hash2(h, hash(p))).to_be_bytes().to_vec()
}
fn five(p: &dyn KeyPath) -> Vec<u8> {
    [p.purpose(), p.coin(), p.account(), p.change(), p.address()].iter().flat_map(|c| c.to_be_bytes().to_vec()).collect()
}
impl KeyFactory for Net {
    fn network(&self) -> Network {
        trip();
        Network(self.0)
    }
    fn seed_size(&self) -> SeedSize {
        trip();
        SeedSize { min: 128, max: 256 }
    }
    fn key_from_data(&self, data: &[u8]) -> Result<Box<dyn Key>, KeyError> {
        trip();
        Ok(Box::new(Net(self.0, data.to_vec())))
    }
    fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> {
        trip();
        Ok(digest(&[seed, &self.0.to_be_bytes()]))
    }
}
impl Key for Net {
    fn network(&self) -> Network {
        trip();
        Network(self.0)
    }
    fn pub_key(&self, p: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
        trip();
        Ok(digest(&[b"key", &self.1, &five(p)]))
    }
    fn sign(&self, m: &[u8], p: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
        trip();
        Ok(digest(&[m, &self.1, &five(p)]))
    }
    fn verify(&self, m: &[u8], s: &[u8], p: &dyn KeyPath) -> Result<bool, KeyError> {
        trip();
        Ok(digest(&[m, &self.1, &five(p)]) == s)
    }
}
/// A random source: counts.
struct Source(Cell<u8>);
impl Entropy for Source {
    fn fill_bytes(&self, into: &mut [u8]) {
        trip();
        for b in into {
            self.0.set(self.0.get().wrapping_add(1));
            *b = self.0.get();
        }
    }
}

// ------------------------------------------------------------------ the objects and what is done with them

const OWN: [u32; 2] = [77, H + 61];
struct Set {
    m: KeychainManager,
    w: Keychain,
    keys: Vec<Box<dyn Key>>,
    list: List,
    source: Source,
}
fn phrase() -> String {
    phrase_n(12, 401, 0)
}
fn own_key(n: u32) -> Vec<u8> {
    digest(&[&seed_n(51), &n.to_be_bytes()])
}
fn whole() -> Doc {
    let mut d = doc(Some(&seed_n(51)), None, &NETS);
    d.keys.extend(OWN.iter().map(|n| (*n, own_key(*n))));
    d.keys.sort();
    d
}
fn of_phrase() -> Doc {
    doc(None, Some((&phrase(), 0)), &[ETH])
}
fn the_manager() -> Result<KeychainManager, String> {
    let mut f: Vec<Box<dyn KeyFactory>> = NETS.iter().map(|n| factory(*n)).collect();
    f.extend(OWN.iter().map(|n| -> Box<dyn KeyFactory> { Box::new(Net(*n, vec![])) }));
    KeychainManager::with_factories(f).map_err(|e| e.to_string())
}
fn set() -> Result<Set, String> {
    let m = the_manager()?;
    let w = m.keychain_from_data(&sealed(whole().text().as_bytes(), "pw"), "pw").map_err(|e| e.to_string())?;
    let keys = NETS.iter().map(|n| key_of(*n, &refm::stored_key(*n, &seed_n(51))).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
    Ok(Set { m, w, keys, list: List(0), source: Source(Cell::new(0)) })
}
/// An operation: its result as a text in which everything it says can be seen.
struct Op {
    name: String,
    run: Rc<dyn Fn(&Set) -> String>,
}
fn op(v: &mut Vec<Op>, name: String, run: impl Fn(&Set) -> String + 'static) {
    v.push(Op { name, run: Rc::new(run) });
}
fn said<T: AsRef<[u8]>>(r: Result<T, keychain::Error>) -> String {
    match r {
        Ok(v) => hex(v.as_ref()),
        Err(e) => format!("{:?}", e),
    }
}
/// What a container holds.
fn holds(r: Result<Vec<u8>, keychain::Error>, pw: &str) -> String {
    match r {
        Ok(c) => match Doc::open(&c, pw) {
            Ok(d) => d.text(),
            Err(e) => format!("does not open: {}", e),
        },
        Err(e) => format!("{:?}", e),
    }
}
fn at(n: u32) -> [u32; 5] {
    if NETS.contains(&n) {
        refm::std_path(n)
    } else {
        [n, 1, H + 2, 3, 4]
    }
}
fn ops() -> &'static Vec<Op> {
    thread_local! { static O: &'static Vec<Op> = Box::leak(Box::new(all_ops())); }
    O.with(|o| *o)
}
fn all_ops() -> Vec<Op> {
    let mut v = vec![];
    for n in [ADA, ETH, BTC, OWN[0], OWN[1]] {
        op(&mut v, format!("key of {:#x}", n), move |s| said(s.w.pub_key(&Network(n), &Path(at(n)))));
        op(&mut v, format!("another key of {:#x}", n), move |s| {
            let mut p = at(n);
            p[2] ^= 5;
            p[4] ^= 6;
            said(s.w.pub_key(&Network(n), &Path(p)))
        });
        op(&mut v, format!("yet another key of {:#x}", n), move |s| {
            let mut p = at(n);
            p[3] ^= 1;
            said(s.w.pub_key(&Network(n), &Path(p)))
        });
        op(&mut v, format!("signing with {:#x}", n), move |s| said(s.w.sign(&Network(n), b"a message", &Path(at(n)))));
        op(&mut v, format!("verifying with {:#x}", n), move |s| match s.w.sign(&Network(n), b"seen", &P(at(n))) {
            Ok(sig) => said(s.w.verify(&Network(n), b"seen", &sig, &Path(at(n))).map(|b| [b as u8])),
            Err(e) => format!("no signature: {}", e),
        });
        op(&mut v, format!("refusing with {:#x}", n), move |s| match s.w.sign(&Network(n), b"seen", &P(at(n))) {
            Ok(sig) => said(s.w.verify(&Network(n), b"not seen", &sig, &Path(at(n))).map(|b| [b as u8])),
            Err(e) => format!("no signature: {}", e),
        });
    }
    for (j, n) in NETS.iter().enumerate() {
        let n = *n;
        op(&mut v, format!("bad path of {:#x}", n), move |s| said(s.w.sign(&net(n), b"x", &Path([1, 2, 3, 4, 5]))));
        let k = move |s: &Set, m: usize| {
            let (k, p) = (&s.keys[j], Path(refm::std_path(n)));
            match m {
                0 => k.pub_key(&p).map(|b| hex(&b)),
                1 => k.sign(b"direct", &Path({ let mut p = p.0; p[2] ^= 3; p })).map(|b| hex(&b)),
                _ => k.verify(b"direct", &[7; 64], &p).map(|b| b.to_string()),
            }
            .unwrap_or_else(|e| format!("{:?}", e))
        };
        op(&mut v, format!("the key of {:#x} itself", n), move |s| k(s, 0));
        op(&mut v, format!("signing with the key of {:#x} itself", n), move |s| k(s, 1));
        op(&mut v, format!("verifying with the key of {:#x} itself", n), move |s| k(s, 2));
    }
    op(&mut v, "an absent network".into(), |s| said(s.w.pub_key(&Network(1), &Path([H; 5]))));
    op(&mut v, "networks of the wallet".into(), |s| {
        let mut v: Vec<u32> = s.w.networks().iter().map(|n| n.0).collect();
        v.sort();
        format!("{:?} {}", v, s.w.has_network(&Network(77)))
    });
    op(&mut v, "making of a seed".into(), |s| holds(s.m.keychain_data_from_seed(&seed_n(51), "pw"), "pw"));
    op(&mut v, "making of a bad seed".into(), |s| holds(s.m.keychain_data_from_seed(&[1; 63], "pw"), "pw"));
    op(&mut v, "making of a phrase".into(), |s| holds(s.m.keychain_data_from_mnemonic(&phrase(), "q", None), "q"));
    op(&mut v, "making of a bad phrase".into(), |s| holds(s.m.keychain_data_from_mnemonic("abandon abandon", "q", None), "q"));
    op(&mut v, "opening".into(), |s| match s.m.keychain_from_data(&sealed(whole().text().as_bytes(), "pw"), "pw") {
        Ok(k) => [ADA, ETH, BTC, OWN[0], OWN[1]].iter().map(|n| said(k.pub_key(&Network(*n), &P(at(*n))))).collect::<Vec<_>>().join(" "),
        Err(e) => format!("{:?}", e),
    });
    op(&mut v, "opening with a wrong password".into(), |s| {
        s.m.keychain_from_data(&sealed(whole().text().as_bytes(), "pw"), "wp").map(|_| String::new()).unwrap_or_else(|e| format!("{:?}", e))
    });
    op(&mut v, "another password".into(), |s| holds(s.m.change_password(&sealed(whole().text().as_bytes(), "pw"), "pw", "new"), "new"));
    op(&mut v, "adding one's own network".into(), |s| {
        holds(s.m.add_network(&sealed(doc(Some(&seed_n(51)), None, &NETS).text().as_bytes(), "pw"), "pw", Network(77)), "pw")
    });
    op(&mut v, "adding a built-in network".into(), |s| holds(s.m.add_network(&sealed(of_phrase().text().as_bytes(), "pw"), "pw", net(ADA)), "pw"));
    op(&mut v, "adding a present network".into(), |s| holds(s.m.add_network(&sealed(whole().text().as_bytes(), "pw"), "pw", Network(77)), "pw"));
    op(&mut v, "the phrase of a wallet".into(), |s| match s.m.retrieve_mnemonic(&sealed(of_phrase().text().as_bytes(), "pw"), "pw") {
        Ok((p, l)) => format!("{} {:?}", p, l == LANGS[0]),
        Err(e) => format!("{:?}", e),
    });
    op(&mut v, "the keys of a wallet".into(), |s| match s.m.get_keys_data(&sealed(whole().text().as_bytes(), "pw"), "pw") {
        Ok(mut v) => {
            v.sort_by_key(|k| k.0 .0);
            format!("{:?}", v.iter().map(|k| (k.0 .0, hex(&k.1))).collect::<Vec<_>>())
        }
        Err(e) => format!("{:?}", e),
    });
    op(&mut v, "a new phrase".into(), |s| match s.m.generate_mnemonic(Some(LANGS[0])) {
        Ok(p) => format!("{} words, {}", p.split(' ').count(), s.m.keychain_data_from_mnemonic(&p, "pw", None).is_ok()),
        Err(e) => format!("{:?}", e),
    });
    op(&mut v, "networks of the manager".into(), |s| {
        format!("{} {} {:?}", s.m.has_network(&Network(77)), s.m.has_network(&Network(78)), s.m.get_key_factory(&Network(77)).map(|f| f.network().0))
    });
    op(&mut v, "a new manager".into(), |_| match the_manager() {
        Ok(m) => format!("{} {}", OWN.iter().all(|n| m.has_network(&Network(*n))), m.has_network(&Network(5))),
        Err(e) => e,
    });
    op(&mut v, "a new wallet of keys".into(), |_| {
        let k = Keychain::new(OWN.iter().map(|n| -> Box<dyn Key> { Box::new(Net(*n, own_key(*n))) }).collect());
        OWN.iter().map(|n| said(k.pub_key(&Network(*n), &P(at(*n))))).collect()
    });
    op(&mut v, "writing a phrase".into(), |s| mnemonics().to_string(&s.list).to_string());
    op(&mut v, "writing a longer phrase".into(), |s| Bits::from_slice(&[0xa5; 32]).unwrap().to_mnemonics().to_string(&s.list).to_string());
    let text = {
        let l = List(0);
        move || own_words(&l)
    };
    let t = text();
    op(&mut v, "reading a phrase".into(), move |s| match Mnemonics::from_string(&s.list, &t) {
        Ok(m) => format!("{:?}", m.as_ref().iter().map(|n| n.0).collect::<Vec<_>>()),
        Err(e) => format!("{:?}", e),
    });
    let t = text();
    op(&mut v, "keeping a phrase".into(), move |s| MnemonicString::new(&s.list, t.clone()).map(|m| m.to_string()).unwrap_or_else(|e| format!("{:?}", e)));
    op(&mut v, "reading no phrase".into(), |s| {
        Mnemonics::from_string(&s.list, "zoo-zoo-zooo-zoo").map(|m| format!("{:?}", m.as_ref().len())).unwrap_or_else(|e| format!("{:?}", e))
    });
    op(&mut v, "a word".into(), |s| {
        let n = MnemonicIndex::new(1999).unwrap();
        let w = n.to_word(&s.list);
        format!("{} {:?}", w, MnemonicIndex::from_word(&s.list, &w).map(|n| n.0).ok())
    });
    for l in [0, 3] {
        op(&mut v, format!("a phrase in a built-in language {}", l), move |s| {
            let p = phrase_n(15, 402, l);
            holds(s.m.keychain_data_from_mnemonic(&p, "pw", Some(LANGS[l])), "pw")
        });
    }
    op(&mut v, "encrypting".into(), |s| match crypt::decrypt(&crypt::encrypt(b"of one's own", "pw", &s.source), "pw") {
        Ok(p) => hex(&p),
        Err(_) => "does not open".into(),
    });
    op(&mut v, "making entropy".into(), |_| {
        let e = Bits::generate(Type::Type15Words, |b| {
            trip();
            b.iter_mut().enumerate().for_each(|(i, x)| *x = i as u8)
        });
        e.to_string()
    });
    v
}
fn mnemonics() -> Mnemonics {
    Bits::from_slice(&[0x3c; 16]).unwrap().to_mnemonics()
}
fn own_words(l: &List) -> String {
    mnemonics().as_ref().iter().map(|n| refm::lists()[l.0][2047 - n.0 as usize].to_string()).collect::<Vec<_>>().join("-")
}
/// What the operation says when nothing else goes on, with objects of its own; and how often it calls what it is given.
fn alone(o: usize) -> Result<(String, usize), String> {
    thread_local! { static A: RefCell<Vec<Option<(String, usize)>>> = RefCell::new(vec![]); }
    if let Some(Some(a)) = A.with(|a| a.borrow().get(o).cloned()) {
        return Ok(a);
    }
    let s = set()?;
    arm(vec![]);
    let said = caught(|| (ops()[o].run)(&s)).map_err(|e| format!("{}: {}", ops()[o].name, e))?;
    let n = disarm().0;
    A.with(|a| {
        let mut a = a.borrow_mut();
        a.resize(ops().len(), None);
        a[o] = Some((said.clone(), n));
    });
    Ok((said, n))
}
/// The operation now, with these objects, says what it says alone.
fn as_alone(s: &Set, o: usize, when: &dyn Fn() -> String) -> Result<usize, String> {
    let want = alone(o)?.0;
    arm(vec![]);
    let got = caught(|| (ops()[o].run)(s));
    let n = disarm().0;
    match got {
        Ok(g) if g == want => Ok(n),
        Ok(g) => Err(format!("{}: {} says {}, alone {}", when(), ops()[o].name, g, want)),
        Err(e) => Err(format!("{}: {} panicked: {}", when(), ops()[o].name, e)),
    }
}
/// The calls at which something is done: all of a few, else the first, the last and some between.
fn points(n: usize) -> Vec<usize> {
    if n <= 30 {
        (1..=n).collect()
    } else {
        let mut v: Vec<usize> = (1..=12).chain(n - 11..=n).collect();
        v.extend((1..6).map(|j| n * j / 6));
        v.sort();
        v.dedup();
        v
    }
}
type Results = Rc<RefCell<Vec<(usize, Result<String, String>)>>>;
/// Does another operation with the same objects, and keeps what it said.
fn nested(s: &Rc<Set>, o: usize, into: &Results) -> Act {
    let (s, into) = (s.clone(), into.clone());
    Rc::new(move || {
        let r = caught(|| (ops()[o].run)(&s));
        into.borrow_mut().push((o, r));
    })
}
fn panics() -> Act {
    Rc::new(|| panic!("{}", OWN_PANIC))
}
fn judge(o: usize, got: &Result<String, String>, what: &str) -> R {
    let want = alone(o)?.0;
    match got {
        Ok(g) => ensure!(*g == want, "{}: {} says {}, alone {}", what, ops()[o].name, g, want),
        Err(e) => return Err(format!("{}: {} panicked: {}", what, ops()[o].name, e)),
    }
    Ok(())
}

pub fn c40(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let n = ops().len() as u64;
    d.push(Domain::new("a panic at every call", n * n, move |i, cx| {
        let k = digits(i, &[n, n]);
        let (o, then) = (k[1], k[0]);
        let calls = alone(o)?.1;
        if calls == 0 {
            // it calls nothing; it is among what is done afterwards
            return Ok(());
        }
        let s = Rc::new(set()?);
        for p in points(calls) {
            arm(vec![(p, panics())]);
            let r = scripted(i, || caught(|| (ops()[o].run)(&s)));
            let left = disarm().1;
            if left > 0 {
                // the call was not made this time
                judge(o, &r, "again")?;
                continue;
            }
            match r {
                Ok(g) => return Err(format!("{} panicked at call {}, yet says {}", ops()[o].name, p, g)),
                Err(e) => ensure!(e.starts_with(OWN_PANIC), "{}: the panic at call {} became another: {}", ops()[o].name, p, e),
            }
            let when = || format!("after a panic at call {} of {}", p, ops()[o].name);
            as_alone(&s, then, &when)?;
            as_alone(&s, o, &when)?;
            cx.steps(3);
            cx.state(hash2(i, p as u64));
            cx.outcome("panicked");
        }
        // a panic at two calls one after the other
        let pts = points(calls);
        for w in pts.windows(2) {
            for p in [w[1], w[0]] {
                arm(vec![(p, panics())]);
                let r = caught(|| (ops()[o].run)(&s));
                ensure!(disarm().1 > 0 || r.is_err(), "{} panicked at call {}, yet says {:?}", ops()[o].name, p, r);
            }
        }
        as_alone(&s, then, &|| format!("after many panics in {}", ops()[o].name))?;
        as_alone(&s, o, &|| format!("after many panics in {}", ops()[o].name))?;
        Ok(())
    }));
    d.push(Domain::new("another operation at every call", n * n, move |i, cx| {
        let k = digits(i, &[n, n]);
        let (o, inner) = (k[1], k[0]);
        let calls = alone(o)?.1;
        if calls == 0 {
            return Ok(());
        }
        let s = Rc::new(set()?);
        let into = Results::default();
        for p in points(calls) {
            arm(vec![(p, nested(&s, inner, &into))]);
            let r = scripted(i, || caught(|| (ops()[o].run)(&s)));
            disarm();
            let what = format!("{} inside call {} of {}", ops()[inner].name, p, ops()[o].name);
            judge(o, &r, &what)?;
            let done = into.replace(vec![]);
            for (o, r) in &done {
                judge(*o, r, &what)?;
            }
            // the inner one again, before the outer one is
            as_alone(&s, inner, &|| format!("after {}", what))?;
            cx.steps(3);
            cx.state(hash2(i, p as u64));
            cx.outcome("nested");
        }
        as_alone(&s, o, &|| format!("after {} inside {}", ops()[inner].name, ops()[o].name))?;
        as_alone(&s, inner, &|| format!("after {} inside {}", ops()[inner].name, ops()[o].name))?;
        // at each of the calls at once
        let armed = points(calls).into_iter().map(|p| (p, nested(&s, inner, &into))).collect::<Vec<_>>();
        arm(if alone(inner)?.1 == 0 { armed } else { armed.into_iter().take(1).collect() });
        let r = scripted(i, || caught(|| (ops()[o].run)(&s)));
        disarm();
        judge(o, &r, "inside each call")?;
        for (o, r) in into.borrow().iter() {
            judge(*o, r, "inside each call")?;
        }
        Ok(())
    }));
    // three deep, or two deep with a panic in the innermost: operations that differ most
    let few: Vec<usize> = ["key of 0x", "signing with 0x", "verifying with 0x", "making of a seed", "opening", "adding one's own", "writing a phrase", "reading a phrase", "keeping a phrase", "a new manager", "a new wallet", "encrypting"]
        .iter()
        .flat_map(|w| {
            let v: Vec<usize> = ops().iter().enumerate().filter(|(_, o)| o.name.starts_with(w)).map(|x| x.0).collect();
            if v.len() > 3 { vec![v[1], v[3]] } else { vec![v[0]] }
        })
        .collect();
    let f = few.len() as u64;
    let per: u64 = if th { 6 } else { 3 };
    d.push(Domain::new("three deep", f * f * (f + 1), move |i, cx| {
        let k = digits(i, &[f + 1, f, f]);
        let (a, b) = (few[k[2]], few[k[1]]);
        let c = few.get(k[0]).cloned();
        let (na, nb) = (alone(a)?.1, alone(b)?.1);
        let s = Rc::new(set()?);
        let some = |n: usize| {
            let mut v: Vec<usize> = (0..per as usize).map(|j| 1 + (n - 1) * j / (per as usize - 1)).collect();
            v.dedup();
            v
        };
        for p in some(na) {
            for q in some(nb) {
                let into = Results::default();
                let third = match c {
                    Some(c) => nested(&s, c, &into),
                    None => panics(),
                };
                // call p of a begins b, whose call q is call p + q
                arm(vec![(p, nested(&s, b, &into)), (p + q, third)]);
                let r = scripted(i, || caught(|| (ops()[a].run)(&s)));
                let left = disarm().1;
                let what = format!("{}, inside call {} of {}, inside call {} of {}", c.map_or("a panic", |c| &ops()[c].name), q, ops()[b].name, p, ops()[a].name);
                judge(a, &r, &what)?;
                let done = into.borrow();
                if left > 0 {
                    // not reached this time
                    for (o, r) in done.iter() {
                        judge(*o, r, &what)?;
                    }
                    continue;
                }
                match c {
                    Some(c) => {
                        ensure!(done.len() == 2 && done[0].0 == c && done[1].0 == b, "{}: {} done", what, done.len());
                        judge(c, &done[0].1, &what)?;
                        judge(b, &done[1].1, &what)?;
                    }
                    None => ensure!(done.len() == 1 && matches!(&done[0].1, Err(e) if e.starts_with(OWN_PANIC)), "{}: {:?}", what, done),
                }
                cx.steps(3);
                cx.state(hash2(i, (p * 100 + q) as u64));
                cx.outcome(if c.is_some() { "three deep" } else { "a panic inside" });
            }
        }
        as_alone(&s, a, &|| "after three deep".into())?;
        as_alone(&s, b, &|| "after three deep".into())?;
        Ok(())
    }));
    base(
        "C40",
        "an operation whose path, word list, random source, key factory or key panics, or does another operation with the same objects, must answer as it does alone (or pass the panic on), and so must every operation afterwards; non-trivial when the panic or the other operation happened inside",
        &format!("{} operations; a panic, and each of the operations, at each call the operation makes of what the user brought (of more than 30 calls the first and last 12 and 5 between), followed by each operation; {} operations three deep at {} places each", n, f, per),
        d,
    )
}
