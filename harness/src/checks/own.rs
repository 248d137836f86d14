//! C38: random sources the user brings, and the library's own one used directly.
use super::base;
use super::cont::{apart, doc, find, sealed};
use crate::engine::*;
use crate::env::{self, stream_byte, Ans};
use crate::refm::{self, net, ADA, BTC, ETH, NETS};
use crate::util::*;
use bip39::{Entropy as Bits, Type};
use keychain::{crypt, Entropy, OsEntropy};
use std::cell::{Cell, RefCell};

const KINDS: usize = 8;
/// Remembers everything it gave out.
struct Own<'a> {
    kind: usize,
    seed: u64,
    pos: Cell<u64>,
    calls: Cell<usize>,
    gave: RefCell<Vec<u8>>,
    /// panics at this call
    fails: Cell<Option<usize>>,
    meanwhile: Option<&'a dyn Fn(usize)>,
}
impl<'a> Own<'a> {
    fn new(kind: usize, seed: u64) -> Self {
        Own { kind, seed, pos: Cell::new(0), calls: Cell::new(0), gave: RefCell::new(vec![]), fails: Cell::new(None), meanwhile: None }
    }
    fn fill(&self, into: &mut [u8]) {
        let call = self.calls.get();
        self.calls.set(call + 1);
        if self.fails.get() == Some(call) {
            // a part of it is written before
            for b in into.iter_mut().take(call) {
                *b = 0x77;
            }
            panic!("own source failed");
        }
        if let Some(m) = self.meanwhile {
            m(call);
        }
        let n = into.len();
        let next = |k: usize| stream_byte(self.seed, self.pos.get() + k as u64);
        match self.kind {
            // forwards, backwards, twice
            0 => (0..n).for_each(|k| into[k] = next(k)),
            1 => (0..n).rev().for_each(|k| into[k] = next(k)),
            2 => {
                into.iter_mut().for_each(|b| *b = 0xee);
                (0..n).for_each(|k| into[k] = next(k));
            }
            3 => into.iter_mut().for_each(|b| *b = 0),
            4 => into.iter_mut().for_each(|b| *b = 0xff),
            // the number of the call
            5 => into.iter_mut().for_each(|b| *b = call as u8),
            6 => (0..n).for_each(|k| into[k] = (self.pos.get() as usize + k) as u8),
            // zero bytes at the ends
            _ => (0..n).for_each(|k| into[k] = if k == 0 || k + 1 == n { 0 } else { next(k) }),
        }
        self.pos.set(self.pos.get() + n as u64);
        self.gave.borrow_mut().extend_from_slice(into);
    }
    fn take(&self) -> Vec<u8> {
        self.gave.replace(vec![])
    }
}
impl<'a> Entropy for Own<'a> {
    fn fill_bytes(&self, into: &mut [u8]) {
        self.fill(into)
    }
}
/// Is the container made of what the source gave, and right otherwise?
fn made_of(c: &[u8], data: &[u8], pw: &str, gave: &[u8], what: &str) -> R {
    ensure!(c.len() == data.len() + 60, "{}: {} bytes for {}", what, c.len(), data.len());
    let s = find(gave, &c[..32], None);
    ensure!(s.is_some(), "{}: the salt {} is not from the given source ({})", what, hex(&c[..32]), hex(gave));
    ensure!(
        apart(gave, &c[..32], &c[32..44]),
        "{}: the nonce {} is not from the given source, apart from the salt ({})",
        what,
        hex(&c[32..44]),
        hex(gave)
    );
    match refm::unseal(c, pw) {
        Some(p) if p == data => {}
        p => return Err(format!("{}: {} holds {:?}, not {}", what, hex(c), p.map(|p| hex(&p)), hex(data))),
    }
    match crypt::decrypt(c, pw) {
        Ok(p) if p == data => Ok(()),
        r => Err(format!("{}: {} opens as {:?}", what, hex(c), r.map(|p| hex(&p)).map_err(|e| e.to_string()))),
    }
}
/// Runs `f` while the system's source answers so, and says how often it was asked.
fn beside<T>(answers: &[Ans], f: impl FnOnce() -> T) -> (T, usize) {
    env::script(91, answers);
    let r = caught(f);
    let (_, draws) = env::take_log();
    env::unscript();
    match r {
        Ok(r) => (r, draws.len()),
        Err(e) => std::panic::panic_any(e),
    }
}
const PWS: [&str; 4] = ["pw", "", "pässwört ひみつ", "a long password that is longer than one block of the hash function, which has 128 bytes, and so is hashed before its use, as HMAC says"];
const TYPES: [Type; 6] = [Type::Type9Words, Type::Type12Words, Type::Type15Words, Type::Type18Words, Type::Type21Words, Type::Type24Words];

pub fn c38(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let lens: u64 = if th { 1500 } else { 300 };
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("encrypting with a source of one's own", (lens + nbig) * KINDS as u64, move |i, cx| {
        let k = digits(i, &[KINDS as u64, lens + nbig]);
        let n = if k[1] as u64 >= lens { big_sizes()[k[1] - lens as usize] } else { k[1] };
        let data = bytes_n(n, 9);
        let own = Own::new(k[0], 92 + i);
        // the system's source works, or does not
        let ans = [vec![], vec![Ans::Err(libc::EIO); 50], vec![Ans::Short(1); 50]][i as usize % 3].clone();
        let pw = PWS[k[1] % 4];
        let (c, asked) = beside(&ans, || crypt::encrypt(&data, pw, &own));
        ensure!(asked == 0, "encrypting with a source of one's own asked the system's {} times", asked);
        made_of(&c, &data, pw, &own.take(), &format!("source kind {}, {} bytes", k[0], n))?;
        cx.steps(2);
        cx.state(hash2(hash(&c), i));
        Ok(())
    }));
    let runs = if th { 400 } else { 120 };
    d.push(Domain::new("one source for many containers", 3, move |i, cx| {
        let own = Own::new(i as usize, 93);
        let mut used: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        for j in 0..runs {
            let data = bytes_n(j % 70, j % 3);
            let pw = PWS[j % 2];
            let (c, asked) = beside(&[], || crypt::encrypt(&data, pw, &own));
            ensure!(asked == 0, "asked the system's source");
            made_of(&c, &data, pw, &own.take(), &format!("container {}", j))?;
            ensure!(!used.iter().any(|(s, n)| s[..] == c[..32] || n[..] == c[32..44]), "container {}: salt or nonce again", j);
            used.push((c[..32].to_vec(), c[32..44].to_vec()));
            cx.steps(2);
            cx.state_of(&c);
        }
        Ok(())
    }).chunk(1));
    d.push(Domain::new("two sources by turns", 2 * KINDS as u64 * KINDS as u64, |i, cx| {
        let k = digits(i, &[KINDS as u64, KINDS as u64, 2]);
        let (a, b) = (Own::new(k[0], 94), Own::new(k[1], 95));
        for j in 0..6 {
            let s = [&a, &b][(j / (1 + k[2])) % 2];
            let (c, asked) = beside(&[], || crypt::encrypt(b"by turns", "pw", s));
            ensure!(asked == 0, "asked the system's source");
            made_of(&c, b"by turns", "pw", &s.take(), &format!("kinds {} and {}, turn {}", k[0], k[1], j))?;
            ensure!(a.take().is_empty() && b.take().is_empty(), "the other source was asked");
            cx.steps(2);
            cx.state(hash2(hash(&c), i));
        }
        // and the library's own one between them
        let (c, asked) = beside(&[], || crypt::encrypt(b"by turns", "pw", &OsEntropy::new()));
        ensure!(asked > 0 && a.take().is_empty() && b.take().is_empty(), "OsEntropy is not the system's source");
        ensure!(refm::unseal(&c, "pw").as_ref().map(|p| &p[..]) == Some(&b"by turns"[..]), "does not open");
        Ok(())
    }));
    d.push(Domain::new("a source that fails", 50 * 3 * 2, |i, cx| {
        let k = digits(i, &[50, 3, 2]);
        let own = Own::new(0, 96);
        own.fails.set(Some(k[0]));
        let data = bytes_n([0, 5, 500][k[1]], 1);
        // each try after the failed one succeeds, with new bytes
        let mut failures = 0;
        for j in 0..4 {
            let before = own.calls.get();
            let r = caught(|| beside(&[], || if k[2] == 0 { crypt::encrypt(&data, "pw", &own) } else { crypt::encrypt(&data, "", &own) }));
            let hit = before <= k[0] && k[0] < own.calls.get();
            match (r, hit) {
                (Err(_), true) => {
                    failures += 1;
                    own.take();
                    cx.outcome("no container");
                }
                (Ok((c, asked)), false) => {
                    ensure!(asked == 0, "asked the system's source");
                    made_of(&c, &data, ["pw", ""][k[2]], &own.take(), &format!("try {} of a source that fails at call {}", j, k[0]))?;
                    cx.outcome("container");
                }
                (Ok((c, _)), true) => return Err(format!("the source failed at call {}, yet there is a container {}", k[0], hex(&c))),
                (Err(e), false) => return Err(format!("the source did not fail, but no container: {}", e)),
            }
            cx.step();
        }
        cx.state(hash2(failures, i));
        Ok(())
    }));
    // what a source may do while it is asked
    d.push(Domain::new("a source that uses the library itself", 12 * 3, |i, cx| {
        let k = digits(i, &[12, 3]);
        let m = manager(7);
        let w = doc(Some(&seed_n(41)), None, &NETS).text().into_bytes();
        let c0 = sealed(&w, "pw");
        let inner: RefCell<Vec<String>> = RefCell::new(vec![]);
        let act = |call: usize| {
            let r: Result<(), String> = (|| {
                match k[0] {
                    0 => {
                        let o = Own::new(0, 97);
                        let c = crypt::encrypt(b"inner", "in", &o);
                        made_of(&c, b"inner", "in", &o.take(), "inner")?;
                    }
                    1 => ensure!(crypt::decrypt(&c0, "pw").ok() == Some(w.clone()), "the inner container does not open"),
                    2 => ensure!(crypt::decrypt(&c0, "other").is_err(), "opens with another password"),
                    3 => ensure!(m.keychain_from_data(&c0, "pw").map(|k| k.networks().len()).ok() == Some(3), "the inner wallet does not open"),
                    4 => ensure!(m.keychain_data_from_seed(&seed_n(42), "x").is_ok(), "no inner wallet"),
                    5 => ensure!(m.change_password(&c0, "pw", "q").is_ok(), "no inner change"),
                    6 => ensure!(m.generate_mnemonic(None).is_ok(), "no inner phrase"),
                    7 => {
                        let mut b = [0; 40];
                        OsEntropy::new().fill_bytes(&mut b);
                        ensure!(b != [0; 40], "no random bytes");
                    }
                    8 => ensure!(crypt::encrypt(b"inner", "pw", &OsEntropy::new()).len() == 65, "no inner container"),
                    9 => {
                        let g = Bits::generate(Type::Type12Words, |b| b.iter_mut().for_each(|x| *x = 9));
                        ensure!(g.as_ref() == [9; 16], "inner entropy");
                    }
                    10 => {
                        // another one that fails inside
                        let o = Own::new(0, 98);
                        o.fails.set(Some(0));
                        ensure!(caught(|| crypt::encrypt(b"inner", "in", &o)).is_err(), "a container from a source that failed");
                    }
                    _ => {
                        let kc = m.keychain_from_data(&c0, "pw").map_err(|e| e.to_string())?;
                        let n = [ADA, ETH, BTC][call % 3];
                        ensure!(kc.sign(&net(n), b"m", &P(refm::std_path(n))).is_ok(), "no inner signature");
                    }
                }
                Ok(())
            })();
            if let Err(e) = r {
                inner.borrow_mut().push(e);
            }
        };
        let own = Own { meanwhile: Some(&act), ..Own::new([0, 3, 6][k[1]], 99) };
        let (c, _) = beside(&[], || crypt::encrypt(&w, "outer", &own));
        if let Some(e) = inner.borrow().first() {
            return Err(format!("inside the source: {}", e));
        }
        made_of(&c, &w, "outer", &own.take(), &format!("a source that does {} meanwhile", k[0]))?;
        ensure!(m.keychain_from_data(&c, "outer").map(|k| k.networks().len()).ok() == Some(3), "the wallet does not open");
        cx.steps(4);
        cx.state(hash2(hash(&c), i));
        Ok(())
    }));
    d.push(Domain::new("wallets sealed with a source of one's own", 7 * 4 * KINDS as u64, |i, cx| {
        let k = digits(i, &[KINDS as u64, 4, 7]);
        let nets: Vec<u32> = NETS.iter().enumerate().filter(|(j, _)| (k[2] + 1) >> j & 1 == 1).map(|(_, n)| *n).collect();
        let seed = seed_n(43 + k[1]);
        let w = doc(Some(&seed), None, &nets).text().into_bytes();
        let own = Own::new(k[0], 100);
        let (c, _) = beside(&[], || crypt::encrypt(&w, PWS[k[1]], &own));
        made_of(&c, &w, PWS[k[1]], &own.take(), "wallet")?;
        let kc = manager(7).keychain_from_data(&c, PWS[k[1]]).map_err(|e| e.to_string())?;
        for n in &nets {
            let p = refm::std_path(*n);
            let got = kc.pub_key(&net(*n), &P(p)).ok();
            ensure!(got == refm::pub_key(*n, &refm::stored_key(*n, &seed), &p), "another key of {}", refm::net_name(*n));
            cx.step();
        }
        cx.state(hash2(hash(&c), i));
        Ok(())
    }));
    let big: u64 = if th { 5000 } else { 700 };
    d.push(Domain::new("the system's source, buffers of every length", (big + nbig) * 6, move |i, cx| {
        let k = digits(i, &[6, big + nbig]);
        let n = if k[1] as u64 >= big { big_sizes()[k[1] - big as usize] } else { k[1] };
        let ans = match k[0] {
            0 => vec![],
            1 => vec![Ans::Short(1); 400],
            2 => vec![Ans::Short(7); 400],
            3 => (0..400).map(|j| if j % 2 == 0 { Ans::Err(libc::EINTR) } else { Ans::Short(13) }).collect(),
            4 => vec![Ans::Err(libc::EINTR); 3],
            _ => vec![Ans::Full, Ans::Err(libc::EIO)],
        };
        let (a, b) = (OsEntropy::new(), OsEntropy::new());
        env::script(101, &ans);
        let mut all = vec![0xaau8; n + 64];
        let mut last: Vec<u8> = vec![];
        let r = (|| {
            for j in 0..4 {
                let s = [&a, &b][j % 2];
                let r = caught(|| s.fill_bytes(&mut all[32..32 + n]));
                let (gave, draws) = env::take_log();
                let failed = draws.iter().any(|d| matches!(d.got, Err(e) if e != libc::EINTR));
                ensure!(all[..32] == [0xaa; 32] && all[32 + n..] == [0xaa; 32], "{} bytes: something beside the buffer is written", n);
                ensure!(r.is_err() == failed, "{} bytes, fill {}: {:?} with draws {:?}", n, j, r, draws);
                if r.is_ok() {
                    let now = all[32..32 + n].to_vec();
                    ensure!(find(&gave, &now, None).is_some(), "{} bytes, fill {}: {} is not what the system gave ({})", n, j, hex(&now), hex(&gave));
                    ensure!(n < 16 || now != last, "{} bytes: the same again", n);
                    cx.state(hash2(hash(&now), i));
                    last = now;
                }
                cx.step();
            }
            Ok(())
        })();
        env::unscript();
        r
    }));
    d.push(Domain::new("entropy made by a generator of one's own", 6 * KINDS as u64 * 16, |i, cx| {
        let k = digits(i, &[16, KINDS as u64, 6]);
        let t = TYPES[k[2]];
        let n = t.to_key_size() / 8;
        let own = Own::new(k[1], 102 + k[0] as u64);
        own.pos.set(k[0] as u64 * 1000);
        let seen = RefCell::new(vec![]);
        let (e, asked) = beside(&[], || {
            Bits::generate(t, |b| {
                seen.borrow_mut().push(b.len());
                own.fill(b)
            })
        });
        ensure!(asked == 0, "making entropy asked the system's source");
        ensure!(seen.borrow().iter().all(|l| *l == n), "the generator for {} bytes was given {:?}", n, seen);
        let gave = own.take();
        ensure!(e.as_ref().len() == n && e.get_type() == t, "{} bytes of entropy", e.as_ref().len());
        ensure!(gave.len() >= n && gave[gave.len() - n..] == *e.as_ref(), "the entropy {} is not what the generator wrote ({})", e, hex(&gave));
        // a generator that fails
        own.fails.set(Some(own.calls.get()));
        let r = caught(|| Bits::generate(t, |b| own.fill(b)));
        ensure!(r.is_err(), "entropy from a generator that failed: {:?}", r);
        let e2 = Bits::generate(t, |b| own.fill(b));
        let gave = own.take();
        ensure!(gave[gave.len() - n..] == *e2.as_ref(), "after a failure the entropy {} is not what the generator wrote ({})", e2, hex(&gave));
        cx.steps(3);
        cx.state(hash2(hash(e.as_ref()), i));
        Ok(())
    }));
    base(
        "C38",
        "the real encryption, the system source object and entropy generation run with random sources of the harness's own, which remember what they gave; salt, nonce and entropy must be pieces of it and nothing may be asked of any other source; non-trivial when the source is peculiar, fails or uses the library itself",
        "8 kinds of source x payloads of every length to the bound and big ones; 120 containers from one source; all pairs of kinds by turns; failure at each of the first 50 calls; 12 things a source may do meanwhile; system source: buffers of every length to the bound under 6 patterns of answers; generators of 8 kinds for all sizes",
        d,
    )
}
