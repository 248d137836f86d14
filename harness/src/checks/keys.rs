//! C10-C15: wallets, their keys, paths and signatures.
use super::base;
use crate::engine::*;
use crate::env;
use crate::refm::{self, net, ADA, BTC, ETH, H, NETS};
use crate::util::*;
use keychain::networks::{bitcoin, cardano, ethereum};
use keychain::{Error, GenericKeyPath, Key, KeyError, KeyFactory, KeyPath, Keychain, KeychainManager, Network};

pub fn factory(net: u32) -> Box<dyn KeyFactory> {
    match net {
        ADA => Box::new(cardano::KeyFactory::new()),
        ETH => Box::new(ethereum::KeyFactory::new()),
        _ => Box::new(bitcoin::KeyFactory::new()),
    }
}
/// A wallet as a user gets it: made from the seed, stored, opened.
pub fn wallet(bits: usize, seed: &[u8]) -> Result<Keychain, String> {
    let m = manager(bits);
    env::script(7, &[]);
    let d = m.keychain_data_from_seed(seed, "pw").map_err(|e| format!("making a wallet: {}", e));
    env::unscript();
    m.keychain_from_data(&d?, "pw").map_err(|e| format!("opening the wallet: {}", e))
}
fn single(net: u32, seed: &[u8]) -> Result<Keychain, String> {
    let k = factory(net).key_from_data(&refm::stored_key(net, seed)).map_err(|e| format!("stored key: {}", e))?;
    Ok(Keychain::new(vec![k]))
}
fn net_bit(net: u32) -> usize {
    1 << NETS.iter().position(|n| *n == net).unwrap()
}

/// pub_key at a path against the model.
fn check_pub(k: &Keychain, n: u32, seed: &[u8], p: &[u32; 5], cx: &mut Cx) -> R {
    let want = refm::pub_key(n, &refm::stored_key(n, seed), p);
    let got = k.pub_key(&net(n), &P(*p));
    cx.step();
    match (&got, want) {
        (Ok(g), Some(w)) if *g == w => {
            cx.state(hash2(hash(g), n as u64));
            cx.outcome(refm::net_name(n));
            cx.sample(refm::net_name(n), || format!("seed {} path {} -> {}", hex(seed), path_text(p), hex(g)));
            Ok(())
        }
        (_, w) => Err(format!(
            "{} key of seed {} at {}: {}, should be {}",
            refm::net_name(n),
            hex(seed),
            path_text(p),
            show(&got),
            w.map(|w| hex(&w)).unwrap_or("refused".into())
        )),
    }
}

pub fn c10(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    d.push(Domain::new("root keys of seeds", 3 * 1088, |i, cx| {
        let k = digits(i, &[3, 1088]);
        let n = NETS[k[0]];
        let s = if k[1] < 1024 {
            let mut s = if k[1] < 512 { vec![0; 64] } else { seed_n(9) };
            s[k[1] % 512 / 8] ^= 0x80 >> (k[1] % 8);
            s
        } else {
            seed_n(k[1] - 1024)
        };
        let got = factory(n).key_data_from_seed(&s).map_err(|e| format!("seed {}: {}", hex(&s), e))?;
        let want = refm::stored_key(n, &s);
        ensure!(got == want, "root key of {} for {}: {}, should be {}", hex(&s), refm::net_name(n), hex(&got), hex(&want));
        cx.step();
        let kc = wallet(7, &s)?;
        check_pub(&kc, n, &s, &refm::std_path(n), cx)
    }));
    let acc = uniq32(idx_soft().into_iter().map(|i| i + H).collect());
    let adr = idx_soft();
    let few: Vec<u32> = idx_few();
    let (na, nd, nf) = (acc.len() as u64, adr.len() as u64, few.len() as u64);
    let (acc1, few1) = (acc.clone(), few.clone());
    d.push(Domain::new("every account of the alphabet", 3 * na * 2 * nf, move |i, cx| {
        let k = digits(i, &[na, 2, nf, 3]);
        let n = NETS[k[3]];
        let mut p = refm::std_path(n);
        p[2] = acc1[k[0]];
        p[3] = k[1] as u32;
        p[4] = few1[k[2]];
        let s = seed_n(10);
        check_pub(&wallet(7, &s)?, n, &s, &p, cx)
    }));
    let few1 = few.clone();
    d.push(Domain::new("every address of the alphabet", 3 * nd * 2 * nf, move |i, cx| {
        let k = digits(i, &[nd, 2, nf, 3]);
        let n = NETS[k[3]];
        let mut p = refm::std_path(n);
        p[2] = few1[k[2]] | H;
        p[3] = k[1] as u32;
        p[4] = adr[k[0]];
        let s = seed_n(11);
        check_pub(&single(n, &s)?, n, &s, &p, cx)
    }));
    let pur = idx_all();
    let np = pur.len() as u64;
    d.push(Domain::new("every Bitcoin purpose and coin", np * 2 * 3, move |i, cx| {
        let k = digits(i, &[np, 2, 3]);
        let p = [pur[k[0]], H + k[1] as u32, H + [0, 1, 0x7fffffff][k[2]], k[2] as u32 & 1, [0, 5, 0x7fffffff][k[2]]];
        let s = seed_n(12);
        check_pub(&single(BTC, &s)?, BTC, &s, &p, cx)
    }));
    let nseed = if th { 400 } else { 60 };
    d.push(Domain::new("seeds and paths", 3 * nseed * nf * 2, move |i, cx| {
        let k = digits(i, &[3, nf, 2, nseed]);
        let n = NETS[k[0]];
        let s = seed_n(k[3]);
        let mut p = refm::std_path(n);
        p[2] = few[k[1]] | H;
        p[3] = k[2] as u32;
        p[4] = few[(k[1] + 5 + k[3]) % nf as usize];
        check_pub(&wallet(net_bit(n), &s)?, n, &s, &p, cx)
    }));
    if th {
        let few = idx_soft();
        let n2 = few.len() as u64;
        let few2 = few.clone();
        d.push(Domain::new("accounts x addresses", 3 * n2 * n2, move |i, cx| {
            let k = digits(i, &[n2, n2, 3]);
            let n = NETS[k[2]];
            let mut p = refm::std_path(n);
            p[2] = few2[k[0]] | H;
            p[3] = (k[0] ^ k[1]) as u32 & 1;
            p[4] = few2[k[1]];
            let s = seed_n(13);
            check_pub(&single(n, &s)?, n, &s, &p, cx)
        }));
    }
    let order = refm::orderly(64);
    d.push(Domain::new("seeds with some order in them", 3 * order.len() as u64, move |i, cx| {
        let n = NETS[i as usize % 3];
        let s = &order[i as usize / 3];
        let got = factory(n).key_data_from_seed(s).map_err(|e| format!("seed {}: {}", hex(s), e))?;
        let want = refm::stored_key(n, s);
        ensure!(got == want, "root key of {} for {}: {}, should be {}", hex(s), refm::net_name(n), hex(&got), hex(&want));
        check_pub(&wallet(7, s)?, n, s, &refm::std_path(n), cx)
    }));
    let many: u64 = if th { 8_000 } else { 1_600 };
    d.push(Domain::new("a great many addresses", 3 * many, move |i, cx| {
        let k = digits(i, &[3, many]);
        let n = NETS[k[0]];
        let s = seed_n(18);
        let mut p = refm::std_path(n);
        p[2] = H + k[1] as u32 / 8;
        p[3] = k[1] as u32 & 1;
        let w = single(n, &s)?;
        for a in 0..100 {
            p[4] = (k[1] as u32 / 2 % 4) * 100 + a;
            check_pub(&w, n, &s, &p, cx)?;
        }
        Ok(())
    }));
    base(
        "C10",
        "the public key the real wallet gives at a path is compared with a model that derives every component separately from the seed; non-trivial when a key is derived",
        "one-bit changes of two seeds and 64 patterns; ~200 accounts x 2 x 12 addresses and 12 accounts x 2 x ~200 addresses per network; ~400 Bitcoin purposes x 2 coins; 200 accounts x 2 x 400 addresses per network; wallets stored and opened with all networks or alone",
        d,
    )
}

/// The message of a refusal names an offending component by its value.
fn names_culprit(msg: &str, p: &[u32; 5], bad: &[usize]) -> R {
    let mut nums: Vec<u64> = vec![];
    for t in msg.split(|c: char| !c.is_ascii_digit()) {
        if let Ok(n) = t.parse() {
            nums.push(n);
        }
    }
    let named: Vec<usize> = ["purpose", "coin", "account", "change", "address"]
        .iter()
        .enumerate()
        .filter(|(_, w)| msg.to_lowercase().contains(**w))
        .map(|(i, _)| i)
        .collect();
    let cand: Vec<usize> = if named.len() == 1 {
        ensure!(bad.contains(&named[0]), "'{}' blames an allowed component of {}", msg, path_text(p));
        named
    } else {
        bad.to_vec()
    };
    ensure!(
        cand.iter().any(|i| nums.contains(&(p[*i] as u64))),
        "'{}' does not carry the value of an offending component of {}",
        msg,
        path_text(p)
    );
    Ok(())
}
fn bad_parts(n: u32, p: &[u32; 5]) -> Vec<usize> {
    (0..5)
        .filter(|i| {
            let mut q = refm::std_path(n);
            q[*i] = p[*i];
            !refm::offending(n, &q).is_empty()
        })
        .collect()
}
/// op: 0 pub_key, 1 sign, 2 verify
fn ask(k: &Keychain, n: u32, p: &dyn KeyPath, op: usize) -> Result<(), Error> {
    match op {
        0 => k.pub_key(&net(n), p).map(|_| ()),
        1 => k.sign(&net(n), b"message", p).map(|_| ()),
        _ => {
            let mut sig = vec![0x11; refm::sig_len(n)];
            *sig.last_mut().unwrap() = 0;
            match k.verify(&net(n), b"message", &sig, p) {
                // the signature is nonsense, which may be said as an error, too
                Err(Error::KeyError(m, e)) if m == net(n) && !matches!(e, KeyError::InvalidKeyPath(_)) => Ok(()),
                r => r.map(|_| ()),
            }
        }
    }
}
fn check_refusal(k: &Keychain, n: u32, p: &[u32; 5], op: usize, cx: &mut Cx) -> R {
    let bad = bad_parts(n, p);
    let r = ask(k, n, &P(*p), op);
    let what = || format!("{} {} at {}", refm::net_name(n), ["pub_key", "sign", "verify"][op], path_text(p));
    cx.step();
    cx.state(hash2(hash(path_text(p).as_bytes()), (n as u64) << 2 | op as u64));
    if bad.is_empty() {
        cx.outcome("served");
        return r.map_err(|e| format!("{} refused: {}", what(), e));
    }
    match r {
        Ok(()) => Err(format!("{} served", what())),
        Err(Error::KeyError(m, KeyError::InvalidKeyPath(e))) => {
            ensure!(m == net(n), "{}: the error is about network {:x}", what(), m.0);
            cx.outcome("refused");
            cx.sample(&format!("refused {}", bad.len()), || format!("{} -> {}", what(), e));
            names_culprit(&e.to_string(), p, &bad).map_err(|e| format!("{}: {}", what(), e))
        }
        Err(e) => Err(format!("{}: wrong kind of error {} ({})", what(), kind(&e), e)),
    }
}

pub fn c11(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let mut pur = vec![0, 44, H, H + 43, H + 44, H + 45, H + 49, H + 84, 0xffff_ffff, 0x2c00_0080];
    let mut coin = vec![0, 1, 60, 1815, H, H + 1, H + 2, H + 60, H + 61, H + 1815, H + 1814, 0xffff_ffff];
    let mut acc = vec![0, 1, H - 1, H, H + 1, 0xffff_ffff];
    let mut chg = vec![0, 1, 2, 3, 256, H, H + 1, 0xffff_ffff];
    let mut adr = vec![0, 1, H - 1, H, H + 1, 0xffff_ffff];
    if th {
        pur.extend_from_slice(&[1, 2, 49, 84, H + 1, 0x7fff_ffff, H + 1852]);
        coin.extend_from_slice(&[2, H - 1, H + 44, H + 59, 0x3c00_0080]);
        acc.extend_from_slice(&[44, 0x100, H + 0x100, 0xc000_0000]);
        chg.extend_from_slice(&[4, 255, 0x100_0000, 0x1_0001, H - 1]);
        adr.extend_from_slice(&[2, 0x100, 0x4000_0000, 0xc000_0000]);
    }
    let rad = [pur.len() as u64, coin.len() as u64, acc.len() as u64, chg.len() as u64, adr.len() as u64, 3, 3];
    d.push(Domain::new("five boundary components, three networks, three operations", prod(&rad), move |i, cx| {
        let k = digits(i, &rad);
        let p = [pur[k[0]], coin[k[1]], acc[k[2]], chg[k[3]], adr[k[4]]];
        let n = NETS[k[5]];
        let kc = single(n, &seed_n(14))?;
        check_refusal(&kc, n, &p, k[6], cx)
    }));
    let all = idx_all();
    let na = all.len() as u64;
    d.push(Domain::new("every value of the alphabet in each place", na * 5 * 3 * 3, move |i, cx| {
        let k = digits(i, &[na, 5, 3, 3]);
        let n = NETS[k[2]];
        let mut p = refm::std_path(n);
        p[k[1]] = all[k[0]];
        let kc = wallet(7, &seed_n(15))?;
        check_refusal(&kc, n, &p, k[3], cx)
    }));
    let all = idx_all();
    d.push(Domain::new("two wrong components", na * 10 * 3, move |i, cx| {
        let k = digits(i, &[na, 10, 3]);
        let n = NETS[k[2]];
        let pairs = [(0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)];
        let (a, b) = pairs[k[1]];
        let mut p = refm::std_path(n);
        p[a] = all[k[0]];
        p[b] = all[(k[0] * 7 + 3) % all.len()];
        let kc = single(n, &seed_n(15))?;
        check_refusal(&kc, n, &p, k[0] % 3, cx)
    }));
    d.push(Domain::new("networks the wallet has no key for", 8 * 12 * 3, |i, cx| {
        let k = digits(i, &[8, 12, 3]);
        let n = [ADA, ETH, BTC, 0, 1, 60, 1815, H + 1, H + 61, 0xffff_ffff, 44, H + 44][k[1]];
        let kc = if k[0] == 0 { Keychain::new(vec![]) } else { wallet(k[0], &seed_n(16))? };
        let have = k[0] != 0 && subset(k[0]).contains(&n);
        ensure!(kc.has_network(&Network(n)) == have, "has_network({:x}) of wallet {:?}", n, subset(k[0]));
        let p = refm::std_path(if have { n } else { ETH });
        let r = match k[2] {
            0 => kc.pub_key(&Network(n), &P(p)).map(|_| ()),
            1 => kc.sign(&Network(n), b"m", &P(p)).map(|_| ()),
            _ => kc.verify(&Network(n), b"m", &vec![0x11; refm::sig_len(n)], &P(p)).map(|_| ()),
        };
        cx.step();
        cx.state(i);
        match r {
            Err(Error::KeyDoesNotExist(m)) if !have && m == Network(n) => {
                cx.outcome("no such key");
                Ok(())
            }
            Err(Error::KeyDoesNotExist(_)) => Err(format!("network {:x} of wallet {:?}", n, subset(k[0]))),
            Ok(()) if have => {
                cx.outcome("served");
                Ok(())
            }
            Err(_) if have && k[2] == 2 => Ok(()),
            Ok(()) => Err(format!("network {:x} served by wallet {:?}", n, subset(k[0]))),
            Err(e) => Err(format!("network {:x} of wallet {:?}: {}", n, subset(k[0]), e)),
        }
    }));
    let texts = ["m/44'/60'/0'/0/0", "m/44'/60'/0'/2/0", "m/44'/60/0'/0/0", "m/44'/0'/0'/0/0", "m/44/0'/0'/1/7",
        "m/44'/1'/5'/1/7", "m/44'/1815'/0'/0/0", "m/44'/1815'/0/0/0", "m/44'/1815'/0'/0/0'", "m/0/0/0/0/0", "m/84'/0'/9'/0/3"];
    d.push(Domain::new("parsed paths", 11 * 3 * 3, move |i, cx| {
        let k = digits(i, &[11, 3, 3]);
        let g = GenericKeyPath::from(texts[k[0]]).map_err(|e| format!("{}: {}", texts[k[0]], e))?;
        let n = NETS[k[1]];
        let p = [g.purpose(), g.coin(), g.account(), g.change(), g.address()];
        let kc = wallet(7, &seed_n(17))?;
        let ok = ask(&kc, n, &g, k[2]).is_ok();
        ensure!(ok == refm::offending(n, &p).is_empty(), "{} for {}: served {}", texts[k[0]], refm::net_name(n), ok);
        check_refusal(&kc, n, &p, k[2], cx)
    }));
    // two requests of one wallet, the second near the first
    let near = |n: u32| -> Vec<[u32; 5]> {
        let mut v = vec![refm::std_path(n)];
        if n == BTC {
            v.push([H + 44, H + 1, H, 0, 0]);
            v.push([H + 84, H, H + 1, 1, 5]);
        }
        for (j, vals) in [
            (0, &[0u32, 44, H, H + 43, H + 45, H + 49, H + 84][..]),
            (1, &[0, 1, 2, 3, 60, 61, 1815, H, H + 1, H + 2, H + 3, H + 60, H + 61, H + 1814, H + 1815, 0xffff_ffff]),
            (2, &[0, 1, H + 1, H - 1, 0xffff_ffff]),
            (3, &[1, 2, 3, H, H + 1, 256]),
            (4, &[1, 2, H, H + 1, H - 1]),
        ] {
            for x in vals {
                let mut p = refm::std_path(n);
                if p[j] != *x {
                    p[j] = *x;
                    v.push(p);
                }
            }
        }
        v
    };
    let near: Vec<Vec<[u32; 5]>> = NETS.iter().map(|n| near(*n)).collect();
    let nn = near.iter().map(|v| v.len()).max().unwrap() as u64;
    d.push(Domain::new("one request after another", 3 * nn * nn * 9, move |i, cx| {
        let k = digits(i, &[3, nn, nn, 3, 3]);
        let n = NETS[k[0]];
        let (a, b) = match (near[k[0]].get(k[1]), near[k[0]].get(k[2])) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        let kc = single(n, &seed_n(14))?;
        let _ = ask(&kc, n, &P(*a), k[3]);
        check_refusal(&kc, n, b, k[4], cx).map_err(|e| format!("after {} at {}: {}", ["pub_key", "sign", "verify"][k[3]], path_text(a), e))?;
        if k[4] == 0 && refm::offending(n, b).is_empty() {
            check_pub(&kc, n, &seed_n(14), b, cx).map_err(|e| format!("after {}: {}", path_text(a), e))?;
        }
        Ok(())
    }));
    base(
        "C11",
        "every path is put to the three operations of a real wallet and the answer (served, or a key path error that carries the value of an offending component) compared with the rules; non-trivial when the path is refused",
        "cross product of boundary values of all five components; each of ~400 values in each place; pairs of wrong components; 12 network numbers x all wallets; parsed paths; all ordered pairs of ~40 neighbouring paths x 9 pairs of operations on one wallet",
        d,
    )
}

fn ctor(c: usize, a: u32, ch: u32, ad: u32) -> Result<Box<dyn KeyPath>, String> {
    fn bx<T: KeyPath + 'static, E: std::fmt::Display>(r: Result<T, E>) -> Result<Box<dyn KeyPath>, String> {
        match r {
            Ok(p) => Ok(Box::new(p)),
            Err(e) => Err(e.to_string()),
        }
    }
    match c {
        0 => bx(bitcoin::KeyPath::bip44(false, a, ch, ad)),
        1 => bx(bitcoin::KeyPath::bip44(true, a, ch, ad)),
        2 => bx(bitcoin::KeyPath::bip49(false, a, ch, ad)),
        3 => bx(bitcoin::KeyPath::bip49(true, a, ch, ad)),
        4 => bx(bitcoin::KeyPath::bip84(false, a, ch, ad)),
        5 => bx(bitcoin::KeyPath::bip84(true, a, ch, ad)),
        6 => bx(cardano::KeyPath::new(a, ch, ad)),
        7 => bx(ethereum::KeyPath::new(a)),
        _ => bx(ethereum::KeyPath::new_metamask(a)),
    }
}
pub const CTORS: [&str; 9] = [
    "bitcoin bip44", "bitcoin bip44 testnet", "bitcoin bip49", "bitcoin bip49 testnet", "bitcoin bip84", "bitcoin bip84 testnet",
    "cardano", "ethereum", "ethereum metamask",
];
/// What the constructor must answer: the path, or the indices (2..4) of refused arguments.
pub fn ctor_model(c: usize, a: u32, ch: u32, ad: u32) -> Result<(u32, [u32; 5]), Vec<usize>> {
    let mut bad = vec![];
    if a >= H {
        bad.push(2);
    }
    if c < 7 {
        if ch > 1 {
            bad.push(3);
        }
        if ad >= H {
            bad.push(4);
        }
    }
    if !bad.is_empty() {
        return Err(bad);
    }
    Ok(match c {
        0..=5 => (BTC, [H + [44, 49, 84][c / 2], H + (c as u32 & 1), H + a, ch, ad]),
        6 => (ADA, [H + 44, H + 1815, H + a, ch, ad]),
        7 => (ETH, [H + 44, H + 60, H + a, 0, 0]),
        _ => (ETH, [H + 44, H + 60, H, 0, a]),
    })
}
fn check_ctor(c: usize, a: u32, ch: u32, ad: u32, serve: bool, cx: &mut Cx) -> R {
    let what = || format!("{}({:#x}, {:#x}, {:#x})", CTORS[c], a, ch, ad);
    cx.step();
    cx.state(hash2(hash2(a as u64, (ch as u64) << 32 | ad as u64), c as u64));
    match (ctor(c, a, ch, ad), ctor_model(c, a, ch, ad)) {
        (Ok(p), Ok((n, want))) => {
            let got = [p.purpose(), p.coin(), p.account(), p.change(), p.address()];
            ensure!(got == want, "{} made {}, should be {}", what(), path_text(&got), path_text(&want));
            cx.outcome("accepted");
            cx.sample(CTORS[c], || format!("{} -> {}", what(), path_text(&got)));
            if serve {
                let s = seed_n(18);
                let kc = single(n, &s)?;
                let got = kc.pub_key(&net(n), p.as_ref()).map_err(|e| format!("{} is not served: {}", what(), e))?;
                ensure!(
                    Some(&got) == refm::pub_key(n, &refm::stored_key(n, &s), &want).as_ref(),
                    "{}: the wallet gives another key",
                    what()
                );
                let sig = kc.sign(&net(n), b"x", p.as_ref()).map_err(|e| format!("{} does not sign: {}", what(), e))?;
                match kc.verify(&net(n), b"x", &sig, p.as_ref()) {
                    Ok(true) => {}
                    r => return Err(format!("{}: own signature {:?}", what(), r.ok())),
                }
                cx.steps(3);
            }
            Ok(())
        }
        (Err(e), Err(bad)) => {
            cx.outcome("refused");
            names_culprit(&e, &[0, 0, a, ch, ad], &bad).map_err(|e| format!("{}: {}", what(), e))
        }
        (Ok(_), Err(_)) => Err(format!("{} accepted", what())),
        (Err(e), Ok(_)) => Err(format!("{} refused: {}", what(), e)),
    }
}
pub fn c12(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let mut v: Vec<u32> = vec![];
    for b in [0u32, 1, 2, 5, 44, 255, 256, 65535, 0x0102_0304, 0x4000_0000, H - 2, H - 1] {
        v.push(b);
        v.push(b | H);
    }
    if th {
        for k in 2..31 {
            v.push(1 << k);
            v.push((1 << k) | H);
        }
    }
    let v = uniq32(v);
    let n = v.len() as u64;
    let ch: Vec<u32> = vec![0, 1, 2, 3, 4, 255, 256, 257, 65536, 0x0100_0000, H - 1, H, H + 1, 0xffff_ffff];
    let nc = ch.len() as u64;
    let (v1, ch1) = (v.clone(), ch.clone());
    d.push(Domain::new("boundary arguments", 9 * n * nc * n, move |i, cx| {
        let k = digits(i, &[n, nc, n, 9]);
        check_ctor(k[3], v1[k[0]], ch1[k[1]], v1[k[2]], th, cx)
    }));
    let all = idx_all();
    let na = all.len() as u64;
    d.push(Domain::new("every value of the alphabet in each argument, served by the wallet", 9 * na * 3, move |i, cx| {
        let k = digits(i, &[na, 3, 9]);
        let mut a = [3, 1, 4];
        a[k[1]] = all[k[0]];
        check_ctor(k[2], a[0], a[1], a[2], true, cx)
    }));
    let few = idx_few();
    let nf = few.len() as u64;
    d.push(Domain::new("valid arguments, served by the wallet", 9 * nf * 2 * nf, move |i, cx| {
        let k = digits(i, &[nf, 2, nf, 9]);
        check_ctor(k[3], few[k[0]], k[1] as u32, few[k[2]], true, cx)
    }));
    d.push(Domain::new("every change below 70000", 7 * 70000, |i, cx| {
        check_ctor((i / 70000) as usize, 1, (i % 70000) as u32, 2, false, cx)
    }));
    base(
        "C12",
        "every constructor of the real crates is called with every combination of the listed arguments; made paths must have the documented components and be served by a real wallet, refusals must carry an offending value; non-trivial when an argument is at or over a boundary",
        "boundary values for account x change x address; ~400 values in each argument; all changes below 70000; nine constructors",
        d,
    )
}

enum Said {
    Exactly([u32; 5]),
    /// spelled in a way the statement leaves open: this, or an error
    Loosely([u32; 5]),
    No,
}
fn number(s: &str) -> Option<u32> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t = s.trim_start_matches('0');
    if t.len() > 10 {
        return None;
    }
    let v: u64 = if t.is_empty() { 0 } else { t.parse().ok()? };
    if v < 1 << 32 {
        Some(v as u32)
    } else {
        None
    }
}
fn part(s: &str) -> Option<u32> {
    match s.strip_suffix('\'') {
        Some(n) => number(n).filter(|v| *v < H).map(|v| v + H),
        None => number(s),
    }
}
/// What the text says.
fn said(text: &str) -> Said {
    let parts: Vec<&str> = text.split('/').collect();
    if parts.len() != 6 {
        return Said::No;
    }
    let mut strict = parts[0] == "m";
    if parts[0].trim() != "m" {
        return Said::No;
    }
    let mut out = [0; 5];
    for k in 0..5 {
        let s = parts[k + 1];
        if let Some(v) = part(s) {
            out[k] = v;
            if v >= H && !s.ends_with('\'') {
                strict = false;
            }
            continue;
        }
        strict = false;
        let s = s.trim();
        let (b, mark) = match s.strip_suffix('\'') {
            Some(b) => (b, "'"),
            None => (s, ""),
        };
        let b = b.strip_prefix('+').unwrap_or(b);
        match part(&format!("{}{}", b, mark)) {
            Some(v) => out[k] = v,
            None => return Said::No,
        }
    }
    if strict {
        Said::Exactly(out)
    } else {
        Said::Loosely(out)
    }
}
fn check_text(text: &str, cx: &mut Cx) -> R {
    cx.step();
    let got = GenericKeyPath::from(text);
    let want = said(text);
    match (&got, want) {
        (Ok(g), Said::Exactly(w)) | (Ok(g), Said::Loosely(w)) => {
            let p = [g.purpose(), g.coin(), g.account(), g.change(), g.address()];
            ensure!(p == w, "'{}' read as {}, says {}", text, path_text(&p), path_text(&w));
            let s = g.to_string();
            let b = GenericKeyPath::from(&s).map_err(|e| format!("'{}' printed as '{}': {}", text, s, e))?;
            let q = [b.purpose(), b.coin(), b.account(), b.change(), b.address()];
            ensure!(p == q, "'{}' printed as '{}', which reads as {}", text, s, path_text(&q));
            cx.step();
            cx.outcome("read");
            cx.state_of(text.as_bytes());
            cx.sample("read", || text.to_string());
        }
        (Err(_), Said::Loosely(_)) => cx.outcome("odd spelling refused"),
        (Err(e), Said::No) => {
            let _ = e.to_string();
            cx.outcome("refused");
        }
        (Ok(g), Said::No) => return Err(format!("'{}' read as '{}'", text, g.to_string())),
        (Err(e), Said::Exactly(w)) => return Err(format!("'{}' refused: {}; says {}", text, e, path_text(&w))),
    }
    if cx.states.len() < 1 << 20 {
        cx.state_of(text.as_bytes());
    }
    Ok(())
}
fn place(s: &str, k: usize) -> String {
    let mut p = vec!["m", "44'", "60'", "0'", "1", "7"];
    p[k] = s;
    p.join("/")
}
pub fn c13(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    const SYM: [&str; 15] = ["0", "1", "2", "4", "9", "'", "-", "+", " ", "m", "x", ".", "h", "\u{e9}", "\u{1f511}"];
    let len = if th { 5 } else { 4 };
    let count: u64 = (0..=len).map(|l| 15u64.pow(l)).sum();
    d.push(Domain::new("every short component in each place", count * 6, move |i, cx| {
        let k = (i / count) as usize;
        let mut j = i % count;
        let mut l = 0;
        while j >= 15u64.pow(l) {
            j -= 15u64.pow(l);
            l += 1;
        }
        let mut s = String::new();
        for _ in 0..l {
            s += SYM[(j % 15) as usize];
            j /= 15;
        }
        check_text(&place(&s, k), cx)
    }));
    const TOK: [&str; 7] = ["m/", "/", "0/", "1'/", "2", "'", "x"];
    let len = if th { 8 } else { 7 };
    let count: u64 = (0..=len).map(|l| 7u64.pow(l)).sum();
    d.push(Domain::new("every short text", count, move |i, cx| {
        let mut j = i;
        let mut l = 0;
        while j >= 7u64.pow(l) {
            j -= 7u64.pow(l);
            l += 1;
        }
        let mut s = String::new();
        for _ in 0..l {
            s += TOK[(j % 7) as usize];
            j /= 7;
        }
        check_text(&s, cx)?;
        check_text(&format!("m/{}", s), cx)?;
        check_text(&format!("m/0'/1/{}", s), cx)
    }));
    let mut big: Vec<String> = vec![];
    for k in [7u32, 8, 15, 16, 30, 31, 32, 33, 62, 63, 64, 65, 126] {
        let p: u128 = 1 << k;
        for e in 0..5u128 {
            big.push((p - 2 + e).to_string());
        }
        big.push((p + 44).to_string());
        big.push((p * 2 + (1 << 31)).to_string());
    }
    for k in 1..45 {
        big.push("9".repeat(k));
        big.push(format!("1{}", "0".repeat(k)));
        big.push(format!("{}1", "0".repeat(k)));
        big.push("0".repeat(k));
        big.push(format!("{}2147483648", "0".repeat(k)));
        big.push(format!("{}4294967296", "0".repeat(k)));
    }
    big.extend(idx_all().iter().map(|i| i.to_string()));
    for b in [0u64, 44, 60, 2147483647] {
        for k in 1..5u64 {
            big.push((b + (k << 32)).to_string());
            big.push((b + (k << 31)).to_string());
        }
    }
    let nb = big.len() as u64;
    d.push(Domain::new("big numbers in each place", nb * 5 * 5, move |i, cx| {
        let k = digits(i, &[nb, 5, 5]);
        let s = match k[2] {
            0 => big[k[0]].clone(),
            1 => format!("{}'", big[k[0]]),
            2 => format!("{}''", big[k[0]]),
            3 => format!("-{}", big[k[0]]),
            _ => format!("{}h", big[k[0]]),
        };
        check_text(&place(&s, k[1] + 1), cx)
    }));
    let zl: Vec<usize> = (0..70).chain([99, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 65535, 65536, 65537]).collect();
    let nz = zl.len() as u64;
    const AFTER: [&str; 14] = ["", "0", "1", "7", "44", "60", "10", "65536", "1815", "2147483647", "2147483648", "4294967295", "4294967296", "99999999999"];
    d.push(Domain::new("leading zeros in each place", nz * 14 * 5 * 4, move |i, cx| {
        let k = digits(i, &[nz, 14, 5, 4]);
        let s = format!("{}{}{}", "0".repeat(zl[k[0]]), AFTER[k[1]], ["", "'", "''", "x"][k[3]]);
        check_text(&place(&s, k[2] + 1), cx)?;
        if k[0] > 0 && k[2] > 0 {
            check_text(&place(&format!("0/{}", s), k[2]), cx)?;
        }
        Ok(())
    }));
    d.push(Domain::new("every character", 0x11_0000 * 4, |i, cx| {
        let c = match std::char::from_u32((i / 4) as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        let s = match i % 4 {
            0 => place(&format!("0{}", c), 5),
            1 => place(&format!("{}1", c), 3),
            2 => format!("m{}44'/60'/0'/0/0{}1", if i % 8 < 4 { '/' } else { c }, c),
            _ => format!("{}/44'/60'/0{}/0/0", c, c),
        };
        check_text(&s, cx)
    }));
    d.push(Domain::new("every number of parts", 30 * 6, |i, cx| {
        let k = digits(i, &[30, 6]);
        let p = vec![["0", "1'", "", "m", "44'", "'"][k[1]]; k[0]].join("/");
        check_text(&p, cx)?;
        check_text(&format!("m/{}", p), cx)?;
        check_text(&format!("m/{}/", p), cx)?;
        check_text(&format!("/m/{}", p), cx)?;
        check_text(&format!(" m/{}", p), cx)
    }));
    let v: Vec<u32> = vec![0, 1, 2, 10, 44, 99, 0x0102_0304, H - 1, H, H + 1, H + 44, 0xffff_ffff];
    d.push(Domain::new("five boundary numbers, printed and read", 12u64.pow(5), move |i, cx| {
        let k = digits(i, &[12; 5]);
        check_text(&path_text(&[v[k[0]], v[k[1]], v[k[2]], v[k[3]], v[k[4]]]), cx)
    }));
    base(
        "C13",
        "every text is parsed by the real GenericKeyPath and compared with an own reading of the grammar, printed and parsed again; unmarked numbers from 2^31 on, a leading plus sign and blanks around components may be refused or read as what they say; non-trivial when the text is read or differs from a valid one in one place",
        "all components of up to 4 (thorough 5) symbols out of 15 in each place; all texts of up to 7 (8) tokens, alone and as endings; numbers around every power of two and ten up to 2^126; 0..69 and up to 65537 leading zeros before 14 numbers in each place; every Unicode character in 7 positions; 0..30 parts; 12^5 printed paths",
        d,
    )
}

fn paths_of(n: u32, many: bool) -> Vec<[u32; 5]> {
    let mut v = vec![];
    for (a, c, x) in [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (H - 1, 1, H - 1), (0, 0, 256), (256, 0, 0), (1, 1, 1)] {
        v.push([H + 44, refm::coin(n), H + a, c, x]);
    }
    if n == BTC {
        v[3] = [H + 49, H, H, 0, 0];
        v[5] = [H + 44, H + 1, H, 0, 0];
        v[6] = [H + 84, H, H, 0, 0];
        v[7] = [44, H, H, 0, 0];
    }
    if many {
        for (i, s) in idx_soft().iter().enumerate().filter(|(i, _)| i % 6 == 0) {
            v.push([H + 44, refm::coin(n), H + s, i as u32 / 6 & 1, 3]);
            v.push([H + 44, refm::coin(n), H + 3, i as u32 / 6 & 1, *s]);
        }
    }
    v
}
fn near_base(j: usize) -> Vec<u8> {
    match j {
        0 => b"pay".to_vec(),
        1 => b"pay 10 to Bob\n".to_vec(),
        2 => vec![],
        3 => vec![0],
        4 => vec![0; 32],
        5 => (1..33).collect(),
        6 => (0..64).collect(),
        7 => "{\"to\": \"Zo\u{e9}\", \"amount\": 1.50}".as_bytes().to_vec(),
        8 => b"0x68656c6c6f".to_vec(),
        9 => b"68656c6c6f".to_vec(),
        10 => b"  spaced  out  ".to_vec(),
        11 => vec![0xff; 20],
        12 => (0..136).map(|j| j as u8).collect(),
        13 => (0..137).map(|j| j as u8).collect(),
        14 => vec![0x80; 128],
        _ => (0..200u8).rev().collect(),
    }
}
fn near_count() -> u64 {
    1792 + 48
}
/// The j-th message near `m`, if there is one.
fn near_msg(m: &[u8], j: usize) -> Option<Vec<u8>> {
    let l = m.len();
    let b = (j % 256) as u8;
    let mut o = m.to_vec();
    let text = String::from_utf8_lossy(m).to_string();
    let at = |mut o: Vec<u8>, p: usize| {
        *o.get_mut(p)? = b;
        Some(o)
    };
    match j / 256 {
        0 => o.push(b),
        1 => o.insert(0, b),
        2 => o.insert(l / 2, b),
        3 => return at(o, 0),
        4 => return at(o, l.wrapping_sub(1)),
        5 => return at(o, l / 2),
        6 => {
            if j % 256 >= l {
                return None;
            }
            o.remove(j % 256);
        }
        _ => {
            return Some(match j - 1792 {
                0 => text.to_uppercase().into_bytes(),
                1 => text.to_lowercase().into_bytes(),
                2 => text.trim().as_bytes().to_vec(),
                3 => text.trim_start().as_bytes().to_vec(),
                4 => text.trim_end().as_bytes().to_vec(),
                5 => text.split_whitespace().collect::<Vec<_>>().join(" ").into_bytes(),
                6 => text.into_bytes(),
                7 => hex(m).into_bytes(),
                8 => format!("0x{}", hex(m)).into_bytes(),
                9 => bytes_try(&text)?,
                10 => bytes_try(text.trim_start_matches("0x"))?,
                11 => refm::keccak256(m).to_vec(),
                12 => refm::sha256(m).to_vec(),
                13 => refm::sha512(m).to_vec(),
                14 => [format!("\u{19}Ethereum Signed Message:\n{}", l).as_bytes(), m].concat(),
                15 => [b"\x18Bitcoin Signed Message:\n".to_vec(), vec![l as u8], o].concat(),
                16 => [m, m].concat(),
                17 => m.iter().rev().cloned().collect(),
                18..=24 => {
                    let size = [8, 32, 64, 128, 136, 256, 1024][j - 1792 - 18];
                    if l >= size { o[..size].to_vec() } else { o.resize(size, 0); o }
                }
                25..=31 => {
                    let size = [8usize, 32, 64, 128, 136, 256, 1024][j - 1792 - 25];
                    if l >= size { o[l - size..].to_vec() } else { [vec![0; size - l], o].concat() }
                }
                32 => o.into_iter().skip_while(|b| *b == 0).collect(),
                33 => {
                    while o.last() == Some(&0) {
                        o.pop();
                    }
                    o
                }
                34 => vec![],
                35 => o[..l / 2].to_vec(),
                36 => o[l / 2..].to_vec(),
                37 => [&m[l / 2..], &m[..l / 2]].concat(),
                38 => [m, b"\r\n"].concat(),
                39 => String::from_utf8_lossy(m).replace('\n', "\r\n").into_bytes(),
                40 => o.into_iter().filter(|b| !b.is_ascii_whitespace()).collect(),
                41 => o.into_iter().map(|b| b & 0x7f).collect(),
                42 => o.into_iter().map(|b| !b).collect(),
                43 => [(l as u32).to_be_bytes().to_vec(), o].concat(),
                44 => [vec![l as u8], o].concat(),
                45 => o.into_iter().filter(|b| *b != 0).collect(),
                46 => o.split(|b| *b == 0).next().unwrap().to_vec(),
                _ => refm::keccak256(&refm::keccak256(m)).to_vec(),
            })
        }
    }
    Some(o)
}
fn bytes_try(s: &str) -> Option<Vec<u8>> {
    if s.is_empty() || s.len() % 2 == 1 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    Some(unhex(s))
}
fn near_sig(n: usize, j: usize) -> Result<Vec<u8>, String> {
    static S: std::sync::OnceLock<Vec<Result<Vec<u8>, String>>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        (0..48)
            .map(|i| {
                let n = NETS[i / 16];
                wallet(7, &seed_n(23))?.sign(&net(n), &near_base(i % 16), &P(refm::std_path(n))).map_err(|e| e.to_string())
            })
            .collect()
    })[n * 16 + j]
        .clone()
}
fn near_own(n: usize, j: usize) -> Result<Vec<u8>, String> {
    static S: std::sync::OnceLock<Vec<Result<Vec<u8>, String>>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        (0..24)
            .map(|i| {
                let n = NETS[i / 8];
                wallet(7, &seed_n(25))?.sign(&net(n), b"near", &P(paths_of(n, false)[i % 8])).map_err(|e| e.to_string())
            })
            .collect()
    })[n * 8 + j]
        .clone()
}
/// The signature as any other implementation of the network's scheme sees it.
fn standard(n: u32, seed: &[u8], p: &[u32; 5], m: &[u8], sig: &[u8]) -> R {
    let pk = refm::pub_key(n, &refm::stored_key(n, seed), p).ok_or("no key")?;
    let what = || format!("signature {} of {} bytes by {} at {}", hex(sig), m.len(), refm::net_name(n), path_text(p));
    ensure!(sig.len() == refm::sig_len(n), "{}: {} bytes", what(), sig.len());
    ensure!(refm::verify64(n, &pk, m, sig), "{}: not good to an independent verifier", what());
    if n != ADA {
        ensure!(refm::recover65(m, sig).as_ref() == Some(&pk), "{}: does not recover to the key", what());
    }
    Ok(())
}
pub fn c14(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let (ns, np, nm) = if th { (4, 8, 8) } else { (2, 6, 4) };
    let one = ns * 3 * np * nm;
    d.push(Domain::new("all pairs of (seed, network, path, message)", one * one, move |i, cx| {
        let rad = [nm, np, 3, ns];
        let a = digits(i % one, &rad);
        let b = digits(i / one, &rad);
        let (n1, n2) = (NETS[a[2]], NETS[b[2]]);
        let (s1, s2) = (seed_n(20 + a[3]), seed_n(20 + b[3]));
        let (p1, p2) = (paths_of(n1, false)[a[1]], paths_of(n2, false)[b[1]]);
        let (m1, m2) = (msg_n(a[0]), msg_n(b[0]));
        let sig = wallet(7, &s1)?.sign(&net(n1), &m1, &P(p1)).map_err(|e| format!("sign at {}: {}", path_text(&p1), e))?;
        // another wallet of the other seed, with the network alone or with others
        let w = wallet([net_bit(n2), 7][i as usize % 2], &s2)?;
        let r = w.verify(&net(n2), &m2, &sig, &P(p2));
        let same = a == b;
        cx.steps(2);
        cx.state(hash2(hash(&sig), i / one));
        let what = || {
            format!(
                "signature {} of {} by {} at {} offered as signature of {} by {} at {}",
                hex(&sig),
                hex(&m1),
                refm::net_name(n1),
                path_text(&p1),
                hex(&m2),
                refm::net_name(n2),
                path_text(&p2)
            )
        };
        match (r, same) {
            (Ok(true), true) => {
                cx.outcome("verifies");
                standard(n1, &s1, &p1, &m1, &sig).map_err(|e| format!("{}: {}", what(), e))
            }
            (Ok(true), false) => Err(format!("{}: true", what())),
            (r, true) => Err(format!("{}: {:?}", what(), r.map_err(|e| e.to_string()))),
            (Ok(false), false) => {
                cx.outcome("false");
                Ok(())
            }
            (Err(_), false) => {
                cx.outcome("error");
                Ok(())
            }
        }
    }));
    let lens = if th { 1200 } else { 300 };
    d.push(Domain::new("messages of every length", 3 * lens, move |i, cx| {
        let k = digits(i, &[3, lens]);
        let n = NETS[k[0]];
        let m: Vec<u8> = (0..k[1]).map(|j| env::stream_byte(61, j as u64)).collect();
        let w = wallet(7, &seed_n(23))?;
        let p = P(refm::std_path(n));
        let sig = w.sign(&net(n), &m, &p).map_err(|e| e.to_string())?;
        ensure!(w.sign(&net(n), &m, &p).ok().as_ref() == Some(&sig), "signing twice");
        standard(n, &seed_n(23), &refm::std_path(n), &m, &sig)?;
        let v = |m: &[u8]| w.verify(&net(n), m, &sig, &p).unwrap_or(false);
        ensure!(v(&m), "own signature of {} bytes by {}", m.len(), refm::net_name(n));
        let mut longer = m.clone();
        longer.push(0);
        ensure!(!v(&longer), "a zero byte more verifies, {} bytes by {}", m.len(), refm::net_name(n));
        if !m.is_empty() {
            ensure!(!v(&m[1..]) && !v(&m[..m.len() - 1]), "a byte less verifies");
            for j in [0, m.len() / 2, m.len() - 1] {
                let mut c = m.clone();
                c[j] ^= 1;
                ensure!(!v(&c), "changed byte {} of {} verifies, {}", j, m.len(), refm::net_name(n));
            }
        }
        cx.steps(8);
        cx.state_of(&sig);
        Ok(())
    }));
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("long messages", 3 * nbig, move |i, cx| {
        let k = digits(i, &[3, nbig]);
        let (n, len) = (NETS[k[0]], big_sizes()[k[1]]);
        let m = bytes_n(len, 3);
        let w = wallet(7, &seed_n(23))?;
        let p = P(refm::std_path(n));
        let sig = w.sign(&net(n), &m, &p).map_err(|e| e.to_string())?;
        standard(n, &seed_n(23), &refm::std_path(n), &m, &sig)?;
        let v = |m: &[u8]| w.verify(&net(n), m, &sig, &p).unwrap_or(false);
        ensure!(v(&m), "own signature of {} bytes by {}", len, refm::net_name(n));
        let mut q = 1;
        while q <= len {
            for j in [q - 1, len - q] {
                let mut c = m.clone();
                c[j] ^= 1;
                ensure!(!v(&c), "changed byte {} of {} verifies, {}", j, len, refm::net_name(n));
            }
            ensure!(!v(&m[..q - 1]) && !v(&m[q..]), "a part of {} bytes verifies, {}", len, refm::net_name(n));
            cx.steps(4);
            q *= 2;
        }
        let mut c = m.clone();
        c.push(0);
        ensure!(!v(&c), "a byte more verifies, {} bytes by {}", len, refm::net_name(n));
        cx.steps(3);
        cx.state_of(&sig);
        Ok(())
    }));
    // what one wallet signed before makes no difference to what it signs next
    const RUN: [usize; 22] = [1, 2, 4, 8, 16, 31, 32, 33, 55, 56, 63, 64, 65, 100, 127, 128, 129, 135, 136, 200, 256, 300];
    let places: Vec<(usize, usize)> = RUN.iter().flat_map(|l| (0..*l).map(move |j| (*l, j))).collect();
    let npl = places.len() as u64;
    d.push(Domain::new("one message after another that differs in one byte", 3 * npl, move |i, cx| {
        let k = digits(i, &[npl, 3]);
        let (n, (len, j)) = (NETS[k[1]], places[k[0]]);
        let a = bytes_n(len, 5);
        let mut b = a.clone();
        b[j] ^= 0x55;
        let w = wallet(7, &seed_n(23))?;
        let p = refm::std_path(n);
        let mut before: Option<Vec<u8>> = None;
        for m in [&a, &b, &a] {
            let sig = w.sign(&net(n), m, &P(p)).map_err(|e| e.to_string())?;
            ensure!(w.verify(&net(n), m, &sig, &P(p)).unwrap_or(false), "own signature of {} by {} after another", hex(m), refm::net_name(n));
            if let Some(before) = before {
                ensure!(before != sig, "{} and {} have one signature by {}", hex(&a), hex(&b), refm::net_name(n));
                ensure!(!w.verify(&net(n), m, &before, &P(p)).unwrap_or(false), "the last signature verifies for {} too, {}", hex(m), refm::net_name(n));
            }
            before = Some(sig);
            cx.steps(3);
        }
        standard(n, &seed_n(23), &p, &a, before.as_ref().unwrap())?;
        cx.state_of(before.as_ref().unwrap());
        Ok(())
    }));
    d.push(Domain::new("one path after another on one wallet", 3, move |i, cx| {
        let n = NETS[i as usize];
        let mut ps = paths_of(n, true);
        let p0 = refm::std_path(n);
        for e in 2..5 {
            for b in 0..31 {
                let mut q = p0;
                q[e] ^= 1 << b;
                if e != 3 || q[e] < 2 {
                    ps.push(q);
                }
            }
        }
        let w = wallet(7, &seed_n(24))?;
        for (a, q) in ps.iter().enumerate() {
            for p in [&p0, q, &ps[(a * 7 + 3) % ps.len()], q] {
                let pk = w.pub_key(&net(n), &P(*p)).map_err(|e| e.to_string())?;
                ensure!(Some(&pk) == refm::pub_key(n, &refm::stored_key(n, &seed_n(24)), p).as_ref(), "the key of {} at {} after other paths is {}", refm::net_name(n), path_text(p), hex(&pk));
                let sig = w.sign(&net(n), b"m", &P(*p)).map_err(|e| e.to_string())?;
                standard(n, &seed_n(24), p, b"m", &sig)?;
                cx.steps(2);
                cx.state(hash2(hash(&sig), i));
            }
        }
        Ok(())
    }).chunk(1));
    d.push(Domain::new("all pairs of many paths", 3, move |i, cx| {
        let n = NETS[i as usize];
        let ps = paths_of(n, true);
        let w = wallet(7, &seed_n(24))?;
        let mut sigs = vec![];
        for p in &ps {
            sigs.push(w.sign(&net(n), b"m", &P(*p)).map_err(|e| format!("{}: {}", path_text(p), e))?);
            standard(n, &seed_n(24), p, b"m", &sigs[sigs.len() - 1])?;
        }
        for (a, p) in ps.iter().enumerate() {
            for (b, q) in ps.iter().enumerate() {
                if !th && a != b && (a * 31 + b * 17) % 5 != 0 {
                    continue;
                }
                let r = w.verify(&net(n), b"m", &sigs[b], &P(*p)).unwrap_or(false);
                ensure!(r == (p == q), "signature at {} verifies at {}: {}", path_text(q), path_text(p), r);
                cx.step();
                cx.state(hash2(a as u64, hash2(b as u64, i)));
            }
        }
        Ok(())
    }).chunk(1));
    // messages one could take for the signed one
    let nb = 16u64;
    let near = near_count();
    d.push(Domain::new("messages near the signed one", 3 * nb * near, move |i, cx| {
        let k = digits(i, &[near, nb, 3]);
        let n = NETS[k[2]];
        let m = near_base(k[1]);
        let o = match near_msg(&m, k[0]) {
            Some(o) if o != m => o,
            _ => return Ok(()),
        };
        let w = wallet(7, &seed_n(23))?;
        let p = P(refm::std_path(n));
        let what = |a: &[u8], b: &[u8]| format!("the signature of {} by {} verifies for {}", hex(a), refm::net_name(n), hex(b));
        let sig = near_sig(k[2], k[1])?;
        ensure!(!w.verify(&net(n), &o, &sig, &p).unwrap_or(false), "{}", what(&m, &o));
        cx.step();
        // and the other way round, for the special ones
        if k[0] as u64 >= 1792 {
            let sig = w.sign(&net(n), &o, &p).map_err(|e| e.to_string())?;
            ensure!(w.verify(&net(n), &o, &sig, &p).unwrap_or(false), "own signature of {}", hex(&o));
            standard(n, &seed_n(23), &refm::std_path(n), &o, &sig)?;
            ensure!(!w.verify(&net(n), &m, &sig, &p).unwrap_or(false), "{}", what(&o, &m));
            cx.steps(3);
        }
        cx.state(hash2(hash(&o), hash2(hash(&m), k[2] as u64)));
        Ok(())
    }));
    d.push(Domain::new("seeds and paths that differ in one bit", 3 * 8 * (512 + 5 * 32), move |i, cx| {
        let k = digits(i, &[512 + 5 * 32, 8, 3]);
        let n = NETS[k[2]];
        let p = paths_of(n, false)[k[1]];
        let s = seed_n(25);
        let sig = near_own(k[2], k[1])?;
        if k[0] < 512 {
            if k[0] % 8 != k[1] {
                return Ok(());
            }
            let mut s2 = s.clone();
            s2[k[0] / 8] ^= 1 << (k[0] % 8);
            if refm::stored_key(n, &s2) == refm::stored_key(n, &s) {
                return Ok(());
            }
            let r = wallet(7, &s2)?.verify(&net(n), b"near", &sig, &P(p)).unwrap_or(false);
            ensure!(!r, "a {} signature verifies under a seed with bit {} changed", refm::net_name(n), k[0]);
        } else {
            let mut q = p;
            q[(k[0] - 512) / 32] ^= 1 << (k[0] % 32);
            let w = wallet(7, &s)?;
            let r = w.verify(&net(n), b"near", &sig, &P(q)).unwrap_or(false);
            ensure!(!r, "the {} signature at {} verifies at {}", refm::net_name(n), path_text(&p), path_text(&q));
            // and the other way round, where the other path is served
            if let Ok(sig) = w.sign(&net(n), b"near", &P(q)) {
                let r = w.verify(&net(n), b"near", &sig, &P(p)).unwrap_or(false);
                ensure!(!r, "the {} signature at {} verifies at {}", refm::net_name(n), path_text(&q), path_text(&p));
                cx.steps(2);
            }
        }
        cx.step();
        cx.state(hash2(i, 14));
        Ok(())
    }));
    let many: u64 = if th { 4_000 } else { 800 };
    d.push(Domain::new("a great many messages", 3 * many, move |i, cx| {
        let k = digits(i, &[3, many]);
        let n = NETS[k[0]];
        let s = seed_n(28);
        let p = paths_of(n, false)[k[1] % 2];
        let w = wallet(7, &s)?;
        for j in 0..100u64 {
            let m = (k[1] as u64 * 100 + j).to_be_bytes();
            let sig = w.sign(&net(n), &m, &P(p)).map_err(|e| format!("signing {}: {}", hex(&m), e))?;
            ensure!(w.verify(&net(n), &m, &sig, &P(p)).unwrap_or(false), "own signature {} of {} by {}", hex(&sig), hex(&m), refm::net_name(n));
            standard(n, &s, &p, &m, &sig)?;
            cx.steps(2);
            cx.state_of(&sig);
        }
        Ok(())
    }));
    base(
        "C14",
        "signatures made by one real wallet are offered to another for every other combination and must verify exactly when seed, network, path and message are the same; own signatures are also judged by independent verifiers; non-trivial when the two sides differ",
        "all pairs of the combinations seeds x networks x paths x messages; all message lengths to the bound with neighbours; every byte place of messages of 22 lengths signed after one another; ~140 paths after one another; pairs of ~70 paths per network; 16 messages x ~1840 messages near them (each byte value put before, after, in place of the first, middle and last byte and between; each byte taken out; other cases, trims, paddings, hashes, prefixes, encodings); 80,000 messages per network signed and judged; all one-bit changes of a seed and of 8 paths per network",
        d,
    )
}

fn bytes_of(hexs: &str) -> Vec<u8> {
    unhex(hexs)
}
/// S + kL, little endian
fn add_l(s: &[u8], k: u32) -> Vec<u8> {
    let l = bytes_of("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010");
    let mut o = s.to_vec();
    for _ in 0..k {
        let mut c = 0u16;
        for i in 0..32 {
            let t = o[i] as u16 + l[i] as u16 + c;
            o[i] = t as u8;
            c = t >> 8;
        }
    }
    o
}
fn never_true(w: &Keychain, n: u32, msg: &[u8], good: &[u8], sig: &[u8], what: &str, cx: &mut Cx) -> R {
    cx.step();
    if sig == good {
        return Ok(());
    }
    if n == ADA && sig.len() == 64 && sig[..32] == good[..32] && (1..16).any(|k| sig[32..] == add_l(&good[32..], k)[..]) {
        return Ok(());
    }
    if n != ADA && (sig.len() == 64 || sig.len() == 65) {
        let mut s = [0; 32];
        s.copy_from_slice(&good[32..64]);
        let t = refm::sub_raw(&refm::order(), &s);
        if sig[..32] == good[..32] && (sig[32..64] == t || sig[32..64] == s) && (sig.len() == 64 || sig[64] == good[64] ^ (sig[32..64] == t) as u8) {
            return Ok(());
        }
    }
    let r = w.verify(&net(n), msg, sig, &P(refm::std_path(n)));
    ensure!(
        !matches!(r, Ok(true)),
        "{}: {} accepted by {} as signature of {} (signature {})",
        what,
        hex(sig),
        refm::net_name(n),
        hex(msg),
        hex(good)
    );
    let ok_len = if n == ADA { sig.len() == 64 } else { sig.len() == 64 || sig.len() == 65 };
    if !ok_len {
        match r {
            Err(Error::KeyError(m, _)) if m == net(n) => {}
            r => return Err(format!("{}: {} bytes for {}: {:?}", what, sig.len(), refm::net_name(n), r.map_err(|e| e.to_string()))),
        }
        cx.outcome("length refused");
    } else {
        cx.outcome(if r.is_ok() { "false" } else { "error" });
    }
    cx.state(hash2(hash(sig), hash2(hash(msg), n as u64)));
    Ok(())
}
fn check_stored(n: u32, k: &[u8], cx: &mut Cx) -> R {
    cx.step();
    let ok = refm::stored_ok(n, k) && !(n == ETH && k[0] >= 254);
    let r = factory(n).key_from_data(k);
    match (r, ok) {
        (Ok(key), true) => {
            let kc = Keychain::new(vec![key]);
            ensure!(kc.networks() == vec![net(n)], "stored key of {} makes {:?}", refm::net_name(n), kc.networks());
            let p = refm::std_path(n);
            let want = refm::pub_key(n, k, &p);
            let got = kc.pub_key(&net(n), &P(p));
            ensure!(got.as_ref().ok() == want.as_ref(), "stored key {} of {}: {}", hex(k), refm::net_name(n), show(&got));
            cx.outcome("key");
            cx.step();
        }
        (Err(e), false) => {
            let _ = e.to_string();
            cx.outcome("key refused");
        }
        (Ok(_), false) => return Err(format!("{} accepted as stored key of {}", hex(k), refm::net_name(n))),
        (Err(e), true) => return Err(format!("{} refused as stored key of {}: {}", hex(k), refm::net_name(n), e)),
    }
    cx.state(hash2(hash(k), n as u64));
    Ok(())
}
pub fn c15(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("signatures of every length", 3 * (300 + nbig) * 3, move |i, cx| {
        let mut k = digits(i, &[3, 300 + nbig, 3]);
        if k[1] >= 300 {
            k[1] = big_sizes()[k[1] - 300];
        }
        let n = NETS[k[0]];
        let w = wallet(7, &seed_n(25))?;
        let m = msg_n(3);
        let good = w.sign(&net(n), &m, &P(refm::std_path(n))).map_err(|e| e.to_string())?;
        let sig: Vec<u8> = match k[2] {
            0 => good.iter().cycle().cloned().take(k[1]).collect(),
            1 => good.iter().cloned().chain(std::iter::repeat(0)).take(k[1]).collect(),
            _ => vec![0; k[1]],
        };
        never_true(&w, n, &m, &good, &sig, "length", cx)
    }));
    d.push(Domain::new("signatures with something before or behind them", 3 * 256 * 24, |i, cx| {
        let k = digits(i, &[3, 256, 24]);
        let n = NETS[k[0]];
        let w = wallet(7, &seed_n(25))?;
        let m = msg_n(3);
        let good = w.sign(&net(n), &m, &P(refm::std_path(n))).map_err(|e| e.to_string())?;
        let x = k[1] as u8;
        let l = good.len() as u8;
        let (front, behind): (Vec<u8>, Vec<u8>) = match k[2] {
            0 => (vec![x], vec![]),
            1 => (vec![], vec![x]),
            2 => (vec![x, l], vec![]),
            3 => (vec![l, x], vec![]),
            4 => (vec![], vec![x, l]),
            5 => (vec![], vec![l, x]),
            6 => (vec![0, 0, 0, x], vec![]),
            7 => (vec![x, 0, 0, 0], vec![]),
            8 => (vec![], vec![0, 0, 0, x]),
            9 => (vec![], vec![x, 0, 0, 0]),
            10 => (vec![x; 8], vec![]),
            11 => (vec![], vec![x; 8]),
            12 => (vec![x], vec![x]),
            13 => (vec![0x30, x], vec![]),
            14 => (vec![x; 32], vec![]),
            15 => (vec![], vec![x; 32]),
            16 => (vec![x], good.clone()),
            17 => (good.clone(), vec![x]),
            18 => (vec![0x58, x], vec![]),
            19 => (vec![0, 0, 0, 0, 0, 0, 0, x], vec![]),
            20 => (vec![], m.iter().cloned().chain([x]).collect()),
            21 => (m.iter().cloned().chain([x]).collect(), vec![]),
            22 => (vec![x; 1 + k[1] % 3], vec![]),
            _ => (vec![], vec![x; 1 + k[1] % 3]),
        };
        let sig = [front, good.clone(), behind].concat();
        never_true(&w, n, &m, &good, &sig, "framed", cx)?;
        // and in other hands: a part of it as text
        let text = match k[2] % 4 {
            0 => hex(&good).into_bytes(),
            1 => refm::b64(&good).into_bytes(),
            2 => good.iter().rev().cloned().collect(),
            _ => good[(k[1] % good.len())..].to_vec(),
        };
        if text != good {
            never_true(&w, n, &m, &good, &text, "other form", cx)?;
        }
        Ok(())
    }));
    let nw = if th { 6 } else { 2 };
    d.push(Domain::new("every flipped bit and every value of every byte of signatures", 3 * nw * 65 * 264, move |i, cx| {
        let k = digits(i, &[264, 65, 3, nw]);
        let n = NETS[k[2]];
        if k[1] >= refm::sig_len(n) {
            return Ok(());
        }
        let w = single(n, &seed_n(26 + k[3]))?;
        let m = msg_n(7 + k[3]);
        let good = w.sign(&net(n), &m, &P(refm::std_path(n))).map_err(|e| e.to_string())?;
        let mut sig = good.clone();
        if k[0] < 256 {
            if k[3] > 0 && !th {
                return Ok(());
            }
            sig[k[1]] = k[0] as u8;
        } else {
            sig[k[1]] ^= 1 << (k[0] - 256);
        }
        never_true(&w, n, &m, &good, &sig, "changed", cx)
    }));
    // encodings of small-order and non-canonical points and boundary scalars
    let rs: Vec<Vec<u8>> = [
        "0100000000000000000000000000000000000000000000000000000000000000",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "0000000000000000000000000000000000000000000000000000000000000080",
        "0000000000000000000000000000000000000000000000000000000000000000",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
        "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    ]
    .iter()
    .map(|h| bytes_of(h))
    .collect();
    d.push(Domain::new("boundary values in both halves", 3 * 15 * 15 * 3, move |i, cx| {
        let k = digits(i, &[15, 15, 3, 3]);
        let n = NETS[k[2]];
        let w = single(n, &seed_n(28))?;
        let m = msg_n(k[3] * 3);
        let good = w.sign(&net(n), &m, &P(refm::std_path(n))).map_err(|e| e.to_string())?;
        let pk = refm::pub_key(n, &refm::stored_key(n, &seed_n(28)), &refm::std_path(n)).unwrap();
        let l = add_l(&[0; 32], 1);
        let mut l1 = l.clone();
        l1[0] -= 1;
        let half = |j: usize| -> Vec<u8> {
            match j {
                0..=10 => rs[j].clone(),
                11 => good[..32].to_vec(),
                12 => good[32..64].to_vec(),
                13 => pk[pk.len() - 64..][..32].to_vec(),
                _ => l1.clone(),
            }
        };
        let s = if k[1] == 9 { l.clone() } else { half(k[1]) };
        let mut sig = half(k[0]);
        sig.extend_from_slice(&s);
        if n != ADA {
            sig.push(0);
        }
        never_true(&w, n, &m, &good, &sig, "boundary halves", cx)
    }));
    d.push(Domain::new("stored keys of every length", 3 * (300 + nbig) * 4, move |i, cx| {
        let mut k = digits(i, &[3, 300 + nbig, 4]);
        if k[1] >= 300 {
            k[1] = big_sizes()[k[1] - 300];
        }
        let n = NETS[k[0]];
        let good = refm::stored_key(n, &seed_n(29));
        let b: Vec<u8> = match k[2] {
            0 => good.iter().cycle().cloned().take(k[1]).collect(),
            1 => good.iter().cloned().chain(std::iter::repeat(0)).take(k[1]).collect(),
            2 => vec![0; k[1]],
            _ if k[1] >= 4 => refm::with_checksum(&good.iter().cycle().cloned().take(k[1] - 4).collect::<Vec<_>>()),
            _ => vec![0x40; k[1]],
        };
        check_stored(n, &b, cx)
    }));
    let kinds = super::bip::looks(0, 0).1;
    d.push(Domain::new("stored keys that look like something", 3 * kinds * 300, move |i, cx| {
        let k = digits(i, &[3, kinds, 300]);
        check_stored(NETS[k[0]], &super::bip::looks(k[2], k[1]).0, cx)?;
        // a good key in a text form
        if k[2] < 6 && k[1] == 0 {
            let g = refm::stored_key(NETS[k[0]], &seed_n(3));
            let t = match k[2] {
                0 => hex(&g),
                1 => hex(&g).to_uppercase(),
                2 => refm::b64(&g),
                3 => format!("\"{}\"", refm::b64(&g)),
                4 => format!("0x{}", hex(&g)),
                _ => format!("{}\n", hex(&g)),
            };
            check_stored(NETS[k[0]], t.as_bytes(), cx)?;
        }
        Ok(())
    }));
    d.push(Domain::new("every value of every byte of stored keys", 3 * 96 * 256 * 2, |i, cx| {
        let k = digits(i, &[256, 96, 3, 2]);
        let n = NETS[k[2]];
        let mut b = refm::stored_key(n, &seed_n(30));
        if k[1] >= b.len() {
            return Ok(());
        }
        b[k[1]] = k[0] as u8;
        if k[3] == 1 && n != ADA {
            let l = b.len() - 4;
            b = refm::with_checksum(&b[..l]);
        } else if k[3] == 1 {
            b[(k[1] + 31) % 96] ^= 0x40;
        }
        check_stored(n, &b, cx)
    }));
    let nl = refm::near_checksums(&refm::stored_key(ETH, &seed_n(30))[..73]).len() as u64;
    d.push(Domain::new("what may be taken for the checksum of a stored key", nl * 2 * 3, move |i, cx| {
        let k = digits(i, &[nl, 2, 3]);
        let n = [ETH, BTC][k[1]];
        let mut b = refm::stored_key(n, &seed_n(30 + k[2]));
        let c = refm::near_checksums(&b[..73])[k[0]];
        b[73..].copy_from_slice(&c);
        check_stored(n, &b, cx)
    }));
    d.push(Domain::new("Cardano: all values of the clamped bytes", 65536, |i, cx| {
        let mut b = refm::stored_key(ADA, &seed_n(31));
        b[0] = i as u8;
        b[31] = (i >> 8) as u8;
        check_stored(ADA, &b, cx)
    }));
    d.push(Domain::new("secp256k1 keys around the edges of their range", 2 * 4 * 257, |i, cx| {
        let k = digits(i, &[257, 4, 2]);
        let n = [ETH, BTC][k[2]];
        let mut s = [[0; 32], refm::order(), refm::sub_raw(&refm::order(), &crate::checks::secp::scalars()[0]), [0xff; 32]][k[1]];
        if k[0] < 256 {
            s[k[0] / 8] ^= 0x80 >> (k[0] % 8);
        }
        let mut b = refm::stored_key(n, &seed_n(32));
        b[41..73].copy_from_slice(&s);
        check_stored(n, &refm::with_checksum(&b[..73]), cx)
    }));
    d.push(Domain::new("keys of one network offered to another", 9 * 40, |i, cx| {
        let k = digits(i, &[3, 3, 40]);
        check_stored(NETS[k[0]], &refm::stored_key(NETS[k[1]], &seed_n(k[2])), cx)
    }));
    base(
        "C15",
        "every byte string is offered to the real verify or key_from_data; true, or a key, only where the model has a signature or valid key, and an error for every wrong length; non-trivial when it differs from a valid one",
        "lengths 0..299 in several shapes; all one-bit changes and all values of each byte of signatures and stored keys (with and without the checksum made right); all 65536 clamped Cardano byte pairs; scalars within one bit of the edges; small-order and non-canonical points; S+kL and n-s twins are left open",
        d,
    )
}
#[allow(dead_code)]
pub fn key_of(net: u32, stored: &[u8]) -> Result<Box<dyn Key>, KeyError> {
    factory(net).key_from_data(stored)
}
#[allow(dead_code)]
pub fn all_manager() -> KeychainManager {
    manager(7)
}
