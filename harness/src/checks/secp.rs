//! C07-C09: the secp256k1_bip32 crate.
use super::base;
use crate::engine::*;
use crate::env::stream_byte;
use crate::refm::{self, half_order, order, scalar_ok, with_checksum, X, H};
use crate::util::*;
use bip39::Seed;
use secp256k1_bip32::XPrv;

fn seed(b: &[u8]) -> Seed {
    Seed::from_slice(b).expect("64 bytes")
}
/// The implementation's key is the model's key.
fn same(k: &XPrv, x: &X, what: &dyn Fn() -> String) -> R {
    let got = k.serialize();
    let want = x.ser();
    ensure!(got == want, "{}: key is {}, BIP-32 says {}", what(), hex(&got), hex(&want));
    let p = k.public();
    let pk = x.pub65();
    ensure!(p.serialize() == pk.to_vec(), "{}: public key {}, should be {}", what(), hex(&p.serialize()), hex(&pk));
    let c = refm::compress(&pk);
    ensure!(p.serialize_compressed() == c.to_vec(), "{}: compressed public key", what());
    ensure!(p.sha256() == refm::sha256(&pk) && p.compressed_sha256() == refm::sha256(&c), "{}: public key hash", what());
    Ok(())
}
fn step(k: &XPrv, x: &X, i: u32, cx: &mut Cx, what: &dyn Fn() -> String) -> Result<Option<(XPrv, X)>, String> {
    cx.step();
    match (k.derive(i), x.child(i)) {
        (Ok(k), Some(x)) => {
            same(&k, &x, &|| format!("{} / {:#x}", what(), i))?;
            cx.state_of(&x.body());
            Ok(Some((k, x)))
        }
        (Err(_), None) => Ok(None),
        (Ok(k), None) => Err(format!("{} / {:#x}: gave {}, BIP-32 has no such key", what(), i, hex(&k.serialize()))),
        (Err(e), Some(_)) => Err(format!("{} / {:#x}: refused: {}", what(), i, e)),
    }
}
/// Scalars at the ends of the range and in between.
pub fn scalars() -> Vec<[u8; 32]> {
    let n = order();
    let small = |k: u8| {
        let mut a = [0; 32];
        a[31] = k;
        a
    };
    let mut v = vec![
        small(1),
        small(2),
        refm::sub_raw(&n, &small(1)),
        refm::sub_raw(&n, &small(2)),
        half_order(),
        refm::add_mod_n(&half_order(), &small(1)),
        [0x11; 32],
        [0x7f; 32],
        [0x80; 32],
        [0xfe; 32],
    ];
    let mut a = [0; 32];
    a[0] = 0x80;
    v.push(a);
    a[0] = 1;
    v.push(a);
    let mut b = [0; 32];
    b[16] = 1;
    v.push(b);
    for k in 0..8 {
        let mut a = [0; 32];
        for i in 0..32 {
            a[i] = stream_byte(0x5ca1 + k, i as u64);
        }
        v.push(a);
    }
    v
}
fn from_x(x: &X) -> Result<XPrv, String> {
    XPrv::from_data(&x.ser()).map_err(|e| format!("{} refused: {}", hex(&x.ser()), e))
}

pub fn c07(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    d.push(Domain::new("master keys of seeds", 512 * 2 + 64, |i, cx| {
        let s = if i < 1024 {
            let mut s = if i < 512 { vec![0; 64] } else { seed_n(9) };
            s[(i % 512 / 8) as usize] ^= 0x80 >> (i % 8);
            s
        } else {
            seed_n((i - 1024) as usize)
        };
        let x = X::master(&s).expect("master");
        let k = XPrv::from_seed(&seed(&s)).map_err(|e| format!("seed {}: {}", hex(&s), e))?;
        same(&k, &x, &|| format!("seed {}", hex(&s)))?;
        cx.step();
        cx.state_of(&x.body());
        cx.sample("master", || format!("{} -> {}", hex(&s), hex(&x.ser())));
        Ok(())
    }));
    // one key object used long, against a fresh one of the same bytes each time
    d.push(Domain::new("very many children of one key", 3, move |i, cx| {
        let data = X::master(&seed_n(9)).expect("master").ser();
        let k = XPrv::from_data(&data).map_err(|e| e.to_string())?;
        let ask = |k: &XPrv, j: usize| -> String {
            let n = [j as u32, H + j as u32, (j as u32).wrapping_mul(0x9E37_79B1)][i as usize];
            match k.derive(n) {
                Ok(c) => hex(&c.serialize()),
                Err(e) => e.to_string(),
            }
        };
        let fresh = |j: usize| ask(&XPrv::from_data(&data).expect("the same bytes"), j);
        super::life::long_use(if th { 70_001 } else { 4200 }, "one key", &mut |j| ask(&k, j), &mut |j| fresh(j), cx)
    }).chunk(1));
    let idx = idx_all();
    let ni = idx.len() as u64;
    let ns = if th { 40 } else { 8 };
    d.push(Domain::new("children of masters at every index of the alphabet", ns * ni, move |i, cx| {
        let k = digits(i, &[ni, ns]);
        let s = seed_n(k[1] + 2);
        let x = X::master(&s).expect("master");
        let m = XPrv::from_seed(&seed(&s)).map_err(|e| e.to_string())?;
        let r = step(&m, &x, idx[k[0]], cx, &|| format!("master of {}", hex(&s)))?;
        if let Some((_, x)) = r {
            cx.outcome(if idx[k[0]] >= H { "hardened" } else { "normal" });
            cx.sample("child", || format!("index {:#x} -> {}", idx[k[0]], hex(&x.ser())));
        }
        Ok(())
    }));
    let al: Vec<u32> = if th { vec![0, 1, 0x100, H - 1, H, H + 1, 0xffff_ffff] } else { vec![0, 1, H - 1, H, 0xffff_ffff] };
    let na = al.len() as u64;
    let nchain = if th { 3 } else { 1 };
    d.push(Domain::new("derivation trees of depth 5", na.pow(3) * nchain, move |i, cx| {
        let k = digits(i, &[na, na, na, nchain]);
        let s = seed_n(8 + k[3]);
        let mut x = X::master(&s).expect("master");
        let mut p = XPrv::from_seed(&seed(&s)).map_err(|e| e.to_string())?;
        let mut name = format!("seed {}", hex(&s[..8]));
        for j in 0..3 {
            let r = step(&p, &x, al[k[j]], cx, &|| name.clone())?.ok_or("refused")?;
            name += &format!("/{:#x}", al[k[j]]);
            p = r.0;
            x = r.1;
        }
        for a in &al {
            let (q, y) = step(&p, &x, *a, cx, &|| name.clone())?.ok_or("refused")?;
            for b in &al {
                step(&q, &y, *b, cx, &|| format!("{}/{:#x}", name, a))?;
            }
        }
        // the parents are as they were
        same(&p, &x, &|| format!("{} after deriving children", name))
    }));
    d.push(Domain::new("down to depth 255 and beyond", 4, |i, cx| {
        let s = seed_n(20);
        let mut x = X::master(&s).expect("master");
        let mut p = XPrv::from_seed(&seed(&s)).map_err(|e| e.to_string())?;
        for d in 0..255u32 {
            let idx = match i {
                0 => 0,
                1 => H,
                2 => d,
                _ => H + d * 0x01010101 % H,
            };
            let r = step(&p, &x, idx, cx, &|| format!("chain {} at depth {}", i, d))?.ok_or("refused")?;
            p = r.0;
            x = r.1;
        }
        for idx in [0, 1, H - 1, H, 0xffff_ffff] {
            ensure!(p.derive(idx).is_err(), "derived beyond depth 255 at {:#x}", idx);
            cx.step();
        }
        cx.outcome("refused beyond 255");
        same(&p, &x, &|| "the key of depth 255".into())
    }).chunk(1));
    let sc = scalars();
    let nk = sc.len() as u64;
    let few: Vec<u32> = vec![0, 1, 0x7fff_ffff, H, H + 44, 0xffff_ffff, 0x0102_0304, 0xff00_ff00];
    let nf = few.len() as u64;
    let depths: Vec<u8> = if th { (0..=255).collect() } else { vec![0, 1, 2, 127, 128, 253, 254, 255] };
    let nd = depths.len() as u64;
    let ncc = if th { 6 } else { 3 };
    d.push(Domain::new("children of arbitrary parents", nk * nf * nd * ncc, move |i, cx| {
        let k = digits(i, &[nk, nf, nd, ncc]);
        let cc = match k[3] {
            0 => [0u8; 32],
            1 => [0xff; 32],
            c => {
                let mut a = [0; 32];
                for j in 0..32 {
                    a[j] = stream_byte(c as u64 + 900, j as u64);
                }
                a
            }
        };
        let x = X { depth: depths[k[2]], fp: [1, 2, 0xfd, 0xfe], index: 0x80000007, cc, key: sc[k[0]] };
        let p = from_x(&x)?;
        same(&p, &x, &|| "loaded key".into())?;
        let r = step(&p, &x, few[k[1]], cx, &|| format!("key {}", hex(&x.ser())))?;
        cx.outcome(if r.is_some() { "derived" } else { "refused" });
        Ok(())
    }));
    let order = refm::orderly(64);
    d.push(Domain::new("seeds with some order in them", order.len() as u64, move |i, cx| {
        let s = &order[i as usize];
        let x = X::master(s).expect("master");
        let k = XPrv::from_seed(&seed(s)).map_err(|e| format!("seed {}: {}", hex(s), e))?;
        same(&k, &x, &|| format!("seed {}", hex(s)))?;
        step(&k, &x, 0, cx, &|| format!("seed {}", hex(s)))?;
        step(&k, &x, H, cx, &|| format!("seed {}", hex(s))).map(|_| ())
    }));
    let order = refm::orderly(32);
    d.push(Domain::new("keys with some order in them", order.len() as u64 * 3, move |i, cx| {
        let mut key = [0; 32];
        key.copy_from_slice(&order[i as usize / 3]);
        if !scalar_ok(&key) {
            return Ok(());
        }
        let mut cc = [0x5c; 32];
        if i % 3 > 0 {
            cc = key;
        }
        if i % 3 == 2 {
            cc.reverse();
        }
        let x = X { depth: 1, fp: [9, 8, 7, 6], index: H, cc, key };
        let k = from_x(&x)?;
        same(&k, &x, &|| "loaded key".into())?;
        step(&k, &x, 0, cx, &|| format!("key {}", hex(&x.ser())))?;
        step(&k, &x, H + 1, cx, &|| format!("key {}", hex(&x.ser()))).map(|_| ())
    }));
    let many: u64 = if th { 400_000 } else { 100_000 };
    d.push(Domain::new("a great many children of a few parents", 4 * many, move |i, cx| {
        let k = digits(i, &[4, many]);
        let sd = seed_n(60 + k[0] / 2);
        let x = X::master(&sd).expect("master");
        let idx = k[1] as u32 | if k[0] % 2 == 1 { H } else { 0 };
        let r = step(&from_x(&x)?, &x, idx, cx, &|| format!("master of {}", hex(&sd)))?;
        if let Some((_, y)) = r {
            let z = |b: &[u8]| b.iter().take_while(|c| **c == 0).count();
            let p = y.pub65();
            for (n, b) in [("scalar", &y.key[..]), ("chain code", &y.cc), ("x", &p[1..33]), ("y", &p[33..])] {
                if z(b) > 1 {
                    cx.outcome(&format!("{} with {} leading zero bytes", n, z(b)));
                }
            }
        }
        Ok(())
    }));
    base(
        "C07",
        "every operation of the real XPrv is compared, at every node of the derivation tree, with an own BIP-32 model (HMAC-SHA512, SHA-256, RIPEMD-160 and modular addition implemented independently); a case is a seed or parent and an index or chain; non-trivial when it derives a key",
        "seeds: all one-bit changes of two 64-byte seeds and 64 patterns; indices: all <= 40, neighbours of every power of 2 and 10, byte patterns, each normal and hardened; derivation trees of depth 5 over the boundary indices; parents: boundary scalars x chain codes x depths x indices; chains to depth 255; all children below 100,000, normal and hardened, of two masters",
        d,
    )
}

pub fn c08(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    fn sample_x(k: usize) -> X {
        let sc = scalars();
        let mut cc = [0; 32];
        for j in 0..32 {
            cc[j] = stream_byte(k as u64 + 40, j as u64);
        }
        X {
            depth: [0, 1, 5, 255][k % 4],
            fp: [k as u8, 0, 0xff, 7],
            index: [0, H, 0xffff_ffff, 0x01020304, 0x7fff_ffff][k % 5],
            cc,
            key: sc[(k * 7 + 13) % sc.len()],
        }
    }
    /// offered bytes against the model
    fn offer(b: &[u8], cx: &mut Cx) -> R {
        let want = X::parse(b);
        cx.step();
        match (XPrv::from_data(b), want) {
            (Ok(k), Some(x)) => {
                ensure!(k.serialize() == b, "{} written as {}", hex(b), hex(&k.serialize()));
                ensure!(k.public().serialize() == x.pub65().to_vec(), "{}: public key", hex(b));
                cx.outcome("read");
            }
            (Err(_), None) => cx.outcome("refused"),
            (Ok(k), None) => return Err(format!("{} accepted as {}", hex(b), hex(&k.serialize()))),
            (Err(e), Some(_)) => return Err(format!("{} refused: {}", hex(b), e)),
        }
        cx.state_of(b);
        Ok(())
    }
    let sc = scalars();
    let nk = sc.len() as u64;
    let few = idx_few();
    let nf = few.len() as u64;
    d.push(Domain::new("every depth, boundary scalars and indices", 256 * nk * nf, move |i, cx| {
        let k = digits(i, &[256, nk, nf]);
        let x = X {
            depth: k[0] as u8,
            fp: few[k[2]].to_le_bytes(),
            index: few[k[2]] ^ (H * (k[0] as u32 & 1)),
            cc: [k[0] as u8; 32],
            key: sc[k[1]],
        };
        cx.sample("key", || hex(&x.ser()));
        offer(&x.ser(), cx)
    }));
    d.push(Domain::new("every value of every byte, checksum recomputed", 73 * 256 * 2, |i, cx| {
        let k = digits(i, &[256, 73, 2]);
        let mut b = sample_x(k[2] + 1).body();
        b[k[1]] = k[0] as u8;
        offer(&with_checksum(&b), cx)
    }));
    d.push(Domain::new("every length", 4 * 400, |i, cx| {
        let k = digits(i, &[4, 400]);
        let good = sample_x(3).ser();
        let n = k[1];
        let b: Vec<u8> = match k[0] {
            0 => good.iter().cloned().chain((0..400).map(|_| 0)).take(n).collect(),
            1 => {
                // right checksum over another length
                if n < 4 {
                    vec![0; n]
                } else {
                    let body: Vec<u8> = good.iter().cycle().cloned().take(n - 4).collect();
                    with_checksum(&body)
                }
            }
            2 => (0..n).map(|j| good[(j + 77 * 10 - n) % 77]).collect(),
            _ => good.iter().cycle().cloned().take(n).collect(),
        };
        offer(&b, cx)
    }));
    let nb = if th { 12 } else { 4 };
    d.push(Domain::new("every flipped bit", 616 * nb, move |i, cx| {
        let k = digits(i, &[616, nb]);
        let mut b = sample_x(k[1]).ser();
        b[k[0] / 8] ^= 0x80 >> (k[0] % 8);
        offer(&b, cx)
    }));
    let nb2 = if th { 4 } else { 1 };
    d.push(Domain::new("every two flipped bits", 616 * 616 * nb2, move |i, cx| {
        let k = digits(i, &[616, 616, nb2]);
        if k[0] >= k[1] {
            return Ok(());
        }
        let mut b = sample_x(k[2] + 5).ser();
        b[k[0] / 8] ^= 0x80 >> (k[0] % 8);
        b[k[1] / 8] ^= 0x80 >> (k[1] % 8);
        offer(&b, cx)
    }));
    d.push(Domain::new("private keys around 0 and the group order", 4 * 257, |i, cx| {
        let k = digits(i, &[257, 4]);
        let one = {
            let mut a = [0; 32];
            a[31] = 1;
            a
        };
        let mut s = [[0; 32], order(), refm::sub_raw(&order(), &one), [0xff; 32]][k[1]];
        if k[0] < 256 {
            s[k[0] / 8] ^= 0x80 >> (k[0] % 8);
        }
        let mut x = sample_x(2);
        x.key = s;
        cx.outcome(if scalar_ok(&s) { "in range" } else { "out of range" });
        offer(&x.ser(), cx)
    }));
    d.push(Domain::new("every value of two checksum bytes", 6 * 65536, |i, cx| {
        let k = digits(i, &[256, 256, 6]);
        let mut b = sample_x(6).ser();
        let (p, q) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][k[2]];
        b[73 + p] = k[0] as u8;
        b[73 + q] = k[1] as u8;
        offer(&b, cx)
    }));
    let nl = refm::near_checksums(&sample_x(6).body()).len() as u64;
    let keys = if th { 64 } else { 12 };
    d.push(Domain::new("what may be taken for the checksum", nl * keys, move |i, cx| {
        let k = digits(i, &[nl, keys]);
        let mut x = sample_x(k[1] / 3);
        if k[1] % 3 == 1 {
            x.depth = 0;
            x.fp = [0; 4];
            x.index = 0;
        } else if k[1] % 3 == 2 {
            x.cc = [0; 32];
        }
        let mut b = x.body();
        let c = refm::near_checksums(&b)[k[0]];
        b.extend_from_slice(&c);
        offer(&b, cx)
    }));
    base(
        "C08",
        "each byte string is offered to the real XPrv::from_data and judged by an own parser (length, double SHA-256, range), and what is accepted must be written back identically; non-trivial when the model and the bytes are distinct",
        "all depths x boundary scalars x indices; every value of each of the 73 body bytes with the checksum made right; lengths 0..399 in four shapes; all one-bit and two-bit changes; all values of each pair of checksum bytes; constant checksums, parts and shifts of the right one, pieces of other hashes; scalars within one bit of 0, n-1, n, 2^256-1",
        d,
    )
}

struct Signer {
    k: XPrv,
    pk: Vec<u8>,
}
fn signer(key: &[u8; 32]) -> Signer {
    let x = X { depth: 0, fp: [0; 4], index: 0, cc: [7; 32], key: *key };
    Signer { k: from_x(&x).expect("key"), pk: x.pub65().to_vec() }
}
/// r, s, recovery number are a signature's, or its n-s twin's
fn twin(sig: &[u8]) -> Vec<u8> {
    let mut s = [0; 32];
    s.copy_from_slice(&sig[32..64]);
    let mut o = sig[..32].to_vec();
    o.extend_from_slice(&refm::sub_raw(&order(), &s));
    if sig.len() == 65 {
        o.push(sig[64] ^ 1);
    }
    o
}
fn must_fail(s: &Signer, msg: &[u8], sig: &[u8], good: &[u8], what: &str, cx: &mut Cx) -> R {
    cx.step();
    if sig == good || sig == &good[..64] || sig == &twin(good)[..] || sig == &twin(good)[..64] {
        return Ok(());
    }
    let r = s.k.public().verify(msg, sig);
    let ok = match r {
        Ok(b) => b,
        Err(_) => false,
    };
    ensure!(!ok, "{}: {} accepted as signature of {} by {}", what, hex(sig), hex(msg), hex(&s.pk));
    if sig.len() != 64 && sig.len() != 65 {
        ensure!(r.is_err(), "{}: {} bytes give {:?} and no error", what, sig.len(), r.ok());
        cx.outcome("length refused");
    } else {
        cx.outcome(if r.is_err() { "error" } else { "false" });
    }
    cx.state(hash2(hash(sig), hash2(hash(msg), hash(&s.pk))));
    Ok(())
}
fn sign_ok(s: &Signer, msg: &[u8], cx: &mut Cx) -> Result<Vec<u8>, String> {
    let sig = s.k.sign(msg).map_err(|e| format!("signing {}: {}", hex(msg), e))?;
    ensure!(sig.len() == 65, "signature of {} bytes", sig.len());
    ensure!(sig[32..64] <= half_order()[..], "s of {} is in the upper half", hex(&sig));
    ensure!(sig[64] < 2, "recovery number {}", sig[64]);
    ensure!(s.k.sign(msg).ok().as_ref() == Some(&sig), "signing {} twice gives different bytes", hex(msg));
    for form in [&sig[..], &sig[..64]] {
        match s.k.public().verify(msg, form) {
            Ok(true) => {}
            r => return Err(format!("own signature {} of {}: {:?}", hex(form), hex(msg), r.map_err(|e| e.to_string()))),
        }
    }
    ensure!(
        refm::recover65(msg, &sig).as_deref() == Some(&s.pk[..]),
        "signature {} of {} does not recover to {}",
        hex(&sig),
        hex(msg),
        hex(&s.pk)
    );
    ensure!(refm::verify64(refm::ETH, &s.pk, msg, &sig[..64]), "signature {} of {}", hex(&sig), hex(msg));
    cx.steps(4);
    cx.state_of(&sig);
    cx.outcome(if sig[64] == 0 { "recovery 0" } else { "recovery 1" });
    cx.sample("signature", || format!("{} by {} -> {}", hex(msg), hex(&s.pk), hex(&sig)));
    Ok(sig)
}
pub fn c09(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let lens = if th { 700 } else { 290 };
    let nk = scalars().len() as u64;
    let keys = if th { nk } else { 6 };
    d.push(Domain::new("keys and messages of every length", keys * lens, move |i, cx| {
        let k = digits(i, &[keys, lens]);
        let s = signer(&scalars()[if th { k[0] } else { [0, 2, 4, 8, 13, 20][k[0]] }]);
        let m: Vec<u8> = (0..k[1]).map(|j| stream_byte(k[0] as u64, j as u64)).collect();
        let sig = sign_ok(&s, &m, cx)?;
        // one byte more, one less
        let mut m2 = m.clone();
        m2.push(0);
        must_fail(&s, &m2, &sig, &[0; 65], "longer message", cx)?;
        if !m.is_empty() {
            must_fail(&s, &m[..m.len() - 1], &sig, &[0; 65], "shorter message", cx)?;
        }
        Ok(())
    }));
    // one key object used long, against a fresh one of the same bytes each time
    d.push(Domain::new("very many signatures of one key", 2, move |i, cx| {
        let data = X::master(&seed_n(9)).expect("master").ser();
        let k = XPrv::from_data(&data).map_err(|e| e.to_string())?;
        let ask = |k: &XPrv, j: usize| -> String {
            let m = (j as u64).to_be_bytes();
            match k.sign(&m) {
                Ok(g) if i == 0 => hex(&g),
                Ok(g) => format!("{:?}", k.public().verify(&m[..8 - j % 2], &g).map_err(|e| e.to_string())),
                Err(e) => e.to_string(),
            }
        };
        let fresh = |j: usize| ask(&XPrv::from_data(&data).expect("the same bytes"), j);
        super::life::long_use(if th { 70_001 } else { 4200 }, "one key", &mut |j| ask(&k, j), &mut |j| fresh(j), cx)
    }).chunk(1));
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("long messages", 2 * nbig, move |i, cx| {
        let k = digits(i, &[nbig, 2]);
        let s = signer(&scalars()[[0, 13][k[1]]]);
        let n = big_sizes()[k[0]];
        let m = bytes_n(n, k[1] * 2);
        let sig = sign_ok(&s, &m, cx)?;
        let mut p = 1;
        while p <= n {
            let mut o = m.clone();
            o[p - 1] ^= 0x80;
            must_fail(&s, &o, &sig, &[0; 65], "changed message", cx)?;
            o[p - 1] ^= 0x80;
            o[n - p] ^= 1;
            must_fail(&s, &o, &sig, &[0; 65], "changed message", cx)?;
            must_fail(&s, &m[..p - 1], &sig, &[0; 65], "beginning of the message", cx)?;
            must_fail(&s, &m[p..], &sig, &[0; 65], "end of the message", cx)?;
            p *= 4;
        }
        let mut o = m.clone();
        o.push(0);
        must_fail(&s, &o, &sig, &[0; 65], "longer message", cx)
    }));
    let nm = if th { 24 } else { 10 };
    d.push(Domain::new("all pairs of keys and messages", nk * nm, move |i, cx| {
        let k = digits(i, &[nk, nm]);
        let sc = scalars();
        let s = signer(&sc[k[0]]);
        let m = msg_n(k[1]);
        let sig = sign_ok(&s, &m, cx)?;
        for (j, o) in sc.iter().enumerate() {
            if j != k[0] {
                must_fail(&signer(o), &m, &sig, &[0; 65], "other key", cx)?;
                must_fail(&signer(o), &m, &sig[..64], &[0; 65], "other key", cx)?;
            }
        }
        for j in 0..nm as usize {
            if j != k[1] {
                must_fail(&s, &msg_n(j), &sig, &[0; 65], "other message", cx)?;
                must_fail(&s, &msg_n(j), &sig[..64], &[0; 65], "other message", cx)?;
            }
        }
        Ok(())
    }));
    d.push(Domain::new("every flipped bit of a message", 3 * 512, |i, cx| {
        let k = digits(i, &[512, 3]);
        let s = signer(&scalars()[13 + k[1]]);
        let mut m: Vec<u8> = (0..64).map(|j| stream_byte(5, j)).collect();
        let sig = s.k.sign(&m).map_err(|e| e.to_string())?;
        m[k[0] / 8] ^= 0x80 >> (k[0] % 8);
        must_fail(&s, &m, &sig, &[0; 65], "flipped message bit", cx)?;
        must_fail(&s, &m, &sig[..64], &[0; 65], "flipped message bit", cx)
    }));
    let nb = if th { 10 } else { 4 };
    d.push(Domain::new("every flipped bit of a signature", nb * 520, move |i, cx| {
        let k = digits(i, &[520, nb]);
        let s = signer(&scalars()[10 + k[1]]);
        let m = msg_n(k[1]);
        let good = s.k.sign(&m).map_err(|e| e.to_string())?;
        let mut sig = good.clone();
        sig[k[0] / 8] ^= 0x80 >> (k[0] % 8);
        must_fail(&s, &m, &sig, &good, "flipped bit", cx)?;
        if k[0] < 512 {
            must_fail(&s, &m, &sig[..64], &good, "flipped bit", cx)?;
        }
        Ok(())
    }));
    d.push(Domain::new("every value of every byte of a signature", 65 * 256, |i, cx| {
        let k = digits(i, &[256, 65]);
        let s = signer(&scalars()[17]);
        let m = msg_n(9);
        let good = s.k.sign(&m).map_err(|e| e.to_string())?;
        let mut sig = good.clone();
        sig[k[1]] = k[0] as u8;
        must_fail(&s, &m, &sig, &good, "changed byte", cx)?;
        let mut tw = twin(&good);
        tw[k[1]] = k[0] as u8;
        must_fail(&s, &m, &tw, &good, "changed byte of the twin", cx)
    }));
    d.push(Domain::new("every last byte, several keys and messages", 256 * 16, |i, cx| {
        let k = digits(i, &[256, 16]);
        let s = signer(&scalars()[3 + k[1]]);
        let m = msg_n(k[1] / 2);
        let good = s.k.sign(&m).map_err(|e| e.to_string())?;
        let mut sig = good.clone();
        sig[64] = k[0] as u8;
        must_fail(&s, &m, &sig, &good, "last byte", cx)
    }));
    d.push(Domain::new("every length", 3 * (300 + nbig), move |i, cx| {
        let k = digits(i, &[3, 300 + nbig]);
        let s = signer(&scalars()[14]);
        let m = msg_n(3);
        let good = s.k.sign(&m).map_err(|e| e.to_string())?;
        let n = if k[1] < 300 { k[1] } else { big_sizes()[k[1] - 300] / 5 };
        let sig: Vec<u8> = match k[0] {
            0 => good.iter().cycle().cloned().take(n).collect(),
            1 => good.iter().cloned().chain(std::iter::repeat(0)).take(n).collect(),
            _ => std::iter::repeat(0).take(300).chain(good.iter().cloned()).skip(365 - n.min(365)).take(n).collect(),
        };
        must_fail(&s, &m, &sig, &good, "length", cx)
    }));
    let e = 14u64;
    d.push(Domain::new("r and s from the edges of their range", 2 * e * e * 3, move |i, cx| {
        let k = digits(i, &[e, e, 3, 2]);
        let s = signer(&scalars()[13 + k[3]]);
        let m = msg_n(7);
        let good = s.k.sign(&m).map_err(|e| e.to_string())?;
        let one = scalars()[0];
        let n = order();
        let part = |b: &[u8]| {
            let mut a = [0; 32];
            a.copy_from_slice(b);
            a
        };
        let (r, ss) = (part(&good[..32]), part(&good[32..64]));
        let mut px = [0; 32];
        px.copy_from_slice(&s.pk[1..33]);
        let vals: Vec<[u8; 32]> = vec![
            [0; 32],
            one,
            scalars()[1],
            refm::sub_raw(&n, &one),
            n,
            refm::add_mod_n(&half_order(), &one),
            half_order(),
            [0xff; 32],
            r,
            ss,
            refm::sub_raw(&n, &r),
            refm::sub_raw(&n, &ss),
            px,
            refm::keccak256(&m),
        ];
        let mut sig = vals[k[0]].to_vec();
        sig.extend_from_slice(&vals[k[1]]);
        if k[2] < 2 {
            sig.push(k[2] as u8);
        }
        must_fail(&s, &m, &sig, &good, "edge values", cx)
    }));
    let many: u64 = if th { 1_000_000 } else { 200_000 };
    d.push(Domain::new("a great many messages", many, |i, cx| {
        let s = signer(&scalars()[13 + (i % 2) as usize]);
        let sig = sign_ok(&s, &i.to_le_bytes(), cx)?;
        for (n, h) in [("r", &sig[..32]), ("s", &sig[32..64])] {
            let (a, b) = (h.iter().take_while(|c| **c == 0).count(), h.iter().rev().take_while(|c| **c == 0).count());
            if a > 1 || b > 1 {
                cx.outcome(&format!("{} with {} zero bytes in front, {} behind", n, a, b));
            }
        }
        Ok(())
    }));
    if th {
        d.push(Domain::new("every two flipped bits of a signature", 520 * 520, |i, cx| {
            let k = digits(i, &[520, 520]);
            if k[0] >= k[1] {
                return Ok(());
            }
            let s = signer(&scalars()[15]);
            let m = msg_n(5);
            let good = s.k.sign(&m).map_err(|e| e.to_string())?;
            let mut sig = good.clone();
            sig[k[0] / 8] ^= 0x80 >> (k[0] % 8);
            sig[k[1] / 8] ^= 0x80 >> (k[1] % 8);
            must_fail(&s, &m, &sig, &good, "two flipped bits", cx)
        }));
    }
    base(
        "C09",
        "signatures made by the real XPrv::sign are judged by an independent Keccak-256/ECDSA verifier and by public key recovery; every alteration is offered to the real XPub::verify, which must not accept it; non-trivial when key, message or signature differ from the original",
        "keys: boundary scalars and patterns; messages: every length to the bound, and all one-bit changes; signatures: all one-bit changes (two-bit in the thorough tier), all values of each byte, all last bytes, lengths 0..299 in three shapes, all pairs of edge values for r and s; 200,000 messages signed, so that halves with two zero bytes in front or behind occur; the n-s twin is left open",
        d,
    )
}
