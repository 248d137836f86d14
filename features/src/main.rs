//! C31: what a build of the library answers, as lines "networks|operation|result".  The driver builds this program
//! with every choice of features and compares the lines.
//!   features --make FILE    writes the containers the other runs read (full build)
//!   features FILE           prints the lines
use keychain::{crypt, Error, GenericKeyPath, KeyPath, Keychain, KeychainManager, Language, Network};
use rust_keychain as _;
use std::cell::Cell;
use std::ffi::{c_char, c_void, CStr, CString};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------------ random source

thread_local! { static POS: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; }
unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn deliver(p: *mut u8, n: usize) {
    for i in 0..n {
        let (seed, pos) = POS.with(|x| x.get());
        let mut z = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add((pos + 1).wrapping_mul(0xBF58_476D_1CE4_E5B9));
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        *p.add(i) = (z >> 33) as u8;
        POS.with(|x| x.set((seed, pos + 1)));
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_getrandom {
        deliver(a as *mut u8, b);
        return b as i64;
    }
    let r = raw(n as usize, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r as i64
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _: u32) -> isize {
    if n == 16 {
        std::ptr::write_bytes(p, 0x5c, 16);
    } else {
        deliver(p, n);
    }
    n as isize
}
fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}

// ------------------------------------------------------------------ what is asked

const H: u32 = 0x8000_0000;
const NETS: [u32; 3] = [H + 1815, H + 60, H]; // bit 0 Cardano, 1 Ethereum, 2 Bitcoin
fn compiled() -> usize {
    cfg!(feature = "cardano") as usize | (cfg!(feature = "ethereum") as usize) << 1 | (cfg!(feature = "bitcoin") as usize) << 2
}
#[derive(Clone, Copy)]
struct P([u32; 5]);
impl KeyPath for P {
    fn purpose(&self) -> u32 {
        self.0[0]
    }
    fn coin(&self) -> u32 {
        self.0[1]
    }
    fn account(&self) -> u32 {
        self.0[2]
    }
    fn change(&self) -> u32 {
        self.0[3]
    }
    fn address(&self) -> u32 {
        self.0[4]
    }
}
const PATHS: [[u32; 5]; 14] = [
    [H + 44, H + 1815, H, 0, 0],
    [H + 44, H + 1815, H + 3, 1, 77],
    [H + 44, H + 60, H, 0, 0],
    [H + 44, H + 60, H, 0, 9],
    [H + 44, 60, 0, 0, 0],
    [H + 44, H, H, 0, 0],
    [H + 49, H, H + 1, 1, 5],
    [H + 84, H, H + 2, 0, 0x7fff_ffff],
    [H + 44, H + 1, H, 0, 0],
    [H + 84, H + 1, H, 1, 1],
    [44, H, H, 0, 0],
    [H + 44, H, 0, 0, 0],
    [H + 44, H + 5, H, 0, 0],
    [0, 0, 0, 0, 0],
];
const LANGS: [Language; 8] = [
    Language::English,
    Language::French,
    Language::Japanese,
    Language::Korean,
    Language::ChineseSimplified,
    Language::ChineseTraditional,
    Language::Italian,
    Language::Spanish,
];
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn err(e: &Error) -> String {
    let d = format!("{:?}", e);
    format!("error {} {}", d.split('(').next().unwrap(), e)
}
fn bytes(r: Result<Vec<u8>, Error>) -> String {
    match r {
        Ok(b) => hex(&b),
        Err(e) => err(&e),
    }
}
/// Salt, nonce and the document with its members sorted.
fn container(r: Result<Vec<u8>, Error>, pw: &str) -> String {
    let c = match r {
        Ok(c) => c,
        Err(e) => return err(&e),
    };
    let p = match crypt::decrypt(&c, pw) {
        Ok(p) => p,
        Err(_) => return "does not open".into(),
    };
    let doc = || -> Option<String> {
        let o: serde_json::Value = serde_json::from_slice(&p).ok()?;
        let inner = base64::decode(o["data"].as_str()?).ok()?;
        let mut i: serde_json::Value = serde_json::from_slice(&inner).ok()?;
        if let Some(k) = i["keys"].as_array_mut() {
            k.sort_by_key(|x| x.to_string());
        }
        Some(format!("{} {}", o["version"], i))
    };
    format!("{} {}", hex(&c[..44]), doc().unwrap_or_else(|| format!("bytes {}", hex(&p))))
}
fn phrase(words: usize, lang: usize, k: u8) -> String {
    use keychain::bip39::{dictionary, Entropy};
    let b: Vec<u8> = (0..words / 3 * 4).map(|i| (i as u8).wrapping_mul(37).wrapping_add(k)).collect();
    let m = Entropy::from_slice(&b).unwrap().to_mnemonics();
    match lang {
        0 => m.to_string(&dictionary::ENGLISH),
        1 => m.to_string(&dictionary::FRENCH),
        _ => m.to_string(&dictionary::JAPANESE),
    }
    .to_string()
}

struct Out {
    bits: String,
    n: u64,
}
impl Out {
    fn line(&mut self, op: &str, f: impl FnOnce() -> String) {
        POS.with(|x| x.set((hash(op), 0)));
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into());
        println!("{}|{}|{}", self.bits, op, r.replace('\n', " "));
        self.n += 1;
    }
}

/// What the keys do is asked for a few wallets, or (thorough) all of them.
fn in_depth(o: &Out, name: &str) -> bool {
    ["wallet7s", "wallet7p"].contains(&name) || o.bits.ends_with(&name[6..7]) || std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
fn wallet_lines(o: &mut Out, name: &str, k: &Keychain) {
    o.line(&format!("{} networks", name), || {
        let mut v: Vec<u32> = k.networks().iter().map(|n| n.0).collect();
        v.sort();
        format!("{:x?}", v)
    });
    for n in NETS.iter().cloned().chain([0, 7]) {
        o.line(&format!("{} has {:x}", name, n), || k.has_network(&Network(n)).to_string());
        for p in PATHS {
            o.line(&format!("{} key {:x} {:x?}", name, n, p), || bytes(k.pub_key(&Network(n), &P(p))));
        }
        for (i, p) in PATHS.iter().enumerate() {
            let msg = [b"".to_vec(), b"m".to_vec(), vec![7; 33], vec![0; 200]][i % 4].clone();
            let mut sig = vec![];
            o.line(&format!("{} sign {:x} {:x?}", name, n, p), || {
                let r = k.sign(&Network(n), &msg, &P(*p));
                if let Ok(s) = &r {
                    sig = s.clone();
                }
                bytes(r)
            });
            let verdict = |s: &[u8], m: &[u8]| match k.verify(&Network(n), m, s, &P(*p)) {
                Ok(b) => b.to_string(),
                Err(e) => err(&e),
            };
            for len in if i % 4 == 0 { vec![0, 63, 64, 65, 66] } else { vec![] } {
                o.line(&format!("{} verify {:x} {:x?} length {}", name, n, p, len), || {
                    let mut s = sig.clone();
                    s.resize(len, 0);
                    verdict(&s, &msg)
                });
            }
            o.line(&format!("{} verify {:x} {:x?} own", name, n, p), || verdict(&sig, &msg));
            o.line(&format!("{} verify {:x} {:x?} changed", name, n, p), || {
                let mut s = sig.clone();
                if !s.is_empty() {
                    s[10] ^= 1;
                }
                verdict(&s, &msg)
            });
            o.line(&format!("{} verify {:x} {:x?} other message", name, n, p), || verdict(&sig, b"other"));
        }
    }
}

fn manager_lines(o: &mut Out, m: Result<KeychainManager, Error>, conts: &[(String, String, Vec<u8>)]) {
    let m = match m {
        Ok(m) => m,
        Err(e) => {
            let t = err(&e);
            o.line("manager", || t);
            return;
        }
    };
    o.line("manager", || "made".into());
    for n in NETS.iter().cloned().chain([0, 1, 5, 60, 1815, u32::MAX]) {
        o.line(&format!("has {:x}", n), || m.has_network(&Network(n)).to_string());
        o.line(&format!("factory {:x}", n), || match m.get_key_factory(&Network(n)) {
            None => "none".into(),
            Some(f) => format!("{:x}", f.network().0),
        });
    }
    o.line("generate", || m.generate_mnemonic(None).unwrap_or_else(|e| err(&e)));
    for (i, l) in LANGS.iter().enumerate() {
        o.line(&format!("generate {}", i), || m.generate_mnemonic(Some(*l)).unwrap_or_else(|e| err(&e)));
    }
    for n in (0..=12).chain((12..=72).step_by(4)).chain([17, 31, 33, 63, 65, 96, 128]) {
        let s: Vec<u8> = (0..n).map(|i| (i * 5 + 1) as u8).collect();
        o.line(&format!("from seed of {}", n), || container(m.keychain_data_from_seed(&s, "pw"), "pw"));
    }
    for w in [9, 12, 15, 18, 21, 24] {
        for l in 0..3 {
            let p = phrase(w, l, 9);
            o.line(&format!("from phrase of {} in {}", w, l), || {
                container(m.keychain_data_from_mnemonic(&p, "pw", Some(LANGS[l])), "pw")
            });
        }
        let p = phrase(w, 0, 3);
        o.line(&format!("from phrase of {} by default", w), || container(m.keychain_data_from_mnemonic(&p, "", None), ""));
        let bad = p.rsplitn(2, ' ').last().unwrap().to_string();
        o.line(&format!("from phrase short of {}", w), || container(m.keychain_data_from_mnemonic(&bad, "", None), ""));
        o.line(&format!("from phrase in the wrong language of {}", w), || {
            container(m.keychain_data_from_mnemonic(&p, "", Some(Language::French)), "")
        });
    }
    o.line("from empty phrase", || container(m.keychain_data_from_mnemonic("", "", None), ""));
    for (name, pw, c) in conts {
        let mut k = None;
        o.line(&format!("open {}", name), || match m.keychain_from_data(c, pw) {
            Ok(w) => {
                k = Some(w);
                "opened".into()
            }
            Err(e) => err(&e),
        });
        if let (Some(k), true) = (k, in_depth(o, name)) {
            wallet_lines(o, name, &k);
        }
        o.line(&format!("open {} wrongly", name), || match m.keychain_from_data(c, "wrong") {
            Ok(_) => "opened".into(),
            Err(e) => err(&e),
        });
        for n in NETS.iter().cloned().chain([3]) {
            o.line(&format!("add {:x} to {}", n, name), || container(m.add_network(c, pw, Network(n)), pw));
        }
        o.line(&format!("change password of {}", name), || container(m.change_password(c, pw, "new"), "new"));
        #[cfg(feature = "backup")]
        {
            o.line(&format!("backup of {}", name), || match m.get_keys_data(c, pw) {
                Ok(v) => {
                    let mut v: Vec<String> = v.iter().map(|(n, k)| format!("{:x}:{}", n.0, hex(k))).collect();
                    v.sort();
                    v.join(" ")
                }
                Err(e) => err(&e),
            });
            o.line(&format!("phrase of {}", name), || match m.retrieve_mnemonic(c, pw) {
                Ok((p, l)) => format!("{} {}", p, l as u32),
                Err(e) => err(&e),
            });
        }
    }
}

// ------------------------------------------------------------------ the C library

#[repr(C)]
struct CErr {
    code: i32,
    message: *const c_char,
}
#[repr(C)]
struct CData {
    ptr: *const u8,
    len: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CPath([u32; 5]);
#[repr(C)]
struct CHandle(*mut c_void);
#[allow(clashing_extern_declarations, improper_ctypes)]
extern "C" {
    fn keychain_init_library();
    fn keychain_manager_new(m: *mut CHandle, e: *mut CErr) -> bool;
    fn keychain_manager_has_network(m: *const CHandle, n: u32, has: *mut bool, e: *mut CErr) -> bool;
    fn keychain_manager_generate_mnemonic(m: *const CHandle, lang: u32, o: *mut *const c_char, e: *mut CErr) -> bool;
    fn keychain_manager_keychain_from_data(m: *const CHandle, d: *const u8, l: usize, pw: *const c_char, o: *mut CHandle, e: *mut CErr) -> bool;
    fn keychain_pub_key(k: *const CHandle, n: u32, p: CPath, o: *mut CData, e: *mut CErr) -> bool;
    fn keychain_sign(k: *const CHandle, n: u32, d: *const u8, l: usize, p: CPath, o: *mut CData, e: *mut CErr) -> bool;
    fn keypath_from_string(s: *const c_char, o: *mut CPath, e: *mut CErr) -> bool;
    fn delete_data(d: *mut CData);
    fn delete_string(s: *const c_char);
    fn delete_error(e: *mut CErr);
    fn delete_keychain(k: *mut CHandle);
    fn delete_keychain_manager(m: *mut CHandle);
    #[cfg(feature = "bitcoin")]
    fn NETWORK_BITCOIN() -> u32;
    #[cfg(feature = "bitcoin")]
    fn keypath_bitcoin_new_bip44(t: bool, a: u32, c: u32, x: u32, o: *mut CPath, e: *mut CErr) -> bool;
    #[cfg(feature = "bitcoin")]
    fn keypath_bitcoin_new_bip49(t: bool, a: u32, c: u32, x: u32, o: *mut CPath, e: *mut CErr) -> bool;
    #[cfg(feature = "bitcoin")]
    fn keypath_bitcoin_new_bip84(t: bool, a: u32, c: u32, x: u32, o: *mut CPath, e: *mut CErr) -> bool;
    #[cfg(feature = "cardano")]
    fn NETWORK_CARDANO() -> u32;
    #[cfg(feature = "cardano")]
    fn keypath_cardano_new(a: u32, c: u32, x: u32, o: *mut CPath, e: *mut CErr) -> bool;
    #[cfg(feature = "ethereum")]
    fn NETWORK_ETHEREUM() -> u32;
    #[cfg(feature = "ethereum")]
    fn keypath_ethereum_new(a: u32, o: *mut CPath, e: *mut CErr) -> bool;
    #[cfg(feature = "ethereum")]
    fn keypath_ethereum_new_metamask(a: u32, o: *mut CPath, e: *mut CErr) -> bool;
}
fn no_err() -> CErr {
    CErr { code: 77, message: std::ptr::null() }
}
unsafe fn c_err(e: &mut CErr) -> String {
    if e.message.is_null() {
        return "no message".into();
    }
    let t = format!("error {} {}", e.code, CStr::from_ptr(e.message).to_string_lossy());
    delete_error(e);
    t
}
unsafe fn c_data(f: impl FnOnce(*mut CData, *mut CErr) -> bool) -> String {
    let mut d = CData { ptr: std::ptr::null(), len: 0 };
    let mut e = no_err();
    if f(&mut d, &mut e) {
        let t = hex(std::slice::from_raw_parts(d.ptr, d.len));
        delete_data(&mut d);
        t
    } else {
        c_err(&mut e)
    }
}
unsafe fn c_path(f: impl FnOnce(*mut CPath, *mut CErr) -> bool) -> String {
    let mut d = CPath([0; 5]);
    let mut e = no_err();
    if f(&mut d, &mut e) {
        format!("{:x?}", d.0)
    } else {
        c_err(&mut e)
    }
}
/// The C library knows only "all compiled networks": its lines carry the bits of the build, and the driver compares
/// them with what the Rust interface of the same build says (same operation names) or with the full build.
fn c_lines(o: &mut Out, conts: &[(String, String, Vec<u8>)]) {
    unsafe {
        keychain_init_library();
        let mut m = CHandle(std::ptr::null_mut());
        let mut e = no_err();
        if !keychain_manager_new(&mut m, &mut e) {
            let t = c_err(&mut e);
            o.line("manager", || t);
            return;
        }
        o.line("manager", || "made".into());
        for n in NETS.iter().cloned().chain([0, 1, 5, 60, 1815, u32::MAX]) {
            o.line(&format!("has {:x}", n), || {
                let mut b = false;
                let mut e = no_err();
                if keychain_manager_has_network(&m, n, &mut b, &mut e) { b.to_string() } else { c_err(&mut e) }
            });
        }
        for l in 0..8 {
            o.line(&format!("generate {}", l), || {
                let mut s = std::ptr::null();
                let mut e = no_err();
                if keychain_manager_generate_mnemonic(&m, l, &mut s, &mut e) {
                    let t = CStr::from_ptr(s).to_string_lossy().into_owned();
                    delete_string(s);
                    t
                } else {
                    c_err(&mut e)
                }
            });
        }
        for (name, pw, c) in conts {
            let pw = CString::new(pw.as_str()).unwrap();
            let mut k = CHandle(std::ptr::null_mut());
            let mut ok = false;
            o.line(&format!("open {}", name), || {
                let mut e = no_err();
                ok = keychain_manager_keychain_from_data(&m, c.as_ptr(), c.len(), pw.as_ptr(), &mut k, &mut e);
                if ok { "opened".into() } else { c_err(&mut e) }
            });
            if !ok {
                continue;
            }
            for n in NETS.iter().cloned().chain([0, 7]).filter(|_| in_depth(o, name)).collect::<Vec<_>>() {
                for (i, p) in PATHS.iter().enumerate() {
                    o.line(&format!("{} key {:x} {:x?}", name, n, p), || c_data(|d, e| keychain_pub_key(&k, n, CPath(*p), d, e)));
                    let msg = [b"".to_vec(), b"m".to_vec(), vec![7; 33], vec![0; 200]][i % 4].clone();
                    o.line(&format!("{} sign {:x} {:x?}", name, n, p), || {
                        c_data(|d, e| keychain_sign(&k, n, msg.as_ptr(), msg.len(), CPath(*p), d, e))
                    });
                }
            }
            delete_keychain(&mut k);
        }
        delete_keychain_manager(&mut m);
    }
}
/// Paths and constants; "X|..." lines exist only in builds with that network, and are the same in all of them.
fn path_lines(o: &mut Out) {
    let nums = [0, 1, 44, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX];
    for t in ["m/44'/60'/0'/0/0", "m/44'/0'/1'/1/5", "m/44'/1815'/0'/0/0", "m/1/2/3/4/5", "", "m", "m/1", "m/1/2/3/4/5/6", "x/1/2/3/4/5", "m/2147483648'/0/0/0/0", "m/a/b/c/d/e"] {
        o.line(&format!("path {}", t), || match GenericKeyPath::from(t) {
            Ok(p) => format!("{:x?}", [p.purpose(), p.coin(), p.account(), p.change(), p.address()]),
            Err(e) => format!("error {}", e),
        });
        let c = CString::new(t).unwrap();
        o.line(&format!("C path {}", t), || unsafe { c_path(|p, e| keypath_from_string(c.as_ptr(), p, e)) });
    }
    #[allow(dead_code)]
    fn show<K: KeyPath, E: std::fmt::Display>(r: Result<K, E>) -> String {
        match r {
            Ok(p) => format!("{:x?}", [p.purpose(), p.coin(), p.account(), p.change(), p.address()]),
            Err(e) => format!("error {}", e),
        }
    }
    for a in nums {
        for b in nums {
            let _ = (a, b);
            #[cfg(feature = "bitcoin")]
            {
                use keychain::networks::bitcoin::KeyPath as K;
                for t in [false, true] {
                    o.line(&format!("bitcoin {} {:x} {:x}", t, a, b), || {
                        format!("{} {} {}", show(K::bip44(t, a, b, 0)), show(K::bip49(t, a, 0, b)), show(K::bip84(t, 0, a, b)))
                    });
                    o.line(&format!("C bitcoin {} {:x} {:x}", t, a, b), || unsafe {
                        format!(
                            "{} {} {}",
                            c_path(|p, e| keypath_bitcoin_new_bip44(t, a, b, 0, p, e)),
                            c_path(|p, e| keypath_bitcoin_new_bip49(t, a, 0, b, p, e)),
                            c_path(|p, e| keypath_bitcoin_new_bip84(t, 0, a, b, p, e))
                        )
                    });
                }
            }
            #[cfg(feature = "cardano")]
            {
                use keychain::networks::cardano::KeyPath as K;
                o.line(&format!("cardano {:x} {:x}", a, b), || format!("{} {}", show(K::new(a, b, 0)), show(K::new(a, 0, b))));
                o.line(&format!("C cardano {:x} {:x}", a, b), || unsafe {
                    format!("{} {}", c_path(|p, e| keypath_cardano_new(a, b, 0, p, e)), c_path(|p, e| keypath_cardano_new(a, 0, b, p, e)))
                });
            }
        }
        #[cfg(feature = "ethereum")]
        {
            use keychain::networks::ethereum::KeyPath as K;
            o.line(&format!("ethereum {:x}", a), || format!("{} {}", show(K::new(a)), show(K::new_metamask(a))));
            o.line(&format!("C ethereum {:x}", a), || unsafe {
                format!("{} {}", c_path(|p, e| keypath_ethereum_new(a, p, e)), c_path(|p, e| keypath_ethereum_new_metamask(a, p, e)))
            });
        }
    }
    #[cfg(feature = "bitcoin")]
    o.line("number of bitcoin", || format!("{:x} {:x}", Network::BITCOIN.0, unsafe { NETWORK_BITCOIN() }));
    #[cfg(feature = "cardano")]
    o.line("number of cardano", || format!("{:x} {:x}", Network::CARDANO.0, unsafe { NETWORK_CARDANO() }));
    #[cfg(feature = "ethereum")]
    o.line("number of ethereum", || format!("{:x} {:x}", Network::ETHEREUM.0, unsafe { NETWORK_ETHEREUM() }));
}

// ------------------------------------------------------------------ custom networks

#[cfg(feature = "custom-networks")]
mod custom {
    use keychain::{Key, KeyError, KeyFactory, KeyPath, Network, SeedSize};
    pub struct F(pub u32);
    pub struct K(pub u32, pub Vec<u8>);
    impl KeyFactory for F {
        fn network(&self) -> Network {
            Network(self.0)
        }
        fn seed_size(&self) -> SeedSize {
            SeedSize { min: 128, max: 512 }
        }
        fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> {
            Ok(seed.iter().rev().cloned().collect())
        }
        fn key_from_data(&self, data: &[u8]) -> Result<Box<dyn Key>, KeyError> {
            Ok(Box::new(K(self.0, data.to_vec())))
        }
    }
    impl Key for K {
        fn network(&self) -> Network {
            Network(self.0)
        }
        fn pub_key(&self, p: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
            let mut v = self.1.clone();
            v.push(p.address() as u8);
            Ok(v)
        }
        fn sign(&self, d: &[u8], _: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
            Ok(d.to_vec())
        }
        fn verify(&self, d: &[u8], s: &[u8], _: &dyn KeyPath) -> Result<bool, KeyError> {
            Ok(d == s)
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // the same password and salt are derived once
    let table = vec![0u64; 18 << 14].leak();
    cryptoxide::kcheck::enable(true, table.as_mut_ptr() as *mut _, 1 << 14);
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--make" {
        let mut t = String::new();
        let mut put = |name: &str, pw: &str, r: Result<Vec<u8>, Error>| {
            t += &format!("{}\t{}\t{}\n", name, pw, hex(&r.unwrap()));
        };
        for b in 1..8usize {
            let n: Vec<Network> = (0..3).filter(|i| b >> i & 1 == 1).map(|i| Network(NETS[i])).collect();
            let m = KeychainManager::with_networks(&n).unwrap();
            POS.with(|x| x.set((b as u64, 0)));
            put(&format!("wallet{}s", b), "pw", m.keychain_data_from_seed(&[7; 64], "pw"));
            let p = m.generate_mnemonic(None).unwrap();
            put(&format!("wallet{}p", b), "", m.keychain_data_from_mnemonic(&p, "", None));
        }
        std::fs::write(&a[2], t).unwrap();
        return;
    }
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let conts: Vec<(String, String, Vec<u8>)> = text
        .lines()
        .map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            (f[0].into(), f[1].into(), unhex(f[2]))
        })
        .collect();
    let mut o = Out { bits: "any".into(), n: 0 };
    path_lines(&mut o);
    o.bits = format!("all{}", compiled());
    o.line("all networks", || {
        let mut v: Vec<u32> = Network::all().iter().map(|n| n.0).collect();
        v.sort();
        let mut w: Vec<u32> = keychain::networks::all_networks().iter().map(|f| f.network().0).collect();
        w.sort();
        format!("{:x?} {:x?}", v, w)
    });
    o.bits = format!("new{}", compiled());
    manager_lines(&mut o, KeychainManager::new(), &conts);
    o.bits = format!("C{}", compiled());
    c_lines(&mut o, &conts);
    for b in 0..8usize {
        // networks that are not compiled in are asked for too
        let n: Vec<Network> = (0..3).filter(|i| b >> i & 1 == 1).map(|i| Network(NETS[i])).collect();
        o.bits = format!("with{}", b);
        let few = if b & compiled() == b { &conts[..] } else { &conts[..2] };
        manager_lines(&mut o, KeychainManager::with_networks(&n), few);
    }
    #[cfg(feature = "custom-networks")]
    for b in 0..8usize {
        if b & compiled() != b {
            continue;
        }
        let mut f: Vec<Box<dyn keychain::KeyFactory>> = keychain::networks::all_networks()
            .into_iter()
            .filter(|f| (0..3).any(|i| b >> i & 1 == 1 && NETS[i] == f.network().0))
            .collect();
        f.push(Box::new(custom::F(5)));
        o.bits = format!("custom{}", b);
        manager_lines(&mut o, KeychainManager::with_factories(f), &conts[..2]);
    }
    println!("end|lines|{}", o.n);
}
