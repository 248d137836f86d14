//! The C interface as a C program sees it: own declarations after include/keychain.h, results observed as bytes.
use crate::env::Suspend;
use std::ffi::{c_char, c_void, CStr};
#[allow(unused_imports)]
use rust_keychain as _;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct CData {
    pub ptr: *const u8,
    pub len: usize,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct CNets {
    pub ptr: *const u32,
    pub count: usize,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct CElem {
    pub network: u32,
    pub data: CData,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct CBackup {
    pub ptr: *const CElem,
    pub count: usize,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct CInfo {
    pub mnemonic: *const c_char,
    pub language: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct CErr {
    pub error_type: i32,
    pub message: *const c_char,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct CPath(pub [u32; 5]);
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct H(pub *mut c_void);
unsafe impl Send for H {}
unsafe impl Sync for H {}

#[allow(clashing_extern_declarations, improper_ctypes)]
extern "C" {
    fn keychain_init_library();
    fn keychain_manager_new(m: *mut H, e: *mut CErr) -> bool;
    fn keychain_manager_has_network(m: *const H, n: u32, has: *mut bool, e: *mut CErr) -> bool;
    fn keychain_manager_generate_mnemonic(m: *const H, lang: u32, o: *mut *const c_char, e: *mut CErr) -> bool;
    fn keychain_manager_keychain_data_from_seed(m: *const H, s: *const u8, l: usize, pw: *const c_char, o: *mut CData, e: *mut CErr) -> bool;
    fn keychain_manager_keychain_data_from_mnemonic(m: *const H, t: *const c_char, pw: *const c_char, lang: u32, o: *mut CData, e: *mut CErr) -> bool;
    fn keychain_manager_keychain_from_data(m: *const H, d: *const u8, l: usize, pw: *const c_char, o: *mut H, e: *mut CErr) -> bool;
    fn keychain_manager_add_network(m: *const H, d: *const u8, l: usize, pw: *const c_char, n: u32, o: *mut CData, e: *mut CErr) -> bool;
    fn keychain_manager_change_password(m: *const H, d: *const u8, l: usize, pw: *const c_char, np: *const c_char, o: *mut CData, e: *mut CErr) -> bool;
    fn keychain_manager_get_keys_data(m: *const H, d: *const u8, l: usize, pw: *const c_char, o: *mut CBackup, e: *mut CErr) -> bool;
    fn keychain_manager_retrieve_mnemonic(m: *const H, d: *const u8, l: usize, pw: *const c_char, o: *mut CInfo, e: *mut CErr) -> bool;
    fn keychain_networks(k: *const H, o: *mut CNets, e: *mut CErr) -> bool;
    fn keychain_pub_key(k: *const H, n: u32, p: CPath, o: *mut CData, e: *mut CErr) -> bool;
    fn keychain_sign(k: *const H, n: u32, d: *const u8, l: usize, p: CPath, o: *mut CData, e: *mut CErr) -> bool;
    fn keychain_verify(k: *const H, n: u32, d: *const u8, l: usize, s: *const u8, sl: usize, p: CPath, o: *mut bool, e: *mut CErr) -> bool;
    fn keypath_from_string(s: *const c_char, o: *mut CPath, e: *mut CErr) -> bool;
    fn keypath_bitcoin_new_bip44(t: bool, a: u32, c: u32, x: u32, o: *mut CPath, e: *mut CErr) -> bool;
    fn keypath_bitcoin_new_bip49(t: bool, a: u32, c: u32, x: u32, o: *mut CPath, e: *mut CErr) -> bool;
    fn keypath_bitcoin_new_bip84(t: bool, a: u32, c: u32, x: u32, o: *mut CPath, e: *mut CErr) -> bool;
    fn keypath_cardano_new(a: u32, c: u32, x: u32, o: *mut CPath, e: *mut CErr) -> bool;
    fn keypath_ethereum_new(a: u32, o: *mut CPath, e: *mut CErr) -> bool;
    fn keypath_ethereum_new_metamask(a: u32, o: *mut CPath, e: *mut CErr) -> bool;
    fn delete_data(d: *mut CData);
    fn delete_string(s: *const c_char);
    fn delete_error(e: *mut CErr);
    fn delete_networks(n: *mut CNets);
    fn delete_keychain(k: *mut H);
    fn delete_keychain_manager(m: *mut H);
    fn delete_key_backup(b: *mut CBackup);
    fn delete_mnemonic_info(i: *mut CInfo);
    fn NETWORK_BITCOIN() -> u32;
    fn NETWORK_CARDANO() -> u32;
    fn NETWORK_ETHEREUM() -> u32;
}
pub fn init_library() {
    unsafe { keychain_init_library() }
}
pub fn network_numbers() -> [u32; 3] {
    unsafe { [NETWORK_CARDANO(), NETWORK_ETHEREUM(), NETWORK_BITCOIN()] }
}

/// A string argument: None is NULL; bytes end with their zero.
pub type S<'a> = Option<&'a [u8]>;
/// A buffer argument: (NULL, n) or (pointer, length).
#[derive(Clone, Copy, Debug)]
pub enum Buf<'a> {
    Null(usize),
    At(&'a [u8]),
    /// an empty buffer with a pointer nothing may be read from
    Dangling,
}
impl<'a> Buf<'a> {
    fn raw(&self) -> (*const u8, usize) {
        match self {
            Buf::Null(n) => (std::ptr::null(), *n),
            Buf::At(b) => (b.as_ptr(), b.len()),
            Buf::Dangling => (8 as *const u8, 0),
        }
    }
}
fn s(x: &S) -> *const c_char {
    match x {
        None => std::ptr::null(),
        Some(b) => {
            assert!(b.last() == Some(&0));
            b.as_ptr() as *const c_char
        }
    }
}

/// One call of the C interface.
#[derive(Clone, Copy, Debug)]
pub enum Call<'a> {
    ManagerNew,
    Has(u32),
    Generate(u32),
    FromSeed(Buf<'a>, S<'a>),
    FromMnemonic(S<'a>, S<'a>, u32),
    Open(Buf<'a>, S<'a>),
    Add(Buf<'a>, S<'a>, u32),
    Change(Buf<'a>, S<'a>, S<'a>),
    Keys(Buf<'a>, S<'a>),
    Phrase(Buf<'a>, S<'a>),
    Networks,
    PubKey(u32, [u32; 5]),
    Sign(u32, Buf<'a>, [u32; 5]),
    Verify(u32, Buf<'a>, Buf<'a>, [u32; 5]),
    PathText(S<'a>),
    Btc(u8, bool, u32, u32, u32),
    Ada(u32, u32, u32),
    Eth(u32),
    Metamask(u32),
}

/// What a call handed out, still held.
#[derive(Clone, Copy, Debug)]
pub enum Raw {
    Bool(bool),
    Data(CData),
    Text(*const c_char),
    Nets(CNets),
    Backup(CBackup),
    Info(CInfo),
    Path(CPath),
    Manager(H),
    Keychain(H),
    Error(CErr),
}
/// What it says.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Bool(bool),
    Data(Vec<u8>),
    Text(Vec<u8>),
    Nets(Vec<u32>),
    Backup(Vec<(u32, Vec<u8>)>),
    Info(Vec<u8>, u32),
    Path([u32; 5]),
    Handle,
    Error(i32, Vec<u8>),
}
unsafe fn bytes(p: *const u8, n: usize) -> Vec<u8> {
    if n == 0 {
        vec![]
    } else {
        std::slice::from_raw_parts(p, n).to_vec()
    }
}
unsafe fn text(p: *const c_char) -> Vec<u8> {
    CStr::from_ptr(p).to_bytes().to_vec()
}
impl Raw {
    pub fn value(&self) -> Val {
        let _g = Suspend::new();
        unsafe {
            match self {
                Raw::Bool(b) => Val::Bool(*b),
                Raw::Data(d) => Val::Data(bytes(d.ptr, d.len)),
                Raw::Text(t) => Val::Text(text(*t)),
                Raw::Nets(n) => {
                    let mut v = if n.count == 0 { vec![] } else { std::slice::from_raw_parts(n.ptr, n.count).to_vec() };
                    v.sort();
                    Val::Nets(v)
                }
                Raw::Backup(b) => {
                    let mut v: Vec<(u32, Vec<u8>)> = (0..b.count)
                        .map(|i| {
                            let e = &*b.ptr.add(i);
                            (e.network, bytes(e.data.ptr, e.data.len))
                        })
                        .collect();
                    v.sort();
                    Val::Backup(v)
                }
                Raw::Info(i) => Val::Info(text(i.mnemonic), i.language),
                Raw::Path(p) => Val::Path(p.0),
                Raw::Manager(_) | Raw::Keychain(_) => Val::Handle,
                Raw::Error(e) => Val::Error(e.error_type, text(e.message)),
            }
        }
    }
    /// Calls the delete function; gives back what is left in the caller's variable.
    pub fn release(&self) -> Raw {
        let mut r = *self;
        unsafe {
            match &mut r {
                Raw::Bool(_) | Raw::Path(_) => {}
                Raw::Data(d) => delete_data(d),
                Raw::Text(t) => {
                    delete_string(*t);
                    *t = std::ptr::null();
                }
                Raw::Nets(n) => delete_networks(n),
                Raw::Backup(b) => delete_key_backup(b),
                Raw::Info(i) => delete_mnemonic_info(i),
                Raw::Manager(m) => delete_keychain_manager(m),
                Raw::Keychain(k) => delete_keychain(k),
                Raw::Error(e) => delete_error(e),
            }
        }
        r
    }
    /// Is nothing held any more?
    pub fn is_null(&self) -> bool {
        match self {
            Raw::Bool(_) | Raw::Path(_) => true,
            Raw::Data(d) => d.ptr.is_null(),
            Raw::Text(t) => t.is_null(),
            Raw::Nets(n) => n.ptr.is_null(),
            Raw::Backup(b) => b.ptr.is_null(),
            Raw::Info(i) => i.mnemonic.is_null(),
            Raw::Manager(h) | Raw::Keychain(h) => h.0.is_null(),
            Raw::Error(e) => e.message.is_null(),
        }
    }
}
const MARK: usize = 0x5a5a_5a5a_5a50;
fn mark<T>() -> *const T {
    MARK as *const T
}

/// Calls the function with marked outputs; Err if it broke the protocol of outputs.
pub fn invoke(m: &H, k: &H, c: &Call) -> Result<Raw, String> {
    let mut e = CErr { error_type: 7, message: mark() };
    let mut d = CData { ptr: mark(), len: MARK };
    let mut h = H(MARK as *mut c_void);
    let mut t: *const c_char = mark();
    let mut n = CNets { ptr: mark(), count: MARK };
    let mut b = CBackup { ptr: mark(), count: MARK };
    let mut i = CInfo { mnemonic: mark(), language: 6 };
    let mut p = CPath([0x5a5a_5a5a; 5]);
    // a bool output must be written: called with both values where it matters
    let mut has = false;
    let bp = |x: &Buf| x.raw();
    let ok = unsafe {
        match c {
            Call::ManagerNew => keychain_manager_new(&mut h, &mut e),
            Call::Has(x) => keychain_manager_has_network(m, *x, &mut has, &mut e),
            Call::Generate(l) => keychain_manager_generate_mnemonic(m, *l, &mut t, &mut e),
            Call::FromSeed(x, pw) => keychain_manager_keychain_data_from_seed(m, bp(x).0, bp(x).1, s(pw), &mut d, &mut e),
            Call::FromMnemonic(x, pw, l) => keychain_manager_keychain_data_from_mnemonic(m, s(x), s(pw), *l, &mut d, &mut e),
            Call::Open(x, pw) => keychain_manager_keychain_from_data(m, bp(x).0, bp(x).1, s(pw), &mut h, &mut e),
            Call::Add(x, pw, n) => keychain_manager_add_network(m, bp(x).0, bp(x).1, s(pw), *n, &mut d, &mut e),
            Call::Change(x, pw, np) => keychain_manager_change_password(m, bp(x).0, bp(x).1, s(pw), s(np), &mut d, &mut e),
            Call::Keys(x, pw) => keychain_manager_get_keys_data(m, bp(x).0, bp(x).1, s(pw), &mut b, &mut e),
            Call::Phrase(x, pw) => keychain_manager_retrieve_mnemonic(m, bp(x).0, bp(x).1, s(pw), &mut i, &mut e),
            Call::Networks => keychain_networks(k, &mut n, &mut e),
            Call::PubKey(x, q) => keychain_pub_key(k, *x, CPath(*q), &mut d, &mut e),
            Call::Sign(x, y, q) => keychain_sign(k, *x, bp(y).0, bp(y).1, CPath(*q), &mut d, &mut e),
            Call::Verify(x, y, z, q) => {
                keychain_verify(k, *x, bp(y).0, bp(y).1, bp(z).0, bp(z).1, CPath(*q), &mut has, &mut e)
            }
            Call::PathText(x) => keypath_from_string(s(x), &mut p, &mut e),
            Call::Btc(f, tn, a, c, x) => match f {
                0 => keypath_bitcoin_new_bip44(*tn, *a, *c, *x, &mut p, &mut e),
                1 => keypath_bitcoin_new_bip49(*tn, *a, *c, *x, &mut p, &mut e),
                _ => keypath_bitcoin_new_bip84(*tn, *a, *c, *x, &mut p, &mut e),
            },
            Call::Ada(a, c, x) => keypath_cardano_new(*a, *c, *x, &mut p, &mut e),
            Call::Eth(a) => keypath_ethereum_new(*a, &mut p, &mut e),
            Call::Metamask(a) => keypath_ethereum_new_metamask(*a, &mut p, &mut e),
        }
    };
    let e0 = CErr { error_type: 7, message: mark() };
    if ok {
        if e != e0 {
            let _g = Suspend::new();
            return Err("succeeded and wrote the error".into());
        }
    } else {
        let same = d == CData { ptr: mark(), len: MARK }
            && h == H(MARK as *mut c_void)
            && t == mark()
            && n == CNets { ptr: mark(), count: MARK }
            && b == CBackup { ptr: mark(), count: MARK }
            && i == CInfo { mnemonic: mark(), language: 6 }
            && p == CPath([0x5a5a_5a5a; 5])
            && !has;
        let _g = Suspend::new();
        if !same {
            return Err("failed and wrote the result".into());
        }
        if e.message == mark() {
            return Err("failed without an error".into());
        }
        if e.message.is_null() {
            return Err("failed with a null message".into());
        }
        if e.error_type < -1 || e.error_type > 11 {
            return Err("failed with an unknown code".into());
        }
        if std::str::from_utf8(unsafe { CStr::from_ptr(e.message) }.to_bytes()).is_err() {
            return Err("failed with a message that is not UTF-8".into());
        }
        return Ok(Raw::Error(e));
    }
    let r = match c {
        Call::ManagerNew => Raw::Manager(h),
        Call::Open(..) => Raw::Keychain(h),
        Call::Has(_) | Call::Verify(..) => Raw::Bool(has),
        Call::Generate(_) => Raw::Text(t),
        Call::FromSeed(..) | Call::FromMnemonic(..) | Call::Add(..) | Call::Change(..) | Call::PubKey(..) | Call::Sign(..) => {
            Raw::Data(d)
        }
        Call::Keys(..) => Raw::Backup(b),
        Call::Phrase(..) => Raw::Info(i),
        Call::Networks => Raw::Nets(n),
        _ => Raw::Path(p),
    };
    let unwritten = match &r {
        Raw::Data(d) => d.ptr == mark() || d.ptr.is_null() || d.len == MARK,
        Raw::Text(t) => *t == mark() || t.is_null(),
        Raw::Nets(n) => n.ptr == mark() || (n.ptr.is_null() && n.count != 0) || n.count == MARK,
        Raw::Backup(b) => b.ptr == mark() || (b.ptr.is_null() && b.count != 0) || b.count == MARK,
        Raw::Info(i) => i.mnemonic == mark() || i.mnemonic.is_null(),
        Raw::Path(p) => p.0 == [0x5a5a_5a5a; 5],
        Raw::Manager(h) | Raw::Keychain(h) => h.0 as usize == MARK || h.0.is_null(),
        _ => false,
    };
    if unwritten {
        let _g = Suspend::new();
        return Err("succeeded without a result".into());
    }
    Ok(r)
}
/// Calls, reads the answer and releases it.
pub fn ask(m: &H, k: &H, c: &Call) -> Result<Val, String> {
    let r = invoke(m, k, c)?;
    let v = r.value();
    let l = r.release();
    if !l.is_null() {
        return Err("the delete function left the pointer".into());
    }
    Ok(v)
}
/// Results that hold nothing.
pub fn nulls() -> Vec<Raw> {
    let p = std::ptr::null();
    vec![
        Raw::Data(CData { ptr: std::ptr::null(), len: 0 }),
        Raw::Data(CData { ptr: std::ptr::null(), len: 9 }),
        Raw::Text(p),
        Raw::Nets(CNets { ptr: std::ptr::null(), count: 0 }),
        Raw::Nets(CNets { ptr: std::ptr::null(), count: 3 }),
        Raw::Backup(CBackup { ptr: std::ptr::null(), count: 0 }),
        Raw::Backup(CBackup { ptr: std::ptr::null(), count: 2 }),
        Raw::Info(CInfo { mnemonic: p, language: 0 }),
        Raw::Manager(H(std::ptr::null_mut())),
        Raw::Keychain(H(std::ptr::null_mut())),
        Raw::Error(CErr { error_type: -1, message: p }),
        Raw::Error(CErr { error_type: 3, message: p }),
    ]
}
