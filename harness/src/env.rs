//! The environment the code under test runs in, owned by the harness: the system random source, the hash map keys,
//! the allocator, and (through `sched`) blocking and scheduling.
use crate::sched;
use libc::{c_int, c_long, c_void, size_t};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

// ------------------------------------------------------------------ raw system calls

#[cfg(target_arch = "x86_64")]
pub unsafe fn raw_syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn ret(r: isize) -> c_long {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r as c_long
    }
}

// ------------------------------------------------------------------ random source

/// One answer of the system random source.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ans {
    Full,
    Short(usize),
    Err(i32),
}

#[derive(Clone, Debug)]
pub struct Draw {
    pub asked: usize,
    pub got: Result<usize, i32>,
}
#[derive(Default)]
pub struct Script {
    seed: u64,
    pos: u64,
    answers: Vec<Ans>,
    calls: usize,
    pub delivered: Vec<u8>,
    pub draws: Vec<Draw>,
    fixed: Option<Vec<u8>>,
}

thread_local! {
    static SCRIPT: RefCell<Option<Script>> = const { RefCell::new(None) };
    static HASH_KEYS: Cell<u128> = const { Cell::new(0x0123_4567_89ab_cdef_0f1e_2d3c_4b5a_6978) };
}

pub fn stream_byte(seed: u64, i: u64) -> u8 {
    let mut z = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add((i / 8 + 1).wrapping_mul(0xBF58_476D_1CE4_E5B9));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^= z >> 31;
    (z >> (8 * (i % 8))) as u8
}

/// From now on the random source of this thread delivers the stream of `seed`, with the given answers first.
pub fn script(seed: u64, answers: &[Ans]) {
    let _g = Suspend::new();
    SCRIPT.with(|s| *s.borrow_mut() = Some(Script { seed, answers: answers.to_vec(), ..Default::default() }));
}
/// The random source of this thread delivers these bytes (then the stream of seed 0).
pub fn script_bytes(bytes: &[u8]) {
    let _g = Suspend::new();
    SCRIPT.with(|s| *s.borrow_mut() = Some(Script { fixed: Some(bytes.to_vec()), ..Default::default() }));
}
pub fn unscript() -> Option<Script> {
    SCRIPT.with(|s| s.borrow_mut().take())
}
/// What was delivered and asked since the last call.
pub fn take_log() -> (Vec<u8>, Vec<Draw>) {
    let _g = Suspend::new();
    SCRIPT.with(|s| match s.borrow_mut().as_mut() {
        Some(s) => (std::mem::take(&mut s.delivered), std::mem::take(&mut s.draws)),
        None => (vec![], vec![]),
    })
}
pub fn set_hash_keys(k: u128) {
    HASH_KEYS.with(|h| h.set(k));
}
/// Runs `f` in a new thread whose hash maps use the given keys.
pub fn with_hash_keys<T: Send>(k: u128, f: impl FnOnce() -> T + Send) -> T {
    let _a = crate::trace::Aside::new();
    std::thread::scope(|s| {
        s.spawn(move || {
            set_hash_keys(k);
            f()
        })
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

unsafe fn scripted(buf: *mut u8, len: usize) -> Option<isize> {
    let active = SCRIPT.with(|s| s.try_borrow().map(|s| s.is_some()).unwrap_or(false));
    if !active {
        return None;
    }
    if len == 0 {
        return Some(0);
    }
    sched::point(sched::Kind::Random, 0);
    let _g = Suspend::new();
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut().unwrap();
        let a = s.answers.get(s.calls).cloned().unwrap_or(Ans::Full);
        s.calls += 1;
        match a {
            Ans::Err(e) => {
                s.draws.push(Draw { asked: len, got: Err(e) });
                Some(-(e as isize))
            }
            Ans::Full | Ans::Short(_) => {
                let n = match a {
                    Ans::Short(k) => k.min(len),
                    _ => len,
                };
                for i in 0..n {
                    let b = match s.fixed.as_ref().and_then(|f| f.get(s.pos as usize)) {
                        Some(b) => *b,
                        None => stream_byte(s.seed, s.pos),
                    };
                    *buf.add(i) = b;
                    s.delivered.push(b);
                    s.pos += 1;
                }
                s.draws.push(Draw { asked: len, got: Ok(n) });
                Some(n as isize)
            }
        }
    })
}

/// libc's `syscall`: what the random source and std's locks use.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_getrandom {
        if let Some(r) = scripted(a as *mut u8, b) {
            return ret(r);
        }
    }
    if n == libc::SYS_futex && sched::active() {
        if let Some(r) = sched::futex(a, b, c) {
            return ret(r);
        }
    }
    ret(raw_syscall(n as usize, a, b, c, d, e, f))
}

/// libc's `getrandom`: what std uses for the keys of hash maps.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> isize {
    if len == 16 {
        let k = HASH_KEYS.with(|h| h.get()).to_le_bytes();
        std::ptr::copy_nonoverlapping(k.as_ptr(), buf as *mut u8, 16);
        return 16;
    }
    if let Some(r) = scripted(buf as *mut u8, len) {
        return ret(r) as isize;
    }
    ret(raw_syscall(libc::SYS_getrandom as usize, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}

// ------------------------------------------------------------------ variables and clock

thread_local! {
    static ODD: Cell<u64> = const { Cell::new(0) };
    static AHEAD: Cell<i64> = const { Cell::new(0) };
}
/// While it lives, variables the code under test asks for are set, and each look at the clock finds an hour gone.
pub struct Odd(u64);
impl Odd {
    pub fn new(k: u64) -> Self {
        Odd(ODD.with(|o| o.replace(k)))
    }
}
impl Drop for Odd {
    fn drop(&mut self) {
        ODD.with(|o| o.set(self.0));
    }
}
fn odd() -> u64 {
    if FLAGS.with(|f| f.get()) & F_SUSPEND != 0 {
        return 0;
    }
    ODD.with(|o| o.get())
}
extern "C" {
    static environ: *const *mut libc::c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let n = std::slice::from_raw_parts(name as *const u8, libc::strlen(name));
    let k = odd();
    let ours: [&[u8]; 9] = [b"KC_", b"RUST", b"LD_", b"PATH", b"HOME", b"TMP", b"MALLOC_", b"GLIBC", b"TERM"];
    if k != 0 && !ours.iter().any(|p| n.starts_with(p)) {
        let v: [&[u8]; 6] = [b"1\0", b"0\0", b"\0", b"true\0", b"4096\0", b"/nowhere\0"];
        return v[(k % 6) as usize].as_ptr() as *mut libc::c_char;
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = std::slice::from_raw_parts(*e as *const u8, libc::strlen(*e));
        if s.len() > n.len() && s[n.len()] == b'=' && s.starts_with(n) {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    let r = ret(raw_syscall(libc::SYS_clock_gettime as usize, clock as usize, t as usize, 0, 0, 0, 0)) as c_int;
    if r == 0 && odd() != 0 {
        (*t).tv_sec += AHEAD.with(|a| {
            a.set(a.get() + 3600);
            a.get()
        });
    }
    r
}

// ------------------------------------------------------------------ allocator

const LIVE: u32 = 0x11fe_b10c;
const DEAD: u32 = 0xdead_b10c;

#[repr(C)]
struct Header {
    magic: u32,
    epoch: u32,
    size: u64,
    align: u32,
    off: u32,
    pad: u64,
}
const HDR: usize = std::mem::size_of::<Header>();

pub const F_TRACK: u32 = 1; // count blocks of this epoch, quarantine freed ones
pub const F_WATCH: u32 = 2; // look for a secret in every freed block
pub const F_SUSPEND: u32 = 4;
pub const F_COUNT: u32 = 8; // count blocks of this epoch and the highest level, no quarantine

thread_local! {
    static FLAGS: Cell<u32> = const { Cell::new(0) };
    static EPOCH: Cell<u32> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNTING: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static ERRORS: Cell<u32> = const { Cell::new(0) };
    static ERR_INFO: Cell<(u64, u64, u64, u64)> = const { Cell::new((0, 0, 0, 0)) };
    static WATCH: Cell<(*const u8, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static WATCH_HITS: Cell<u32> = const { Cell::new(0) };
    static WATCH_SEEN: Cell<u32> = const { Cell::new(0) };
}

pub struct Suspend(u32);
impl Suspend {
    pub fn new() -> Self {
        let f = FLAGS.with(|f| f.replace(F_SUSPEND));
        Suspend(f)
    }
}
impl Drop for Suspend {
    fn drop(&mut self) {
        FLAGS.with(|f| f.set(self.0));
    }
}

pub const E_LAYOUT: u32 = 1;
pub const E_DOUBLE: u32 = 2;
pub const E_FOREIGN: u32 = 4;

pub struct Tracked {
    pub live_blocks: i64,
    pub live_bytes: i64,
    pub allocs: u64,
    pub errors: u32,
    pub info: (u64, u64, u64, u64),
}
pub fn errors_text(e: u32, i: (u64, u64, u64, u64)) -> String {
    let mut s = vec![];
    if e & E_LAYOUT != 0 {
        s.push(format!("released {} bytes align {} as {} bytes align {}", i.0, i.1, i.2, i.3));
    }
    if e & E_DOUBLE != 0 {
        s.push("released twice".into());
    }
    if e & E_FOREIGN != 0 {
        s.push("released a pointer that was not allocated".into());
    }
    s.join(", ")
}

/// Count what this thread allocates and frees from now on.
pub fn track_begin() {
    EPOCH.with(|e| e.set(e.get() + 1));
    LIVE_BLOCKS.with(|c| c.set(0));
    LIVE_BYTES.with(|c| c.set(0));
    ALLOCS.with(|c| c.set(0));
    ERRORS.with(|c| c.set(0));
    FLAGS.with(|f| f.set(f.get() | F_TRACK));
}
const MOST: i64 = 1 << 30;
/// Count what this thread allocates and frees, and how high the level gets.
pub fn count_begin() {
    EPOCH.with(|e| e.set(e.get() + 1));
    LIVE_BYTES.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    COUNTING.with(|c| c.set(true));
    FLAGS.with(|f| f.set(f.get() | F_COUNT));
}
/// (bytes left, highest level)
pub fn count_end() -> (i64, i64) {
    FLAGS.with(|f| f.set(f.get() & !F_COUNT));
    COUNTING.with(|c| c.set(false));
    (LIVE_BYTES.with(|c| c.get()), PEAK.with(|c| c.get()))
}
pub fn track_now() -> Tracked {
    Tracked {
        live_blocks: LIVE_BLOCKS.with(|c| c.get()),
        live_bytes: LIVE_BYTES.with(|c| c.get()),
        allocs: ALLOCS.with(|c| c.get()),
        errors: ERRORS.with(|c| c.get()),
        info: ERR_INFO.with(|c| c.get()),
    }
}
pub fn track_end() -> Tracked {
    FLAGS.with(|f| f.set(f.get() & !F_TRACK));
    track_now()
}
/// While `f` runs, count freed blocks that still contain `secret` (checked in windows of 8 bytes).
pub fn watch_frees<T>(secret: &[u8], f: impl FnOnce() -> T) -> (T, u32, u32) {
    WATCH.with(|w| w.set((secret.as_ptr(), secret.len())));
    WATCH_HITS.with(|w| w.set(0));
    WATCH_SEEN.with(|w| w.set(0));
    FLAGS.with(|x| x.set(x.get() | F_WATCH));
    let r = f();
    FLAGS.with(|x| x.set(x.get() & !F_WATCH));
    (r, WATCH_HITS.with(|w| w.get()), WATCH_SEEN.with(|w| w.get()))
}

fn contains_window(mem: &[u8], secret: &[u8]) -> bool {
    // any 4 consecutive secret bytes at any place
    if secret.len() < 4 || mem.len() < 4 {
        return false;
    }
    for i in 0..=mem.len() - 4 {
        for j in 0..=secret.len() - 4 {
            if mem[i..i + 4] == secret[j..j + 4] {
                return true;
            }
        }
    }
    false
}

pub struct Alloc;
#[global_allocator]
static ALLOC: Alloc = Alloc;

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sched::point(sched::Kind::Alloc, 0);
        let align = l.align().max(16);
        let off = (HDR + align - 1) / align * align;
        let total = match off.checked_add(l.size()) {
            Some(t) => t,
            None => return std::ptr::null_mut(),
        };
        // a call whose needs are counted gets no more than this: a runaway must not take the machine down
        if FLAGS.with(|f| f.get()) & (F_COUNT | F_SUSPEND) == F_COUNT && LIVE_BYTES.with(|c| c.get()) + total as i64 > MOST {
            return std::ptr::null_mut();
        }
        let base = match sched::arena_alloc(total, align) {
            Some(p) => p,
            None => System.alloc(Layout::from_size_align_unchecked(total, align)),
        };
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let flags = FLAGS.with(|f| f.get());
        let tracked = flags & (F_TRACK | F_SUSPEND) == F_TRACK;
        let counted = flags & (F_COUNT | F_SUSPEND) == F_COUNT;
        let epoch = if tracked || counted { EPOCH.with(|e| e.get()) } else { 0 };
        let h = p.sub(HDR) as *mut Header;
        *h = Header {
            magic: LIVE,
            epoch,
            size: l.size() as u64,
            align: l.align() as u32,
            off: off as u32,
            pad: sched::alloc_tag(),
        };
        if tracked {
            LIVE_BLOCKS.with(|c| c.set(c.get() + 1));
            LIVE_BYTES.with(|c| c.set(c.get() + l.size() as i64));
            ALLOCS.with(|c| c.set(c.get() + 1));
            std::ptr::write_bytes(p, 0xA5, l.size());
        } else if counted {
            let n = LIVE_BYTES.with(|c| {
                c.set(c.get() + l.size() as i64);
                c.get()
            });
            PEAK.with(|c| c.set(c.get().max(n)));
        }
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sched::point(sched::Kind::Free, 0);
        let h = p.sub(HDR) as *mut Header;
        let flags = FLAGS.with(|f| f.get());
        if (*h).magic != LIVE {
            let e = if (*h).magic == DEAD { E_DOUBLE } else { E_FOREIGN };
            ERRORS.with(|c| c.set(c.get() | e));
            return;
        }
        if (*h).size != l.size() as u64 || (*h).align != l.align() as u32 {
            ERRORS.with(|c| c.set(c.get() | E_LAYOUT));
            ERR_INFO.with(|c| c.set(((*h).size, (*h).align as u64, l.size() as u64, l.align() as u64)));
        }
        if flags & (F_WATCH | F_SUSPEND) == F_WATCH {
            let (s, n) = WATCH.with(|w| w.get());
            let mem = std::slice::from_raw_parts(p, (*h).size as usize);
            WATCH_SEEN.with(|w| w.set(w.get() + 1));
            if contains_window(mem, std::slice::from_raw_parts(s, n)) {
                WATCH_HITS.with(|w| w.set(w.get() + 1));
            }
        }
        (*h).magic = DEAD;
        let off = (*h).off as usize;
        let (size, align) = ((*h).size as usize, (*h).align as usize);
        if flags & (F_TRACK | F_SUSPEND) == F_TRACK {
            if (*h).epoch != 0 && (*h).epoch == EPOCH.with(|e| e.get()) {
                LIVE_BLOCKS.with(|c| c.set(c.get() - 1));
                LIVE_BYTES.with(|c| c.set(c.get() - size as i64));
            }
            // quarantine: never given out again, so that a second release is recognized for certain
            std::ptr::write_bytes(p, 0xDD, size);
            return;
        }
        if (*h).epoch != 0 && (*h).epoch == EPOCH.with(|e| e.get()) && COUNTING.with(|c| c.get()) {
            LIVE_BYTES.with(|c| c.set(c.get() - size as i64));
        }
        if sched::in_arena(p as usize) {
            return;
        }
        System.dealloc(p.sub(off), Layout::from_size_align_unchecked(off + size, align.max(16)));
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

/// The tag of the heap block that has this address as its start; None if the address cannot be a block start.
pub unsafe fn live_size(p: *const u8) -> Option<usize> {
    let h = p.sub(HDR) as *const Header;
    if (*h).magic == LIVE {
        Some((*h).size as usize)
    } else {
        None
    }
}
