//! A controlled scheduler for the real code: threads run one at a time and may be switched at every call to the
//! random source, futex operation, allocation, and (in the crates of /repo, through LLVM's sancov) every access to
//! memory that is not private to the thread.  One execution runs in a forked child, so that each starts from the
//! same state.
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{self, AtomicU32, Ordering::*};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Kind {
    Start = 1,
    Random = 2,
    Futex = 4,
    Alloc = 8,
    Free = 16,
    Read = 32,
    Write = 64,
    End = 128,
}
pub const ALL: u8 = 0xff;
pub const NO_ALLOC: u8 = 0xff & !(8 | 16);

pub const MAXT: usize = 4;
pub const MAXP: usize = 60_000;
pub const MAXW: usize = 2048;

#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct Point {
    pub enabled: u8,    // how many threads could run
    pub cur_enabled: u8, // could the running one
    pub choice: u8,
    pub kind: u8,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum St {
    Unused,
    Run,
    Blocked(usize),
    Done,
}

/// Shared between the explorer and the forked execution.
#[repr(C)]
pub struct Shared {
    pub status: u32, // 0 not finished, 1 finished, 2 deadlock, 3 diverged, 4 too many points
    pub npoints: u32,
    pub nwritten: u32,
    pub accesses: u64,
    pub switches: u32,
    pub points: [Point; MAXP],
    pub written: [u64; MAXW],
    pub out_len: [u32; MAXT],
    pub out: [[u8; 16384]; MAXT],
}

struct State {
    n: usize,
    st: [St; MAXT],
    mask: u8,
    prefix: Vec<u8>,
    idx: usize,
    known: Vec<u64>, // sorted written addresses (8-byte granules) at which accesses are points
    shared: *mut Shared,
    priv_lo: [usize; MAXT],
    priv_hi: [usize; MAXT],
    wset: Vec<u64>,
    run_len: u32, // points passed since the last switch
}
struct Global(UnsafeCell<Option<State>>);
unsafe impl Sync for Global {}
static G: Global = Global(UnsafeCell::new(None));
static CUR: AtomicU32 = AtomicU32::new(u32::MAX);

thread_local! {
    static ME: Cell<i32> = const { Cell::new(-1) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static STACK: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

#[inline]
pub fn active() -> bool {
    ME.with(|m| m.get() >= 0)
}
#[inline]
pub fn alloc_tag() -> u64 {
    0
}

unsafe fn g() -> &'static mut State {
    (*G.0.get()).as_mut().unwrap()
}

fn futex_raw(op: usize, v: u32) {
    unsafe {
        crate::env::raw_syscall(libc::SYS_futex as usize, &CUR as *const _ as usize, op | 128, v as usize, 0, 0, 0);
    }
}
fn wait_for(me: u32) {
    loop {
        let c = CUR.load(SeqCst);
        if c == me {
            return;
        }
        futex_raw(0, c);
    }
}
fn give(to: u32) {
    CUR.store(to, SeqCst);
    futex_raw(1, i32::MAX as u32);
}

fn finish(status: u32) -> ! {
    unsafe {
        (*g().shared).status = status;
        libc::_exit(0)
    }
}

/// The threads that can run, the current one first.
unsafe fn enabled(s: &State, cur: Option<usize>) -> ([usize; MAXT], usize) {
    let mut e = [0; MAXT];
    let mut k = 0;
    if let Some(c) = cur {
        if s.st[c] == St::Run {
            e[0] = c;
            k = 1;
        }
    }
    for t in 0..s.n {
        if Some(t) != cur && s.st[t] == St::Run {
            e[k] = t;
            k += 1;
        }
    }
    (e, k)
}

unsafe fn choose(kind: Kind, cur: Option<usize>) -> usize {
    let s = g();
    let (e, k) = enabled(s, cur);
    if k == 0 {
        finish(2);
    }
    if k == 1 {
        return e[0];
    }
    let cur_enabled = cur.map(|c| s.st[c] == St::Run).unwrap_or(false);
    let c = if s.idx < s.prefix.len() { s.prefix[s.idx] as usize } else { 0 };
    if c >= k {
        finish(3);
    }
    if s.idx >= MAXP {
        finish(4);
    }
    let sh = &mut *s.shared;
    sh.points[s.idx] = Point { enabled: k as u8, cur_enabled: cur_enabled as u8, choice: c as u8, kind: kind as u8 };
    s.idx += 1;
    sh.npoints = s.idx as u32;
    e[c]
}

fn switch_to(me: usize, next: usize) {
    if next != me {
        unsafe {
            (*g().shared).switches += 1;
            g().run_len = 0;
        }
        give(next as u32);
        wait_for(me as u32);
    }
}

/// A place where another thread may run.
#[inline]
pub fn point(kind: Kind, _addr: usize) {
    let me = ME.with(|m| m.get());
    if me < 0 {
        return;
    }
    point_slow(kind, me as usize);
}
#[inline(never)]
fn point_slow(kind: Kind, me: usize) {
    if BUSY.with(|b| b.replace(true)) {
        return;
    }
    unsafe {
        if g().mask & kind as u8 != 0 {
            let next = choose(kind, Some(me));
            switch_to(me, next);
        }
    }
    BUSY.with(|b| b.set(false));
}

#[inline(never)]
fn access(me: usize, addr: usize, write: bool) {
    if BUSY.with(|b| b.replace(true)) {
        return;
    }
    unsafe {
        let s = g();
        let (lo, hi) = STACK.with(|x| x.get());
        let granule = (addr as u64) >> 3;
        let own = addr >= s.priv_lo[me] && addr < s.priv_hi[me];
        // memory of the thread's own arena is private until another thread was seen to touch it
        let private = (addr >= lo && addr < hi) || (own && s.known.binary_search(&granule).is_err());
        if !private {
            (*s.shared).accesses += 1;
            if own || s.known.binary_search(&granule).is_ok() {
                let kind = if write { Kind::Write } else { Kind::Read };
                if s.mask & kind as u8 != 0 {
                    s.run_len += 1;
                    if s.run_len > 3000 {
                        // a thread that spins: let the others run
                        yield_now(me);
                    } else {
                        let next = choose(kind, Some(me));
                        switch_to(me, next);
                    }
                }
            }
            let foreign = !own && in_arena(addr);
            if (write || foreign) && !s.wset.contains(&granule) && s.wset.len() < MAXW {
                s.wset.push(granule);
            }
        }
    }
    BUSY.with(|b| b.set(false));
}

/// A voluntary yield: the next thread that can run, round robin.
unsafe fn yield_now(me: usize) {
    let s = g();
    s.run_len = 0;
    for d in 1..s.n {
        let t = (me + d) % s.n;
        if s.st[t] == St::Run {
            switch_to(me, t);
            return;
        }
    }
}

/// libc's sched_yield: what std's yield_now uses.
#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    let me = ME.with(|m| m.get());
    if me >= 0 && !BUSY.with(|b| b.replace(true)) {
        unsafe { yield_now(me as usize) };
        BUSY.with(|b| b.set(false));
        return 0;
    }
    unsafe { crate::env::raw_syscall(libc::SYS_sched_yield as usize, 0, 0, 0, 0, 0, 0) as i32 }
}

#[inline]
fn cov(addr: usize, write: bool) {
    let me = ME.with(|m| m.get());
    if me >= 0 {
        access(me as usize, addr, write);
    }
}
/// An access of more than one granule.
fn cov_range(addr: usize, n: usize, write: bool) {
    let me = ME.with(|m| m.get());
    if me >= 0 && n > 0 {
        let mut g = addr & !7;
        while g < addr + n {
            access(me as usize, g, write);
            g += 8;
        }
    }
}
// what ThreadSanitizer's pass calls in the instrumented crates
macro_rules! cov_fns { ($($n:ident $w:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n(p: usize) { cov(p, $w) })* } }
cov_fns! {
    __tsan_read1 false; __tsan_read2 false; __tsan_read4 false; __tsan_read8 false;
    __tsan_unaligned_read1 false; __tsan_unaligned_read2 false; __tsan_unaligned_read4 false; __tsan_unaligned_read8 false;
    __tsan_write1 true; __tsan_write2 true; __tsan_write4 true; __tsan_write8 true;
    __tsan_unaligned_write1 true; __tsan_unaligned_write2 true; __tsan_unaligned_write4 true; __tsan_unaligned_write8 true;
    __tsan_read_write1 true; __tsan_read_write2 true; __tsan_read_write4 true; __tsan_read_write8 true;
    __tsan_vptr_read false;
}
macro_rules! cov_wide { ($($n:ident $w:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n(p: usize) { cov_range(p, 16, $w) })* } }
cov_wide! {
    __tsan_read16 false; __tsan_unaligned_read16 false; __tsan_write16 true; __tsan_unaligned_write16 true;
    __tsan_read_write16 true; __tsan_unaligned_read_write16 true;
}
macro_rules! cov_none { ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n() {})* } }
cov_none! { __tsan_init __tsan_func_exit __tsan_ignore_thread_begin __tsan_ignore_thread_end }
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(p: usize, _: usize) {
    cov(p, true)
}
#[no_mangle]
pub extern "C" fn __tsan_read_range(p: usize, n: usize) {
    cov_range(p, n, false)
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(p: usize, n: usize) {
    cov_range(p, n, true)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    cov_range(s as usize, n, false);
    cov_range(d as usize, n, true);
    std::ptr::copy_nonoverlapping(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    cov_range(s as usize, n, false);
    cov_range(d as usize, n, true);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, b: i32, n: usize) -> *mut u8 {
    cov_range(d as usize, n, true);
    std::ptr::write_bytes(d, b as u8, n);
    d
}
macro_rules! atomics {
    ($($t:ident $a:ident $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $load(p: *mut $t, _: i32) -> $t { cov(p as usize, false); atomic::$a::from_ptr(p).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) { cov(p as usize, true); atomic::$a::from_ptr(p).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _: i32) -> $t { cov(p as usize, true); atomic::$a::from_ptr(p).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _: i32) -> $t { cov(p as usize, true); atomic::$a::from_ptr(p).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _: i32) -> $t { cov(p as usize, true); atomic::$a::from_ptr(p).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _: i32) -> $t { cov(p as usize, true); atomic::$a::from_ptr(p).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _: i32) -> $t { cov(p as usize, true); atomic::$a::from_ptr(p).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _: i32) -> $t { cov(p as usize, true); atomic::$a::from_ptr(p).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _: i32) -> $t { cov(p as usize, true); atomic::$a::from_ptr(p).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
            cov(p as usize, true);
            match atomic::$a::from_ptr(p).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
        }
    )* }
}
atomics! {
    u8 AtomicU8 __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16 AtomicU16 __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32 AtomicU32 __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64 AtomicU64 __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    atomic::fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {
    atomic::compiler_fence(SeqCst)
}

/// futex for a scheduled thread: blocking is visible to the scheduler, and nobody really sleeps.
pub unsafe fn futex(addr: usize, op: usize, val: usize) -> Option<isize> {
    let me = ME.with(|m| m.get());
    if me < 0 || BUSY.with(|b| b.get()) {
        return None;
    }
    let me = me as usize;
    match op & 127 {
        0 | 9 => {
            point(Kind::Futex, addr);
            if *(addr as *const u32) != val as u32 {
                return Some(-(libc::EAGAIN as isize));
            }
            BUSY.with(|b| b.set(true));
            g().st[me] = St::Blocked(addr);
            let next = choose(Kind::Futex, Some(me));
            switch_to(me, next);
            BUSY.with(|b| b.set(false));
            Some(0)
        }
        1 | 10 => {
            let mut woken = 0;
            for t in 0..g().n {
                if g().st[t] == St::Blocked(addr) && (woken as usize) < val {
                    g().st[t] = St::Run;
                    woken += 1;
                }
            }
            point(Kind::Futex, addr);
            Some(woken)
        }
        _ => None,
    }
}

fn my_stack() -> (usize, usize) {
    unsafe {
        let mut a: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_getattr_np(libc::pthread_self(), &mut a);
        let mut p = std::ptr::null_mut();
        let mut n = 0usize;
        libc::pthread_attr_getstack(&a, &mut p, &mut n);
        libc::pthread_attr_destroy(&mut a);
        (p as usize, p as usize + n)
    }
}

// ------------------------------------------------------------------ private arenas

const ARENA: usize = 64 << 20;
static ARENA_BASE: AtomicU32 = AtomicU32::new(0); // in units of 64 KiB
thread_local! { static BUMP: Cell<(usize, usize)> = const { Cell::new((0, 0)) }; }

/// Memory for a scheduled thread, from an arena of its own (never reused), so that no two threads ever share an
/// address merely because the allocator reused it.
#[inline]
pub unsafe fn arena_alloc(total: usize, align: usize) -> Option<*mut u8> {
    let (p, end) = BUMP.with(|b| b.get());
    if p == 0 {
        return None;
    }
    let a = (p + align - 1) / align * align;
    if a + total > end {
        return None;
    }
    BUMP.with(|b| b.set((a + total, end)));
    Some(a as *mut u8)
}
pub fn in_arena(p: usize) -> bool {
    let b = (ARENA_BASE.load(Relaxed) as usize) << 16;
    b != 0 && p >= b && p < b + ARENA * MAXT
}

// ------------------------------------------------------------------ one execution

pub struct Outcome {
    pub status: u32,
    pub points: Vec<Point>,
    pub written: Vec<u64>,
    pub out: Vec<Vec<u8>>,
    pub accesses: u64,
    pub switches: u32,
    pub died: Option<i32>,
}

pub fn new_shared() -> *mut Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Shared
    }
}

pub fn reserve_arenas() {
    if ARENA_BASE.load(Relaxed) != 0 {
        return;
    }
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            ARENA * MAXT + (1 << 16),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let base = (p as usize + 0xffff) & !0xffff;
        assert!(base >> 16 <= u32::MAX as usize);
        ARENA_BASE.store((base >> 16) as u32, Relaxed);
    }
}

/// Runs `f` without scheduling points (for the harness's own work in a scheduled thread).
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let b = BUSY.with(|b| b.replace(true));
    let r = f();
    BUSY.with(|x| x.set(b));
    r
}

pub type Body<'a> = &'a (dyn Fn(usize) -> Vec<u8> + Sync);

/// Runs the threads of `body` (thread number -> observations) under the schedule given by `prefix`, in a forked
/// child.  `init` runs in the child before the threads.
pub fn run(n: usize, body: Body, prefix: &[u8], mask: u8, known: &[u64], sh: *mut Shared, limit_s: u32) -> Outcome {
    reserve_arenas();
    unsafe {
        (*sh).status = 0;
        (*sh).npoints = 0;
        (*sh).nwritten = 0;
        (*sh).accesses = 0;
        (*sh).switches = 0;
        (*sh).out_len = [0; MAXT];
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::alarm(limit_s);
            child(n, body, prefix, mask, known, sh);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let died = if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 { None } else { Some(st) };
        Outcome {
            status: (*sh).status,
            points: (&(*sh).points)[..(*sh).npoints as usize].to_vec(),
            written: (&(*sh).written)[..(*sh).nwritten as usize].to_vec(),
            out: (0..n).map(|t| (&(*sh).out)[t][..(*sh).out_len[t] as usize].to_vec()).collect(),
            accesses: (*sh).accesses,
            switches: (*sh).switches,
            died,
        }
    }
}

unsafe fn child(n: usize, body: Body, prefix: &[u8], mask: u8, known: &[u64], sh: *mut Shared) -> ! {
    let base = (ARENA_BASE.load(Relaxed) as usize) << 16;
    let mut s = State {
        n,
        st: [St::Unused; MAXT],
        mask,
        prefix: prefix.to_vec(),
        idx: 0,
        known: known.to_vec(),
        shared: sh,
        priv_lo: [0; MAXT],
        priv_hi: [0; MAXT],
        wset: Vec::with_capacity(MAXW + 1),
        run_len: 0,
    };
    for t in 0..n {
        s.st[t] = St::Run;
        s.priv_lo[t] = base + t * ARENA;
        s.priv_hi[t] = base + (t + 1) * ARENA;
    }
    *G.0.get() = Some(s);
    CUR.store(u32::MAX, SeqCst);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                sc.spawn(move || {
                    STACK.with(|x| x.set(my_stack()));
                    wait_for(t as u32);
                    BUMP.with(|b| b.set((g().priv_lo[t], g().priv_hi[t])));
                    ME.with(|m| m.set(t as i32));
                    let out = body(t);
                    ME.with(|m| m.set(-1));
                    BUMP.with(|b| b.set((0, 0)));
                    let k = out.len().min(16384);
                    let shm = &mut *g().shared;
                    shm.out[t][..k].copy_from_slice(&out[..k]);
                    shm.out_len[t] = k as u32;
                    g().st[t] = St::Done;
                    let all = (0..g().n).all(|i| g().st[i] == St::Done);
                    if !all {
                        let next = choose(Kind::End, None);
                        give(next as u32);
                    }
                })
            })
            .collect();
        let first = choose(Kind::Start, None);
        give(first as u32);
        for h in hs {
            let _ = h.join();
        }
    });
    let s = g();
    for (i, w) in s.wset.iter().enumerate() {
        (*sh).written[i] = *w;
    }
    (*sh).nwritten = s.wset.len() as u32;
    finish(1)
}

// ------------------------------------------------------------------ exploration

pub struct Explored {
    pub executions: u64,
    pub points: u64,
    pub max_points: usize,
    pub switches: u64,
    pub accesses: u64,
    pub conflicts: usize,
    pub capped: bool,
    pub outcomes: std::collections::BTreeSet<u64>,
}

/// Explores every schedule with at most `bound` preemptions.  `judge` decides each execution.
pub fn explore(
    n: usize, body: Body, mask: u8, bound: u32, max_exec: u64, judge: &mut dyn FnMut(&[u8], &Outcome) -> Result<(), String>,
) -> Result<Explored, (Vec<u8>, String)> {
    let sh = new_shared();
    let mut known: Vec<u64> = vec![];
    let mut res = Explored {
        executions: 0,
        points: 0,
        max_points: 0,
        switches: 0,
        accesses: 0,
        conflicts: 0,
        capped: false,
        outcomes: Default::default(),
    };
    let r = 'again: loop {
        // a fixed point: accesses to every address some thread wrote are points
        let mut stack: Vec<Vec<u8>> = vec![vec![]];
        let mut local = 0u64;
        while let Some(prefix) = stack.pop() {
            if res.executions >= max_exec {
                res.capped = true;
                break;
            }
            let x = run(n, body, &prefix, mask, &known, sh, 30);
            res.executions += 1;
            local += 1;
            if x.status == 3 {
                break 'again Err((prefix, "DIVERGED: replaying a prefix met a different state".into()));
            }
            let mut grew = false;
            for w in &x.written {
                if let Err(i) = known.binary_search(w) {
                    known.insert(i, *w);
                    grew = true;
                }
            }
            if let Err(e) = judge(&prefix, &x) {
                break 'again Err((prefix, e));
            }
            if grew {
                continue 'again;
            }
            res.points += x.points.len() as u64;
            res.max_points = res.max_points.max(x.points.len());
            res.switches += x.switches as u64;
            res.accesses += x.accesses;
            let mut h = 0u64;
            for o in &x.out {
                h = h.wrapping_mul(31).wrapping_add(crate::engine::hash(o));
            }
            res.outcomes.insert(h);
            let mut pre = 0;
            for (i, p) in x.points.iter().enumerate() {
                if i >= prefix.len() {
                    let cost = pre + p.cur_enabled as u32;
                    if cost <= bound {
                        for alt in 1..p.enabled {
                            let mut q: Vec<u8> = x.points[..i].iter().map(|p| p.choice).collect();
                            q.push(alt);
                            stack.push(q);
                        }
                    }
                }
                if p.choice != 0 && p.cur_enabled != 0 {
                    pre += 1;
                }
            }
        }
        let _ = local;
        break Ok(());
    };
    res.conflicts = known.len();
    unsafe { libc::munmap(sh as *mut _, std::mem::size_of::<Shared>()) };
    match r {
        Ok(()) => Ok(res),
        Err(e) => Err(e),
    }
}
