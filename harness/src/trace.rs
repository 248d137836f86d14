//! The system calls an operation makes: the kernel hands each of them to the harness (syscall user dispatch), which
//! notes those that leave something behind and does not carry them out.
use std::cell::UnsafeCell;

std::arch::global_asm!(
    r#"
.section .text.kc_dispatch,"ax",@progbits
.globl kc_dispatch_start
kc_dispatch_start:
.globl kc_restorer
kc_restorer:
    mov rax, 15
    syscall
.globl kc_call
kc_call:
    mov rax, rdi
    mov rdi, [rsi]
    mov rdx, [rsi+16]
    mov r10, [rsi+24]
    mov r8, [rsi+32]
    mov r9, [rsi+40]
    mov rsi, [rsi+8]
    syscall
    ret
    nop
.globl kc_dispatch_end
kc_dispatch_end:
.text
"#
);
extern "C" {
    fn kc_dispatch_start();
    fn kc_restorer();
    fn kc_call(nr: usize, args: *const usize) -> isize;
    fn kc_dispatch_end();
}

#[repr(C)]
struct State(UnsafeCell<u8>);
unsafe impl Sync for State {}
/// 0: calls go to the kernel; 1: to the handler.
static SELECTOR: State = State(UnsafeCell::new(0));

const MAX: usize = 64;
struct Notes(UnsafeCell<(usize, usize, [(usize, [u8; 96], usize); MAX])>);
unsafe impl Sync for Notes {}
static NOTES: Notes = Notes(UnsafeCell::new((0, 0, [(0, [0; 96], 0); MAX])));

fn select(v: u8) {
    unsafe { std::ptr::write_volatile(SELECTOR.0.get(), v) };
    std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
}

/// Calls that leave nothing behind outside the memory of the process.
fn harmless(nr: i64, a: &[usize; 6]) -> bool {
    match nr {
        libc::SYS_mmap => a[3] & libc::MAP_ANONYMOUS as usize != 0 || a[2] & libc::PROT_WRITE as usize == 0 || a[3] & libc::MAP_PRIVATE as usize != 0,
        libc::SYS_munmap | libc::SYS_mremap | libc::SYS_brk | libc::SYS_madvise | libc::SYS_mprotect | libc::SYS_futex
        | libc::SYS_getrandom | libc::SYS_clock_gettime | libc::SYS_gettimeofday | libc::SYS_time | libc::SYS_sched_yield
        | libc::SYS_nanosleep | libc::SYS_clock_nanosleep | libc::SYS_rt_sigprocmask | libc::SYS_sigaltstack | libc::SYS_rt_sigreturn
        | libc::SYS_rt_sigaction | libc::SYS_gettid | libc::SYS_getpid | libc::SYS_getuid | libc::SYS_geteuid | libc::SYS_getcwd
        | libc::SYS_read | libc::SYS_pread64 | libc::SYS_readv | libc::SYS_close | libc::SYS_lseek | libc::SYS_poll | libc::SYS_ppoll
        | libc::SYS_fstat | libc::SYS_stat | libc::SYS_lstat | libc::SYS_newfstatat | libc::SYS_statx | libc::SYS_access
        | libc::SYS_readlink | libc::SYS_fcntl | libc::SYS_uname | libc::SYS_sysinfo | libc::SYS_sched_getaffinity | libc::SYS_getrusage
        | libc::SYS_prctl | libc::SYS_exit | libc::SYS_exit_group | libc::SYS_set_robust_list | 334 | libc::SYS_mlock
        | libc::SYS_munlock | libc::SYS_membarrier | libc::SYS_getrlimit | libc::SYS_prlimit64 => true,
        libc::SYS_open => a[1] & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC) as usize == 0,
        libc::SYS_openat => a[2] & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC) as usize == 0,
        _ => false,
    }
}
extern "C" fn on_call(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let g = &mut uc.uc_mcontext.gregs;
        let nr = g[libc::REG_RAX as usize];
        let a = [
            g[libc::REG_RDI as usize] as usize,
            g[libc::REG_RSI as usize] as usize,
            g[libc::REG_RDX as usize] as usize,
            g[libc::REG_R10 as usize] as usize,
            g[libc::REG_R8 as usize] as usize,
            g[libc::REG_R9 as usize] as usize,
        ];
        if harmless(nr, &a) {
            g[libc::REG_RAX as usize] = kc_call(nr as usize, a.as_ptr()) as i64;
            return;
        }
        let n = &mut *NOTES.0.get();
        if n.0 < MAX {
            let e = &mut n.2[n.0];
            e.0 = nr as usize;
            e.2 = 0;
            // what was to be written, or the name of the file
            let (p, len) = match nr {
                libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_sendto => (a[1], a[2].min(96)),
                libc::SYS_writev if a[2] > 0 => {
                    let v = &*(a[1] as *const libc::iovec);
                    (v.iov_base as usize, v.iov_len.min(96))
                }
                libc::SYS_open | libc::SYS_unlink | libc::SYS_mkdir | libc::SYS_creat => (a[0], libc::strnlen(a[0] as *const i8, 96)),
                libc::SYS_openat | libc::SYS_unlinkat => (a[1], libc::strnlen(a[1] as *const i8, 96)),
                _ => (0, 0),
            };
            if p != 0 {
                std::ptr::copy_nonoverlapping(p as *const u8, e.1.as_mut_ptr(), len);
                e.2 = len;
            }
            n.0 += 1;
        }
        n.1 += 1;
        let r: i64 = match nr {
            libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_sendto => a[2] as i64,
            libc::SYS_writev => {
                let v = std::slice::from_raw_parts(a[1] as *const libc::iovec, a[2]);
                v.iter().map(|x| x.iov_len as i64).sum()
            }
            _ => -(libc::EPERM as i64),
        };
        g[libc::REG_RAX as usize] = r;
    }
}

#[repr(C)]
struct KSigaction {
    handler: usize,
    flags: u64,
    restorer: usize,
    mask: u64,
}

/// Prepares the calling thread; once per process (the workers have one thread).
fn prepare() -> bool {
    use std::sync::OnceLock;
    static OK: OnceLock<bool> = OnceLock::new();
    *OK.get_or_init(|| unsafe {
        // a variable that is there already cannot be seen to be set
        for (k, _) in std::env::vars_os() {
            if !k.to_string_lossy().starts_with("KC_") {
                std::env::remove_var(k);
            }
        }
        let act = KSigaction {
            handler: on_call as *const () as usize,
            flags: (libc::SA_SIGINFO | libc::SA_NODEFER) as u64 | 0x0400_0000,
            restorer: kc_restorer as *const () as usize,
            mask: 0,
        };
        let a = [libc::SIGSYS as usize, &act as *const _ as usize, 0, 8, 0, 0];
        if kc_call(libc::SYS_rt_sigaction as usize, a.as_ptr()) != 0 {
            return false;
        }
        let start = kc_dispatch_start as *const () as usize;
        let a = [59, 1, start, kc_dispatch_end as *const () as usize - start, SELECTOR.0.get() as usize, 0];
        kc_call(libc::SYS_prctl as usize, a.as_ptr()) == 0
    })
}

/// What the harness does itself is not looked at.
pub struct Aside(u8);
impl Aside {
    pub fn new() -> Self {
        let v = unsafe { std::ptr::read_volatile(SELECTOR.0.get()) };
        select(0);
        Aside(v)
    }
}
impl Drop for Aside {
    fn drop(&mut self) {
        select(self.0)
    }
}

fn environment() -> u64 {
    let mut h = 0;
    for (k, v) in std::env::vars_os() {
        use std::os::unix::ffi::OsStrExt;
        h ^= crate::engine::hash2(crate::engine::hash(k.as_bytes()), crate::engine::hash(v.as_bytes()));
    }
    h
}
fn name(nr: usize) -> String {
    match nr as i64 {
        libc::SYS_write | libc::SYS_writev | libc::SYS_pwrite64 => "writes".into(),
        libc::SYS_open | libc::SYS_openat | libc::SYS_creat => "opens for writing".into(),
        libc::SYS_socket | libc::SYS_connect | libc::SYS_sendto => "uses the network".into(),
        libc::SYS_clone | 435 | libc::SYS_fork | libc::SYS_vfork | libc::SYS_execve => "starts a thread or process".into(),
        n => format!("makes system call {}", n),
    }
}

/// Runs `f`; what it would have left behind.
pub fn traced<T>(f: impl FnOnce() -> T) -> Result<(T, Vec<String>), String> {
    if !prepare() {
        return Err("the kernel does not hand over system calls".into());
    }
    let e = environment();
    unsafe {
        (*NOTES.0.get()).0 = 0;
        (*NOTES.0.get()).1 = 0;
    }
    select(1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    select(0);
    let n = unsafe { &*NOTES.0.get() };
    let mut v: Vec<String> = n.2[..n.0].iter().map(|e| format!("{} {:?}", name(e.0), String::from_utf8_lossy(&e.1[..e.2]))).collect();
    if environment() != e {
        v.push("changes an environment variable".into());
    }
    match r {
        Ok(r) => Ok((r, v)),
        Err(p) => std::panic::resume_unwind(p),
    }
}
