//! C30: every history of making, cloning and dropping entropy and seed values; the memory that held a value is
//! looked at right after its drop: heap blocks when they reach the allocator, stack frames right after the return.
//! Prints one JSON object.  Usage: wipe <depth> [domain]
use bip39::{dictionary, Entropy, MnemonicString, Seed, Type};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::hint::black_box;
use std::rc::Rc;

// ------------------------------------------------------------------ places

const MAXP: usize = 64;
#[derive(Clone, Copy)]
struct Place {
    addr: usize,
    len: usize,
    /// what was there when the block was given back to the allocator
    freed: bool,
    bytes: [u8; 64],
}
static mut PLACES: [Place; MAXP] = [Place { addr: 0, len: 0, freed: false, bytes: [0; 64] }; MAXP];
static mut NPLACES: usize = 0;

struct Alloc;
#[global_allocator]
static ALLOC: Alloc = Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        for i in 0..NPLACES {
            let x = &mut *(&raw mut PLACES[i]);
            if !x.freed && x.addr >= a && x.addr + x.len <= a + l.size() {
                copy_out(x.addr, x.len, x.bytes.as_mut_ptr());
                x.freed = true;
            }
        }
        System.dealloc(p, l)
    }
}
/// Reads memory the compiler knows nothing about.
#[inline(always)]
unsafe fn copy_out(from: usize, n: usize, to: *mut u8) {
    std::arch::asm!("rep movsb", inout("rsi") from => _, inout("rcx") n => _, inout("rdi") to => _, options(nostack));
}
fn forget_places() {
    unsafe { NPLACES = 0 }
}
/// Remember where the secret bytes of `v` are; gives the place's number.
#[inline(never)]
fn note(b: &[u8]) -> usize {
    unsafe {
        assert!(NPLACES < MAXP && b.len() <= 64);
        PLACES[NPLACES] = Place { addr: b.as_ptr() as usize, len: b.len(), freed: false, bytes: [0; 64] };
        NPLACES += 1;
        NPLACES - 1
    }
}
/// What is at the place now, or was when it was freed.
#[inline(always)]
fn look(i: usize) -> Vec<u8> {
    unsafe {
        let x = &mut *(&raw mut PLACES[i]);
        if !x.freed {
            copy_out(x.addr, x.len, x.bytes.as_mut_ptr());
        }
        x.bytes[..x.len].to_vec()
    }
}

// ------------------------------------------------------------------ values

/// Content variant a or b: distinct bytes, different at every position.
/// A shape makes it look like something that was wiped, or never set.
fn content(n: usize, variant: usize, id: usize, shape: usize) -> Vec<u8> {
    let mut b: Vec<u8> = (0..n).map(|i| (1 + i * 3 + id * 7) as u8 ^ if variant == 0 { 0 } else { 0x80 | (i as u8 & 3) }).collect();
    let full = b.clone();
    match shape {
        0 => {}
        1 => b[0] = 0,
        2 => b[n - 1] = 0,
        3 => {
            b[0] = 0;
            b[n - 1] = 0
        }
        4 => b[..n / 2].iter_mut().for_each(|x| *x = 0),
        5 => b[n / 2..].iter_mut().for_each(|x| *x = 0),
        6 => (0..n).filter(|i| *i != n / 3).for_each(|i| b[i] = 0),
        7 => (0..n).filter(|i| *i != 0).for_each(|i| b[i] = 0),
        8 => (0..n).filter(|i| *i != n - 1).for_each(|i| b[i] = 0),
        9 => b.iter_mut().for_each(|x| *x = full[0]),
        10 => b.iter_mut().for_each(|x| *x = if variant == 0 { 0xff } else { 0x7f }),
        11 => (0..n).filter(|i| i % 2 == 0).for_each(|i| b[i] = 0),
        12 => (0..n).filter(|i| i % 8 != 7).for_each(|i| b[i] = 0),
        13 => b[..8].iter_mut().for_each(|x| *x = 0),
        14 => b[n - 8..].iter_mut().for_each(|x| *x = 0),
        15 => (0..n / 2).for_each(|i| b[n / 2 + i] = full[i]),
        16 => (0..n).for_each(|i| b[i] = full[n - 1 - i]),
        17 => b[1..n - 1].iter_mut().for_each(|x| *x = 0),
        18 => (0..n).for_each(|i| b[i] = b' ' + full[i] % 64),
        _ => b[n / 2] = 0,
    }
    b
}
const SHAPES: usize = 20;
const SIZES: [usize; 6] = [12, 16, 20, 24, 28, 32];
const TYPES: [Type; 6] = [Type::Type9Words, Type::Type12Words, Type::Type15Words, Type::Type18Words, Type::Type21Words, Type::Type24Words];

trait Secret: Sized {
    const CTORS: usize;
    fn copy(&self) -> Self;
    fn make(kind: usize, ctor: usize, b: &[u8]) -> Self;
    fn bytes(&self) -> &[u8];
}
fn arr<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut a = [0; N];
    a.copy_from_slice(b);
    a
}
impl Secret for Entropy {
    const CTORS: usize = 4;
    #[inline(always)]
    fn copy(&self) -> Self {
        self.clone()
    }
    #[inline(always)]
    fn make(kind: usize, ctor: usize, b: &[u8]) -> Self {
        match ctor {
            0 => Entropy::from_slice(b).unwrap(),
            1 => match kind {
                0 => Entropy::Entropy9(arr(b)),
                1 => Entropy::Entropy12(arr(b)),
                2 => Entropy::Entropy15(arr(b)),
                3 => Entropy::Entropy18(arr(b)),
                4 => Entropy::Entropy21(arr(b)),
                _ => Entropy::Entropy24(arr(b)),
            },
            2 => Entropy::generate(TYPES[kind], |o| o.copy_from_slice(b)),
            _ => Entropy::from_mnemonics(&Entropy::from_slice(b).unwrap().to_mnemonics()).unwrap(),
        }
    }
    #[inline(always)]
    fn bytes(&self) -> &[u8] {
        self.as_ref()
    }
}
impl Secret for Seed {
    const CTORS: usize = 3;
    #[inline(always)]
    fn copy(&self) -> Self {
        Seed::from_slice(self.as_ref()).unwrap()
    }
    #[inline(always)]
    fn make(_: usize, ctor: usize, b: &[u8]) -> Self {
        match ctor {
            0 => Seed::from_bytes(arr(b)),
            1 => Seed::from_slice(b).unwrap(),
            _ => {
                let p = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about";
                let m = MnemonicString::new(&dictionary::ENGLISH, p.to_string()).unwrap();
                Seed::from_mnemonic_string(&m, b)
            }
        }
    }
    #[inline(always)]
    fn bytes(&self) -> &[u8] {
        self.as_ref()
    }
}

// ------------------------------------------------------------------ verdicts

/// What happened in a history: for each place its secret and what was found there when its value was gone.
#[derive(Default)]
struct Log {
    found: Vec<(Vec<u8>, Vec<u8>)>,
    harm: Option<String>,
}
#[derive(Default)]
struct Stats {
    histories: u64,
    places: u64,
    steps: u64,
    states: HashSet<u64>,
    per: BTreeMap<String, u64>,
    violations: Vec<(String, String)>,
}
fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
/// A position that still has its secret byte under both contents is not wiped (one constant byte may coincide).
fn judge(name: &str, what: &dyn Fn() -> String, a: &Log, b: &Log, st: &mut Stats) {
    st.histories += 1;
    *st.per.entry(name.into()).or_insert(0) += 1;
    let mut bad = a.harm.clone().or(b.harm.clone());
    if a.found.len() != b.found.len() {
        bad = Some("the two contents behave differently".into());
    }
    for (i, ((s1, f1), (s2, f2))) in a.found.iter().zip(&b.found).enumerate() {
        st.places += 2;
        let left: Vec<usize> =
            (0..s1.len().min(s2.len())).filter(|k| s1[*k] != s2[*k] && s1[*k] == f1[*k] && s2[*k] == f2[*k]).collect();
        if !left.is_empty() && bad.is_none() {
            bad = Some(format!("value {} of {} bytes: {} bytes are still there (first at {})", i, s1.len(), left.len(), left[0]));
        }
    }
    if let Some(e) = bad {
        let only = std::env::args().nth(2);
        if only.map(|o| o == format!("{}: {}", name, what())).unwrap_or(true) && st.violations.len() < 20 {
            st.violations.push((format!("{}: {}", name, what()), e));
        }
    }
}

// ------------------------------------------------------------------ stack histories

const WAYS: [&str; 12] = [
    "end of scope", "array", "struct field", "Option set to None", "unwinding", "unwinding through a caller", "early return",
    "clone and original", "clone dropped first", "original dropped first", "overwritten by a clone", "unwinding with a clone",
];
struct Field<T> {
    _a: u64,
    v: T,
    _b: u8,
}
#[inline(never)]
fn boom() {
    black_box(0);
    std::panic::resume_unwind(Box::new(1u8));
}
/// A frame deep in the stack in which the values live and die.
#[inline(never)]
fn deep<T: Secret>(kind: usize, ctor: usize, way: usize, b: &[u8], c: &[u8], secrets: &mut Vec<Vec<u8>>, harm: &mut Option<String>) {
    let pad = [0u8; 4096];
    black_box(&pad);
    frame::<T>(kind, ctor, way, b, c, secrets, harm);
    black_box(&pad);
}
macro_rules! reg {
    ($v:expr, $s:expr) => {{
        let x = $v.bytes();
        $s.push(x.to_vec());
        note(x);
    }};
}
#[inline(never)]
fn frame<T: Secret>(kind: usize, ctor: usize, way: usize, b: &[u8], c: &[u8], secrets: &mut Vec<Vec<u8>>, harm: &mut Option<String>) {
    match way {
        0 => {
            let v = T::make(kind, ctor, b);
            reg!(v, secrets);
        }
        1 => {
            let v = [T::make(kind, ctor, b), T::make(kind, ctor, c)];
            reg!(v[0], secrets);
            reg!(v[1], secrets);
        }
        2 => {
            let v = Field { _a: black_box(1), v: T::make(kind, ctor, b), _b: black_box(2) };
            reg!(v.v, secrets);
            black_box(&v._a);
            black_box(&v._b);
        }
        3 => {
            let mut v = Some(T::make(kind, ctor, b));
            if let Some(x) = v.as_ref() {
                reg!(x, secrets);
            }
            v = None;
            black_box(&v);
        }
        4 | 5 => {
            let v = T::make(kind, ctor, b);
            reg!(v, secrets);
            if way == 4 {
                boom();
            } else {
                inner(&v, 3);
            }
        }
        6 => {
            let v = T::make(kind, ctor, b);
            reg!(v, secrets);
            if black_box(true) {
                return;
            }
            black_box(v.bytes().len());
        }
        7 => {
            let v = T::make(kind, ctor, b);
            let w = v.copy();
            reg!(v, secrets);
            reg!(w, secrets);
        }
        8 | 9 => {
            // the one that is dropped first lives in an inner scope's heap cell or in the stack
            let v = T::make(kind, ctor, b);
            reg!(v, secrets);
            let before = v.bytes().to_vec();
            if way == 8 {
                {
                    let w = v.copy();
                    reg!(w, secrets);
                }
                if v.bytes() != &before[..] {
                    *harm = Some("dropping the clone changed the original".into());
                }
            } else {
                let w = {
                    let x = Box::new(T::make(kind, ctor, b));
                    reg!(x, secrets);
                    (*x).copy()
                };
                reg!(w, secrets);
                if w.bytes() != &before[..] {
                    *harm = Some("dropping the original changed the clone".into());
                }
            }
        }
        10 => {
            let mut v = T::make(kind, ctor, b);
            let w = T::make(kind, ctor, c);
            black_box(v.bytes().len());
            v = w.copy();
            if v.bytes() != w.bytes() {
                *harm = Some("the overwritten value is not the clone".into());
            }
            reg!(v, secrets);
            reg!(w, secrets);
        }
        _ => {
            let v = T::make(kind, ctor, b);
            let w = v.copy();
            reg!(v, secrets);
            reg!(w, secrets);
            inner(&w, 1);
        }
    }
}
#[inline(never)]
fn inner<T: Secret>(v: &T, n: usize) {
    if n == 0 {
        boom();
    } else {
        let w = [n as u8; 32];
        black_box(&w);
        inner(v, n - 1);
        black_box(&w);
    }
}
fn stack_case<T: Secret>(kind: usize, ctor: usize, way: usize, variant: usize, n: usize, shape: usize) -> Log {
    let (b, c) = (content(n, variant, 0, shape), content(n, variant, 5, shape));
    let mut secrets = Vec::with_capacity(8);
    let mut harm = None;
    forget_places();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| deep::<T>(kind, ctor, way, &b, &c, &mut secrets, &mut harm)));
    let np = unsafe { NPLACES };
    let mut raw = [[0u8; 64]; 8];
    for i in 0..np.min(8) {
        unsafe {
            let x = &*(&raw const PLACES[i]);
            if x.freed {
                raw[i] = x.bytes;
            } else {
                copy_out(x.addr, x.len, raw[i].as_mut_ptr());
            }
        }
    }
    if r.is_err() != (way == 4 || way == 5 || way == 11) && harm.is_none() {
        harm = Some("unexpected panic".into());
    }
    let found = secrets.into_iter().enumerate().map(|(i, s)| {
        let f = raw[i][..s.len()].to_vec();
        (s, f)
    }).collect();
    forget_places();
    Log { found, harm }
}
fn stack_domain<T: Secret>(kinds: &[(usize, usize)], what: &str, st: &mut Stats) {
    for (kind, n) in kinds {
        for ctor in 0..T::CTORS {
            for way in 0..WAYS.len() {
                for shape in 0..SHAPES {
                    let a = stack_case::<T>(*kind, ctor, way, 0, *n, shape);
                    let b = stack_case::<T>(*kind, ctor, way, 1, *n, shape);
                    st.steps += 2;
                    st.states.insert(hash(format!("{}{}{}{}/{}", what, kind, ctor, way, shape).as_bytes()));
                    judge("stack", &|| format!("{} of {} bytes, constructor {}, {}, content {}", what, n, ctor, WAYS[way], shape), &a, &b, st);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ heap histories

const SLOTS: usize = 3;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    New(usize),
    Clone(usize, usize),
    Drop(usize),
    Assign(usize, usize),
    Swap(usize, usize),
}
fn ops() -> Vec<Op> {
    let mut v = vec![];
    for i in 0..SLOTS {
        v.push(Op::New(i));
        v.push(Op::Drop(i));
        for j in 0..SLOTS {
            if i != j {
                v.push(Op::Clone(i, j));
                v.push(Op::Assign(i, j));
            }
            if i < j {
                v.push(Op::Swap(i, j));
            }
        }
    }
    v
}
/// Which slots are full; None if the operation is not possible.
fn next(full: u8, o: &Op) -> Option<u8> {
    let f = |i: usize| full >> i & 1 == 1;
    match *o {
        Op::New(i) if !f(i) => Some(full | 1 << i),
        Op::Drop(i) if f(i) => Some(full & !(1 << i)),
        Op::Clone(i, j) if f(i) && !f(j) => Some(full | 1 << j),
        Op::Assign(i, j) if f(i) && f(j) => Some(full),
        Op::Swap(i, j) if f(i) || f(j) => {
            let (a, b) = (f(i) as u8, f(j) as u8);
            Some(full & !(1 << i | 1 << j) | b << i | a << j)
        }
        _ => None,
    }
}
trait Cell<T> {
    fn wrap(t: T) -> Self;
    fn get(&self) -> &T;
    fn set(&mut self, t: T);
}
impl<T> Cell<T> for Box<T> {
    fn wrap(t: T) -> Self {
        Box::new(t)
    }
    fn get(&self) -> &T {
        self
    }
    fn set(&mut self, t: T) {
        **self = t
    }
}
impl<T> Cell<T> for Rc<T> {
    fn wrap(t: T) -> Self {
        Rc::new(t)
    }
    fn get(&self) -> &T {
        self
    }
    fn set(&mut self, t: T) {
        *Rc::get_mut(self).unwrap() = t
    }
}
fn heap_case<T: Secret, C: Cell<T>>(kind: usize, n: usize, hist: &[Op], unwind: bool, variant: usize, shape: usize) -> Log {
    let mut log = Log::default();
    forget_places();
    let mut secrets: Vec<Vec<u8>> = Vec::with_capacity(16);
    let lg = &mut log;
    let sec = &mut secrets;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let mut slot: Vec<Option<C>> = (0..SLOTS).map(|_| None).collect();
        let mut model: Vec<Option<Vec<u8>>> = vec![None; SLOTS];
        let mut place: Vec<Option<usize>> = vec![None; SLOTS];
        let mut fresh = 0;
        for o in hist {
            match *o {
                Op::New(i) => {
                    let b = content(n, variant, fresh, shape);
                    fresh += 1;
                    let c = C::wrap(T::make(kind, 0, &b));
                    place[i] = Some(note(c.get().bytes()));
                    sec.push(b.clone());
                    slot[i] = Some(c);
                    model[i] = Some(b);
                }
                Op::Clone(i, j) => {
                    let c = C::wrap(slot[i].as_ref().unwrap().get().copy());
                    place[j] = Some(note(c.get().bytes()));
                    sec.push(model[i].clone().unwrap());
                    slot[j] = Some(c);
                    model[j] = model[i].clone();
                }
                Op::Drop(i) => {
                    slot[i] = None;
                    model[i] = None;
                    let p = place[i].take().unwrap();
                    if unsafe { !PLACES[p].freed } {
                        lg.harm = Some("a dropped value's memory was not given back".into());
                    }
                }
                Op::Assign(i, j) => {
                    let c = slot[j].as_ref().unwrap().get().copy();
                    slot[i].as_mut().unwrap().set(c);
                    model[i] = model[j].clone();
                    sec[place[i].unwrap()] = model[j].clone().unwrap();
                }
                Op::Swap(i, j) => {
                    slot.swap(i, j);
                    model.swap(i, j);
                    place.swap(i, j);
                }
            }
            // the values that live on are what they were
            for i in 0..SLOTS {
                if let (Some(c), Some(m)) = (&slot[i], &model[i]) {
                    if c.get().bytes() != &m[..] {
                        lg.harm = Some(format!("after {:?} the value in slot {} changed", o, i));
                    }
                }
            }
        }
        if unwind {
            boom();
        }
    }));
    for (i, s) in secrets.into_iter().enumerate() {
        if unsafe { !PLACES[i].freed } && log.harm.is_none() {
            log.harm = Some("a dropped value's memory was not given back".into());
        }
        let f = look(i);
        log.found.push((s, f));
    }
    forget_places();
    log
}
fn heap_domain<T: Secret>(kinds: &[(usize, usize)], what: &str, depth: usize, st: &mut Stats) {
    let all = ops();
    for (kind, n) in kinds {
        let mut stack: Vec<(Vec<Op>, u8)> = vec![(vec![], 0)];
        let mut turn = 0;
        while let Some((h, full)) = stack.pop() {
            for unwind in [false, true] {
                for rc in [false, true] {
                    // every content for the short histories, one after another for the long ones
                    for shape in if h.len() <= 2 { 0..SHAPES } else { turn..turn + 1 } {
                        let run = |v| if rc { heap_case::<T, Rc<T>>(*kind, *n, &h, unwind, v, shape) } else { heap_case::<T, Box<T>>(*kind, *n, &h, unwind, v, shape) };
                        let (a, b) = (run(0), run(1));
                        st.steps += 2 * h.len() as u64;
                        judge("heap", &|| format!("{} of {} bytes, {:?}, {}{}, content {}", what, n, h, if rc { "shared, " } else { "" }, if unwind { "then a panic" } else { "then the end" }, shape), &a, &b, st);
                    }
                    turn = (turn + 1) % SHAPES;
                }
            }
            st.states.insert(hash(format!("{}{}{:?}", what, kind, h).as_bytes()));
            if h.len() < depth {
                for o in &all {
                    if let Some(f) = next(full, o) {
                        let mut g = h.clone();
                        g.push(*o);
                        stack.push((g, f));
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ vectors

/// A vector of `len` values, shortened step by step; every split of `len` into truncations, then cleared or dropped.
fn vec_case<T: Secret>(kind: usize, n: usize, len: usize, cuts: usize, end: usize, variant: usize, shape: usize) -> Log {
    let mut log = Log::default();
    forget_places();
    let mut secrets: Vec<Vec<u8>> = vec![];
    let mut early: Vec<Option<Vec<u8>>> = vec![None; len];
    let (lg, sec, ea) = (&mut log, &mut secrets, &mut early);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let mut v: Vec<T> = Vec::with_capacity(len);
        for i in 0..len {
            let b = content(n, variant, i, shape);
            v.push(if i % 2 == 1 { v[i - 1].copy() } else { T::make(kind, 0, &b) });
            note(v[i].bytes());
            sec.push(v[i].bytes().to_vec());
        }
        for k in (0..len).rev() {
            if cuts >> k & 1 == 1 && v.len() > k {
                let was = v.len();
                v.truncate(k);
                for i in k..was {
                    ea[i] = Some(look(i));
                }
                for i in 0..k {
                    if v[i].bytes() != &sec[i][..] {
                        lg.harm = Some(format!("truncating to {} changed value {}", k, i));
                    }
                }
            }
        }
        match end {
            0 => drop(v),
            1 => {
                let was = v.len();
                v.clear();
                for i in 0..was {
                    ea[i] = Some(look(i));
                }
            }
            2 => drop(v.into_boxed_slice()),
            _ => boom(),
        }
    }));
    for (i, s) in secrets.into_iter().enumerate() {
        let f = early[i].clone().unwrap_or_else(|| look(i));
        log.found.push((s, f));
    }
    forget_places();
    log
}
fn vec_domain<T: Secret>(kinds: &[(usize, usize)], what: &str, st: &mut Stats) {
    for (kind, n) in kinds {
        for len in 1..=5 {
            for cuts in 0..1usize << len {
                for end in [0, 1, 3] {
                    for shape in 0..SHAPES {
                        let run = |v| vec_case::<T>(*kind, *n, len, cuts, end, v, shape);
                        let (a, b) = (run(0), run(1));
                        st.steps += 2 * len as u64;
                        st.states.insert(hash(format!("vec{}{}{}{}{}/{}", what, kind, len, cuts, end, shape).as_bytes()));
                        judge("vectors", &|| format!("{} of {} bytes, {} values, cuts {:b}, end {}, content {}", what, n, len, cuts, end, shape), &a, &b, st);
                    }
                }
            }
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let depth: usize = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(4);
    let e: Vec<(usize, usize)> = SIZES.iter().cloned().enumerate().collect();
    let s = [(0usize, 64usize)];
    let mut st = Stats::default();
    stack_domain::<Entropy>(&e, "entropy", &mut st);
    stack_domain::<Seed>(&s, "seed", &mut st);
    vec_domain::<Entropy>(&e, "entropy", &mut st);
    vec_domain::<Seed>(&s, "seed", &mut st);
    heap_domain::<Entropy>(&e, "entropy", depth, &mut st);
    heap_domain::<Seed>(&s, "seed", depth, &mut st);
    let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
    println!(
        "{{\"histories\":{},\"places\":{},\"steps\":{},\"states\":{},\"per\":{{{}}},\"violations\":[{}]}}",
        st.histories,
        st.places,
        st.steps,
        st.states.len(),
        st.per.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(","),
        st.violations.iter().map(|(a, b)| format!("[{},{}]", q(a), q(b))).collect::<Vec<_>>().join(",")
    );
}
