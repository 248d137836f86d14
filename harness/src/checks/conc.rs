//! C29: simultaneous calls, every interleaving up to a number of preemptions.
use super::base;

use super::ffi::{at, container, cs, NULL};
use crate::cffi::{invoke, Buf, Call, Raw, Val, H, S};
use crate::engine::*;
use crate::env::{self, Ans};
use crate::refm::{self, Doc, ADA, BTC, ETH, NETS};
use crate::sched::{self, Outcome, ALL, NO_ALLOC};
use crate::util::*;
use std::collections::{HashMap, HashSet};

type Prog = (&'static str, Vec<Step>, &'static [Ans]);
/// One call of a thread; `own` uses the handles the thread made itself.
#[derive(Clone, Copy, Debug)]
struct Step {
    own: bool,
    call: Call<'static>,
}
fn st(call: Call<'static>) -> Step {
    Step { own: false, call }
}
fn own(call: Call<'static>) -> Step {
    Step { own: true, call }
}

/// What the threads share; made before the exploration, in a process that has not used the library before.
struct Shared {
    m: H,
    k: H,
}

const BAD: &[Ans] = &[Ans::Err(5)];
const SHORT: &[Ans] = &[Ans::Short(3)];
const NOW: &[Ans] = &[];

/// The thread programs on shared handles.
fn programs(sig: &[Vec<u8>]) -> Vec<Prog> {
    let full = at(&container(&NETS, false));
    let eth = at(&container(&[ETH], true));
    let eths = at(&container(&[ETH, BTC], false));
    let msg = at(b"message of C29");
    let seed = at(&seed_n(61));
    let ph: &'static str = Box::leak(phrase_n(12, 140, 0).into_boxed_str());
    let p = |n| refm::std_path(n);
    let pw = cs("pw");
    let v = |n: u32, i: usize| Call::Verify(n, msg, Buf::At(Box::leak(sig[i].clone().into_boxed_slice())), p(n));
    vec![
        ("generate", vec![st(Call::Generate(0))], NOW),
        ("from seed", vec![st(Call::FromSeed(seed, cs("pw1")))], NOW),
        ("change password", vec![st(Call::Change(full, pw, cs("pw2")))], NOW),
        ("add network", vec![st(Call::Add(eth, pw, BTC))], NOW),
        ("open and use", vec![st(Call::Open(eths, pw)), own(Call::PubKey(ETH, p(ETH)))], NOW),
        ("sign BTC", vec![st(Call::Sign(BTC, msg, p(BTC)))], NOW),
        ("sign ADA", vec![st(Call::Sign(ADA, msg, p(ADA)))], NOW),
        ("verify ETH", vec![st(v(ETH, 1))], NOW),
        ("key BTC", vec![st(Call::PubKey(BTC, p(BTC)))], NOW),
        ("key missing", vec![st(Call::PubKey(5, p(BTC)))], NOW),
        ("generate, no random", vec![st(Call::Generate(0))], BAD),
        // the second half: used by the wider domains
        ("from phrase", vec![st(Call::FromMnemonic(cs(ph), cs("pw3"), 0))], NOW),
        ("sign ETH", vec![st(Call::Sign(ETH, msg, p(ETH)))], NOW),
        ("verify BTC", vec![st(v(BTC, 2))], NOW),
        ("verify ADA", vec![st(v(ADA, 0))], NOW),
        ("verify wrong", vec![st(v(ETH, 2))], NOW),
        ("key ADA", vec![st(Call::PubKey(ADA, p(ADA)))], NOW),
        ("key ETH", vec![st(Call::PubKey(ETH, p(ETH)))], NOW),
        ("backup", vec![st(Call::Keys(full, pw))], NOW),
        ("phrase", vec![st(Call::Phrase(eth, pw))], NOW),
        ("wrong password", vec![st(Call::Open(full, cs("no")))], NOW),
        ("networks", vec![st(Call::Networks)], NOW),
        ("has", vec![st(Call::Has(ETH))], NOW),
        ("path", vec![st(Call::PathText(cs("m/44'/60'/0'/0/7")))], NOW),
        ("new manager", vec![st(Call::ManagerNew), own(Call::Generate(2))], NOW),
        ("generate, short reads", vec![st(Call::Generate(1))], SHORT),
        ("from seed, no random", vec![st(Call::FromSeed(seed, cs("pw4")))], BAD),
        // two calls
        ("generate twice", vec![st(Call::Generate(0)), st(Call::Generate(0))], NOW),
        ("no random, then random", vec![st(Call::Generate(0)), st(Call::Generate(0))], BAD),
        ("sign twice", vec![st(Call::Sign(BTC, msg, p(BTC))), st(Call::Sign(ADA, msg, p(ADA)))], NOW),
    ]
}
const FIRST: usize = 11;
const ONE: usize = 27;
const NPROG: usize = 30;

/// Programs that need no handles: the first calls a process makes.
fn cold() -> Vec<Prog> {
    let p = |n| refm::std_path(n);
    let full = at(&container(&NETS, false));
    vec![
        ("manager, generate", vec![own(Call::ManagerNew), own(Call::Generate(0))], NOW),
        ("manager, from seed", vec![own(Call::ManagerNew), own(Call::FromSeed(at(&seed_n(61)), cs("pw1")))], NOW),
        ("manager, open, key", vec![own(Call::ManagerNew), own(Call::Open(full, cs("pw"))), own(Call::PubKey(BTC, p(BTC)))], NOW),
        ("manager, open, sign", vec![own(Call::ManagerNew), own(Call::Open(full, cs("pw"))), own(Call::Sign(ADA, at(b"x"), p(ADA)))], NOW),
        ("manager, open, sign ETH", vec![own(Call::ManagerNew), own(Call::Open(full, cs("pw"))), own(Call::Sign(ETH, at(b"x"), p(ETH)))], NOW),
        ("path", vec![own(Call::PathText(cs("m/44'/60'/0'/0/7")))], NOW),
        ("manager, phrase", vec![own(Call::ManagerNew), own(Call::FromMnemonic(cs(Box::leak(phrase_n(12, 141, 0).into_boxed_str())), cs("pw"), 0))], NOW),
    ]
}

/// Calls of one kind that differ in one argument, and pairs of them in both orders.
fn siblings(sig: &[Vec<u8>]) -> Vec<Vec<Prog>> {
    let mut kinds: Vec<(&str, Vec<Call<'static>>)> = vec![];
    let msg = |k: usize| at(&[&b"message of C29"[..], b"another message", b""][k]);
    let path = |n: u32, k: usize| {
        let mut p = refm::std_path(n);
        match k {
            0 => {}
            1 => p[2] += 1,
            2 => p[4] += 1,
            _ => p[2] += 2,
        }
        p
    };
    for n in NETS {
        let name = refm::net_name(n);
        let s = Buf::At(Box::leak(sig[NETS.iter().position(|x| *x == n).unwrap()].clone().into_boxed_slice()));
        kinds.push((Box::leak(format!("{} keys", name).into_boxed_str()), (0..3).map(|k| Call::PubKey(n, path(n, k + (k + 1) / 3))).collect()));
        kinds.push((Box::leak(format!("{} signatures, paths", name).into_boxed_str()), (0..3).map(|k| Call::Sign(n, msg(0), path(n, k))).collect()));
        kinds.push((Box::leak(format!("{} signatures, messages", name).into_boxed_str()), (0..3).map(|k| Call::Sign(n, msg(k), path(n, 0))).collect()));
        kinds.push((Box::leak(format!("{} verifications", name).into_boxed_str()), (0..3).map(|k| Call::Verify(n, msg(k / 2), s, path(n, k % 2))).collect()));
    }
    kinds.push(("keys of networks", NETS.iter().map(|n| Call::PubKey(*n, path(*n, 0))).collect()));
    kinds.push(("signatures of networks", NETS.iter().map(|n| Call::Sign(*n, msg(0), path(*n, 1))).collect()));
    let full = at(&container(&NETS, false));
    let eth = at(&container(&[ETH], true));
    let two = at(&container(&[ETH, BTC], false));
    let c = [full, eth, two];
    kinds.push(("seeds", (0..3).map(|k| Call::FromSeed(at(&seed_n(61 + k)), cs("pw1"))).collect()));
    kinds.push(("passwords", ["pw1", "pw2", ""].iter().map(|p| Call::FromSeed(at(&seed_n(61)), cs(p))).collect()));
    kinds.push(("changes", (0..3).map(|k| Call::Change(c[k], cs("pw"), cs(["x", "y", "x"][k]))).collect()));
    kinds.push(("additions", vec![Call::Add(eth, cs("pw"), BTC), Call::Add(eth, cs("pw"), ADA), Call::Add(two, cs("pw"), ADA)]));
    kinds.push(("backups", (0..3).map(|k| Call::Keys(c[k], cs("pw"))).collect()));
    kinds.push(("openings", vec![Call::Phrase(eth, cs("pw")), Call::Phrase(eth, cs("no")), Call::Keys(eth, cs("pw"))]));
    kinds.push(("languages", [0, 2, 4].iter().map(|l| Call::Generate(*l)).collect()));
    let ph = |l: usize| cs(Box::leak(phrase_n(12, 142, l).into_boxed_str()));
    kinds.push(("phrases", [0, 2, 5].iter().map(|l| Call::FromMnemonic(ph(*l), cs("pw"), *l as u32)).collect()));
    kinds.push(("phrases in the wrong language", vec![Call::FromMnemonic(ph(0), cs("pw"), 0), Call::FromMnemonic(ph(0), cs("pw"), 1), Call::FromMnemonic(ph(1), cs("pw"), 1)]));
    kinds.push(("paths", ["m/44'/60'/0'/0/7", "m/44'/60'/1'/0/7", "m/44'/60'/0/0/7"].iter().map(|t| Call::PathText(cs(t))).collect()));
    kinds
        .into_iter()
        .map(|(name, c)| {
            let t = |s: String| -> &'static str { Box::leak(format!("{}: {}", name, s).into_boxed_str()) };
            let mut v: Vec<Prog> = (0..3).map(|k| (t(format!("{}", k)), vec![st(c[k])], NOW)).collect();
            v.push((t("0, 1".into()), vec![st(c[0]), st(c[1])], NOW));
            v.push((t("1, 0".into()), vec![st(c[1]), st(c[0])], NOW));
            v
        })
        .collect()
}
const KINDS: usize = 24;

/// What a call said: a tag and bytes.
fn put(out: &mut Vec<u8>, r: &Result<Val, String>) {
    let (tag, b) = match r {
        Ok(Val::Data(d)) => (b'D', d.clone()),
        Ok(Val::Text(t)) => (b'T', t.clone()),
        Ok(v) => (b'V', format!("{:?}", v).into_bytes()),
        Err(e) => (b'!', e.clone().into_bytes()),
    };
    out.push(tag);
    out.extend_from_slice(&(b.len() as u32).to_le_bytes());
    out.extend_from_slice(&b);
}
fn parts(mut o: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let mut v = vec![];
    while o.len() >= 5 {
        let n = u32::from_le_bytes([o[1], o[2], o[3], o[4]]) as usize;
        v.push((o[0], o[5..5 + n].to_vec()));
        o = &o[5 + n..];
    }
    v
}
fn run_program(p: &Prog, stream: u64, sh: &Shared) -> Vec<u8> {
    sched::quiet(|| env::script(stream, p.2));
    let mut out = vec![];
    let (mut m, mut k) = (NULL, NULL);
    let mut held = vec![];
    for s in &p.1 {
        let (hm, hk) = if s.own { (if m == NULL { sh.m } else { m }, if k == NULL { sh.k } else { k }) } else { (sh.m, sh.k) };
        match invoke(&hm, &hk, &s.call) {
            Ok(r) => {
                sched::quiet(|| put(&mut out, &Ok(r.value())));
                match r {
                    Raw::Manager(h) => {
                        m = h;
                        held.push(r)
                    }
                    Raw::Keychain(h) => {
                        k = h;
                        held.push(r)
                    }
                    r => {
                        if !r.release().is_null() {
                            sched::quiet(|| put(&mut out, &Err("not released".into())));
                        }
                    }
                }
            }
            Err(e) => sched::quiet(|| put(&mut out, &Err(e))),
        }
    }
    while let Some(r) = held.pop() {
        r.release();
    }
    sched::quiet(env::unscript);
    out
}
/// The password of the container a call makes.
fn pw_of(c: &Call) -> Option<String> {
    let p: &S = match c {
        Call::FromSeed(_, p) | Call::FromMnemonic(_, p, _) | Call::Add(_, p, _) => p,
        Call::Change(_, _, p) => p,
        _ => return None,
    };
    p.map(|b| String::from_utf8_lossy(&b[..b.len() - 1]).into_owned())
}
/// A result without what the random source decided, and what it decided.
fn essence(c: &Call, r: &(u8, Vec<u8>)) -> Result<(String, Vec<Vec<u8>>), String> {
    if r.0 == b'!' {
        return Err(String::from_utf8_lossy(&r.1).into_owned());
    }
    if let (b'D', Some(pw)) = (r.0, pw_of(c)) {
        let p = refm::unseal(&r.1, &pw).ok_or("a container that does not open with its password")?;
        let body = match Doc::read(&p) {
            Ok(d) => d.text(),
            Err(_) => hex(&p),
        };
        return Ok((format!("container {}", body), vec![r.1[..32].to_vec(), r.1[32..44].to_vec()]));
    }
    if let (b'T', Call::Generate(l)) = (r.0, c) {
        let t = String::from_utf8(r.1.clone()).map_err(|_| "a phrase that is not text")?;
        let l = *l as usize;
        if !refm::phrase_ok(&t, l, 12) {
            return Err(format!("phrase {:?}", t));
        }
        return Ok((format!("phrase of language {}", l), vec![r.1.clone()]));
    }
    Ok((format!("{}:{}", r.0 as char, if r.0 == b'V' { String::from_utf8_lossy(&r.1).into_owned() } else { hex(&r.1) }), vec![]))
}

#[derive(Default)]
struct Stats {
    executions: u64,
    points: u64,
    max_points: u64,
    switches: u64,
    accesses: u64,
    conflicts: u64,
    capped: bool,
    outcomes: Vec<u64>,
    bounds: Vec<(u8, u32, u64)>,
}

type Plan = Vec<(u8, u32)>;

/// All schedules of these programs; run in a process of its own.
fn explore(progs: &[&Prog], sh: &Shared, plan: &Plan, max_exec: u64) -> Result<Stats, String> {
    // what each call gives alone
    let mut alone: Vec<Vec<String>> = vec![];
    for (t, p) in progs.iter().enumerate() {
        let mut got = None;
        let body = |_: usize| run_program(p, 1000 + t as u64, sh);
        sched::explore(1, &body, ALL, 0, 4, &mut |_, o| {
            if o.status != 1 || o.died.is_some() {
                return Err(format!("{} alone: status {} {:?}", p.0, o.status, o.died));
            }
            got = Some(o.out[0].clone());
            Ok(())
        })
        .map_err(|(_, e)| e)?;
        let rs = parts(&got.expect("alone"));
        let mut v = vec![];
        for (s, r) in p.1.iter().zip(&rs) {
            v.push(essence(&s.call, r).map_err(|e| format!("{} alone: {}", p.0, e))?.0);
        }
        alone.push(v);
    }
    let names: Vec<&str> = progs.iter().map(|p| p.0).collect();
    let body = |t: usize| run_program(progs[t], 1000 + t as u64, sh);
    let mut good: HashSet<u64> = HashSet::new();
    let mut seen: HashMap<(usize, u64), Vec<Vec<u8>>> = HashMap::new();
    let mut judge = |_: &[u8], o: &Outcome| -> Result<(), String> {
        match (o.status, o.died) {
            (2, _) => return Err(format!("{:?}: deadlock", names)),
            (1, None) => {}
            (4, _) => return Err(format!("ENGINE: {:?}: too many points", names)),
            (s, d) => return Err(format!("{:?}: the process died ({:?}, status {})", names, d, s)),
        }
        let whole = hash(&o.out.concat());
        if good.contains(&whole) {
            return Ok(());
        }
        let mut fresh: Vec<Vec<u8>> = vec![];
        for (t, p) in progs.iter().enumerate() {
            let h = hash(&o.out[t]);
            if let Some(f) = seen.get(&(t, h)) {
                fresh.extend(f.iter().cloned());
                continue;
            }
            let rs = parts(&o.out[t]);
            if rs.len() != p.1.len() {
                return Err(format!("{:?}: thread {} ({}) gave {} results", names, t, p.0, rs.len()));
            }
            let mut mine = vec![];
            for (j, (s, r)) in p.1.iter().zip(&rs).enumerate() {
                let (e, f) = essence(&s.call, r).map_err(|e| format!("{:?}: {}: {}", names, p.0, e))?;
                if e != alone[t][j] {
                    return Err(format!("{:?}: {}: {} but alone {}", names, p.0, e, alone[t][j]));
                }
                mine.extend(f);
            }
            seen.insert((t, h), mine.clone());
            fresh.extend(mine);
        }
        let n = fresh.len();
        fresh.sort();
        fresh.dedup();
        if fresh.len() != n {
            return Err(format!("{:?}: two calls share a salt, a nonce or a phrase", names));
        }
        good.insert(whole);
        Ok(())
    };
    let mut s = Stats::default();
    for (mask, bound) in plan {
        let e = sched::explore(progs.len(), &body, *mask, *bound, max_exec, &mut judge)
            .map_err(|(p, e)| format!("{} [schedule {:?}, mask {:x}, bound {}]", e, trail(&p), mask, bound))?;
        s.executions += e.executions;
        s.points += e.points;
        s.max_points = s.max_points.max(e.max_points as u64);
        s.switches += e.switches;
        s.accesses += e.accesses;
        s.conflicts = s.conflicts.max(e.conflicts as u64);
        s.capped |= e.capped;
        s.bounds.push((*mask, *bound, e.executions));
        for o in e.outcomes {
            if !s.outcomes.contains(&o) {
                s.outcomes.push(o);
            }
        }
    }
    Ok(s)
}
/// A schedule, as the points where it does not simply go on.
fn trail(p: &[u8]) -> Vec<(usize, u8)> {
    p.iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, c)| (i, *c)).collect()
}

/// Runs `f` in a forked process, which thus starts without any trace of earlier cases.
fn in_process(f: impl FnOnce() -> Result<Stats, String>) -> Result<Stats, String> {
    unsafe {
        let mut fd = [0i32; 2];
        assert!(libc::pipe(fd.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fd[0]);
            let j = match caught(f) {
                Ok(Ok(s)) => serde_json::json!({"x": s.executions, "p": s.points, "m": s.max_points, "s": s.switches,
                    "a": s.accesses, "c": s.conflicts, "cap": s.capped, "o": s.outcomes, "b": s.bounds}),
                Ok(Err(e)) => serde_json::json!({"e": e}),
                Err(p) => serde_json::json!({"e": format!("ENGINE panic: {}", p)}),
            }
            .to_string();
            let mut b = j.as_bytes();
            while !b.is_empty() {
                let n = libc::write(fd[1], b.as_ptr() as *const _, b.len());
                if n <= 0 {
                    break;
                }
                b = &b[n as usize..];
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut text = vec![];
        let mut b = [0u8; 4096];
        loop {
            let n = libc::read(fd[0], b.as_mut_ptr() as *mut _, b.len());
            if n <= 0 {
                break;
            }
            text.extend_from_slice(&b[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let j: serde_json::Value = serde_json::from_slice(&text).map_err(|e| format!("the exploring process died: {} ({})", st, e))?;
        if let Some(e) = j["e"].as_str() {
            return Err(e.into());
        }
        let n = |k: &str| j[k].as_u64().unwrap_or(0);
        Ok(Stats {
            executions: n("x"),
            points: n("p"),
            max_points: n("m"),
            switches: n("s"),
            accesses: n("a"),
            conflicts: n("c"),
            capped: j["cap"].as_bool().unwrap_or(false),
            outcomes: j["o"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default(),
            bounds: j["b"]
                .as_array()
                .map(|a| {
                    a.iter()
                        .map(|x| (x[0].as_u64().unwrap() as u8, x[1].as_u64().unwrap() as u32, x[2].as_u64().unwrap()))
                        .collect()
                })
                .unwrap_or_default(),
        })
    }
}
/// Signatures the verifying programs are given, made in a process of its own.
fn signatures() -> Vec<Vec<u8>> {
    thread_local! { static S: std::cell::OnceCell<Vec<Vec<u8>>> = const { std::cell::OnceCell::new() }; }
    S.with(|s| {
        s.get_or_init(|| {
            let sh = sched::new_shared();
            let full = container(&NETS, false);
            let full: &'static [u8] = Box::leak(full.into_boxed_slice());
            let body = |_: usize| {
                let mut out = vec![];
                let s = shared(full).expect("handles");
                for n in NETS {
                    let r = invoke(&s.m, &s.k, &Call::Sign(n, Buf::At(b"message of C29"), refm::std_path(n))).expect("sign");
                    put(&mut out, &Ok(r.value()));
                }
                out
            };
            let o = sched::run(1, &body, &[], 0, &[], sh, 30);
            unsafe { libc::munmap(sh as *mut _, std::mem::size_of::<sched::Shared>()) };
            assert!(o.status == 1, "signatures");
            parts(&o.out[0]).into_iter().map(|p| p.1).collect()
        })
        .clone()
    })
}
fn shared(full: &'static [u8]) -> Result<Shared, String> {
    let m = match invoke(&NULL, &NULL, &Call::ManagerNew)? {
        Raw::Manager(h) => h,
        r => return Err(format!("no manager: {:?}", r.value())),
    };
    let k = match invoke(&m, &NULL, &Call::Open(Buf::At(full), cs("pw")))? {
        Raw::Keychain(h) => h,
        r => return Err(format!("no wallet: {:?}", r.value())),
    };
    Ok(Shared { m, k })
}

fn case(ids: &[usize], is_cold: bool, plan: &Plan, max_exec: u64, cx: &mut Cx) -> R {
    let all = if is_cold { cold() } else { programs(&signatures()) };
    assert!(is_cold || all.len() == NPROG);
    run_case(&all, ids, is_cold, plan, max_exec, cx)
}
fn run_case(all: &[Prog], ids: &[usize], is_cold: bool, plan: &Plan, max_exec: u64, cx: &mut Cx) -> R {
    let progs: Vec<&Prog> = ids.iter().map(|i| &all[*i]).collect();
    let full: &'static [u8] = Box::leak(container(&NETS, false).into_boxed_slice());
    let s = in_process(|| {
        let sh = if is_cold { Shared { m: NULL, k: NULL } } else { shared(full)? };
        explore(&progs, &sh, plan, max_exec)
    })?;
    cx.steps(s.executions * progs.iter().map(|p| p.1.len() as u64).sum::<u64>());
    cx.count("schedules", s.executions);
    cx.count("scheduling_points", s.points);
    cx.count("switches", s.switches);
    cx.count("memory_accesses_seen", s.accesses);
    cx.max("points_in_one_schedule", s.max_points);
    cx.max("shared_addresses_written", s.conflicts);
    for (m, b, n) in &s.bounds {
        cx.count(&format!("schedules_{}_preemptions_{}", b, if *m == ALL { "all_points" } else { "no_allocation_points" }), *n);
    }
    cx.capped |= s.capped;
    let names: Vec<&str> = progs.iter().map(|p| p.0).collect();
    let h = hash(names.join("|").as_bytes());
    for o in &s.outcomes {
        cx.state(hash2(h, *o));
    }
    cx.outcome(if s.outcomes.len() == 1 { "one set of results" } else { "several sets of results" });
    cx.sample(&names.join(" | "), || format!("{} schedules, {} points in the longest, {} sets of results", s.executions, s.max_points, s.outcomes.len()));
    Ok(())
}
fn pair(i: u64, n: usize) -> [usize; 2] {
    // unordered, with itself
    let mut i = i as usize;
    for a in 0..n {
        if i < n - a {
            return [a, a + i];
        }
        i -= n - a;
    }
    unreachable!()
}

pub fn c29(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let cap = if th { 400_000 } else { 20_000 };
    let tri = |n: usize| (n * (n + 1) / 2) as u64;
    let mut d = vec![];
    let few: Plan = if th { vec![(NO_ALLOC, 1), (NO_ALLOC, 2), (NO_ALLOC, 4)] } else { vec![(NO_ALLOC, 1), (NO_ALLOC, 3)] };
    let one: Plan = if th { vec![(ALL, 1), (ALL, 2)] } else { vec![(ALL, 1)] };
    let f = few.clone();
    d.push(Domain::new("two calls, no preemption at allocations", tri(NPROG), move |i, cx| case(&pair(i, NPROG), false, &f, cap, cx)).chunk(1));
    let f = few.clone();
    d.push(Domain::new("first calls of a process", tri(7), move |i, cx| case(&pair(i, 7), true, &f, cap, cx)).chunk(1));
    let f: Plan = if th { vec![(NO_ALLOC, 1), (NO_ALLOC, 2), (NO_ALLOC, 4)] } else { vec![(NO_ALLOC, 1), (NO_ALLOC, 3)] };
    d.push(
        Domain::new("two calls of one kind with other arguments", KINDS as u64 * tri(5), move |i, cx| {
            let all = siblings(&signatures());
            assert!(all.len() == KINDS);
            run_case(&all[(i / tri(5)) as usize], &pair(i % tri(5), 5), false, &f, cap, cx)
        })
        .chunk(1),
    );
    let f: Plan = if th { vec![(NO_ALLOC, 1), (NO_ALLOC, 2), (NO_ALLOC, 3)] } else { vec![(NO_ALLOC, 1), (NO_ALLOC, 2)] };
    d.push(
        Domain::new("three calls of one kind with other arguments", KINDS as u64 * 4, move |i, cx| {
            let all = siblings(&signatures());
            run_case(&all[i as usize / 4], &[[0, 1, 2], [0, 0, 1], [1, 1, 0], [2, 3, 4]][i as usize % 4], false, &f, cap, cx)
        })
        .chunk(1),
    );
    let f: Plan = if th { vec![(NO_ALLOC, 1), (NO_ALLOC, 2), (NO_ALLOC, 3)] } else { vec![(NO_ALLOC, 1), (NO_ALLOC, 2)] };
    let m = FIRST as u64;
    d.push(
        Domain::new("three calls, no preemption at allocations", m * m * m, move |i, cx| {
            let k = digits(i, &[m, m, m]);
            if k[0] > k[1] || k[1] > k[2] {
                return Ok(());
            }
            case(&k, false, &f, cap, cx)
        })
        .chunk(1),
    );
    let o = one.clone();
    let n = if th { ONE } else { FIRST };
    d.push(Domain::new("two calls, preemption anywhere", tri(n), move |i, cx| case(&pair(i, n), false, &o, cap, cx)).chunk(1));
    let mut c = base(
        "C29",
        "All interleavings of the thread programs, up to a number of preemptions, are executed on the real code under a controlled scheduler: a thread may be switched at every read of the random source, futex operation and (in the crates of /repo) memory access to an address another thread writes, and in the last domain also at every allocation and release. Each call's result is compared with what it gives alone; containers are opened by the reference model with their own password; salts, nonces and phrases are compared across calls; deadlocks, crashes and aborts are failures. Every case starts in a fresh process image that has not used the library.",
        if th { "30 thread programs, all pairs with up to 4 preemptions; 24 kinds of calls in three variants and their sequences, all pairs with up to 4 preemptions, triples with up to 3; pairs of the 27 one-call programs with up to 2 preemptions anywhere; all triples of the 11 core programs with up to 3 preemptions; all pairs of first calls of a process" } else { "30 thread programs, all pairs with up to 3 preemptions; 24 kinds of calls in three variants and their sequences, all pairs with up to 3 preemptions, triples with up to 2; all pairs of the 11 core programs with one preemption anywhere; all triples of the core programs with up to 2 preemptions; all pairs of first calls of a process" },
        d,
    );
    c.assumptions = vec![
        "sequentially consistent executions; accesses inside third-party crates are not scheduling points".into(),
        "each thread reads its own stream of the random source".into(),
    ];
    c
}
