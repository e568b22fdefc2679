//! Explorer of interleavings within calls (H01). Built with the ThreadSanitizer instrumentation pass over the
//! library, its dependencies and std, and linked with ../sched/rt.c in the place of the sanitizer's runtime, so
//! that every memory access is a point where the controlled scheduler can switch threads.
use mc::hist::{self, Q};
use std::alloc::{GlobalAlloc, Layout};
use std::io::{BufRead, Write};

const MAXEV: usize = 200_000;
#[repr(C)]
#[derive(Clone, Copy)]
struct Ev {
    thread: u8,
    kind: u8,
    others: u8,
    size: u8,
    run: u32,
    addr: u64,
}
impl Ev {
    fn conflicts(&self, o: &Ev) -> bool {
        let w = |e: &Ev| (e.addr >> 3, (e.addr + e.size as u64 - 1) >> 3);
        let (a, b) = (w(self), w(o));
        (self.kind | o.kind) & 1 == 1 && a.0 <= b.1 && b.0 <= a.1
    }
}
#[repr(C)]
struct Shared {
    n_ev: u32,
    overflow: u32,
    deadlock: u32,
    n_new: u32,
    switches: u32,
    horizon: u32,
    ev: [Ev; MAXEV],
    fresh: [u64; 4096],
}
extern "C" {
    fn rt_alloc(n: usize, al: usize) -> *mut u8;
    fn rt_free(p: *mut u8);
    fn rt_setup();
    fn rt_shared() -> *mut Shared;
    fn rt_reset();
    fn rt_cand_add(w: u64) -> i32;
    fn rt_cand_clear();
    fn rt_bump(on: i32);
    fn rt_child(threads: i32, at: *const u32, to: *const u8, n: u32);
    fn rt_register(t: i32);
    fn rt_registered() -> i32;
    fn rt_start(first: i32);
    fn rt_done();
    fn rt_active() -> i32;
}
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        rt_free(p)
    }
}
#[global_allocator]
static ALLOC: A = A;

/// What each thread asks.
struct Case {
    threads: Vec<Vec<Q>>,
}
#[derive(Clone)]
struct Plan {
    first: u8,
    at: Vec<u32>,
    to: Vec<u8>,
}

/// Run the case once under a plan in a process of its own; the answers, thread by thread, then again.
fn run(case: &Case, p: &Plan) -> Result<Vec<Vec<String>>, String> {
    unsafe { rt_reset() };
    let n = case.threads.len();
    let out = hist::in_child(|| {
        unsafe { rt_child(n as i32, p.at.as_ptr(), p.to.as_ptr(), p.at.len() as u32) };
        let mut answers: Vec<Vec<String>> = (0..n).map(|_| vec![]).collect();
        let mut kept: Vec<Vec<(String, Option<hist::Again>)>> = (0..n).map(|_| vec![]).collect();
        for t in 0..n {
            struct P(*mut Vec<(String, Option<hist::Again>)>, *const Vec<Q>);
            unsafe impl Send for P {}
            let pt = P(&mut kept[t], &case.threads[t]);
            std::thread::spawn(move || {
                let pt = pt;
                unsafe {
                    rt_register(t as i32);
                    for q in &*pt.1 {
                        (*pt.0).push(q.ask());
                    }
                    rt_done();
                    loop {
                        libc::pause();
                    }
                }
            });
            while unsafe { rt_registered() } <= t as i32 {
                std::hint::spin_loop();
            }
        }
        unsafe { rt_start(p.first as i32) };
        while unsafe { rt_active() } != 0 {
            unsafe { libc::usleep(20) };
        }
        // afterwards, one at a time: the values obtained, and the questions again
        for t in 0..n {
            for (k, (a, again)) in kept[t].iter().enumerate() {
                answers[t].push(a.clone());
                if let Some(f) = again {
                    let b = f();
                    if b != *a {
                        return format!("!the values obtained by {:?} answered {:?} and later {:?}", case.threads[t][k], a, b);
                    }
                }
                let b = case.threads[t][k].ask().0;
                if b != *a {
                    return format!("!{:?} answered {:?} and, asked again after the threads ended, {:?}", case.threads[t][k], a, b);
                }
            }
        }
        answers.iter().map(|v| v.iter().map(|a| a.replace(['\n', '\t'], " ")).collect::<Vec<_>>().join("\t")).collect::<Vec<_>>().join("\n")
    });
    let s = unsafe { &*rt_shared() };
    if s.deadlock != 0 {
        return Err("the threads wait for each other forever".into());
    }
    let out = out?;
    if let Some(m) = out.strip_prefix('!') {
        return Err(m.to_string());
    }
    let v: Vec<Vec<String>> = out.split('\n').map(|l| l.split('\t').map(|x| x.to_string()).collect()).collect();
    if v.len() != n {
        return Err(format!("no answer: {:?}", out));
    }
    Ok(v)
}
struct Found {
    runs: u64,
    all: u64,
    skipped: u64,
    cands: u64,
    overflow: bool,
    bound: usize,
}
fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{}", s);
    let _ = o.flush();
}
/// What each query answers when nothing else was ever asked.
fn alone(threads: &[Vec<Q>]) -> Result<Vec<Vec<String>>, String> {
    unsafe { rt_cand_clear() };
    let mut want = vec![];
    for t in threads {
        let mut w = vec![];
        for q in t {
            let c = Case { threads: vec![vec![q.clone()]] };
            w.push(run(&c, &Plan { first: 0, at: vec![], to: vec![] })?.concat().concat());
        }
        want.push(w);
    }
    Ok(want)
}
fn explore(case: &Case, want: &[Vec<String>], max: usize, budget: usize, limit: u64) -> Result<Found, String> {
    unsafe { rt_cand_clear() };
    let mut f = Found { runs: 0, all: 0, skipped: 0, cands: 0, bound: max, overflow: false };
    let dump = std::env::var("MCX_DUMP").is_ok();
    let check = |p: &Plan, f: &mut Found| -> Result<Vec<Ev>, String> {
        f.runs += 1;
        f.all += 1;
        if f.all % 64 == 0 {
            say("...");
        }
        let r = run(case, p);
        let s = unsafe { &*rt_shared() };
        let evs = s.ev[..s.n_ev as usize].to_vec();
        let sched = || format!("thread {} first, then {}", p.first, p.at.iter().zip(&p.to).map(|(a, t)| format!("at shared access {} (by thread {} to {:#x}) switch to thread {}", a, evs.get(*a as usize).map_or(9, |e| e.thread), evs.get(*a as usize).map_or(0, |e| e.addr), t)).collect::<Vec<_>>().join(", "));
        match r {
            Err(m) => Err(format!("{}: {}", sched(), m)),
            Ok(a) => {
                for t in 0..a.len() {
                    for k in 0..case.threads[t].len() {
                        let (w, g) = (&want[t][k], a[t].get(k).cloned().unwrap_or_default());
                        if *w != g {
                            return Err(format!("{}: {:?} on thread {} answers {:?}, alone it answers {:?}", sched(), case.threads[t][k], t, g, w));
                        }
                    }
                }
                Ok(evs)
            }
        }
    };
    let t0 = std::time::Instant::now();
    'again: for _round in 0..60 {
        let mut grown = false;
        let mut grow = |f: &mut Found| {
            let s = unsafe { &*rt_shared() };
            for k in 0..s.n_new.min(4096) as usize {
                grown |= unsafe { rt_cand_add(s.fresh[k]) } != 0;
                f.cands += 1;
            }
            if s.overflow != 0 {
                f.overflow = true;
            }
            grown
        };
        f.runs = 0;
        f.skipped = 0;
        f.bound = max;
        f.overflow = false;
        let mut layer: Vec<(Plan, Vec<Ev>)> = vec![];
        for t in 0..case.threads.len() as u8 {
            let p = Plan { first: t, at: vec![], to: vec![] };
            let evs = check(&p, &mut f)?;
            grow(&mut f);
            if dump {
                for (i, e) in evs.iter().enumerate() {
                    eprintln!("round {} plan {} ev {} t{} k{} run{} others{:b} {:#x}/{}", _round, t, i, e.thread, e.kind, e.run, e.others, e.addr, e.size);
                }
            }
            layer.push((p, evs));
        }
        for depth in 1..=max {
            let mut next = vec![];
            for (p, evs) in &layer {
                let lo = p.at.last().map_or(1, |x| *x as usize + 1);
                for to in 0..case.threads.len() as u8 {
                    // the accesses thread `to` makes when it gets control at the point looked at before this one
                    let mut block: Option<(Vec<Ev>, u32)> = None;
                    for e in (lo..evs.len()).rev() {
                        let x = evs[e];
                        if x.others >> to & 1 == 0 || x.run >= 4 || evs[e - 1].thread != x.thread {
                            block = None;
                            continue;
                        }
                        if let Some((b, horizon)) = &block {
                            // switching one access earlier makes a difference only if that access and the block are dependent
                            if *horizon <= e as u32 && !b.iter().any(|y| x.conflicts(y)) {
                                f.skipped += 1;
                                continue;
                            }
                        }
                        if f.all > budget as u64 || t0.elapsed().as_secs() > limit {
                            f.bound = depth - 1;
                            break;
                        }
                        let mut q = p.clone();
                        q.at.push(e as u32);
                        q.to.push(to);
                        let ev2 = check(&q, &mut f)?;
                        grow(&mut f);
                        let h = unsafe { &*rt_shared() }.horizon;
                        block = Some((ev2.iter().skip(e).skip_while(|y| y.thread != to).take_while(|y| y.thread == to).copied().collect(), h));
                        if depth < max {
                            next.push((q, ev2));
                        }
                    }
                }
            }
            if grow(&mut f) {
                continue 'again; // more words are shared than was known: start over with all of them
            }
            if f.bound < max {
                break;
            }
            layer = next;
        }
        return Ok(f);
    }
    f.bound = 0;
    Ok(f)
}
fn main() {
    mc::engine::install_hook();
    unsafe { rt_setup() };
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.get(1).map_or(false, |s| s == "thorough");
    let verbose = a.get(2).is_some();
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { break };
        let Ok(i) = l.trim().parse::<u64>() else { break };
        let (before, threads) = hist::race_case(i, thorough);
        let (max, budget) = hist::race_bound(thorough);
        // in a process where what goes before has been asked, and which then forks once for every schedule
        let o = alone(&threads)
            .and_then(|want| {
                hist::in_child_for(800, || {
                    unsafe { rt_bump(1) };
                    for q in &before {
                        let _ = q.ask();
                    }
                    unsafe { rt_bump(0) };
                    match explore(&Case { threads }, &want, max, budget, if thorough { 600 } else { 60 }) {
                        Ok(f) if verbose => format!("ok {} runs ({} with those before all shared words were known), {} skipped, {} shared words, {} preemptions{}", f.runs, f.all, f.skipped, f.cands, f.bound, if f.overflow { ", overflow" } else { "" }),
                        Ok(f) => format!("ok {} {}", f.runs, f.bound),
                        Err(m) => format!("!{}", m),
                    }
                })
            })
            .map_or_else(|m| m, |o| o.strip_prefix('!').map(|m| m.to_string()).unwrap_or(o))
            .replace('\n', " ");
        say(&o);
    }
}
