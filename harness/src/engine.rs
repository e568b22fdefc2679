//! Exhaustive exploration engine.
//!
//! A property is a list of finite spaces. Every case of every space is executed on the real code and
//! compared with the reference model; nothing is sampled. The explorer runs in a child process, so a
//! case that kills or wedges the process is found, confirmed alone in a fresh process, and reported.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// One violation: `key` identifies the failing input and what the code answered.
#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Viol>;

pub fn bad<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { key: key.into(), msg: msg.into() })
}
/// long texts are cut where they are shown
pub fn clip(t: &str) -> String {
    let n = t.chars().count();
    if n <= 900 {
        return t.to_string();
    }
    format!("{} ... ({} characters)", t.chars().take(800).collect::<String>(), n)
}
/// fail!(input; "what happened {}", ..)
#[macro_export]
macro_rules! fail {
    ($k:expr; $($a:tt)*) => {{ let m = format!($($a)*); return $crate::engine::bad(format!("{:?}: {}", $k, m), m) }};
}
#[macro_export]
macro_rules! expect {
    ($c:expr, $k:expr; $($a:tt)*) => { if !($c) { $crate::fail!($k; $($a)*) } };
}

const STATE_CAP: usize = 3_000_000;

#[derive(Default)]
pub struct Ctx {
    /// hashes of the distinct model states reached
    pub states: HashSet<u64, std::hash::BuildHasherDefault<IdHash>>,
    pub state_capped: bool,
    /// calls into the implementation whose answer was compared with the model
    pub calls: u64,
    pub cases: u64,
    pub skipped: u64,
    pub known: BTreeMap<String, u64>,
}
impl Ctx {
    pub fn state(&mut self, h: u64) {
        if self.states.len() < STATE_CAP {
            self.states.insert(h);
        } else if !self.states.contains(&h) {
            self.state_capped = true;
        }
    }
    pub fn called(&mut self, n: u64) {
        self.calls += n
    }
}

#[derive(Default, Clone)]
pub struct IdHash(u64);
impl std::hash::Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x.wrapping_mul(0x9E3779B97F4A7C15)
    }
}
pub fn h<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[derive(Clone)]
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 32;
            x = x.wrapping_mul(0xd6e8feb86659fd93);
            x ^ (x >> 32)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3)
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

pub struct Space {
    pub name: String,
    pub bound: String,
    pub n: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> R + Send + Sync>,
    pub show: Box<dyn Fn(u64) -> String + Send + Sync>,
}
impl Space {
    pub fn new(
        name: &str,
        bound: &str,
        n: u64,
        show: impl Fn(u64) -> String + Send + Sync + 'static,
        run: impl Fn(u64, &mut Ctx) -> R + Send + Sync + 'static,
    ) -> Space {
        Space { name: name.into(), bound: bound.into(), n, run: Box::new(run), show: Box::new(show) }
    }
}

pub type Builder = (&'static str, Box<dyn FnOnce() -> Space>);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(Tier) -> Vec<Space>,
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_BT").is_some() {
            eprintln!("{} at {}", m, l);
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} ({})", m, l));
    }));
}
/// Run implementation code; a panic becomes Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn run_case(s: &Space, i: u64, ctx: &mut Ctx) -> R {
    match guard(|| (s.run)(i, ctx)) {
        Ok(r) => r,
        Err(p) => {
            let shown = clip(&guard(|| (s.show)(i)).unwrap_or_default());
            bad(format!("panic {}", shown), format!("the code panicked: {}", p))
        }
    }
}

static SCRATCH: std::sync::OnceLock<String> = std::sync::OnceLock::new();
/// A directory of this run's own for files the code under test is pointed at.
pub fn scratch() -> &'static str {
    SCRATCH.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("mc-scratch-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d.to_str().unwrap().to_string()
    })
}
fn drop_scratch() {
    if let Some(d) = SCRATCH.get() {
        if d.contains("/mc-scratch-") {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

pub const THREADS: usize = 8;
#[repr(C)]
pub struct Slot {
    pub space: AtomicU64, // 0 = idle, 1+index of the space, BUILD = building spaces
    pub case: AtomicU64,
    pub ticks: AtomicU64,
    pad: [u64; 5],
}
pub const BUILD: u64 = u64::MAX;

fn map_slots(path: &str) -> &'static [Slot] {
    use std::os::unix::io::AsRawFd;
    let len = std::mem::size_of::<Slot>() * THREADS;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    f.set_len(len as u64).unwrap();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const Slot, THREADS)
    }
}

thread_local! { static SLOT: std::cell::Cell<Option<&'static Slot>> = const { std::cell::Cell::new(None) }; }
/// A long case says that it is getting on.
pub fn tick() {
    if let Some(s) = SLOT.get() {
        s.ticks.fetch_add(1, Relaxed);
    }
}
pub fn known_keys(id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.jsonl", crate::verif_dir())) {
        for l in t.lines().filter(|l| l.trim_start().starts_with('{')) {
            if let Ok(crate::json::J::Obj(o)) = crate::json::parse(l.as_bytes()) {
                let g = |k: &str| {
                    o.iter().find(|x| x.0 == k).and_then(|x| if let crate::json::J::Str(s) = &x.1 { Some(s.clone()) } else { None }).unwrap_or_default()
                };
                if g("property") == id && g("status") != "fixed" {
                    m.insert(g("key"), g("what"));
                }
            }
        }
    }
    m
}

pub fn child_main(p: &Prop, tier: Tier, dir: &str) -> i32 {
    let slots = map_slots(&format!("{}/slots", dir));
    limits();
    let sd = format!("{}/mc-scratch-run", dir);
    std::fs::create_dir_all(&sd).unwrap();
    SCRATCH.set(sd).unwrap();
    slots[0].space.store(BUILD, SeqCst);
    let done = AtomicBool::new(false);
    let mut out = String::new();
    std::thread::scope(|sc| {
        // watchdog: a case (or the construction of the spaces) that makes no progress is a suspect hang
        let (done, dir2) = (&done, dir.to_string());
        sc.spawn(move || {
            let hang = Duration::from_secs(30);
            let mut last: Vec<(u64, u64, u64, Instant)> = slots.iter().map(|_| (0, 0, 0, Instant::now())).collect();
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for (k, s) in slots.iter().enumerate() {
                    let now = (s.space.load(Relaxed), s.case.load(Relaxed), s.ticks.load(Relaxed));
                    if now.0 == 0 || (now.0, now.1, now.2) != (last[k].0, last[k].1, last[k].2) {
                        last[k] = (now.0, now.1, now.2, Instant::now());
                    } else if last[k].3.elapsed() > if now.0 == BUILD { hang * 5 } else { hang } {
                        let _ = std::fs::write(format!("{}/hang", dir2), format!("{}", k));
                        unsafe { libc::_exit(42) }
                    }
                }
            }
        });
        let spaces = match guard(|| (p.spaces)(tier)) {
            Ok(s) => s,
            Err(e) => {
                // the values every case starts from could not be obtained from the code
                let m = format!("obtaining the versions and specs the exploration starts from failed: {}", e);
                out += &format!("V\t{}\t0\t{}\t{}\t{}\nEND\n", crate::json::esc("*"), crate::json::esc("whole exploration"), crate::json::esc(&m), crate::json::esc(&m));
                done.store(true, Relaxed);
                return;
            }
        };
        slots[0].space.store(0, SeqCst);
        let known = known_keys(p.id);
        let mut total = Ctx::default();
        let mut viol: Option<(usize, u64, Viol)> = None;
        for (si, s) in spaces.iter().enumerate() {
            let next = AtomicU64::new(0);
            let first_bad = AtomicU64::new(u64::MAX);
            let found: Mutex<Option<(u64, Viol)>> = Mutex::new(None);
            let merged = Mutex::new(Ctx::default());
            let chunk = (s.n / (THREADS as u64 * 40)).clamp(1, 2048);
            let t0 = Instant::now();
            std::thread::scope(|sc2| {
                for w in 0..THREADS {
                    let (next, first_bad, found, merged, known) = (&next, &first_bad, &found, &merged, &known);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc2, move || {
                            let mut ctx = Ctx::default();
                            SLOT.set(Some(&slots[w]));
                            loop {
                                let a = next.fetch_add(chunk, Relaxed);
                                if a >= s.n || a > first_bad.load(Relaxed) {
                                    break;
                                }
                                for i in a..(a + chunk).min(s.n) {
                                    slots[w].case.store(i, Relaxed);
                                    slots[w].space.store(si as u64 + 1, Relaxed);
                                    slots[w].ticks.fetch_add(1, Relaxed);
                                    ctx.cases += 1;
                                    if let Err(v) = run_case(s, i, &mut ctx) {
                                        if known.contains_key(&v.key) {
                                            *ctx.known.entry(v.key).or_insert(0) += 1;
                                        } else {
                                            first_bad.fetch_min(i, Relaxed);
                                            let mut f = found.lock().unwrap();
                                            if f.as_ref().map_or(true, |x| x.0 > i) {
                                                *f = Some((i, v));
                                            }
                                            break;
                                        }
                                    }
                                }
                            }
                            slots[w].space.store(0, Relaxed);
                            let mut m = merged.lock().unwrap();
                            for x in ctx.states {
                                if m.states.len() < STATE_CAP * 4 { m.states.insert(x); } else { m.state_capped = true; }
                            }
                            m.state_capped |= ctx.state_capped;
                            m.calls += ctx.calls;
                            m.cases += ctx.cases;
                            m.skipped += ctx.skipped;
                            for (k, n) in ctx.known {
                                *m.known.entry(k).or_insert(0) += n;
                            }
                        })
                        .unwrap();
                }
            });
            let m = merged.into_inner().unwrap();
            out += &format!(
                "S\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{:.2}\n",
                crate::json::esc(&s.name),
                crate::json::esc(&s.bound),
                s.n,
                m.cases,
                m.calls,
                m.states.len(),
                m.state_capped as u8,
                m.skipped,
                t0.elapsed().as_secs_f64()
            );
            for j in [0, s.n / 3, s.n * 2 / 3, s.n.saturating_sub(1)] {
                if j < s.n {
                    let t = clip(&guard(|| (s.show)(j)).unwrap_or_default());
                    let t: String = t.chars().take(300).collect();
                    out += &format!("X\t{}\n", crate::json::esc(&format!("{}[{}]: {}", s.name, j, t)));
                }
            }
            total.calls += m.calls;
            for (k, n) in m.known {
                *total.known.entry(k).or_insert(0) += n;
            }
            if let Some((i, v)) = found.into_inner().unwrap() {
                viol = Some((si, i, v));
                break;
            }
        }
        for k in total.known.keys() {
            out += &format!("K\t{}\n", crate::json::esc(k));
        }
        if let Some((si, i, v)) = viol {
            let s = &spaces[si];
            let shown = clip(&guard(|| (s.show)(i)).unwrap_or_default());
            out += &format!(
                "V\t{}\t{}\t{}\t{}\t{}\n",
                crate::json::esc(&s.name),
                i,
                crate::json::esc(&shown),
                crate::json::esc(&v.msg),
                crate::json::esc(&v.key)
            );
        }
        out += "END\n";
        done.store(true, Relaxed);
    });
    std::fs::write(format!("{}/result", dir), out).unwrap();
    0
}

fn limits() {
    unsafe {
        let r = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
}

/// Run one case alone: exit 0 held, 1 violated (message on stdout).
pub fn case_main(p: &Prop, tier: Tier, space: &str, idx: u64) -> i32 {
    limits();
    let spaces = (p.spaces)(tier);
    let s = match spaces.iter().find(|s| s.name == space) {
        Some(s) if idx < s.n => s,
        _ => {
            println!("no such case");
            return 2;
        }
    };
    println!("case {}[{}]: {}", space, idx, clip(&(s.show)(idx)));
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(sc, || {
                let mut c = Ctx::default();
                run_case(s, idx, &mut c)
            })
            .unwrap()
            .join()
    });
    drop_scratch();
    match r {
        Ok(Ok(())) => {
            println!("held");
            0
        }
        Ok(Err(v)) => {
            println!("violated: {}\nkey: {}", v.msg, v.key);
            1
        }
        Err(_) => 2,
    }
}

/// Development aid: list the key of every violating case of every space whose name contains `filter`.
pub fn list_main(p: &Prop, tier: Tier, filter: &str) -> i32 {
    for s in (p.spaces)(tier).iter().filter(|s| s.name.contains(filter)) {
        for i in 0..s.n {
            if let Err(v) = run_case(s, i, &mut Ctx::default()) {
                println!("{}\t{}\t{}", s.name, i, crate::json::esc(&v.key));
            }
        }
    }
    0
}

enum End {
    Exit(i32),
    Signal(i32),
    Timeout,
}
fn spawn_wait(args: &[&str], timeout: Duration, quiet: bool) -> (End, String) {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new(exe);
    c.args(args);
    let tmp = std::env::temp_dir().join(format!("mc-out-{}-{}", std::process::id(), args.join("-").replace('/', "_").chars().take(60).collect::<String>()));
    let f = std::fs::File::create(&tmp).unwrap();
    c.stdout(f.try_clone().unwrap());
    if quiet {
        c.stderr(f);
    }
    let mut ch = c.spawn().unwrap();
    let t0 = Instant::now();
    let end = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break match st.code() {
                Some(c) => End::Exit(c),
                None => End::Signal(st.signal().unwrap_or(0)),
            };
        }
        if t0.elapsed() > timeout {
            let _ = ch.kill();
            let _ = ch.wait();
            break End::Timeout;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let o = std::fs::read(&tmp).unwrap_or_default();
    let _ = std::fs::remove_file(&tmp);
    (end, String::from_utf8_lossy(&o).into_owned())
}

pub fn supervise(p: &Prop, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let vd = crate::verif_dir();
    let dir = format!("{}/target/run/{}-{}", vd, p.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let code = supervise_in(p, tier, &dir, t0, &vd);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn supervise_in(p: &Prop, tier: Tier, dir: &str, t0: Instant, vd: &str) -> i32 {
    let budget = Duration::from_secs(if tier == Tier::Quick { 840 } else { 6 * 3600 });
    let mut attempt = 0;
    let (result, crash) = loop {
        attempt += 1;
        for f in ["slots", "hang", "result"] {
            let _ = std::fs::remove_file(format!("{}/{}", dir, f));
        }
        let (end, log) = spawn_wait(&["run", p.id, tier.name(), dir], budget, true);
        if let (End::Exit(0), Ok(r)) = (&end, std::fs::read_to_string(format!("{}/result", dir))) {
            break (r, None);
        }
        let how = match end {
            End::Exit(42) => "made no progress".to_string(),
            End::Exit(c) => format!("exited with {}", c),
            End::Signal(s) => format!("was killed by signal {}", s),
            End::Timeout => {
                eprintln!("{}: exploration did not finish within {:?}", p.id, budget);
                return 2;
            }
        };
        eprintln!("{}: the explorer {}; {}", p.id, how, log.lines().last().unwrap_or(""));
        // which cases were running?
        let slots = map_slots(&format!("{}/slots", dir));
        let mut suspects: Vec<(u64, u64)> =
            slots.iter().map(|s| (s.space.load(SeqCst), s.case.load(SeqCst))).filter(|s| s.0 != 0).collect();
        suspects.sort();
        let building = suspects.iter().any(|s| s.0 == BUILD);
        let mut confirmed = None;
        if !building {
            let names: Vec<String> = spawn_wait(&["spaces", p.id, tier.name()], Duration::from_secs(300), true)
                .1
                .lines()
                .map(|s| s.to_string())
                .collect();
            for (sp, ix) in suspects {
                let Some(name) = names.get(sp as usize - 1) else { continue };
                let (end, o) = spawn_wait(
                    &["case", p.id, tier.name(), name, &ix.to_string()],
                    Duration::from_secs(90),
                    true,
                );
                let what = match end {
                    End::Exit(0) | End::Exit(2) => continue,
                    End::Exit(1) => "violated".to_string(),
                    End::Exit(c) => format!("exited with {}", c),
                    End::Signal(s) => format!("the process was killed by signal {} (crash or stack overflow)", s),
                    End::Timeout => "no answer within 90 s".to_string(),
                };
                confirmed = Some((name.clone(), ix, o.lines().next().unwrap_or("").to_string(), what));
                break;
            }
        }
        if let Some(c) = confirmed {
            break (String::new(), Some(c));
        }
        if attempt >= 2 {
            // the process dies every time, but no single case does it alone: a history-dependent crash
            if how.contains("exited") {
                return 2;
            }
            break (String::new(), Some(("*".into(), 0, "whole exploration".into(), format!("the explorer {} twice", how))));
        }
    };

    let mut spaces = vec![];
    let mut samples = vec![];
    let mut known = vec![];
    let mut viol: Option<(String, u64, String, String, String)> = None;
    let (mut cases, mut calls, mut states, mut capped, mut skipped, mut n_total) = (0u64, 0u64, 0u64, false, 0u64, 0u64);
    let mut complete = false;
    for l in result.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let u = |i: usize| f[i].parse::<u64>().unwrap();
        match f[0] {
            "S" => {
                n_total += u(3);
                cases += u(4);
                calls += u(5);
                states += u(6);
                capped |= u(7) == 1;
                skipped += u(8);
                spaces.push(format!(
                    "{{\"space\":{},\"bound\":{},\"size\":{},\"cases_run\":{},\"calls_compared\":{},\"distinct_model_states\":{},\"skipped\":{},\"seconds\":{}}}",
                    f[1], f[2], f[3], f[4], f[5], f[6], f[8], f[9]
                ));
            }
            "X" => samples.push(f[1].to_string()),
            "K" => known.push(crate::json::unesc(f[1])),
            "V" => {
                viol = Some((crate::json::unesc(f[1]), u(2), crate::json::unesc(f[3]), crate::json::unesc(f[4]), crate::json::unesc(f[5])))
            }
            "END" => complete = true,
            _ => {}
        }
    }
    if crash.is_none() && !complete {
        eprintln!("{}: incomplete result", p.id);
        return 2;
    }
    if let Some((s, i, shown, what)) = crash {
        viol = Some((s, i, shown, what, String::new()));
    }
    let listed = known_keys(p.id);
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, listed.get(k).map(|s| s.as_str()).unwrap_or(k));
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let ev = format!(
        "{{\n \"property\":\"{}\",\n \"tier\":\"{}\",\n \"seed\":{},\n \"level\":\"{}\",\n \"coverage\":{{\n  \"states\":{},\n  \"transitions\":{},\n  \"traces_validated_against_impl\":{},\n  \"exhaustive\":{},\n  \"state_count_is_lower_bound\":{},\n  \"skipped_unparsable_inputs\":{},\n{}  \"rule\":{},\n  \"known_findings_hit\":{},\n  \"spaces\":[\n   {}\n  ],\n  \"samples\":[\n   {}\n  ]\n }},\n \"assumptions\":[{}],\n \"wall_s\":{:.2},\n \"violations\":{}\n}}\n",
        p.id,
        tier.name(),
        seed,
        p.level,
        states,
        calls,
        cases,
        viol.is_none() && cases == n_total,
        capped,
        skipped,
        if p.level == "model_checking" { String::new() } else { format!("  \"evaluations\":{},\n  \"distinct_nontrivial\":{},\n", cases, states) },
        crate::json::esc(p.rule),
        known.len(),
        spaces.join(",\n   "),
        samples.join(",\n   "),
        p.assumptions.iter().map(|a| crate::json::esc(a)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        viol.is_some() as u8
    );
    std::fs::create_dir_all(format!("{}/evidence", vd)).unwrap();
    let mut f = std::fs::File::create(format!("{}/evidence/{}.json", vd, p.id)).unwrap();
    f.write_all(ev.as_bytes()).unwrap();
    println!(
        "{} {}: {} cases, {} compared calls, {} distinct states, {} spaces, {:.1} s",
        p.id,
        tier.name(),
        cases,
        calls,
        states,
        spaces.len(),
        t0.elapsed().as_secs_f64()
    );
    if let Some((space, i, shown, msg, key)) = viol {
        std::fs::create_dir_all(format!("{}/replays", vd)).unwrap();
        let path = format!("{}/replays/{}.txt", vd, p.id);
        let cmd = if space == "*" {
            format!("./check.sh {} {}", p.id, tier.name())
        } else {
            format!("./replay.sh {} {} '{}' {}", p.id, tier.name(), space, i)
        };
        std::fs::write(
            &path,
            format!("property: {}\ncase: {}[{}]\ninput: {}\nviolated: {}\nkey: {}\nreplay: cd {} && {}\n", p.id, space, i, shown, clip(&msg), key, vd, cmd),
        )
        .unwrap();
        println!("  {}[{}]: {}\n  {}", space, i, shown, clip(&msg));
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    0
}
