//! D04: how the bytes of a repodata document reach the loader. The program's own `read` and `open64` (hooks in
//! main.rs) stand between the standard library and the system and deliver a file according to a plan: where reads
//! end, where a signal interrupts them, where they fail, where the file turns out shorter than it was.
use crate::engine::{guard, h, scratch, Ctx, Space, Tier, R};
use crate::fail;
use crate::gen;
use crate::json::{self, J};
use crate::repo::{self, compact, diff, doc, doc_json, pretty, Doc, Verdict};
use ronda::{read_repodata, Record, Repodata, RepodataInfo};
use std::cell::Cell;
use std::collections::HashMap;
use std::io::Read;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    /// a read ends here
    Cut,
    /// a read fails here with this error, once (EINTR) or from now on
    Err(i32),
    /// the file ends here
    End,
}
/// What happens at which byte of the file; no read crosses such a byte or is longer than `max`.
#[derive(Clone, Debug)]
pub struct Plan {
    pub ev: Vec<(usize, Ev)>,
    pub max: usize,
    pub open: Vec<i32>,
}
#[derive(Default, Debug)]
struct Told {
    at: usize,
    next: usize,
    opens: usize,
    failed: Option<i32>,
    ended: Option<usize>,
}
impl Plan {
    fn new(ev: &[(usize, Ev)]) -> Plan {
        Plan { ev: ev.to_vec(), max: usize::MAX, open: vec![] }
    }
}
/// the answer to one read of at most n bytes: Ok(how many bytes to hand over) or an error
fn step(p: &Plan, t: &mut Told, n: usize) -> Result<usize, i32> {
    if let Some(e) = t.failed {
        return Err(e);
    }
    if t.ended.is_some() {
        return Ok(0);
    }
    while t.next < p.ev.len() && p.ev[t.next].0 <= t.at {
        t.next += 1;
        match p.ev[t.next - 1].1 {
            Ev::Cut => {}
            Ev::Err(e) => {
                if e != libc::EINTR {
                    t.failed = Some(e)
                }
                return Err(e);
            }
            Ev::End => {
                t.ended = Some(t.at);
                return Ok(0);
            }
        }
    }
    let stop = p.ev.get(t.next).map_or(usize::MAX, |e| e.0 - t.at);
    Ok(n.min(p.max).min(stop))
}

thread_local! { static ARMED: Cell<*mut (Plan, Told)> = const { Cell::new(std::ptr::null_mut()) }; }
fn errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
/// called by the `read` of main.rs
pub fn on_read(fd: i32, buf: *mut libc::c_void, n: usize) -> isize {
    let p = ARMED.try_with(|a| a.get()).unwrap_or(std::ptr::null_mut());
    let real = |n: usize| unsafe { libc::syscall(libc::SYS_read, fd, buf, n) as isize };
    if p.is_null() {
        return real(n);
    }
    let (plan, told) = unsafe { &mut *p };
    if n == 0 {
        return real(0);
    }
    match step(plan, told, n) {
        Err(e) => {
            errno(e);
            -1
        }
        Ok(0) => 0,
        Ok(m) => {
            let r = real(m);
            if r > 0 {
                told.at += r as usize
            }
            r
        }
    }
}
/// called by the `open64` of main.rs: an error to answer with
pub fn on_open() -> Option<i32> {
    let p = ARMED.try_with(|a| a.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() {
        return None;
    }
    let (plan, told) = unsafe { &mut *p };
    told.opens += 1;
    let e = plan.open.get(told.opens - 1).copied()?;
    errno(e);
    if e != libc::EINTR {
        told.failed = Some(e)
    }
    Some(e)
}

/// What loading by whatever means must give, given the bytes that were there to be read.
fn decide(got: Result<Result<Repodata, String>, String>, bytes: &[u8], failed: Option<i32>, how: &str, c: &mut Ctx) -> R {
    c.called(1);
    let v = if failed.is_some() { Verdict::Bad("reading failed".into()) } else { repo::verdict(bytes) };
    match (got, v) {
        (Err(p), _) => fail!(how; "loading panics: {}", p),
        (Ok(Ok(_)), Verdict::Bad(m)) => fail!(how; "the document is accepted although: {}", m),
        (Ok(Err(e)), Verdict::Doc(_)) => fail!(how; "a well-formed document is refused: {}", e),
        (Ok(Ok(r)), Verdict::Doc(d)) => match diff(&r, &d) {
            None => Ok(()),
            Some(m) => fail!(how; "{}", m),
        },
        (_, Verdict::Open) => {
            c.skipped += 1;
            Ok(())
        }
        (Ok(Err(_)), Verdict::Bad(_)) => Ok(()),
    }
}
/// load the file under the plan
fn run(path: &str, b: &[u8], p: Plan, how: &str, c: &mut Ctx) -> R {
    c.state(h(&(how, b.len(), format!("{:?}", p))));
    let mut x = (p, Told::default());
    ARMED.with(|a| a.set(&mut x));
    let r = guard(|| read_repodata(path).map_err(|e| format!("{} {:?}", e, e)));
    ARMED.with(|a| a.set(std::ptr::null_mut()));
    let b = match x.1.ended {
        Some(k) => &b[..k.min(b.len())],
        None => b,
    };
    decide(r, b, x.1.failed, how, c)
}
fn stored(b: &[u8]) -> String {
    thread_local! { static F: std::cell::RefCell<(String, Vec<u8>)> = {
        use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        static N: AtomicUsize = AtomicUsize::new(0);
        std::cell::RefCell::new((format!("{}/io{}.json", scratch(), N.fetch_add(1, SeqCst)), vec![]))
    } }
    F.with(|f| {
        let mut f = f.borrow_mut();
        if f.1 != b {
            std::fs::write(&f.0, b).unwrap();
            f.1 = b.to_vec();
        }
        f.0.clone()
    })
}
fn planned(name: &str, bound: &str, n: u64, f: impl Fn(u64) -> (Arc<Vec<u8>>, Plan) + Send + Sync + 'static) -> Space {
    let f = Arc::new(f);
    let g = f.clone();
    let nm = name.to_string();
    Space::new(
        name,
        bound,
        n,
        move |i| {
            let (b, p) = g(i);
            format!("{:?} on {}", p, repo::shorten(&b))
        },
        move |i, c| {
            let (b, p) = f(i);
            run(&stored(&b), &b, p, &format!("{}[{}]", nm, i), c)
        },
    )
}
fn wide() -> Doc {
    let mut d = doc(2, 1);
    d.subdir = "línux-😀".into();
    for s in 0..2 {
        for k in 0..d.sec[s].len() {
            let r = &mut d.sec[s][k].1;
            r.s[0] = "日本語0".into();
            r.s[2] = "é\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}".into();
            r.s[4] = "1.é+😀".into();
            r.depends = gen::s(&["ü >=1", "😀", "\u{301}"]);
        }
    }
    d
}
fn stored_docs() -> Vec<Arc<Vec<u8>>> {
    let mut many = doc(0, 0);
    for k in 0..40 {
        many.sec[k % 2].push((format!("n{}-é.conda", k), repo::rec(k)));
    }
    [compact(&doc_json(&doc(1, 0))), compact(&doc_json(&wide())), pretty(&doc_json(&doc(1, 1))), format!("{}\n\n \t\r\n", compact(&doc_json(&doc(0, 1)))), compact(&doc_json(&many))].into_iter().map(|t| Arc::new(t.into_bytes())).collect()
}
/// a stream that follows a plan
struct Piped<'a> {
    b: &'a [u8],
    p: &'a Plan,
    t: Told,
}
impl Read for Piped<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let m = step(self.p, &mut self.t, buf.len()).map_err(std::io::Error::from_raw_os_error)?.min(self.b.len() - self.t.at);
        buf[..m].copy_from_slice(&self.b[self.t.at..self.t.at + m]);
        self.t.at += m;
        Ok(m)
    }
}
fn repeated(j: &J) -> bool {
    match j {
        J::Obj(o) => {
            let mut k: Vec<&String> = o.iter().map(|x| &x.0).collect();
            k.sort();
            k.windows(2).any(|w| w[0] == w[1]) || o.iter().any(|x| repeated(&x.1))
        }
        J::Arr(a) => a.iter().any(repeated),
        _ => false,
    }
}
const SOURCES: usize = 8;
/// the document through the n-th way of reading one that is not a file of that name; None: no such way for it
fn source(n: usize, b: &[u8]) -> Option<(&'static str, Result<Result<Repodata, String>, String>)> {
    fn e<T: std::fmt::Display>(e: T) -> String {
        e.to_string()
    }
    let s = std::str::from_utf8(b).ok();
    Some(match n {
        0 => ("from_str", s.map(|s| guard(|| serde_json::from_str::<Repodata>(s).map_err(e)))?),
        1 => {
            s?;
            ("from_slice", guard(|| serde_json::from_slice::<Repodata>(b).map_err(e)))
        }
        2 => {
            s?;
            ("from_reader", guard(|| serde_json::from_reader::<_, Repodata>(b).map_err(e)))
        }
        3..=5 => {
            s?;
            let p = Plan { ev: vec![(7, Ev::Err(libc::EINTR)), (50, Ev::Cut)], max: [1, 2, 1000][n - 3], open: vec![] };
            ("from_reader in pieces", guard(|| serde_json::from_reader::<_, Repodata>(Piped { b, p: &p, t: Told::default() }).map_err(e)))
        }
        6 => {
            let j = json::parse(b).ok()?;
            let v = serde_json::from_str::<serde_json::Value>(s?).ok()?;
            if repeated(&j) {
                return None;
            }
            ("from_value", guard(|| serde_json::from_value::<Repodata>(v).map_err(e)))
        }
        _ => {
            let j = json::parse(b).ok()?;
            let v = serde_json::from_str::<serde_json::Value>(s?).ok()?;
            if repeated(&j) {
                return None;
            }
            ("a borrowed value", guard(|| <Repodata as serde::Deserialize>::deserialize(&v).map_err(e)))
        }
    })
}
fn by_sources(b: &[u8], c: &mut Ctx) -> R {
    c.state(h(&b));
    for n in 0..SOURCES {
        if let Some((how, r)) = source(n, b) {
            decide(r, b, None, how, c)?
        }
    }
    Ok(())
}
fn sourced(name: &str, bound: &str, n: u64, f: impl Fn(u64) -> Vec<u8> + Send + Sync + 'static) -> Space {
    let f = Arc::new(f);
    let g = f.clone();
    Space::new(name, bound, n, move |i| repo::shorten(&g(i)), move |i, c| by_sources(&f(i), c))
}

pub fn d04(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    let ds = Arc::new(stored_docs());
    // (document, place) for every byte of every document, the last place being the end
    let at: Arc<Vec<(usize, usize)>> = Arc::new((0..ds.len()).flat_map(|d| (0..=ds[d].len()).map(move |k| (d, k)).collect::<Vec<_>>()).collect());
    let na = at.len() as u64;
    let (d1, a1) = (ds.clone(), at.clone());
    v.push(planned("one-cut", "5 files, the first read ending at every byte", na, move |i| {
        let (d, k) = a1[i as usize];
        (d1[d].clone(), Plan::new(&[(k, Ev::Cut)]))
    }));
    let (d1, a1) = (ds.clone(), at.clone());
    v.push(planned("read-sizes", "5 files, every read at most m bytes, every m from 1 to the length", na, move |i| {
        let (d, k) = a1[i as usize];
        (d1[d].clone(), Plan { max: k.max(1), ..Plan::new(&[]) })
    }));
    let small: Arc<Vec<u8>> = tier.pick(ds[0].clone(), ds[1].clone());
    let m = small.len() as u64 + 1;
    let s1 = small.clone();
    v.push(planned("two-events", "one file, every pair of bytes: reads that end there, are interrupted there, or the one and the other", m * m * 3, move |i| {
        let (a, b) = (((i / 3) % m) as usize, (i / 3 / m) as usize);
        let k = [(Ev::Cut, Ev::Cut), (Ev::Err(libc::EINTR), Ev::Err(libc::EINTR)), (Ev::Cut, Ev::Err(libc::EINTR))][(i % 3) as usize];
        let (a, b) = (a.min(b), a.max(b));
        (s1.clone(), Plan::new(&[(a, k.0), (b, k.1)]))
    }));
    let (d1, a1) = (ds.clone(), at.clone());
    v.push(planned("interrupts", "5 files, 1, 2, 3, 17 or 200 interruptions in a row at every byte, with reads of any size and of one byte", na * 10, move |i| {
        let (d, k) = a1[(i / 10) as usize];
        let n = [1, 2, 3, 17, 200][(i % 5) as usize];
        (d1[d].clone(), Plan { max: if i / 5 % 2 == 0 { usize::MAX } else { 16 }, ..Plan::new(&vec![(k, Ev::Err(libc::EINTR)); n]) })
    }));
    const ERR: [i32; 14] = [libc::EIO, libc::EAGAIN, libc::ENOMEM, libc::EISDIR, libc::EBADF, libc::EFAULT, libc::EINVAL, libc::ETIMEDOUT, libc::ESTALE, libc::EPERM, libc::EACCES, libc::ENXIO, libc::ECONNRESET, libc::EPIPE];
    let (d1, a1) = (ds.clone(), at.clone());
    let ne = tier.pick(4, ERR.len() as u64);
    v.push(planned("read-errors", "5 files, reading failing from every byte on, the end included, with each of 14 errors (quick: 4 of them in turn), at once or after an interruption", na * ne, move |i| {
        let (d, k) = a1[(i / ne) as usize];
        let e = ERR[((i % ne + i / ne * ne) % 14) as usize];
        (d1[d].clone(), Plan::new(&if i % 5 == 0 { vec![(k, Ev::Err(libc::EINTR)), (k, Ev::Err(e))] } else { vec![(k / 2, Ev::Cut), (k, Ev::Err(e))] }))
    }));
    let (d1, a1) = (ds.clone(), at.clone());
    v.push(planned("early-end", "5 files that turn out to end at every byte, after a full read or reads of 3 bytes", na * 2, move |i| {
        let (d, k) = a1[(i / 2) as usize];
        (d1[d].clone(), Plan { max: if i % 2 == 0 { usize::MAX } else { 3 }, ..Plan::new(&[(k, Ev::End)]) })
    }));
    const OPEN: [i32; 12] = [libc::EINTR, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ENOENT, libc::ELOOP, libc::EIO, libc::EPERM, libc::ENOMEM, libc::ENOTDIR, libc::ENAMETOOLONG, libc::ETXTBSY];
    let d1 = ds.clone();
    v.push(planned("open-errors", "opening fails with each of 12 errors, the first or after 1..3 interruptions", 12 * 4 * 5, move |i| {
        let mut o = vec![libc::EINTR; (i / 12 % 4) as usize];
        o.push(OPEN[(i % 12) as usize]);
        (d1[(i / 48) as usize].clone(), Plan { open: o, ..Plan::new(&[]) })
    }));
    // lengths around the sizes of buffers, read in pieces around those sizes
    let szs: Vec<usize> = (5..=tier.pick(17, 20)).flat_map(|p| [(1usize << p) - 1, 1 << p, (1 << p) + 1]).collect();
    let big: Arc<Vec<Vec<u8>>> = Arc::new([0usize, 1, 8191, 8192, 8193, 65536].iter().map(|x| {
        let mut d = wide();
        let base = compact(&doc_json(&d)).len();
        d.sec[0][0].1.s[1] = "x".repeat(x.saturating_sub(base));
        while d.sec[0].len() < 60 {
            let k = d.sec[0].len();
            d.sec[0].push((format!("big{}", k), repo::rec(k)));
        }
        compact(&doc_json(&d)).into_bytes()
    }).collect());
    let ns = szs.len() as u64;
    let (b1, z1) = (big.clone(), szs.clone());
    v.push(planned("buffer-sizes", "files of 20 to 90 kB, every read at most 2^k bytes, and one more or fewer, for k of 5..17 (thorough 20), and a first read of that size", ns * 6 * 2, move |i| {
        let (z, f) = (z1[(i % ns) as usize], i / ns);
        let p = if f % 2 == 0 { Plan { max: z, ..Plan::new(&[]) } } else { Plan::new(&[(z, Ev::Cut)]) };
        (Arc::new(b1[(f / 2) as usize].clone()), p)
    }));
    // pipes
    let d1 = ds.clone();
    let stepp = tier.pick(11, 2);
    let pts: Arc<Vec<(usize, usize, bool)>> = Arc::new((0..d1.len()).flat_map(|d| (0..=d1[d].len()).step_by(if d == 4 { stepp * 20 } else { stepp }).flat_map(move |k| [(d, k, false), (d, k, true)]).collect::<Vec<_>>()).collect());
    let p2 = pts.clone();
    let d2 = ds.clone();
    v.push(Space::new(
        "pipe",
        "a named pipe in the place of the file, the document written in two pieces parted at bytes of it (quick every 11th), or cut off there",
        pts.len() as u64,
        move |i| format!("file {} at {} {}", p2[i as usize].0, p2[i as usize].1, if p2[i as usize].2 { "cut off" } else { "in two pieces" }),
        move |i, c| {
            let (d, k, off) = pts[i as usize];
            c.state(h(&(i, "pipe")));
            let b = d2[d].clone();
            let path = format!("{}/pipe{}", scratch(), i);
            let cp = std::ffi::CString::new(path.clone()).unwrap();
            if unsafe { libc::mkfifo(cp.as_ptr(), 0o600) } != 0 {
                c.skipped += 1;
                return Ok(());
            }
            let over = Arc::new(std::sync::atomic::AtomicBool::new(false));
            let (o2, b2, p2) = (over.clone(), b.clone(), path.clone());
            let w = std::thread::spawn(move || {
                use std::io::Write;
                use std::os::unix::fs::OpenOptionsExt;
                loop {
                    match std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&p2) {
                        Ok(mut f) => {
                            use std::os::fd::AsRawFd;
                            unsafe { libc::fcntl(f.as_raw_fd(), libc::F_SETFL, 0) };
                            let _ = f.write_all(&b2[..k]);
                            if !off {
                                std::thread::yield_now();
                                let _ = f.write_all(&b2[k..]);
                            }
                            return;
                        }
                        Err(_) if o2.load(std::sync::atomic::Ordering::SeqCst) => return,
                        Err(_) => std::thread::yield_now(),
                    }
                }
            });
            let r = guard(|| read_repodata(&path).map_err(|e| format!("{} {:?}", e, e)));
            over.store(true, std::sync::atomic::Ordering::SeqCst);
            let _ = w.join();
            let _ = std::fs::remove_file(&path);
            decide(r, if off { &b[..k] } else { &b }, None, &format!("pipe[{}]", i), c)
        },
    ));
    // places and names, and types of path
    let nn = NAMES.len() as u64;
    v.push(Space::new(
        "places",
        "24 file names (suffixes of other formats, blanks, other alphabets, bytes that are no text) x plain file, link, link to a link, hard link, read-only, behind .. and //; the path as 8 types",
        nn * 6,
        |i| format!("{:?} {}", NAMES[(i % NAMES.len() as u64) as usize], i / NAMES.len() as u64),
        move |i, c| {
            use std::os::unix::ffi::OsStringExt;
            c.state(h(&(i, "places")));
            let dir = std::path::PathBuf::from(format!("{}/places{}", scratch(), i));
            std::fs::create_dir_all(&dir).unwrap();
            let name = std::ffi::OsString::from_vec(NAMES[(i % nn) as usize].to_vec());
            let d = if i % 2 == 0 { wide() } else { doc(2, 1) };
            let b = compact(&doc_json(&d)).into_bytes();
            let mut p = dir.join(&name);
            let made = match i / nn {
                0 => std::fs::write(&p, &b),
                1 => std::fs::write(dir.join("t"), &b).and_then(|_| std::os::unix::fs::symlink("t", &p)),
                2 => std::fs::write(dir.join("t"), &b).and_then(|_| std::os::unix::fs::symlink("t", dir.join("u"))).and_then(|_| std::os::unix::fs::symlink(dir.join("u"), &p)),
                3 => std::fs::write(dir.join("t"), &b).and_then(|_| std::fs::hard_link(dir.join("t"), &p)),
                4 => std::fs::write(&p, &b).and_then(|_| {
                    use std::os::unix::fs::PermissionsExt;
                    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o400))
                }),
                _ => {
                    let r = std::fs::write(&p, &b);
                    let mut o = dir.clone().into_os_string();
                    o.push("//./../");
                    o.push(dir.file_name().unwrap());
                    o.push("/");
                    o.push(&name);
                    p = o.into();
                    r
                }
            };
            if made.is_err() {
                c.skipped += 1;
                return Ok(());
            }
            let e = |e: serde_json::Error| e.to_string();
            let os = p.clone().into_os_string();
            let mut rs = vec![guard(|| read_repodata(&p).map_err(e)), guard(|| read_repodata(p.as_path()).map_err(e)), guard(|| read_repodata(&os).map_err(e)), guard(|| read_repodata(os.as_os_str()).map_err(e)), guard(|| read_repodata(std::borrow::Cow::Borrowed(os.as_os_str())).map_err(e)), guard(|| read_repodata(p.clone().into_boxed_path()).map_err(e))];
            if let Some(s) = p.to_str() {
                rs.push(guard(|| read_repodata(s).map_err(e)));
                rs.push(guard(|| read_repodata(s.to_string()).map_err(e)));
            }
            for r in rs {
                decide(r, &b, None, &format!("places[{}]", i), c)?
            }
            let _ = std::fs::remove_dir_all(&dir);
            Ok(())
        },
    ));
    // other sources of the same document
    let re = Arc::new(repo::record_edits());
    let ro = Arc::new(repo::root_edits());
    let (n1, n2) = (re.len() as u64, ro.len() as u64);
    let (r1, o1) = (re.clone(), ro.clone());
    v.push(sourced("sources-fields", "every boundary value of every field of a record in either section and of the document, read as text, as bytes, as a stream whole and in pieces, from a parsed value", n1 * 2 + n2, move |i| {
        let mut d = doc(1, 1);
        if i < n1 * 2 {
            r1[(i / 2) as usize].1(&mut d, (i % 2) as usize, 0)
        } else {
            o1[(i - n1 * 2) as usize].1(&mut d, 0, 0)
        }
        let j = doc_json(&d);
        if i % 3 == 0 { pretty(&j).into_bytes() } else { compact(&j).into_bytes() }
    }));
    let ps: Arc<Vec<String>> = Arc::new(gen::pool(tier).into_iter().filter(|t| crate::model::parse(t).is_some()).step_by(tier.pick(3, 1)).collect());
    v.push(sourced("sources-text", "the pool of varied texts (quick every third) as every text of a document, read in all those ways", ps.len() as u64, move |i| {
        let t = &ps[i as usize];
        let mut d = doc(1, 1);
        d.subdir = t.clone();
        d.removed = vec![t.clone()];
        for f in 0..5 {
            d.sec[(i % 2) as usize][0].1.s[f] = t.clone();
        }
        d.sec[(i % 2) as usize][0].1.depends = vec![t.clone()];
        d.sec[(i % 2) as usize][0].0 = t.clone();
        compact(&doc_json(&d)).into_bytes()
    }));
    let wj = doc_json(&wide());
    let mut tk = vec![];
    repo::tokens(&wj, &mut tk);
    let nch: u64 = tk.iter().filter(|t| t.starts_with('"')).map(|t| json::unesc(t).chars().count() as u64).sum();
    v.push(sourced("sources-escaped", "every character of every text and key of a document escaped in 3 ways, and all of them", (nch + 1) * 3, move |i| repo::escaped(&wj, if i / 3 == nch { None } else { Some(i / 3) }, i % 3).into_bytes()));
    let fs = Arc::new(repo::faults(&doc(2, 1)));
    let f2 = fs.clone();
    v.push(sourced("sources-faults", "every field missing, repeated, misspelled, ill-typed or out of range, read in all those ways", fs.len() as u64, move |i| {
        let mut j = doc_json(&doc(2, 1));
        f2[i as usize].1(&mut j);
        compact(&j).into_bytes()
    }));
    let b = ds[0].clone();
    let nb = b.len() as u64;
    v.push(sourced("sources-damaged", "every truncation; every byte replaced by each of 12, lost, doubled", nb * 15, move |i| {
        let (k, how) = ((i / 15) as usize, (i % 15) as usize);
        let mut t = b.to_vec();
        match how {
            0 => t.truncate(k),
            1 => {
                t.remove(k);
            }
            2 => t.insert(k, t[k]),
            _ => t[k] = b"{}[],:\"\\0 \x00e"[how - 3],
        }
        t
    }));
    // streams that fail
    let (d1, a1) = (ds.clone(), at.clone());
    v.push(Space::new(
        "sources-stream",
        "5 documents as a stream that at every byte is cut, interrupted, fails, or ends",
        na * 4,
        move |i| format!("place {} event {}", i / 4, i % 4),
        move |i, c| {
            let (d, k) = a1[(i / 4) as usize];
            let e = [Ev::Cut, Ev::Err(libc::EINTR), Ev::Err(ERR[(i / 4 % 14) as usize]), Ev::End][(i % 4) as usize];
            let p = Plan::new(&[(k, e)]);
            c.state(h(&(i, "stream")));
            let mut s = Piped { b: &d1[d], p: &p, t: Told::default() };
            let r = guard(|| serde_json::from_reader::<_, Repodata>(&mut s).map_err(|e| e.to_string()));
            let cut = s.t.ended.map_or(d1[d].len(), |k| k.min(d1[d].len()));
            decide(r, &d1[d][..cut], s.t.failed, &format!("sources-stream[{}]", i), c)
        },
    ));
    // a record, and the info object, by themselves
    v.push(Space::new(
        "records-alone",
        "every boundary value of every field of a record that is read by itself in all those ways",
        n1,
        move |i| format!("{}", re[i as usize].0.chars().take(200).collect::<String>()),
        {
            let re = Arc::new(repo::record_edits());
            move |i, c| {
                let mut d = doc(1, 0);
                re[i as usize].1(&mut d, 0, 0);
                let (n, w) = d.sec[0][0].clone();
                let t = compact(&repo::rec_json(&w));
                c.state(h(&(&t, "record")));
                let info = compact(&J::Obj(vec![("subdir".into(), J::Str(d.subdir.clone()))]));
                let e = |e: serde_json::Error| e.to_string();
                let p = Plan { ev: vec![(3, Ev::Err(libc::EINTR))], max: 5, open: vec![] };
                let rs: Vec<Result<Result<(Record, RepodataInfo), String>, String>> = vec![
                    guard(|| Ok((serde_json::from_str(&t).map_err(e)?, serde_json::from_str(&info).map_err(e)?))),
                    guard(|| Ok((serde_json::from_slice(t.as_bytes()).map_err(e)?, serde_json::from_slice(info.as_bytes()).map_err(e)?))),
                    guard(|| Ok((serde_json::from_reader(t.as_bytes()).map_err(e)?, serde_json::from_reader(info.as_bytes()).map_err(e)?))),
                    guard(|| Ok((serde_json::from_reader(Piped { b: t.as_bytes(), p: &p, t: Told::default() }).map_err(e)?, serde_json::from_reader(Piped { b: info.as_bytes(), p: &p, t: Told::default() }).map_err(e)?))),
                    guard(|| Ok((serde_json::from_value(serde_json::from_str(&t).map_err(e)?).map_err(e)?, serde_json::from_value(serde_json::from_str(&info).map_err(e)?).map_err(e)?))),
                ];
                let whole = Doc { subdir: d.subdir.clone(), sec: [vec![(n.clone(), w)], vec![]], format: 1, removed: vec![] };
                for (k, r) in rs.into_iter().enumerate() {
                    c.called(1);
                    match r {
                        Err(p) => fail!(k; "reading the record {} panics: {}", t, p),
                        Ok(Err(e)) => fail!(k; "the well-formed record {} is refused: {}", t, e),
                        Ok(Ok((r, i))) => {
                            let mut m = HashMap::new();
                            m.insert(n.clone(), r);
                            let got = Repodata { info: i, packages: m, packages_conda: HashMap::new(), repodata_version: 1, removed: vec![] };
                            if let Some(m) = diff(&got, &whole) {
                                fail!(k; "{}", m)
                            }
                        }
                    }
                }
                Ok(())
            }
        },
    ));
    v
}
const NAMES: [&[u8]; 24] = [
    b"repodata.json", b"repodata", b".json", b"repodata.json.bz2", b"repodata.json.gz", b"repodata.json.zst", b"current_repodata.json", b"a b.json", b" ", b"-", b"--help", b"%s%n", "\u{65e5}\u{672c}.json".as_bytes(), "e\u{301}".as_bytes(), b"\xff\xfe", b"a\nb", b"'\"", b"http:", b"file:x", b"$HOME", b"~", b"REPODATA.JSON", b"repodata.txt", b"x.yaml",
];
