//! Command line: `check PROP`, `replay FILE`, and the internal `worker`, `single`, `minimise`.
//!
//! Run i of a check is a pure function of (VERIF_SEED, property, i). Worker processes take the runs
//! i = w, w + n, w + 2n, ...; the violating run reported is the one with the lowest number, whichever
//! worker met it, so the report does not depend on how many workers there are.

use crate::tape::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Scn = fn(&Ch) -> Res;

struct Prop {
    id: &'static str,
    f: Scn,
    /// runs in the quick and thorough tiers
    quick: u64,
    thorough: u64,
    rule: &'static str,
}

const RULE_NT: &str = "A run draws its workload, connection parameters, scheduler weights and faults from one seeded tape. It is \
non-trivial when it met at least one fault or arrival pattern that decoding one intact buffer would not (short or interrupted \
read or write, arrival in pieces, cut, reset, damage, pipelined layers, re-sent or edited message). Distinct runs are counted by \
a hash over the event sequence: every read, write, arrival, submission, delivery, rejection and end, with sizes and virtual times.";

macro_rules! props {
    ($($id:literal, $f:path, $q:expr, $t:expr;)*) => {
        const PROPS: &[Prop] = &[$(Prop { id: $id, f: $f, quick: $q, thorough: $t, rule: RULE_NT },)*];
    };
}
props! {
    "C01", crate::scn_stream::c01, 150_000, 3300_000;
    "C02", crate::scn_stream::c02, 450_000, 9900_000;
    "C03", crate::scn_hostile::c03, 600_000, 13200_000;
    "C04", crate::scn_stream::c04, 750_000, 16500_000;
    "C05", crate::scn_hostile::c05, 1000_000, 22000_000;
    "C06", crate::scn_wire::c06, 2000_000, 44000_000;
    "C07", crate::scn_wire::c07, 1000_000, 22000_000;
    "C08", crate::scn_wire::c08, 750_000, 16500_000;
    "C09", crate::scn_msg::c09, 800_000, 17600_000;
    "C10", crate::scn_msg::c10, 250_000, 5500_000;
    "C11", crate::scn_stream::c11, 5000_000, 110000_000;
    "C12", crate::scn_stream::c12, 1000_000, 22000_000;
    "C13", crate::scn_hostile::c13, 1000_000, 22000_000;
    "C14", crate::scn_hostile::c14, 1000_000, 22000_000;
    "C15", crate::scn_msg::c15, 250_000, 5500_000;
    "C16", crate::scn_types::c16, 600_000, 13200_000;
    "C18", crate::scn_multi::c18, 200_000, 4_400_000;
}

const WORKERS: usize = 8;
const STACK: usize = 2 << 20;
const HANG: Duration = Duration::from_secs(60);

fn prop(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => fail(&format!("unknown property {}", id)),
    }
}

fn fail(s: &str) -> ! {
    eprintln!("amqp-sim: error: {}", s);
    std::process::exit(2)
}

// ---------------------------------------------------------------- one run

#[derive(Clone, Debug)]
enum Out {
    Ok,
    Viol(Viol),
    Harness(String),
}

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some((msg, loc));
        }
    }));
}

fn short_loc(l: &str) -> String {
    // the same whether the tree is in /repo or a copy
    match l.rfind("/src/") {
        Some(i) => {
            let head = &l[..i];
            let base = head.rsplit('/').next().unwrap_or("");
            format!("{}{}", base, &l[i..])
        }
        None => l.to_string(),
    }
}

fn run_one(f: Scn, ch: &Ch) -> Out {
    crate::refamqp::reset();
    crate::typed::set_alt(ch.chance(1, 4));
    let r = catch_unwind(AssertUnwindSafe(|| f(ch)));
    match r {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(v)) if v.class == "harness" => Out::Harness(v.msg),
        Ok(Err(v)) => Out::Viol(v),
        Err(_) => {
            let (msg, loc) = LAST_PANIC.lock().unwrap().take().unwrap_or_default();
            if msg.starts_with("harness:") {
                return Out::Harness(format!("{} at {}", msg, loc));
            }
            let mut m = msg;
            if m.len() > 300 {
                let mut e = 300;
                while !m.is_char_boundary(e) {
                    e -= 1;
                }
                m.truncate(e);
            }
            let class = if m.starts_with("runaway") { "runaway".to_string() } else { format!("panic@{}", short_loc(&loc)) };
            Out::Viol(Viol { class, msg: m })
        }
    }
}

fn on_small_stack<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> T {
    match std::thread::Builder::new().stack_size(env_u64("SIM_STACK", STACK as u64) as usize).spawn(f).unwrap().join() {
        Ok(x) => x,
        Err(_) => fail("worker thread panicked"),
    }
}

// ---------------------------------------------------------------- shared words

/// A small file mapped by the parent and its workers: [0] lowest violating run, [1 + w] the run worker
/// w is at (plus one).
struct Shared {
    p: *mut u64,
}
impl Shared {
    fn open(path: &Path) -> Shared {
        use std::os::unix::io::AsRawFd;
        let f = match fs::OpenOptions::new().read(true).write(true).open(path) {
            Ok(f) => f,
            Err(e) => fail(&format!("{}: {}", path.display(), e)),
        };
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if p == libc::MAP_FAILED {
            fail("mmap");
        }
        Shared { p: p as *mut u64 }
    }
    fn create(path: &Path) -> Shared {
        let mut b = vec![0u8; 4096];
        for x in b[..8].iter_mut() {
            *x = 0xff;
        }
        if let Err(e) = fs::write(path, &b) {
            fail(&format!("{}: {}", path.display(), e));
        }
        Shared::open(path)
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.p.add(i) as *const AtomicU64) }
    }
    fn stop_at(&self) -> u64 {
        self.at(0).load(SeqCst)
    }
    fn stop(&self, idx: u64) {
        self.at(0).fetch_min(idx, SeqCst);
    }
}

// ---------------------------------------------------------------- worker

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn js(s: &str) -> String {
    format!("\"{}\"", esc(s))
}
fn one_line(s: &str) -> String {
    s.replace('\n', " ").replace('\t', " ")
}

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ b.rotate_left(29);
    splitmix(&mut x)
}

fn worker(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let num = |i: usize| -> u64 { a[i].parse().unwrap_or_else(|_| fail("worker args")) };
    let (seed, w, stride, count, secs) = (num(1), num(2), num(3), num(4), num(5));
    let dir = PathBuf::from(&a[6]);
    on_small_stack(move || {
        install_hook();
        let sh = Shared::open(&dir.join("shared"));
        let t0 = Instant::now();
        let mut st = Stats::default();
        let mut hashes: Vec<u64> = Vec::new();
        // over what every run did, whatever the order the runs are made in
        let mut digest = 0u64;
        let mut slowest = (0u64, 0u64);
        let (mut runs, mut events, mut sim_ns, mut draws) = (0u64, 0u64, 0u64, 0u64);
        let mut first: Vec<(u64, u64, u64)> = Vec::new();
        let mut out = String::new();
        let mut samples = Vec::new();
        let mut i = w;
        while i < count {
            if sh.stop_at() < i || t0.elapsed() > Duration::from_secs(secs) {
                break;
            }
            sh.at(1 + w as usize).store(i + 1, SeqCst);
            let ch = Ch::seeded(run_seed(seed, p.id, i));
            let t1 = Instant::now();
            let o = run_one(p.f, &ch);
            let took = t1.elapsed().as_millis() as u64;
            if took > slowest.0 {
                slowest = (took, i);
            }
            runs += 1;
            events += ch.events();
            sim_ns += ch.sim_ns();
            let tl = ch.tape().len() as u64;
            draws += tl;
            digest = digest.wrapping_add(mix(mix(i, ch.hash()), tl));
            for (k, v) in ch.take_stats().n {
                st.add(k, v);
            }
            if ch.is_nontrivial() {
                hashes.push(ch.hash());
            }
            match o {
                Out::Ok => {
                    if first.len() < 12 {
                        first.push((i, ch.hash(), tl));
                    }
                    if w == 0 && samples.len() < 4 && ch.is_nontrivial() {
                        samples.push(i);
                    }
                }
                Out::Viol(v) => {
                    sh.stop(i);
                    out.push_str(&format!("viol\t{}\t{}\t{}\n", i, one_line(&v.class), one_line(&v.msg)));
                    let t: Vec<String> = ch.tape().iter().map(|x| x.to_string()).collect();
                    out.push_str(&format!("tape\t{}\n", t.join(" ")));
                    break;
                }
                Out::Harness(s) => {
                    out.push_str(&format!("harness\t{}\t{}\n", i, one_line(&s)));
                    break;
                }
            }
            i += stride;
        }
        // the same seeds again, in another order: nothing but the seed may matter
        let (mut again, mut differ) = (0, 0);
        for &(i, h, n) in first.iter().rev() {
            sh.at(1 + w as usize).store(i + 1, SeqCst);
            let ch = Ch::seeded(run_seed(seed, p.id, i));
            let _ = run_one(p.f, &ch);
            again += 1;
            if ch.hash() != h || ch.tape().len() as u64 != n {
                differ += 1;
            }
        }
        for i in samples {
            let ch = Ch::seeded(run_seed(seed, p.id, i));
            ch.trace_on();
            let _ = run_one(p.f, &ch);
            let t = ch.trace();
            let lines: Vec<String> = t.iter().take(14).map(|x| js(x)).collect();
            out.push_str(&format!(
                "sample\t{{\"run\": {}, \"draws\": {}, \"events\": {}, \"simulated_ms\": {}, \"trace_lines\": {}, \"trace\": [{}]}}\n",
                i,
                ch.tape().len(),
                ch.events(),
                ch.sim_ns() / 1_000_000,
                t.len(),
                lines.join(", ")
            ));
        }
        out.push_str(&format!("done\t{}\t{}\t{}\t{}\t{}\t{}\n", runs, events, sim_ns, draws, again, differ));
        for (k, v) in &st.n {
            out.push_str(&format!("stat\t{}\t{}\n", k, v));
        }
        out.push_str(&format!("digest\t{}\n", digest));
        out.push_str(&format!("slowest\t{}\t{}\n", slowest.0, slowest.1));
        let hb: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes().to_vec()).collect();
        let _ = fs::write(dir.join(format!("h{}", w)), hb);
        if let Err(e) = fs::write(dir.join(format!("w{}", w)), out) {
            fail(&format!("worker result: {}", e));
        }
        0
    })
}

/// Run one seed or one tape, writing the tape as it is drawn; used where the run may end the process.
/// args: PROP seed|tape VALUE|FILE TAPEOUT RESULT trace|quiet [HISTORY]; HISTORY is a file of run seeds that
/// are run first, in the same thread.
fn single(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let ch_arg = a[1].clone();
    let val = a[2].clone();
    let tape_out = a[3].clone();
    let result = a[4].clone();
    let trace = a.get(5).map_or(false, |x| x == "trace");
    let history = a.get(6).map(|f| read_tape(f)).unwrap_or_default();
    on_small_stack(move || {
        use std::os::unix::io::AsRawFd;
        install_hook();
        for s in history {
            let _ = run_one(p.f, &Ch::seeded(s));
        }
        let ch = if ch_arg == "seed" {
            Ch::seeded(val.parse().unwrap_or_else(|_| fail("seed")))
        } else {
            Ch::replaying(read_tape(&val))
        };
        let f = if tape_out != "-" { Some(fs::File::create(&tape_out).unwrap_or_else(|_| fail("tape file"))) } else { None };
        if let Some(f) = &f {
            ch.set_tape_fd(f.as_raw_fd());
        }
        if trace {
            ch.trace_on();
            ch.stream_trace();
        }
        let o = run_one(p.f, &ch);
        let s = match &o {
            Out::Ok => "ok\n".to_string(),
            Out::Viol(v) => format!("viol\t{}\t{}\n", one_line(&v.class), one_line(&v.msg)),
            Out::Harness(s) => format!("harness\t{}\n", one_line(s)),
        };
        let _ = fs::write(&result, format!("{}hash\t{}\t{}\n", s, ch.hash(), ch.events()));
        0
    })
}

fn read_tape(f: &str) -> Vec<u64> {
    match fs::read(f) {
        Ok(b) => b.chunks_exact(8).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).collect(),
        Err(e) => fail(&format!("{}: {}", f, e)),
    }
}
fn write_tape(f: &Path, t: &[u64]) {
    let b: Vec<u8> = t.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
    if let Err(e) = fs::write(f, b) {
        fail(&format!("{}: {}", f.display(), e));
    }
}

fn me() -> PathBuf {
    std::env::current_exe().unwrap_or_else(|_| fail("current_exe"))
}

fn wait_for(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => (),
            Err(_) => return None,
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 20 { 1 } else { 10 }));
    }
}

fn signal_class(s: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match s.signal() {
        Some(libc::SIGSEGV) => "process-killed SIGSEGV (stack overflow or bad access)".into(),
        Some(libc::SIGABRT) => "process-killed SIGABRT (stack overflow or allocation failure)".into(),
        Some(n) => format!("process-killed signal {}", n),
        None => format!("process-exit {:?}", s.code()),
    }
}

struct SingleOut {
    class: Option<String>,
    msg: String,
    hash: String,
    harness: Option<String>,
}

fn run_single(p: &Prop, mode: &str, val: &str, tape_out: Option<&Path>, dir: &Path, trace: bool, limit: Duration) -> SingleOut {
    run_after(p, &[], mode, val, tape_out, dir, trace, limit)
}

/// As `run_single`, after the runs of `history` in the same thread.
fn run_after(
    p: &Prop,
    history: &[u64],
    mode: &str,
    val: &str,
    tape_out: Option<&Path>,
    dir: &Path,
    trace: bool,
    limit: Duration,
) -> SingleOut {
    let res = dir.join("single.res");
    let _ = fs::remove_file(&res);
    let t = tape_out.map(|x| x.display().to_string()).unwrap_or_else(|| "-".into());
    let mut cmd = Command::new(me());
    cmd.arg("single").arg(p.id).arg(mode).arg(val).arg(t).arg(&res);
    if trace {
        cmd.arg("trace");
    } else {
        cmd.arg("quiet");
        cmd.stderr(Stdio::null());
    }
    if !history.is_empty() {
        let h = dir.join("history");
        write_tape(&h, history);
        cmd.arg(h);
    }
    let mut c = cmd.spawn().unwrap_or_else(|e| fail(&format!("spawn: {}", e)));
    let st = wait_for(&mut c, limit);
    let mut o = SingleOut { class: None, msg: String::new(), hash: String::new(), harness: None };
    match st {
        None => {
            o.class = Some("hang".into());
            o.msg = format!("the run did not end within {} s", limit.as_secs());
        }
        Some(s) if !s.success() => {
            o.class = Some(signal_class(&s));
            o.msg = "the process under simulation was ended".into();
        }
        Some(_) => {
            let r = fs::read_to_string(&res).unwrap_or_default();
            for l in r.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "viol" => {
                        o.class = Some(f[1].to_string());
                        o.msg = f[2..].join(" ");
                    }
                    "harness" => o.harness = Some(f[1..].join(" ")),
                    "hash" => o.hash = format!("{}/{}", f[1], f[2]),
                    _ => (),
                }
            }
        }
    }
    o
}

// ---------------------------------------------------------------- minimisation

/// Shrink a tape while `eval` (returning the class and the tape as consumed) keeps the class.
fn shrink<F>(mut best: Vec<u64>, class: &str, limit: Duration, mut eval: F) -> Vec<u64>
where
    F: FnMut(&[u64]) -> Option<(String, Vec<u64>)>,
{
    let t0 = Instant::now();
    fn strip(mut t: Vec<u64>) -> Vec<u64> {
        while t.last() == Some(&0) {
            t.pop();
        }
        t
    }
    fn weight(t: &[u64]) -> (usize, u128, usize) {
        (t.len(), t.iter().map(|&x| u128::from(x)).sum(), t.iter().filter(|&&x| x != 0).count())
    }
    best = strip(best);
    let mut attempt = |best: &mut Vec<u64>, cand: Vec<u64>| -> bool {
        let cand = strip(cand);
        if cand == *best {
            return false;
        }
        match eval(&cand) {
            Some((c, used)) if c == class => {
                let mut used = strip(used);
                if weight(&cand) <= weight(&used) {
                    used = cand;
                }
                if weight(&used) < weight(best) {
                    *best = used;
                    return true;
                }
                false
            }
            _ => false,
        }
    };
    let over = || t0.elapsed() > limit;
    loop {
        let before = best.clone();
        // shorter
        let mut k = best.len() / 2;
        while k > 0 && !over() {
            let n = best.len();
            if n > k {
                let c = best[..n - k].to_vec();
                if attempt(&mut best, c) {
                    continue;
                }
            }
            k /= 2;
        }
        // without a stretch
        let mut k = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !over() {
                let mut c = best.clone();
                c.drain(i..(i + k).min(best.len()));
                if !attempt(&mut best, c) {
                    i += k;
                }
            }
            if k == 1 || over() {
                break;
            }
            k /= 2;
        }
        // plain choices
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !over() {
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    for x in c[i..e].iter_mut() {
                        *x = 0;
                    }
                    attempt(&mut best, c);
                }
                i += k;
            }
            if k == 1 || over() {
                break;
            }
            k /= 2;
        }
        // smaller values
        let mut i = 0;
        while i < best.len() && !over() {
            let v = best[i];
            for n in [1, v / 2, v.saturating_sub(1)] {
                if i < best.len() && n < best[i] && best[i] == v {
                    let mut c = best.clone();
                    c[i] = n;
                    attempt(&mut best, c);
                }
            }
            i += 1;
        }
        if over() || best == before {
            return best;
        }
    }
}

/// args: PROP CLASS TAPEFILE SECONDS — rewrites TAPEFILE with the best tape so far
fn minimise(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let (class, file) = (a[1].clone(), PathBuf::from(&a[2]));
    let secs: u64 = a[3].parse().unwrap_or(15);
    on_small_stack(move || {
        install_hook();
        let t = read_tape(&file.display().to_string());
        let mut len = t.len();
        let best = shrink(t, &class.clone(), Duration::from_secs(secs), |c| {
            let ch = Ch::replaying(c.to_vec());
            match run_one(p.f, &ch) {
                Out::Viol(v) => {
                    if v.class == class && c.len() < len {
                        len = c.len();
                        write_tape(&file, c);
                    }
                    Some((v.class, ch.tape()))
                }
                _ => None,
            }
        });
        write_tape(&file, &best);
        0
    })
}

// ---------------------------------------------------------------- check

struct Found {
    idx: u64,
    class: String,
    msg: String,
    tape: Option<Vec<u64>>,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn check(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let root = PathBuf::from(std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into()));
    let tier = match std::env::var("VERIF_TIER").as_ref().map(|x| x.as_str()) {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let tier = match a.get(1).map(|x| x.as_str()) {
        Some("thorough") => "thorough",
        Some("quick") => "quick",
        _ => tier,
    };
    let seed = env_u64("VERIF_SEED", 1);
    let workers = env_u64("SIM_WORKERS", WORKERS as u64).max(1).min(64) as usize;
    let count = env_u64("SIM_RUNS", if tier == "quick" { p.quick } else { p.thorough });
    let secs = env_u64("SIM_SECS", if tier == "quick" { 150 } else { 780 });
    println!("{}: VERIF_SEED={} tier={} runs={} workers={}", p.id, seed, tier, count, workers);
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("amqp-sim-{}-{}", p.id, std::process::id()));
    if let Err(e) = fs::create_dir_all(&dir) {
        fail(&format!("{}: {}", dir.display(), e));
    }
    let sh = Shared::create(&dir.join("shared"));
    let mut kids: Vec<(usize, Option<Child>, u64, Instant)> = Vec::new();
    for w in 0..workers {
        let c = Command::new(me())
            .arg("worker")
            .arg(p.id)
            .arg(seed.to_string())
            .arg(w.to_string())
            .arg(workers.to_string())
            .arg(count.to_string())
            .arg(secs.to_string())
            .arg(&dir)
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| fail(&format!("spawn: {}", e)));
        kids.push((w, Some(c), 0, Instant::now()));
    }
    let mut found: Vec<Found> = Vec::new();
    loop {
        let mut live = 0;
        for (w, kid, at, since) in kids.iter_mut() {
            let now_at = sh.at(1 + *w).load(SeqCst);
            let c = match kid {
                Some(c) => c,
                None => continue,
            };
            match c.try_wait() {
                Ok(Some(s)) => {
                    if !s.success() {
                        let idx = now_at.saturating_sub(1);
                        if s.code() == Some(2) {
                            cleanup(&dir);
                            fail(&format!("worker {} failed", w));
                        }
                        sh.stop(idx);
                        found.push(Found { idx, class: signal_class(&s), msg: "the process under simulation was ended".into(), tape: None });
                    }
                    *kid = None;
                }
                Ok(None) => {
                    live += 1;
                    if now_at != *at {
                        *at = now_at;
                        *since = Instant::now();
                    } else if since.elapsed() > HANG {
                        let _ = c.kill();
                        let _ = c.wait();
                        *kid = None;
                        let idx = now_at.saturating_sub(1);
                        sh.stop(idx);
                        found.push(Found { idx, class: "hang".into(), msg: format!("one run took more than {} s", HANG.as_secs()), tape: None });
                    }
                }
                Err(_) => *kid = None,
            }
        }
        if live == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    // gather
    let mut st: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut events, mut sim_ns, mut draws, mut again, mut differ) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut nontrivial = 0u64;
    let mut digest = 0u64;
    let mut slowest = (0u64, 0u64);
    for w in 0..workers {
        if let Ok(b) = fs::read(dir.join(format!("h{}", w))) {
            for c in b.chunks_exact(8) {
                nontrivial += 1;
                distinct.insert(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
            }
        }
        let r = fs::read_to_string(dir.join(format!("w{}", w))).unwrap_or_default();
        for l in r.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let n = |i: usize| -> u64 { f.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
            match f[0] {
                "viol" => found.push(Found { idx: n(1), class: f[2].to_string(), msg: f[3..].join(" "), tape: None }),
                "tape" => {
                    let t: Vec<u64> = f[1].split(' ').filter_map(|x| x.parse().ok()).collect();
                    if let Some(x) = found.last_mut() {
                        x.tape = Some(t);
                    }
                }
                "harness" => {
                    cleanup(&dir);
                    fail(&format!("run {} of seed {}: {}", f[1], seed, f[2..].join(" ")));
                }
                "done" => {
                    runs += n(1);
                    events += n(2);
                    sim_ns += n(3);
                    draws += n(4);
                    again += n(5);
                    differ += n(6);
                }
                "slowest" => slowest = slowest.max((n(1), n(2))),
                "digest" => digest = digest.wrapping_add(n(1)),
                "stat" => *st.entry(f[1].to_string()).or_insert(0) += n(2),
                "sample" => samples.push(l[7..].to_string()),
                _ => (),
            }
        }
    }
    let search = t0.elapsed().as_secs_f64();
    found.sort_by_key(|x| x.idx);
    let mut code = 0;
    let mut replay = None;
    if let Some(v) = found.first() {
        let (path, msg) = report(p, seed, v, workers as u64, &dir, &root);
        println!("run {} of seed {}: {}: {}", v.idx, seed, v.class, msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        replay = Some(path);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = root.join("evidence");
    let _ = fs::create_dir_all(&ev);
    let per = |prefix: &str| -> String {
        let v: Vec<String> = st
            .iter()
            .filter(|x| x.0.starts_with(prefix))
            .map(|x| format!("{}: {}", js(&x.0[prefix.len()..]), x.1))
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let rest: Vec<String> = st
        .iter()
        .filter(|x| !x.0.starts_with("fault.") && !x.0.starts_with("sched."))
        .map(|x| format!("{}: {}", js(x.0), x.1))
        .collect();
    let distinct_nt = distinct.len();
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n", js(p.id), js(tier), seed));
    s.push_str("  \"coverage\": {\n");
    s.push_str(&format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", runs, distinct_nt));
    s.push_str(&format!("    \"rule\": {},\n", js(p.rule)));
    s.push_str(&format!("    \"samples\": [{}],\n", samples.join(",\n      ")));
    s.push_str(&format!("    \"nontrivial_runs\": {},\n", nontrivial));
    s.push_str(&format!("    \"runs_planned\": {},\n", count));
    s.push_str(&format!("    \"runs_per_hour\": {},\n", (runs as f64 / search.max(0.001) * 3600.0) as u64));
    s.push_str(&format!("    \"seeds\": {},\n    \"seeds_per_hour\": {},\n", runs, (runs as f64 / search.max(0.001) * 3600.0) as u64));
    s.push_str(&format!("    \"events\": {},\n    \"choices_drawn\": {},\n", events, draws));
    s.push_str(&format!("    \"simulated_seconds\": {:.3},\n", sim_ns as f64 / 1e9));
    s.push_str(&format!("    \"faults_injected\": {},\n", per("fault.")));
    s.push_str(&format!("    \"schedule_points\": {},\n", per("sched.")));
    s.push_str(&format!("    \"conditions_reached\": {{{}}},\n", rest.join(", ")));
    s.push_str(&format!("    \"determinism\": {{\"runs_repeated\": {}, \"runs_that_differed\": {}, \"digest_of_all_runs\": \"{:016x}\"}},\n", again, differ, digest));
    s.push_str(&format!("    \"workers\": {},\n    \"slowest_run\": {{\"run\": {}, \"milliseconds\": {}}},\n", workers, slowest.1, slowest.0));
    s.push_str(
        "    \"real_components\": [\"amqp-codec from /repo (whole crate: framing, protocol headers, types, performatives, SASL bodies, messages)\", \
\"tokio-codec Framed (FramedRead2/FramedWrite2)\", \"bytes\", \"hashbrown\", \"chrono\"],\n",
    );
    s.push_str(
        "    \"simulated_components\": [\"network byte streams and their faults\", \"clock\", \"task scheduler\", \"allocator limit and meter\", \
\"peer implementation (independent AMQP 1.0 encoder and decoder)\", \"applications\"]\n",
    );
    s.push_str("  },\n");
    s.push_str(
        "  \"assumptions\": [\"the independent AMQP 1.0 reader and writer in sim/simsrc/refamqp.rs follow the OASIS specification\", \
\"a sampled search: schedules, faults and values not drawn are not covered\"],\n",
    );
    if let Some(r) = &replay {
        s.push_str(&format!("  \"replay\": {},\n", js(&r.display().to_string())));
    }
    s.push_str(&format!("  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n", wall, if code == 0 { 0 } else { 1 }));
    if let Err(e) = fs::write(ev.join(format!("{}.json", p.id)), s) {
        cleanup(&dir);
        fail(&format!("evidence: {}", e));
    }
    cleanup(&dir);
    println!(
        "{}: {} runs, {} distinct non-trivial, {} events, {:.0} simulated s, {:.1} s wall, {} repeated ({} differed)",
        p.id,
        runs,
        distinct_nt,
        events,
        sim_ns as f64 / 1e9,
        wall,
        again,
        differ
    );
    if code == 0 && runs == 0 {
        fail("no run was made");
    }
    code
}

fn cleanup(dir: &Path) {
    let _ = fs::remove_dir_all(dir);
}

/// A violation that a fresh process does not show depends on what earlier runs left behind in the process
/// (statics, thread-locals): find a short list of the worker's earlier runs that brings it back.
fn history_of(p: &Prop, seed: u64, idx: u64, stride: u64, class: &str, tape: &[u64], dir: &Path) -> Vec<u64> {
    let t0 = Instant::now();
    let limit = Duration::from_secs(90);
    let tf = dir.join("hist.tape");
    write_tape(&tf, tape);
    let shows = |h: &[u64]| -> bool {
        let o = run_after(p, h, "tape", &tf.display().to_string(), None, dir, false, limit);
        o.class.as_deref() == Some(class)
    };
    let before: Vec<u64> = (0..idx / stride).map(|k| run_seed(seed, p.id, idx % stride + k * stride)).collect();
    let mut k = 1;
    let mut best = loop {
        let h = before[before.len().saturating_sub(k)..].to_vec();
        if !h.is_empty() && shows(&h) {
            break h;
        }
        if k >= before.len() || t0.elapsed() > limit {
            return Vec::new();
        }
        k *= 4;
    };
    let mut k = (best.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < best.len() && best.len() > 1 && t0.elapsed() < limit {
            let mut c = best.clone();
            c.drain(i..(i + k).min(best.len()));
            if !c.is_empty() && shows(&c) {
                best = c;
            } else {
                i += k;
            }
        }
        if k == 1 || t0.elapsed() > limit {
            return best;
        }
        k /= 2;
    }
}

fn report(p: &Prop, seed: u64, v: &Found, stride: u64, dir: &Path, root: &Path) -> (PathBuf, String) {
    let tf = dir.join("min.tape");
    let mut class = v.class.clone();
    let mut msg = v.msg.clone();
    let fatal = v.tape.is_none();
    let tape = match &v.tape {
        Some(t) => t.clone(),
        None => {
            let o = run_single(p, "seed", &run_seed(seed, p.id, v.idx).to_string(), Some(&tf), dir, false, HANG);
            if let Some(c) = o.class {
                class = c;
                msg = o.msg;
            }
            read_tape(&tf.display().to_string())
        }
    };
    let orig = tape.clone();
    let secs = env_u64("SIM_MIN_SECS", 20);
    let tape = if fatal {
        if class == "hang" {
            tape
        } else {
            let cf = dir.join("cand.tape");
            let of = dir.join("used.tape");
            shrink(tape, &class.clone(), Duration::from_secs(secs), |c| {
                write_tape(&cf, c);
                let o = run_single(p, "tape", &cf.display().to_string(), Some(&of), dir, false, Duration::from_secs(5));
                o.class.map(|k| (k, read_tape(&of.display().to_string())))
            })
        }
    } else {
        write_tape(&tf, &tape);
        let c = Command::new(me())
            .arg("minimise")
            .arg(p.id)
            .arg(&class)
            .arg(&tf)
            .arg(secs.to_string())
            .stderr(Stdio::null())
            .spawn();
        if let Ok(mut c) = c {
            wait_for(&mut c, Duration::from_secs(secs + 40));
        }
        read_tape(&tf.display().to_string())
    };
    // confirm in a fresh process; fall back to the tape as found
    let confirm = |t: &[u64]| -> (SingleOut, Vec<String>) {
        write_tape(&tf, t);
        let o = run_single(p, "tape", &tf.display().to_string(), None, dir, false, HANG);
        (o, Vec::new())
    };
    let (o, _) = confirm(&tape);
    let (tape, o) = if o.class.as_deref() == Some(class.as_str()) { (tape, o) } else { let o = confirm(&orig).0; (orig, o) };
    let (history, o) = if o.class.as_deref() == Some(class.as_str()) {
        (Vec::new(), o)
    } else {
        let h = history_of(p, seed, v.idx, stride, &class, &tape, dir);
        write_tape(&tf, &tape);
        let o = run_after(p, &h, "tape", &tf.display().to_string(), None, dir, false, HANG * 3);
        (h, o)
    };
    if o.class.as_deref() == Some(class.as_str()) {
        msg = o.msg.clone();
    }
    let h2 = history.clone();
    // the trace, when the run survives
    let tape2 = tape.clone();
    let trace: Vec<String> = if fatal {
        vec!["(the run ends its process; `replay` prints the trace as it happens)".into()]
    } else {
        let f = p.f;
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                install_hook();
                for s in h2 {
                    let _ = run_one(f, &Ch::seeded(s));
                }
                let ch = Ch::replaying(tape2);
                ch.trace_on();
                let _ = run_one(f, &ch);
                ch.trace()
            })
            .ok()
            .and_then(|h| h.join().ok())
            .unwrap_or_default()
    };
    let rd = root.join("replays");
    let _ = fs::create_dir_all(&rd);
    let path = rd.join(format!("{}-seed{}-run{}.json", p.id, seed, v.idx));
    let tl: Vec<String> = trace.iter().map(|x| format!("    {}", js(x))).collect();
    let s = format!(
        "{{\n  \"property\": {},\n  \"verif_seed\": {},\n  \"run\": {},\n  \"class\": {},\n  \"message\": {},\n  \"hash\": {},\n  \"history\": [{}],\n  \"tape\": [{}],\n  \"trace\": [\n{}\n  ]\n}}\n",
        js(p.id),
        seed,
        v.idx,
        js(&class),
        js(&msg),
        js(&o.hash),
        history.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        tl.join(",\n")
    );
    if let Err(e) = fs::write(&path, s) {
        fail(&format!("{}: {}", path.display(), e));
    }
    (path, msg)
}

// ---------------------------------------------------------------- replay

fn field(s: &str, k: &str) -> Option<String> {
    let pat = format!("\"{}\": ", k);
    let i = s.find(&pat)? + pat.len();
    let r = &s[i..];
    if r.starts_with('"') {
        let mut o = String::new();
        let mut it = r[1..].chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(o),
                '\\' => match it.next()? {
                    'n' => o.push('\n'),
                    't' => o.push('\t'),
                    'u' => {
                        let h: String = it.by_ref().take(4).collect();
                        o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
        None
    } else if r.starts_with('[') {
        let e = r.find(']')?;
        Some(r[1..e].to_string())
    } else {
        let e = r.find(|c| c == ',' || c == '\n')?;
        Some(r[..e].to_string())
    }
}

fn replay(a: &[String]) -> i32 {
    let s = match fs::read_to_string(&a[0]) {
        Ok(s) => s,
        Err(e) => fail(&format!("{}: {}", a[0], e)),
    };
    let id = field(&s, "property").unwrap_or_else(|| fail("no property in the file"));
    let p = prop(&id);
    let tape: Vec<u64> = field(&s, "tape").unwrap_or_default().split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let history: Vec<u64> = field(&s, "history").unwrap_or_default().split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let want = field(&s, "class").unwrap_or_default();
    let hash = field(&s, "hash").unwrap_or_default();
    let dir = std::env::temp_dir().join(format!("amqp-sim-replay-{}", std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let tf = dir.join("tape");
    write_tape(&tf, &tape);
    if !history.is_empty() {
        println!("{}: after {} earlier runs in the same thread:", id, history.len());
    }
    let o = run_after(p, &history, "tape", &tf.display().to_string(), None, &dir, true, HANG * 3);
    cleanup(&dir);
    if let Some(h) = o.harness {
        fail(&h);
    }
    match o.class {
        None => {
            println!("{}: replay of {} draws does not violate the property on this tree", id, tape.len());
            0
        }
        Some(c) => {
            println!("{}: {}", c, o.msg);
            if c != want {
                println!("note: the file records {}", want);
            } else if o.hash != hash {
                println!("note: the event hash differs from the file ({} / {})", o.hash, hash);
            } else {
                println!("reproduced exactly (event hash {})", hash);
            }
            println!("VIOLATION property={} replay={}", id, a[0]);
            1
        }
    }
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let _ = std::io::stdout().flush();
    match a.first().map(|x| x.as_str()) {
        Some("check") if a.len() >= 2 => check(&a[1..]),
        Some("worker") if a.len() >= 8 => worker(&a[1..]),
        Some("single") if a.len() >= 6 => single(&a[1..]),
        Some("minimise") if a.len() >= 5 => minimise(&a[1..]),
        Some("replay") if a.len() >= 2 => replay(&a[1..]),
        Some("list") => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => fail("usage: amqp-sim check PROP [quick|thorough] | replay FILE | list"),
    }
}
