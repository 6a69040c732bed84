//! The choice tape: the one source of every decision in a run.
//!
//! A run draws all its choices (generated data, scheduling, faults) from a `Ch`. In seeded mode the
//! draws come from a PRNG and are recorded; in replay mode they are read back from a tape (missing
//! draws read as 0, the simplest choice). A run is therefore a pure function of its tape.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn run_seed(verif_seed: u64, prop: &str, idx: u64) -> u64 {
    let mut x = verif_seed ^ 0x5157_1e57_ca11_ab1e;
    let mut h = splitmix(&mut x);
    for b in prop.bytes() {
        x = h ^ u64::from(b);
        h = splitmix(&mut x);
    }
    x = h ^ idx.wrapping_mul(0x2545_f491_4f6c_dd1d);
    splitmix(&mut x)
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

pub type Res = Result<(), Viol>;

pub fn viol<T>(class: &str, msg: String) -> Result<T, Viol> {
    Err(Viol {
        class: class.to_string(),
        msg,
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::tape::viol($class, format!($($arg)*));
        }
    };
}

/// Counters of one worker: faults injected, rare conditions reached.
#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
}

impl Stats {
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.n.entry(k).or_insert(0) += v;
    }
}

struct Inner {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    tape: Vec<u64>,
    hash: u64,
    events: u64,
    nontrivial: bool,
    sim_ns: u64,
    trace: Option<Vec<String>>,
    stream: bool,
    st: Stats,
    tape_fd: Option<i32>,
    limit: usize,
}

/// Cheap handle to the one tape of a run; cloned into every simulated component.
#[derive(Clone)]
pub struct Ch(Rc<RefCell<Inner>>);

impl Ch {
    pub fn seeded(seed: u64) -> Ch {
        Ch::mk(Some(Rng::new(seed)), Vec::new())
    }
    pub fn replaying(tape: Vec<u64>) -> Ch {
        Ch::mk(None, tape)
    }
    fn mk(rng: Option<Rng>, replay: Vec<u64>) -> Ch {
        Ch(Rc::new(RefCell::new(Inner {
            rng,
            replay,
            pos: 0,
            tape: Vec::with_capacity(1 << 14),
            hash: 0xcbf2_9ce4_8422_2325,
            events: 0,
            nontrivial: false,
            sim_ns: 0,
            trace: None,
            stream: false,
            st: Stats::default(),
            tape_fd: None,
            limit: 4_000_000,
        })))
    }
    pub fn tape(&self) -> Vec<u64> {
        self.0.borrow().tape.clone()
    }
    pub fn take_stats(&self) -> Stats {
        std::mem::take(&mut self.0.borrow_mut().st)
    }
    pub fn hash(&self) -> u64 {
        self.0.borrow().hash
    }
    pub fn events(&self) -> u64 {
        self.0.borrow().events
    }
    pub fn is_nontrivial(&self) -> bool {
        self.0.borrow().nontrivial
    }
    /// Mark the run as having met something a one-shot decode of one buffer would not.
    pub fn nontrivial(&self) {
        self.0.borrow_mut().nontrivial = true;
    }
    pub fn sim_ns(&self) -> u64 {
        self.0.borrow().sim_ns
    }
    pub fn add_sim_ns(&self, n: u64) {
        self.0.borrow_mut().sim_ns += n;
    }
    pub fn trace_on(&self) {
        self.0.borrow_mut().trace = Some(Vec::new());
    }
    /// print the trace as it happens
    pub fn stream_trace(&self) {
        self.0.borrow_mut().stream = true;
    }
    pub fn trace(&self) -> Vec<String> {
        self.0.borrow().trace.clone().unwrap_or_default()
    }
    /// every draw is also written to this fd: recovers the tape of a run that kills its process
    pub fn set_tape_fd(&self, fd: i32) {
        self.0.borrow_mut().tape_fd = Some(fd);
    }

    fn draw(&self, n: u64) -> u64 {
        // n == 0 means the full 64-bit range
        let mut g = self.0.borrow_mut();
        let v = if let Some(ref mut r) = g.rng {
            let x = r.next();
            if n == 0 {
                x
            } else {
                ((u128::from(x) * u128::from(n)) >> 64) as u64
            }
        } else {
            let x = g.replay.get(g.pos).cloned().unwrap_or(0);
            g.pos += 1;
            if n == 0 {
                x
            } else if x >= n {
                n - 1
            } else {
                x
            }
        };
        g.tape.push(v);
        if g.tape.len() > g.limit {
            panic!("runaway: the run draws without end");
        }
        if let Some(fd) = g.tape_fd {
            let b = v.to_le_bytes();
            unsafe {
                libc::write(fd, b.as_ptr() as *const libc::c_void, 8);
            }
        }
        v
    }

    /// uniform in [0, n)
    pub fn below(&self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.draw(n)
    }
    pub fn idx(&self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in [lo, hi]
    pub fn range(&self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn u64(&self) -> u64 {
        self.draw(0)
    }
    /// true with probability num/den; the draw 0 means false
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn coin(&self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<T: Clone>(&self, xs: &[T]) -> T {
        let i = self.idx(xs.len());
        xs[i].clone()
    }
    pub fn weighted(&self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }

    /// Record one event of the schedule. Never draws.
    pub fn ev(&self, tag: u64, a: u64, b: u64) {
        let mut g = self.0.borrow_mut();
        for x in [tag, a, b] {
            g.hash = (g.hash ^ x).wrapping_mul(0x0000_0100_0000_01b3);
            g.hash ^= g.hash >> 29;
        }
        g.events += 1;
    }
    pub fn tracing(&self) -> bool {
        self.0.borrow().trace.is_some()
    }
    pub fn log<F: FnOnce() -> String>(&self, f: F) {
        if !self.tracing() {
            return;
        }
        let mut s = f();
        let mut g = self.0.borrow_mut();
        if g.stream {
            eprintln!("{}", s);
        }
        if let Some(ref mut t) = g.trace {
            if t.len() < 4000 {
                if s.len() > 400 {
                    let mut e = 400;
                    while !s.is_char_boundary(e) {
                        e -= 1;
                    }
                    s.truncate(e);
                    s.push_str("...");
                }
                t.push(s);
            }
        }
    }
    pub fn probe(&self, k: &'static str) {
        self.0.borrow_mut().st.add(k, 1);
    }
    pub fn add(&self, k: &'static str, n: u64) {
        self.0.borrow_mut().st.add(k, n);
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 32;
    }
    h ^ b.len() as u64
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}
