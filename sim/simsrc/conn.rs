//! One simulated connection: two endpoints running the real codec, two byte pipes, and a seeded
//! scheduler that picks what happens next.

use crate::drive::*;
use crate::ensure;
use crate::model::*;
use crate::net::*;
use crate::tape::*;
use crate::typed::*;
use std::collections::BTreeMap;

pub struct Side<T: FrameT> {
    pub ep: Ep<T>,
    /// frames to send on this connection, and how many the codec has accepted
    pub todo: Vec<FM>,
    /// objects to send as they are, by position; anything else is built from `todo`
    pub real: BTreeMap<usize, T>,
    pub next: usize,
    pub got: Vec<T>,
    /// as they looked when they were delivered
    pub seen: Vec<FM>,
    pub end: Option<Option<String>>,
    pub flushed: bool,
}

pub struct Conn<T: FrameT> {
    pub ch: Ch,
    pub clock: Clock,
    pub s: [Side<T>; 2],
    /// pipe[i] carries what side i writes
    pub pipe: [Pipe; 2],
    w: [u64; 7],
}

impl<T: FrameT> Conn<T> {
    pub fn new(ch: &Ch, a: Vec<FM>, b: Vec<FM>, total: usize) -> Conn<T> {
        let clock = Clock::new();
        let ab = Pipe::new(ch);
        let ba = Pipe::new(ch);
        ab.widen(total);
        ba.widen(total);
        let mut k = [Knobs::draw(ch), Knobs::draw(ch)];
        k[0].widen(total);
        k[1].widen(total);
        let [k0, k1] = k;
        let io_a = SimIo { rd: ba.clone(), wr: ab.clone(), ch: ch.clone(), clock: clock.clone(), k: k0 };
        let io_b = SimIo { rd: ab.clone(), wr: ba.clone(), ch: ch.clone(), clock: clock.clone(), k: k1 };
        let mut w = [3u64; 7];
        for x in w.iter_mut() {
            *x = ch.pick(&[3u64, 1, 10]);
        }
        let side = |ep, todo| Side { ep, todo, real: BTreeMap::new(), next: 0, got: Vec::new(), seen: Vec::new(), end: None, flushed: true };
        Conn {
            ch: ch.clone(),
            s: [side(Ep::new(io_a), a), side(Ep::new(io_b), b)],
            pipe: [ab, ba],
            clock,
            w,
        }
    }

    pub fn submit(&mut self, i: usize) -> Result<bool, Viol> {
        let s = &mut self.s[i];
        if s.next >= s.todo.len() {
            return Ok(false);
        }
        let f = &s.todo[s.next];
        let t = s.real.get(&s.next).cloned().unwrap_or_else(|| T::build(f));
        match s.ep.submit(t) {
            Ok(true) => {
                self.ch.ev(10 + i as u64, s.next as u64, self.clock.now());
                self.ch.log(|| format!("[{}] side {} sends #{} {}", self.clock.now(), i, s.next, frame_name(&s.todo[s.next])));
                s.next += 1;
                s.flushed = false;
                Ok(true)
            }
            Ok(false) => {
                self.ch.probe("sched.back_pressure");
                Ok(false)
            }
            Err(e) => viol("encode-error", format!("encoding {} failed: {}", frame_name(f), e)),
        }
    }
    pub fn write(&mut self, i: usize) -> bool {
        let before = self.pipe[i].written();
        let was = self.s[i].flushed;
        self.s[i].flushed = self.s[i].ep.write();
        self.ch.ev(12 + i as u64, self.pipe[i].written() as u64, 0);
        self.pipe[i].written() > before || was != self.s[i].flushed
    }
    /// read one item; `check` decides whether a frame is the one expected
    pub fn read<F>(&mut self, i: usize, mut check: F) -> Result<bool, Viol>
    where
        F: FnMut(usize, &FM) -> Res,
    {
        if self.s[i].end.is_some() {
            return Ok(false);
        }
        let before = self.pipe[1 - i].unread();
        let s = &mut self.s[i];
        match s.ep.read() {
            Rx::Frame(t) => {
                let m = t.model();
                self.ch.ev(14 + i as u64, s.got.len() as u64, self.clock.now());
                self.ch.log(|| format!("[{}] side {} receives #{} {}", self.clock.now(), i, s.got.len(), frame_name(&m)));
                check(s.got.len(), &m)?;
                s.got.push(t);
                s.seen.push(m);
                Ok(true)
            }
            Rx::Pending => Ok(self.pipe[1 - i].unread() != before),
            Rx::Retry => Ok(true),
            Rx::Err(e) => viol("rejected", format!("side {} rejects frame #{}: {}", i, s.got.len(), e)),
            Rx::End => {
                s.end = Some(None);
                self.ch.ev(16 + i as u64, s.got.len() as u64, 0);
                self.ch.log(|| format!("[{}] side {} sees a clean end", self.clock.now(), i));
                Ok(true)
            }
            Rx::BadEnd(e) => {
                self.ch.log(|| format!("[{}] side {} sees {}", self.clock.now(), i, e));
                s.end = Some(Some(e));
                self.ch.ev(18 + i as u64, s.got.len() as u64, 0);
                Ok(true)
            }
        }
    }
    pub fn net(&mut self) -> bool {
        let t = match (self.pipe[0].next_arrival(), self.pipe[1].next_arrival()) {
            (Some(a), Some(b)) => a.min(b),
            (Some(a), None) | (None, Some(a)) => a,
            _ => return false,
        };
        self.clock.advance(t);
        let now = self.clock.now();
        for p in &self.pipe {
            p.deliver(now);
        }
        self.ch.ev(20, now, 0);
        true
    }

    /// one scheduler decision
    pub fn step<F>(&mut self, check: F) -> Res
    where
        F: FnMut(usize, usize, &FM) -> Res,
    {
        let k = self.ch.weighted(&self.w);
        self.act(k, check).map(|_| ())
    }
    fn act<F>(&mut self, k: usize, mut check: F) -> Result<bool, Viol>
    where
        F: FnMut(usize, usize, &FM) -> Res,
    {
        match k {
            0 => self.net().into_ok(),
            1 | 2 => {
                // offering a frame to a full endpoint may push bytes out
                let before = self.pipe[k - 1].written();
                let ok = self.submit(k - 1)?;
                Ok(ok || self.pipe[k - 1].written() > before)
            }
            3 => self.write(0).into_ok(),
            4 => self.write(1).into_ok(),
            5 => self.read(0, |n, f| check(0, n, f)),
            _ => self.read(1, |n, f| check(1, n, f)),
        }
    }
    /// no more faults: run until nothing changes
    pub fn drain<F>(&mut self, mut check: F) -> Res
    where
        F: FnMut(usize, usize, &FM) -> Res,
    {
        self.s[0].ep.calm();
        self.s[1].ep.calm();
        let mut rounds = 0u64;
        loop {
            let mut any = false;
            for k in 0..7 {
                while self.act(k, &mut check)? {
                    any = true;
                    rounds += 1;
                    if rounds > 3_000_000 {
                        return viol("livelock", "connection never becomes idle".into());
                    }
                    if k == 3 || k == 4 {
                        break;
                    }
                }
            }
            if !any {
                return Ok(());
            }
        }
    }
    /// frames handed to the application have not changed since
    pub fn unchanged(&self) -> Res {
        for s in &self.s {
            for (i, (t, m)) in s.got.iter().zip(&s.seen).enumerate() {
                if let Err(e) = check_frame(m, &t.model()) {
                    return viol("delivered-frame-changed", format!("frame #{} changed after delivery: {}", i, e));
                }
            }
        }
        Ok(())
    }
    pub fn finish(&self) {
        self.ch.add_sim_ns(self.clock.now());
        self.ch.add("frames.delivered", (self.s[0].got.len() + self.s[1].got.len()) as u64);
    }
}

trait IntoOk: Sized {
    fn into_ok(self) -> Result<Self, Viol> {
        Ok(self)
    }
}
impl IntoOk for bool {}

pub fn expect_frame(sent: &[FM], n: usize, f: &FM) -> Res {
    ensure!(n < sent.len(), "extra-frame", "frame #{} was never sent: {:?}", n, f);
    match check_frame(&sent[n], f) {
        Ok(()) => Ok(()),
        Err(e) => {
            if let Some(k) = sent.iter().position(|s| check_frame(s, f).is_ok()) {
                if k != n {
                    return viol("wrong-order", format!("frame #{} received in place of #{}", k, n));
                }
            }
            viol("wrong-frame", format!("frame #{} ({}): {}", n, frame_name(&sent[n]), e))
        }
    }
}
