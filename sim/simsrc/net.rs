//! The network: byte pipes on a virtual clock, and the stream the real `Framed` reads and writes.

use crate::tape::Ch;
use futures::{Async, Poll};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::rc::Rc;
use tokio_io::{AsyncRead, AsyncWrite};

#[derive(Clone)]
pub struct Clock(Rc<Cell<u64>>);
impl Clock {
    pub fn new() -> Clock {
        Clock(Rc::new(Cell::new(0)))
    }
    pub fn now(&self) -> u64 {
        self.0.get()
    }
    pub fn advance(&self, to: u64) {
        if to > self.0.get() {
            self.0.set(to);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Fin,
    Rst,
}

struct P {
    window: usize,
    flight: VecDeque<(u64, Vec<u8>)>,
    inflight: usize,
    ready: Vec<u8>,
    pos: usize,
    tap: Vec<u8>,
    arrived: usize,
    last: u64,
    lat: (u64, u64),
    mtu: usize,
    /// nothing beyond this offset of the stream arrives
    cut: Option<(usize, End)>,
    /// the receiver will see this once everything in flight has arrived
    end: Option<End>,
}

#[derive(Clone)]
pub struct Pipe(Rc<RefCell<P>>);

impl Pipe {
    /// every parameter of the link is drawn
    pub fn new(ch: &Ch) -> Pipe {
        let lat = ch.pick(&[(1_000u64, 50_000u64), (1_000_000, 1_000_000), (20_000_000, 200_000_000), (10, 20)]);
        let window = ch.pick(&[65_536usize, 1 << 22, 8192, 1000, 64]);
        let mtu = ch.pick(&[1460usize, 1 << 20, 9000, 100, 8, 1]);
        Pipe(Rc::new(RefCell::new(P {
            window,
            flight: VecDeque::new(),
            inflight: 0,
            ready: Vec::new(),
            pos: 0,
            tap: Vec::new(),
            arrived: 0,
            last: 0,
            lat,
            mtu,
            cut: None,
            end: None,
        })))
    }
    /// make the link wide enough for a large transfer to take a bounded number of steps
    pub fn widen(&self, total: usize) {
        let mut p = self.0.borrow_mut();
        let m = total / 400 + 1;
        if p.window < m * 2 {
            p.window = m * 2;
        }
        if p.mtu < m {
            p.mtu = m;
        }
    }
    pub fn cut_at(&self, off: usize, e: End) {
        self.0.borrow_mut().cut = Some((off, e));
    }
    pub fn is_cut(&self) -> bool {
        let p = self.0.borrow();
        p.cut.map_or(false, |(o, _)| p.arrived >= o)
    }
    pub fn close(&self, e: End) {
        let mut p = self.0.borrow_mut();
        if p.end.is_none() {
            p.end = Some(e);
        }
    }
    /// everything the writer has written so far
    pub fn tap(&self) -> Vec<u8> {
        self.0.borrow().tap.clone()
    }
    pub fn written(&self) -> usize {
        self.0.borrow().tap.len()
    }
    /// bytes that have reached the receiving host
    pub fn arrived(&self) -> usize {
        self.0.borrow().arrived
    }
    pub fn readable(&self) -> bool {
        let p = self.0.borrow();
        p.pos < p.ready.len() || (p.end.is_some() && p.flight.is_empty())
    }
    pub fn unread(&self) -> usize {
        let p = self.0.borrow();
        p.ready.len() - p.pos
    }
    pub fn idle(&self) -> bool {
        let p = self.0.borrow();
        p.flight.is_empty() && p.pos == p.ready.len()
    }
    pub fn next_arrival(&self) -> Option<u64> {
        self.0.borrow().flight.front().map(|x| x.0)
    }
    /// move what has arrived by `now` to the receiving host
    pub fn deliver(&self, now: u64) -> usize {
        let mut p = self.0.borrow_mut();
        let mut n = 0;
        while p.flight.front().map_or(false, |x| x.0 <= now) {
            let (_, b) = p.flight.pop_front().unwrap();
            n += b.len();
            p.inflight -= b.len();
            let mut b = &b[..];
            if let Some((off, e)) = p.cut {
                if p.arrived + b.len() >= off {
                    b = &b[..off.saturating_sub(p.arrived).min(b.len())];
                    if p.end.is_none() {
                        p.end = Some(e);
                    }
                }
            }
            if p.pos == p.ready.len() {
                p.ready.clear();
                p.pos = 0;
            }
            p.ready.extend_from_slice(b);
            p.arrived += b.len();
            let cut = p.cut.map_or(false, |(o, _)| p.arrived >= o);
            if cut {
                p.flight.clear();
                p.inflight = 0;
            }
        }
        n
    }
    /// accept as much as the window allows
    pub fn write(&self, now: u64, ch: &Ch, b: &[u8]) -> usize {
        let mut p = self.0.borrow_mut();
        let used = p.inflight + (p.ready.len() - p.pos);
        let room = p.window.saturating_sub(used);
        let n = room.min(b.len());
        p.tap.extend_from_slice(&b[..n]);
        if p.cut.map_or(false, |(o, _)| p.arrived >= o) {
            // the link is dead: what is written now is lost
            return n;
        }
        let mut i = 0;
        let mtu = p.mtu.max(n / 64 + 1);
        while i < n {
            let k = mtu.min(n - i);
            let at = (now + p.lat.0 + if p.lat.1 > p.lat.0 { ch.below(8) * (p.lat.1 - p.lat.0) / 8 } else { 0 }).max(p.last);
            p.last = at;
            p.flight.push_back((at, b[i..i + k].to_vec()));
            p.inflight += k;
            i += k;
        }
        n
    }
    pub fn read(&self, dst: &mut [u8]) -> io::Result<usize> {
        let mut p = self.0.borrow_mut();
        let n = (p.ready.len() - p.pos).min(dst.len());
        if n == 0 {
            if p.flight.is_empty() {
                match p.end {
                    Some(End::Fin) => return Ok(0),
                    Some(End::Rst) => return Err(io::ErrorKind::ConnectionReset.into()),
                    None => (),
                }
            }
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let pos = p.pos;
        dst[..n].copy_from_slice(&p.ready[pos..pos + n]);
        p.pos += n;
        Ok(n)
    }
    /// put bytes on the wire in one go, arriving in drawn pieces at drawn times
    pub fn inject(&self, ch: &Ch, clock: &Clock, b: &[u8], cuts: &[usize]) {
        let mut p = self.0.borrow_mut();
        p.tap.extend_from_slice(b);
        let mut prev = 0;
        let mut at = clock.now();
        for &c in cuts.iter().chain(std::iter::once(&b.len())) {
            if c > prev {
                at += p.lat.0 + ch.below(4) * 1000;
                p.flight.push_back((at, b[prev..c].to_vec()));
                p.inflight += c - prev;
                p.last = at;
                prev = c;
            }
        }
    }
}

/// Faults of one socket.
#[derive(Clone)]
pub struct Knobs {
    pub max_read: usize,
    pub max_write: usize,
    /// one in n calls would block / is interrupted although data or room is there (0 = never)
    pub block: u64,
    pub intr: u64,
}

impl Knobs {
    pub fn draw(ch: &Ch) -> Knobs {
        Knobs {
            max_read: ch.pick(&[usize::max_value(), 1, 2, 3, 5, 8, 17, 64, 300, 1500, 4096, 10_000]),
            max_write: ch.pick(&[usize::max_value(), 1, 7, 100, 1500, 8192]),
            block: ch.pick(&[0u64, 3, 10]),
            intr: ch.pick(&[0u64, 0, 9, 4]),
        }
    }
    pub fn calm() -> Knobs {
        Knobs { max_read: usize::max_value(), max_write: usize::max_value(), block: 0, intr: 0 }
    }
    pub fn widen(&mut self, total: usize) {
        let m = total / 400 + 1;
        self.max_read = self.max_read.max(m);
        self.max_write = self.max_write.max(m);
    }
}

pub struct SimIo {
    pub rd: Pipe,
    pub wr: Pipe,
    pub ch: Ch,
    pub clock: Clock,
    pub k: Knobs,
}

impl Read for SimIo {
    fn read(&mut self, dst: &mut [u8]) -> io::Result<usize> {
        if dst.is_empty() {
            return Ok(0);
        }
        if self.k.intr > 0 && self.ch.chance(1, self.k.intr) {
            self.ch.probe("fault.read_interrupted");
            self.ch.nontrivial();
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.k.block > 0 && self.ch.chance(1, self.k.block) {
            self.ch.probe("fault.read_would_block");
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let have = self.rd.unread().min(dst.len());
        let mut n = have.min(self.k.max_read);
        if n > 1 && self.k.max_read < have && self.ch.coin() {
            n = 1 + self.ch.idx(n);
        }
        if n < have {
            self.ch.probe("fault.short_read");
            self.ch.nontrivial();
        }
        let r = self.rd.read(&mut dst[..n.max(1)]);
        if let Ok(n) = r {
            self.ch.ev(1, n as u64, self.clock.now());
        }
        r
    }
}
impl AsyncRead for SimIo {}

impl Write for SimIo {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.k.intr > 0 && self.ch.chance(1, self.k.intr) {
            self.ch.probe("fault.write_interrupted");
            self.ch.nontrivial();
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.k.block > 0 && self.ch.chance(1, self.k.block) {
            self.ch.probe("fault.write_would_block");
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let mut n = b.len().min(self.k.max_write);
        if n > 1 && n < b.len() && self.ch.coin() {
            n = 1 + self.ch.idx(n);
        }
        let n = self.wr.write(self.clock.now(), &self.ch, &b[..n]);
        if n == 0 {
            self.ch.probe("fault.window_full");
            return Err(io::ErrorKind::WouldBlock.into());
        }
        if n < b.len() {
            self.ch.probe("fault.short_write");
            self.ch.nontrivial();
        }
        self.ch.ev(2, n as u64, self.clock.now());
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncWrite for SimIo {
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        Ok(Async::Ready(()))
    }
}

/// log-uniform size in 1..=max
pub fn log_size(ch: &Ch, max: usize) -> usize {
    let bits = 64 - (max as u64).leading_zeros() as u64;
    let b = ch.below(bits) + 1;
    let hi = (1u64 << b).min(max as u64 + 1);
    let lo = 1u64 << (b - 1);
    (lo + ch.below(hi.saturating_sub(lo).max(1))) as usize
}
