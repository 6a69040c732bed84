//! Endpoints: the two ways an application runs the codec (tokio `Framed`, or its own buffers), and
//! the receive-only driver used on prepared byte streams.

use crate::ensure;
use crate::model::FM;
use crate::net::*;
use crate::tape::*;
use crate::typed::FrameT;
use amqp_codec::{AmqpCodec, AmqpCodecError};
use bytes::{BufMut, BytesMut};
use futures::{Async, AsyncSink, Sink, Stream};
use std::io::{self, Read, Write};
use tokio_codec::{Decoder, Encoder, Framed};

#[derive(Debug, Clone)]
pub enum Rx<T> {
    Frame(T),
    Pending,
    /// retryable I/O error
    Retry,
    /// the codec rejected a frame
    Err(String),
    /// clean end of stream
    End,
    /// the stream ended or failed inside a frame
    BadEnd(String),
}

fn cls<T>(e: AmqpCodecError) -> Rx<T> {
    match e {
        AmqpCodecError::Io(Some(ref x)) if x.kind() == io::ErrorKind::Interrupted => Rx::Retry,
        AmqpCodecError::Io(Some(ref x)) => Rx::BadEnd(format!("{:?}", x.kind())),
        AmqpCodecError::Io(None) => Rx::BadEnd("Io".into()),
        // printing an error is part of reporting it
        e => {
            let _ = format!("{}", e);
            Rx::Err(format!("{:?}", e.clone()))
        }
    }
}

/// An application that owns its buffers.
pub struct Raw<T: FrameT> {
    io: SimIo,
    codec: AmqpCodec<T>,
    pub rx: BytesMut,
    pub tx: BytesMut,
    out: Vec<u8>,
    eof: bool,
    read_more: bool,
    style: u64,
    undecoded: bool,
    broken: Option<io::ErrorKind>,
}

pub fn fresh(ch: &Ch) -> BytesMut {
    match ch.below(6) {
        0 => BytesMut::new(),
        1 => BytesMut::with_capacity(8 * 1024),
        2 => BytesMut::with_capacity(1 + ch.idx(64)),
        3 => BytesMut::from(Vec::with_capacity(ch.idx(300))),
        4 => {
            // tail of a shared block
            let mut b = BytesMut::with_capacity(128 + ch.idx(200));
            b.put_slice(&[7u8; 40]);
            let _ = b.split_to(40);
            b
        }
        _ => {
            let mut b = BytesMut::with_capacity(256);
            let _ = b.split_off(ch.idx(256));
            b
        }
    }
}

/// Same contents, different memory.
pub fn reshape(ch: &Ch, b: &mut BytesMut) {
    match ch.below(8) {
        0 => {
            let c = BytesMut::from(b.to_vec());
            *b = c;
        }
        1 => {
            let mut c = fresh(ch);
            c.extend_from_slice(b);
            *b = c;
        }
        2 => {
            let mut c = BytesMut::with_capacity(b.len());
            c.extend_from_slice(b);
            *b = c;
        }
        3 => b.reserve(ch.pick(&[1usize, 100, 5000, 40_000])),
        4 => {
            let c = b.take();
            *b = c;
        }
        5 => {
            // through an immutable handle and back
            let f = b.take().freeze();
            *b = match f.try_mut() {
                Ok(m) => m,
                Err(f) => BytesMut::from(f),
            };
        }
        _ => (),
    }
}

impl<T: FrameT> Raw<T> {
    pub fn new(io: SimIo) -> Raw<T> {
        let ch = io.ch.clone();
        Raw {
            codec: AmqpCodec::new(),
            rx: fresh(&ch),
            tx: fresh(&ch),
            out: Vec::new(),
            eof: false,
            read_more: true,
            style: ch.below(5),
            undecoded: false,
            broken: None,
            io,
        }
    }
    pub fn poll_read(&mut self) -> Rx<T> {
        let ch = self.io.ch.clone();
        loop {
            if let (true, Some(k)) = (self.read_more, self.broken) {
                return Rx::BadEnd(format!("{:?}", k));
            }
            if self.read_more && !self.eof {
                let mut tmp = [0u8; 4096];
                let n = if self.style == 1 { 1 + ch.idx(64) } else { 4096 };
                let got = if self.style == 2 {
                    // straight into the buffer's spare room
                    if self.rx.remaining_mut() == 0 {
                        self.rx.reserve(1 + ch.idx(512));
                    }
                    let r = unsafe { self.io.read(self.rx.bytes_mut()) };
                    if let Ok(k) = r {
                        unsafe { self.rx.advance_mut(k) };
                    }
                    r
                } else {
                    self.io.read(&mut tmp[..n]).map(|k| {
                        self.rx.extend_from_slice(&tmp[..k]);
                        k
                    })
                };
                match got {
                    Ok(0) => self.eof = true,
                    Ok(_) if self.style == 4 => {
                        // takes all there is before it decodes any of it
                        self.undecoded = true;
                        continue;
                    }
                    Ok(_) => (),
                    Err(e) if self.undecoded && e.kind() != io::ErrorKind::Interrupted => {
                        self.undecoded = false;
                        if e.kind() != io::ErrorKind::WouldBlock {
                            self.broken = Some(e.kind());
                        }
                    }
                    Err(e) => match e.kind() {
                        io::ErrorKind::WouldBlock => {
                            if self.style == 3 {
                                // an impatient application asks again without new bytes
                                ch.probe("sched.spurious_decode");
                                match self.codec.decode(&mut self.rx) {
                                    Ok(None) => (),
                                    Ok(Some(f)) => return Rx::Frame(f),
                                    Err(e) => return cls(e),
                                }
                            }
                            return Rx::Pending;
                        }
                        io::ErrorKind::Interrupted => return Rx::Retry,
                        k => return Rx::BadEnd(format!("{:?}", k)),
                    },
                }
                self.read_more = false;
            }
            if self.style == 3 && ch.chance(1, 4) {
                reshape(&ch, &mut self.rx);
            }
            let r = if self.eof { self.codec.decode_eof(&mut self.rx) } else { self.codec.decode(&mut self.rx) };
            match r {
                Ok(Some(f)) => return Rx::Frame(f),
                Ok(None) => {
                    if self.eof {
                        return Rx::End;
                    }
                    self.read_more = true;
                }
                Err(e) => return cls(e),
            }
        }
    }
    pub fn submit(&mut self, f: T) -> Result<(), String> {
        let ch = self.io.ch.clone();
        if ch.chance(1, 3) {
            reshape(&ch, &mut self.tx);
        }
        self.codec.encode(f, &mut self.tx).map_err(|e| format!("{:?}", e))
    }
    pub fn poll_write(&mut self) {
        let ch = self.io.ch.clone();
        if self.out.is_empty() && !self.tx.is_empty() {
            // partial flush: hand a prefix of the buffer to the socket
            let n = match ch.below(3) {
                0 => self.tx.len(),
                1 => 1 + ch.idx(self.tx.len()),
                _ => log_size(&ch, self.tx.len()),
            };
            let b = if n == self.tx.len() && ch.coin() { self.tx.take() } else { self.tx.split_to(n) };
            if ch.coin() {
                self.out = b.freeze().to_vec();
            } else {
                self.out = b.to_vec();
            }
        }
        if !self.out.is_empty() {
            if let Ok(n) = self.io.write(&self.out) {
                self.out.drain(..n);
            }
        }
    }
    pub fn unwritten(&self) -> bool {
        !self.out.is_empty() || !self.tx.is_empty()
    }
}

pub enum Ep<T: FrameT> {
    F(Box<Framed<SimIo, AmqpCodec<T>>>),
    R(Box<Raw<T>>),
}

impl<T: FrameT> Ep<T> {
    pub fn new(io: SimIo) -> Ep<T> {
        if io.ch.coin() {
            Ep::R(Box::new(Raw::new(io)))
        } else {
            Ep::F(Box::new(Framed::new(io, AmqpCodec::new())))
        }
    }
    pub fn read(&mut self) -> Rx<T> {
        match self {
            Ep::R(r) => r.poll_read(),
            Ep::F(f) => match f.poll() {
                Ok(Async::Ready(Some(x))) => Rx::Frame(x),
                Ok(Async::Ready(None)) => Rx::End,
                Ok(Async::NotReady) => Rx::Pending,
                Err(e) => cls(e),
            },
        }
    }
    /// false: the endpoint is full (or hit a retryable error), offer the frame again later
    pub fn submit(&mut self, f: T) -> Result<bool, String> {
        match self {
            Ep::R(r) => {
                r.submit(f)?;
                Ok(true)
            }
            Ep::F(w) => match w.start_send(f) {
                Ok(AsyncSink::Ready) => Ok(true),
                Ok(AsyncSink::NotReady(_)) => Ok(false),
                Err(e) => match cls::<T>(e) {
                    Rx::Retry => Ok(false),
                    x => Err(format!("{:?}", x)),
                },
            },
        }
    }
    /// push buffered bytes towards the network; true when nothing is left here
    pub fn write(&mut self) -> bool {
        match self {
            Ep::R(r) => {
                r.poll_write();
                !r.unwritten()
            }
            Ep::F(w) => match w.poll_complete() {
                Ok(Async::Ready(())) => true,
                _ => false,
            },
        }
    }
    pub fn calm(&mut self) {
        match self {
            Ep::R(r) => r.io.k = Knobs::calm(),
            Ep::F(w) => w.get_mut().k = Knobs::calm(),
        }
    }
}

// ---------------------------------------------------------------- receive-only driver

#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Frame(FM),
    Err(String),
}

#[derive(Debug)]
pub struct Outcome<T> {
    pub got: Vec<Got>,
    pub frames: Vec<T>,
    /// None: clean end
    pub end: Option<String>,
    /// stopped because the item limit was reached
    pub stopped: bool,
}

/// what the driver checks while it receives
pub struct Watch<'a> {
    /// end offset of each frame by its length prefix
    pub ends: &'a [usize],
    /// how many frames of the prefix are certainly valid
    pub valid: usize,
    pub limit: usize,
    pub meter: Option<fn(usize, usize, &'static str) -> Res>,
}

/// Choose where the stream is cut into pieces.
pub fn pieces(ch: &Ch, n: usize, hot: &[usize]) -> Vec<usize> {
    let mut cuts: Vec<usize> = Vec::new();
    if n == 0 {
        return cuts;
    }
    match ch.below(6) {
        0 => (),
        1 => {
            let k = 1 + ch.below(6);
            for _ in 0..k {
                cuts.push(ch.idx(n + 1));
            }
        }
        2 => {
            // around interesting offsets
            let k = 1 + ch.below(8);
            for _ in 0..k {
                let h = if hot.is_empty() { 0 } else { hot[ch.idx(hot.len())] } as i64;
                let o = h + ch.range(0, 12) as i64 - 4;
                if o >= 0 && o as usize <= n {
                    cuts.push(o as usize);
                }
            }
        }
        3 => {
            let step = log_size(ch, 64).max(n / 600 + 1);
            let mut i = step;
            while i < n {
                cuts.push(i);
                i += step;
            }
        }
        4 => {
            let mut i = 0;
            let max = log_size(ch, 4096).max(n / 300 + 1);
            while i < n {
                i += log_size(ch, max);
                cuts.push(i.min(n));
                if cuts.len() > 1500 {
                    break;
                }
            }
        }
        _ => {
            // byte by byte over a stretch
            let at = if hot.is_empty() { ch.idx(n) } else { hot[ch.idx(hot.len())].saturating_sub(4) };
            for i in at..(at + 40).min(n) {
                cuts.push(i);
            }
        }
    }
    cuts.sort();
    cuts.dedup();
    cuts
}

/// Feed `bytes` to a fresh receiver.
pub fn receive<T: FrameT>(ch: &Ch, bytes: &[u8], w: &Watch) -> Result<Outcome<T>, Viol> {
    let cuts = pieces(ch, bytes.len(), w.ends);
    if !cuts.is_empty() {
        ch.nontrivial();
    }
    let mut o = Outcome { got: Vec::new(), frames: Vec::new(), end: None, stopped: false };
    ch.log(|| format!("receive {} bytes in {} pieces: {}", bytes.len(), cuts.len() + 1, hex(bytes)));
    if ch.coin() {
        recv_raw(ch, bytes, &cuts, w, &mut o)?;
    } else {
        recv_framed(ch, bytes, &cuts, w, &mut o)?;
    }
    ch.log(|| {
        format!("received {} items, end {:?}: {:?}", o.got.len(), o.end, o.got.iter().take(6).collect::<Vec<_>>())
    });
    Ok(o)
}

fn eager<T>(o: &Outcome<T>, arrived: usize, w: &Watch) -> Res {
    let done = w.ends.iter().take_while(|&&e| e <= arrived).count().min(w.valid);
    let n = o.got.iter().take_while(|g| matches!(g, Got::Frame(_))).count();
    ensure!(
        n >= done,
        "late-delivery",
        "{} complete valid frames have arrived ({} bytes) but only {} were yielded",
        done,
        arrived,
        n
    );
    Ok(())
}

fn recv_raw<T: FrameT>(ch: &Ch, bytes: &[u8], cuts: &[usize], w: &Watch, o: &mut Outcome<T>) -> Res {
    let mut codec = AmqpCodec::<T>::new();
    let mut rx = fresh(ch);
    let style = ch.below(5);
    let mut prev = 0;
    let mut next = cuts.iter().cloned().chain(std::iter::once(bytes.len()));
    let mut eof = false;
    loop {
        match next.next() {
            Some(c) => {
                rx.reserve(c - prev);
                rx.put_slice(&bytes[prev..c]);
                ch.ev(3, c as u64, 0);
                ch.add_sim_ns(50_000);
                prev = c;
                if style == 4 && ch.coin() {
                    // more is read before any of it is decoded
                    continue;
                }
            }
            None => eof = true,
        }
        if style == 1 && ch.chance(1, 3) {
            reshape(ch, &mut rx);
            ch.probe("sched.buffer_reshaped");
        }
        let mut spurious = if style == 2 { ch.below(3) } else { 0 };
        loop {
            let m = crate::alloc::mark();
            let before = rx.len();
            let r = if eof { codec.decode_eof(&mut rx) } else { codec.decode(&mut rx) };
            if let Some(f) = w.meter {
                f(crate::alloc::peak_since(m), prev, "decode")?;
            }
            match r {
                Ok(Some(f)) => {
                    // bytes after the frame are still there
                    if o.got.iter().all(|g| matches!(g, Got::Frame(_))) && o.got.len() < w.ends.len() {
                        let e = w.ends[o.got.len()];
                        ensure!(
                            rx.len() + e == prev,
                            "consumed-past-frame",
                            "frame {} ends at offset {} of {} received bytes, but {} bytes are left in the buffer",
                            o.got.len(),
                            e,
                            prev,
                            rx.len()
                        );
                        ensure!(rx[..] == bytes[e..prev], "buffer-changed", "bytes after frame {} changed in the buffer", o.got.len());
                    }
                    ch.ev(4, o.got.len() as u64, 0);
                    o.got.push(Got::Frame(f.model()));
                    o.frames.push(f);
                }
                Ok(None) => {
                    if eof {
                        return Ok(());
                    }
                    if spurious > 0 {
                        spurious -= 1;
                        ch.probe("sched.spurious_decode");
                        continue;
                    }
                    eager(o, prev, w)?;
                    break;
                }
                Err(e) => match cls::<T>(e) {
                    Rx::Err(s) => {
                        ch.ev(5, o.got.len() as u64, 0);
                        o.got.push(Got::Err(s));
                        let _ = before;
                    }
                    Rx::BadEnd(s) => {
                        o.end = Some(s);
                        return Ok(());
                    }
                    x => return viol("io-error", format!("decoder invented {:?}", x)),
                },
            }
            if o.got.len() >= w.limit {
                o.stopped = true;
                return Ok(());
            }
        }
    }
}

fn recv_framed<T: FrameT>(ch: &Ch, bytes: &[u8], cuts: &[usize], w: &Watch, o: &mut Outcome<T>) -> Res {
    let clock = Clock::new();
    let rd = Pipe::new(ch);
    let wr = Pipe::new(ch);
    let mut k = Knobs::draw(ch);
    k.widen(bytes.len());
    rd.inject(ch, &clock, bytes, cuts);
    rd.close(End::Fin);
    let io = SimIo { rd: rd.clone(), wr, ch: ch.clone(), clock: clock.clone(), k };
    let mut f = Framed::new(io, AmqpCodec::<T>::new());
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 200_000 {
            return viol("livelock", "receiver makes no progress".into());
        }
        let m = crate::alloc::mark();
        let r = f.poll();
        if let Some(mf) = w.meter {
            mf(crate::alloc::peak_since(m), rd.arrived(), "Framed::poll")?;
        }
        match r {
            Ok(Async::Ready(Some(x))) => {
                ch.ev(4, o.got.len() as u64, 0);
                o.got.push(Got::Frame(x.model()));
                o.frames.push(x);
            }
            Ok(Async::Ready(None)) => break,
            Ok(Async::NotReady) => {
                if rd.unread() == 0 {
                    // all that arrived has been read: nothing may be held back
                    eager(o, rd.arrived(), w)?;
                    if let Some(t) = rd.next_arrival() {
                        clock.advance(t);
                        rd.deliver(t);
                        ch.ev(3, t, rd.arrived() as u64);
                    }
                }
            }
            Err(e) => match cls::<T>(e) {
                Rx::Retry => (),
                Rx::Err(s) => {
                    ch.ev(5, o.got.len() as u64, 0);
                    o.got.push(Got::Err(s));
                }
                Rx::BadEnd(s) => {
                    o.end = Some(s);
                    break;
                }
                _ => (),
            },
        }
        if o.got.len() >= w.limit {
            o.stopped = true;
            break;
        }
    }
    ch.add_sim_ns(clock.now());
    Ok(())
}
