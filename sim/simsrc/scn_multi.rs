//! C18: many connections in one process, one step of one of them at a time, now and then on another
//! thread (as a work-stealing executor moves tasks). None may notice the others.

use crate::conn::*;
use crate::drive::*;
use crate::ensure;
use crate::gen::G;
use crate::model::*;
use crate::net::*;
use crate::refamqp::{self, Enc};
use crate::scn_hostile::{bomb_frame, damage_inside, malformed};
use crate::scn_stream::{ends_of, est, rand_header, workload};
use crate::tape::*;
use crate::typed::*;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, OutMessage, ProtocolIdCodec, SaslFrame};
use bytes::BytesMut;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};
use tokio_codec::{Decoder, Encoder};

// ---------------------------------------------------------------- other threads

struct Job(Box<dyn FnOnce()>);
// The thread that hands a job over waits for its end: never do two threads touch the same thing at once.
unsafe impl Send for Job {}

struct Helper {
    tx: Sender<Job>,
    rx: Receiver<()>,
}
impl Helper {
    fn new() -> Helper {
        let (tx, jobs) = channel::<Job>();
        let (done, rx) = channel();
        let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            for j in jobs {
                let j = j;
                (j.0)();
                if done.send(()).is_err() {
                    break;
                }
            }
        });
        if r.is_err() {
            panic!("harness: no thread");
        }
        Helper { tx, rx }
    }
}

pub const THREADS: usize = 3;
thread_local! {
    static HELP: Vec<Helper> = (1..THREADS).map(|_| Helper::new()).collect();
}

/// Run `f` on thread `k` (0: this one) and wait for it.
pub fn on<R, F: FnOnce() -> R>(k: usize, f: F) -> R {
    if k == 0 {
        return f();
    }
    let a = alt();
    let mut out: Option<std::thread::Result<R>> = None;
    {
        let o = &mut out;
        let job: Box<dyn FnOnce() + '_> = Box::new(move || {
            refamqp::reset();
            set_alt(a);
            *o = Some(catch_unwind(AssertUnwindSafe(f)));
        });
        // the borrow ends before this function does: it waits
        let job: Box<dyn FnOnce()> = unsafe { std::mem::transmute(job) };
        HELP.with(|h| {
            let h = &h[k - 1];
            if h.tx.send(Job(job)).is_err() || h.rx.recv().is_err() {
                panic!("harness: helper thread");
            }
        });
    }
    match out {
        Some(Ok(x)) => x,
        Some(Err(p)) => resume_unwind(p),
        None => panic!("harness: helper thread did not run"),
    }
}

// ---------------------------------------------------------------- what lives in the process

/// One inhabitant: `step` is false when it has nothing left to do.
trait Life {
    fn step(&mut self, ch: &Ch) -> Result<bool, Viol>;
    fn what(&self) -> &'static str;
}

/// two real endpoints
struct Duplex<T: FrameT> {
    c: Conn<T>,
    sent: [Vec<FM>; 2],
    left: u64,
    /// the connection is dropped after this many steps
    doomed: bool,
}
impl<T: FrameT> Duplex<T> {
    fn new(ch: &Ch) -> Duplex<T> {
        let (a, b) = (workload(ch, T::SASL, 5), workload(ch, T::SASL, 5));
        let total = est::<T>(&a) + est::<T>(&b);
        let n = 10 + ch.below(40 + 6 * (a.len() + b.len()) as u64);
        let sent = [a.clone(), b.clone()];
        Duplex { c: Conn::new(ch, a, b, total), sent, left: n, doomed: ch.chance(1, 4) }
    }
}
impl<T: FrameT> Life for Duplex<T> {
    fn what(&self) -> &'static str {
        "full-duplex connection"
    }
    fn step(&mut self, ch: &Ch) -> Result<bool, Viol> {
        let sent = &self.sent;
        let check = |i: usize, n: usize, f: &FM| expect_frame(&sent[1 - i], n, f);
        if self.left > 0 {
            let k = (1 + ch.below(6)).min(self.left);
            self.left -= k;
            for _ in 0..k {
                self.c.step(check)?;
            }
            return Ok(true);
        }
        self.c.finish();
        if self.doomed {
            ch.probe("fault.connection_dropped");
            self.c.unchanged()?;
            return Ok(false);
        }
        self.c.drain(check)?;
        for i in 0..2 {
            ensure!(
                self.c.s[i].next == sent[i].len() && self.c.s[1 - i].got.len() == sent[i].len(),
                "lost-frame",
                "{} frames to send, {} handed over, {} delivered",
                sent[i].len(),
                self.c.s[i].next,
                self.c.s[1 - i].got.len()
            );
        }
        self.c.pipe[0].close(End::Fin);
        self.c.pipe[1].close(End::Fin);
        self.c.drain(check)?;
        for i in 0..2 {
            ensure!(self.c.s[i].end == Some(None), "unclean-end", "side {} saw {:?} at the end of a complete stream", i, self.c.s[i].end);
        }
        self.c.unchanged()?;
        Ok(false)
    }
}

/// a receiver whose peer sends good and bad frames
struct Inlet<T: FrameT> {
    bytes: Vec<u8>,
    cuts: Vec<usize>,
    /// per frame: the value, when the frame is good
    good: Vec<Option<FM>>,
    codec: AmqpCodec<T>,
    rx: BytesMut,
    at: usize,
    fed: usize,
    got: Vec<Got>,
    limit: usize,
    end: Option<bool>,
    doomed: bool,
}
impl<T: FrameT> Inlet<T> {
    fn new(ch: &Ch) -> Inlet<T> {
        let g = G::small(ch);
        let e = Enc::varied(ch);
        let mut bytes = Vec::new();
        let mut good = Vec::new();
        let evil = ch.below(4);
        for _ in 0..1 + ch.below(8) {
            if ch.below(4) < evil {
                let f = match ch.below(4) {
                    0 => bomb_frame(ch, &g, T::SASL),
                    1 => malformed(ch, &g, T::SASL).0,
                    _ => {
                        let mut f = e.frame(&g.frame(T::SASL));
                        damage_inside(ch, &mut f);
                        f
                    }
                };
                if ends_of(&f) == [f.len()] {
                    ch.probe("fault.hostile_frame");
                    bytes.extend_from_slice(&f);
                    good.push(None);
                }
            } else {
                let m = g.frame(T::SASL);
                bytes.extend_from_slice(&e.frame(&m));
                good.push(Some(m));
            }
        }
        if evil > 0 && ch.chance(1, 4) {
            // a frame is announced that never comes
            ch.probe("fault.announced_only");
            let n = if ch.coin() { 1 << ch.range(14, 31) } else { ch.u64() as u32 | 0x4000 };
            bytes.extend_from_slice(&n.to_be_bytes());
            bytes.extend_from_slice(&[2, T::SASL as u8, 0, 0]);
            for _ in 0..ch.below(30) {
                bytes.push(ch.below(256) as u8);
            }
        }
        let n = bytes.len();
        if ch.chance(1, 3) {
            // cut short
            let k = ch.idx(n + 1);
            bytes.truncate(k);
            ch.probe("fault.cut");
        }
        let mut cuts = pieces(ch, bytes.len(), &[]);
        if cuts.last() != Some(&bytes.len()) {
            cuts.push(bytes.len());
        }
        let limit = good.len() * 2 + 8;
        Inlet {
            cuts,
            good,
            codec: AmqpCodec::new(),
            rx: fresh(ch),
            at: 0,
            fed: 0,
            got: Vec::new(),
            limit,
            end: None,
            doomed: ch.chance(1, 5),
            bytes,
        }
    }
    /// what the same pieces make of an untouched codec with nothing in between
    fn alone(&self) -> (Vec<Got>, Option<bool>) {
        let mut c = AmqpCodec::<T>::new();
        let mut rx = BytesMut::new();
        let mut got = Vec::new();
        let mut from = 0;
        for &to in &self.cuts {
            rx.extend_from_slice(&self.bytes[from..to]);
            from = to;
            take(&mut c, &mut rx, &mut got, self.limit);
        }
        let end = end_of(&mut c, &mut rx, &mut got, self.limit);
        (got, Some(end))
    }
    fn verdict(&self) -> Res {
        let (got, end) = self.alone();
        let n = self.got.len();
        ensure!(
            self.got[..] == got[..n.min(got.len())] && (self.doomed || n == got.len() && self.end == end),
            "others-interfere",
            "among other connections the stream gave {:?}, end {:?}; on its own it gives {:?}, end {:?}: {}",
            self.got,
            self.end,
            got,
            end,
            hex(&self.bytes)
        );
        let ends = ends_of(&self.bytes);
        let whole = ends.iter().take_while(|&&e| e <= self.fed).count();
        for (i, m) in self.good.iter().enumerate().take(whole) {
            if let Some(m) = m {
                match self.got.get(i) {
                    Some(Got::Frame(f)) => {
                        if let Err(s) = check_frame(m, f) {
                            return viol("wrong-frame", format!("frame #{}: {}", i, s));
                        }
                    }
                    x => return viol("lost-frame", format!("well-formed frame #{} ({}) was answered with {:?}", i, frame_name(m), x)),
                }
            }
        }
        Ok(())
    }
}
fn take<T: FrameT>(c: &mut AmqpCodec<T>, rx: &mut BytesMut, got: &mut Vec<Got>, limit: usize) {
    while got.len() < limit {
        match c.decode(rx) {
            Ok(Some(f)) => got.push(Got::Frame(f.model())),
            Ok(None) => return,
            Err(e) => got.push(Got::Err(format!("{:?}", e))),
        }
    }
}
fn end_of<T: FrameT>(c: &mut AmqpCodec<T>, rx: &mut BytesMut, got: &mut Vec<Got>, limit: usize) -> bool {
    while got.len() < limit {
        match c.decode_eof(rx) {
            Ok(Some(f)) => got.push(Got::Frame(f.model())),
            Ok(None) => return true,
            Err(_) => return false,
        }
    }
    false
}
impl<T: FrameT> Life for Inlet<T> {
    fn what(&self) -> &'static str {
        "receiver"
    }
    fn step(&mut self, ch: &Ch) -> Result<bool, Viol> {
        if self.at < self.cuts.len() && !(self.doomed && ch.chance(1, 6)) {
            let to = self.cuts[self.at];
            self.rx.extend_from_slice(&self.bytes[self.fed..to]);
            self.fed = to;
            self.at += 1;
            let (c, rx) = (&mut self.codec, &mut self.rx);
            take(c, rx, &mut self.got, self.limit);
            ch.ev(70, to as u64, self.got.len() as u64);
            return Ok(true);
        }
        if self.at == self.cuts.len() && !self.doomed {
            self.end = Some(end_of(&mut self.codec, &mut self.rx, &mut self.got, self.limit));
        } else {
            ch.probe("fault.connection_dropped");
        }
        self.verdict()?;
        Ok(false)
    }
}

/// protocol headers, in both directions
struct Headers {
    bytes: Vec<u8>,
    at: usize,
    rx: BytesMut,
    codec: ProtocolIdCodec,
    got: Vec<String>,
}
impl Headers {
    fn new(ch: &Ch) -> Headers {
        let mut bytes = Vec::new();
        for _ in 0..1 + ch.below(4) {
            bytes.extend_from_slice(&rand_header(ch));
        }
        Headers { bytes, at: 0, rx: fresh(ch), codec: ProtocolIdCodec::default(), got: Vec::new() }
    }
    fn alone(h: &[u8]) -> String {
        if &h[..4] != b"AMQP" {
            "Err(InvalidHeader)".into()
        } else if h[5..8] != [1, 0, 0] {
            "Err(Incompatible)".into()
        } else {
            match h[4] {
                0 => "Ok(Some(Amqp))".into(),
                2 => "Ok(Some(AmqpTls))".into(),
                3 => "Ok(Some(AmqpSasl))".into(),
                _ => "Err(Unknown)".into(),
            }
        }
    }
}
impl Life for Headers {
    fn what(&self) -> &'static str {
        "header exchange"
    }
    fn step(&mut self, ch: &Ch) -> Result<bool, Viol> {
        if self.at == self.bytes.len() {
            return Ok(false);
        }
        let n = (1 + ch.idx(9)).min(self.bytes.len() - self.at);
        self.rx.extend_from_slice(&self.bytes[self.at..self.at + n]);
        self.at += n;
        loop {
            let r = self.codec.decode(&mut self.rx);
            if let Ok(None) = r {
                break;
            }
            let s = format!("{:?}", r);
            let i = self.got.len() * 8;
            ensure!(self.at >= i + 8, "header-verdict", "{} before the header was complete", s);
            let want = Headers::alone(&self.bytes[i..i + 8]);
            ensure!(s == want, "header-verdict", "header {} gives {}, expected {}", hex(&self.bytes[i..i + 8]), s, want);
            self.got.push(s);
        }
        ensure!(self.got.len() == self.at / 8, "header-verdict", "{} bytes gave {} headers", self.at, self.got.len());
        ch.ev(71, self.at as u64, 0);
        let id = ch.pick(&[0u8, 2, 3]);
        let mut o = fresh(ch);
        let from = o.len();
        if self.codec.encode(crate::scn_stream::pid(id), &mut o).is_err() || o[from..] != [b'A', b'M', b'Q', b'P', id, 1, 0, 0] {
            return viol("header-encode", format!("header {} written as {}", id, hex(&o[from..])));
        }
        Ok(true)
    }
}

/// a message that is made, measured, sent and read at different times
struct Work {
    m: MsgM,
    inbound: Option<InMessage>,
    outbound: Option<OutMessage>,
    size: usize,
    wire: Vec<u8>,
    flat: Option<MsgM>,
    read: Option<(InMessage, OutMessage)>,
    at: u32,
}
impl Work {
    fn new(ch: &Ch) -> Work {
        let g = G::small(ch);
        Work { m: g.msg(1), inbound: None, outbound: None, size: 0, wire: Vec::new(), flat: None, read: None, at: 0 }
    }
}
impl Life for Work {
    fn what(&self) -> &'static str {
        "message"
    }
    fn step(&mut self, ch: &Ch) -> Result<bool, Viol> {
        self.at += 1;
        ch.ev(72, u64::from(self.at), 0);
        match self.at {
            1 => {
                if ch.coin() {
                    self.inbound = Some(build_in(&self.m));
                } else {
                    self.outbound = Some(build_out(&self.m));
                }
            }
            2 => {
                self.size = match (&self.inbound, &self.outbound) {
                    (Some(x), _) => x.encoded_size(),
                    (_, Some(x)) => x.encoded_size(),
                    _ => 0,
                }
            }
            3 => {
                let mut b = fresh(ch);
                b.reserve(self.size);
                let from = b.len();
                match (&self.inbound, &self.outbound) {
                    (Some(x), _) => x.encode(&mut b),
                    (_, Some(x)) => x.encode(&mut b),
                    _ => (),
                }
                self.wire = b[from..].to_vec();
                ensure!(self.wire.len() == self.size, "size-mismatch", "announced {} bytes, wrote {}", self.size, self.wire.len());
                let w = crate::scn_msg::read_msg("encoded message", &self.wire, &self.m)?;
                self.flat = Some(crate::scn_msg::from_wire(&w));
            }
            4 => {
                let (a, b) = (InMessage::decode(&self.wire), OutMessage::decode(&self.wire));
                match (a, b) {
                    (Ok((_, a)), Ok((_, b))) => self.read = Some((a, b)),
                    (a, b) => return viol("message-refused", format!("{:?} {:?}: {}", a.err(), b.err(), hex(&self.wire))),
                }
            }
            5 => {
                if let (Some((a, b)), Some(m)) = (&self.read, &self.flat) {
                    crate::scn_wire::in_message_is(m, a)?;
                    crate::scn_wire::out_message_is(m, b)?;
                }
            }
            _ => return Ok(false),
        }
        Ok(true)
    }
}

fn move_in(ch: &Ch) -> Box<dyn Life> {
    match ch.below(10) {
        0 | 1 | 2 => Box::new(Duplex::<AmqpFrame>::new(ch)),
        3 => Box::new(Duplex::<SaslFrame>::new(ch)),
        4 | 5 | 6 => Box::new(Inlet::<AmqpFrame>::new(ch)),
        7 => Box::new(Inlet::<SaslFrame>::new(ch)),
        8 => Box::new(Headers::new(ch)),
        _ => Box::new(Work::new(ch)),
    }
}

pub fn c18(ch: &Ch) -> Res {
    let n = 2 + ch.idx(5);
    let mut lives: Vec<Box<dyn Life>> = Vec::new();
    let mut later = ch.below(4);
    for _ in 0..n {
        lives.push(move_in(ch));
    }
    // how often a step runs on another thread, and whether an inhabitant stays where it is
    let roam = ch.pick(&[0u64, 0, 1, 4]);
    ch.nontrivial();
    let mut last = 0;
    while !lives.is_empty() {
        let i = if ch.chance(1, 3) { last.min(lives.len() - 1) } else { ch.idx(lives.len()) };
        last = i;
        let k = if ch.below(8) < roam { ch.idx(THREADS) } else { 0 };
        if k > 0 {
            ch.probe("sched.other_thread");
        }
        let l = &mut lives[i];
        let more = match on(k, || l.step(ch)) {
            Ok(x) => x,
            Err(v) => return viol(&v.class, format!("one {} of {} in the process: {}", lives[i].what(), lives.len(), v.msg)),
        };
        if !more {
            ch.add("connections.ended", 1);
            // its buffers go, perhaps on another thread
            let l = lives.swap_remove(i);
            on(k, move || drop(l));
            if later > 0 {
                later -= 1;
                lives.push(move_in(ch));
            }
        }
    }
    Ok(())
}
