//! Scenarios about the wire format: C06, C07, C08.

use crate::conn::expect_frame;
use crate::drive::*;
use crate::ensure;
use crate::gen::G;
use crate::kinds::{self, Kind};
use crate::model::*;
use crate::net::*;
use crate::refamqp::{self, frame_body, judge, Enc, Verdict};
use crate::scn_stream::{handover, pid, workload, Layer};
use crate::tape::*;
use crate::typed::*;
use amqp_codec::protocol::TransferBody;
use amqp_codec::types::{Str, Variant};
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, OutMessage, ProtocolIdCodec, SaslFrame};
use bytes::{BufMut, BytesMut};
use futures::{AsyncSink, Sink};
use tokio_codec::{Encoder, Framed};

// ---------------------------------------------------------------- C06

const NOT_ASCII: &str = refamqp::NOT_ASCII;

/// The output queue of a connection: encoders append, the network takes from the front.
struct Queue {
    ch: Ch,
    buf: BytesMut,
    /// what must be in it
    mirror: Vec<u8>,
    /// symbols that are not ASCII may occur
    any_sym: bool,
}

impl Queue {
    fn new(ch: &Ch) -> Queue {
        Queue { ch: ch.clone(), buf: fresh(ch), mirror: Vec::new(), any_sym: false }
    }
    fn intact(&self, what: &str) -> Res {
        ensure!(
            self.buf[..] == self.mirror[..],
            "queued-bytes-changed",
            "{}: {} bytes were queued, now {}: {} / {}",
            what,
            self.mirror.len(),
            self.buf.len(),
            hex(&self.mirror),
            hex(&self.buf)
        );
        Ok(())
    }
    fn flush(&mut self) -> Res {
        let ch = self.ch.clone();
        let n = match ch.below(4) {
            0 => self.buf.len(),
            1 => ch.idx(self.buf.len() + 1),
            2 => log_size(&ch, 64).min(self.buf.len()),
            _ => 0,
        };
        if n > 0 && n < self.buf.len() {
            ch.probe("fault.partial_flush");
            ch.nontrivial();
        }
        if ch.coin() {
            let _ = self.buf.split_to(n);
        } else {
            self.buf.advance(n);
        }
        self.mirror.drain(..n);
        ch.ev(50, n as u64, self.buf.len() as u64);
        ch.log(|| format!("flush {} bytes, {} stay queued", n, self.buf.len()));
        self.intact("flush")
    }
    /// make exactly `room` bytes of spare space, or a little more
    fn room(&mut self, room: usize) {
        let ch = self.ch.clone();
        let extra = if ch.chance(1, 3) { log_size(&ch, 64) } else { 0 };
        match ch.below(3) {
            0 => {
                let mut b = BytesMut::with_capacity(self.buf.len() + room + extra);
                b.put_slice(&self.buf);
                self.buf = b;
            }
            1 => {
                let mut v = Vec::with_capacity(self.buf.len() + room + extra);
                v.extend_from_slice(&self.buf);
                self.buf = BytesMut::from(v);
            }
            _ => self.buf.reserve(room + extra),
        }
        if self.buf.remaining_mut() == room {
            ch.probe("state.exactly_enough_room");
        }
    }
    /// what was appended since `before`
    fn appended(&mut self, what: &str, announced: usize) -> Result<Vec<u8>, Viol> {
        let n = self.mirror.len();
        ensure!(self.buf.len() >= n, "queued-bytes-lost", "{}: {} bytes were queued, now {}", what, n, self.buf.len());
        ensure!(self.buf[..n] == self.mirror[..], "queued-bytes-changed", "{}: bytes already queued changed", what);
        let add = self.buf[n..].to_vec();
        ensure!(
            add.len() == announced,
            "size-mismatch",
            "{}: announced {} bytes and appended {}: {}",
            what,
            announced,
            add.len(),
            hex(&add)
        );
        self.mirror.extend_from_slice(&add);
        self.ch.ev(51, add.len() as u64, n as u64);
        Ok(add)
    }
    fn frame<T: FrameT>(&mut self, codec: &mut AmqpCodec<T>, f: &FM) -> Res {
        let x = T::build(f);
        let name = frame_name(f);
        let announced = x.encoded_size();
        self.ch.log(|| format!("encode {} ({} bytes) with {} queued, {} spare", name, announced, self.buf.len(), self.buf.remaining_mut()));
        if self.buf.remaining_mut() < announced {
            self.ch.probe("state.buffer_full_at_encode");
            self.ch.nontrivial();
        }
        let again = x.clone();
        if let Err(e) = codec.encode(x, &mut self.buf) {
            return viol("encode-error", format!("{}: {:?}", name, e));
        }
        let add = self.appended(&name, announced)?;
        ensure!(add.len() >= 8, "frame-too-short", "{}: {} bytes", name, add.len());
        let len = u32::from_be_bytes([add[0], add[1], add[2], add[3]]) as usize;
        ensure!(len == add.len(), "length-prefix", "{}: prefix says {}, frame has {} bytes: {}", name, len, add.len(), hex(&add));
        match judge(|| frame_body(&add[4..], f.sasl)) {
            Verdict::Valid(_) => (),
            Verdict::Tolerated(_, NOT_ASCII) if self.any_sym => self.ch.probe("load.symbol_not_ascii"),
            v => return viol("nested-size", format!("{}: an independent reader finds {:?}: {}", name, v, hex(&add))),
        }
        ensure!(again.encoded_size() == announced, "size-changes", "{}: announced {} then {}", name, announced, again.encoded_size());
        Ok(())
    }
}

pub fn c06(ch: &Ch) -> Res {
    let mut g = G::new(ch);
    g.rarely_big(0, 1 << 24);
    let mut q = Queue::new(ch);
    if ch.chance(1, 4) {
        g.any_sym = true;
        q.any_sym = true;
    }
    let mut amqp = AmqpCodec::<AmqpFrame>::new();
    let mut sasl = AmqpCodec::<SaslFrame>::new();
    let n = 1 + ch.below(10);
    let mut w = [2u64; 7];
    for x in w.iter_mut() {
        *x = ch.pick(&[2u64, 0, 6]);
    }
    w[1] += 1;
    for _ in 0..n {
        match ch.weighted(&w) {
            0 => q.flush()?,
            1 => {
                let f = g.amqp_frame();
                q.frame(&mut amqp, &f)?;
            }
            2 => {
                let f = g.sasl_frame();
                q.frame(&mut sasl, &f)?;
            }
            3 => {
                if let Err(e) = ProtocolIdCodec::default().encode(pid(ch.pick(&[0u8, 2, 3])), &mut q.buf) {
                    return viol("encode-error", format!("{:?}", e));
                }
                let add = q.appended("protocol header", 8)?;
                ensure!(add[..4] == b"AMQP"[..], "header-bytes", "{}", hex(&add));
            }
            4 => {
                let k = kinds::pick(ch);
                q.value(k, &(k.gen)(&g))?;
            }
            5 => q.message(&g.msg(2))?,
            _ => {
                reshape(ch, &mut q.buf);
                q.intact("moving the buffer")?;
            }
        }
    }
    q.intact("end")
}

impl Queue {
    fn value(&mut self, k: &Kind, v: &V) -> Res {
        let announced = (k.size)(v);
        let times = if self.ch.chance(1, 5) { 2 } else { 1 };
        self.ch.log(|| format!("encode {} {:?} ({} bytes)", k.name, v, announced));
        self.room(announced * times);
        let after = (k.enc)(v, &mut self.buf, times);
        let add = self.appended(k.name, announced * times)?;
        ensure!(after == announced, "size-changes", "{}: announced {} before and {} after encoding", k.name, announced, after);
        ensure!(add[..announced] == add[add.len() - announced..], "encoding-varies", "{}: two encodings differ", k.name);
        match judge(|| (k.read)(&add[..announced])) {
            Verdict::Valid(_) => (),
            Verdict::Tolerated(_, NOT_ASCII) if self.any_sym => self.ch.probe("load.symbol_not_ascii"),
            r => return viol("nested-size", format!("{}: an independent reader finds {:?}: {} for {:?}", k.name, r, hex(&add), v)),
        }
        self.ch.probe("load.single_value");
        Ok(())
    }
    fn message(&mut self, m: &MsgM) -> Res {
        let (name, x): (&str, Box<dyn EncDyn>) = match self.ch.below(5) {
            0 => ("inbound message", Box::new(build_in(m))),
            1 => ("outbound message", Box::new(build_out(m))),
            2 => ("transfer body (in)", Box::new(TransferBody::MessageIn(build_in(m)))),
            3 => ("transfer body (out)", Box::new(TransferBody::MessageOut(build_out(m)))),
            _ => ("message body", Box::new(build_out(m).body().clone())),
        };
        let announced = x.size();
        self.ch.log(|| format!("encode {} ({} bytes)", name, announced));
        self.room(announced);
        x.put(&mut self.buf);
        let add = self.appended(name, announced)?;
        ensure!(x.size() == announced, "size-changes", "{}: announced {} before and {} after encoding", name, announced, x.size());
        if !add.is_empty() {
            match judge(|| refamqp::message(&add)) {
                Verdict::Valid(_) => (),
                Verdict::Tolerated(_, NOT_ASCII) if self.any_sym => self.ch.probe("load.symbol_not_ascii"),
                r => return viol("nested-size", format!("{}: an independent reader finds {:?}: {}", name, r, hex(&add))),
            }
        }
        self.ch.probe("load.message");
        Ok(())
    }
}

trait EncDyn {
    fn size(&self) -> usize;
    fn put(&self, b: &mut BytesMut);
}
impl<T: Encode> EncDyn for T {
    fn size(&self) -> usize {
        self.encoded_size()
    }
    fn put(&self, b: &mut BytesMut) {
        self.encode(b)
    }
}

// ---------------------------------------------------------------- C07

/// one thing an application sends
enum Tx {
    Hdr(u8),
    Frame(FM),
    /// a transfer whose payload is this value, encoded by the crate
    Value(FM, &'static Kind, V),
}

struct Sender {
    layer: Layer,
}
impl Sender {
    fn to(&mut self, ch: &Ch, kind: u8) {
        let l = std::mem::replace(&mut self.layer, Layer::Moving);
        self.layer = match (l, kind) {
            (Layer::Hdr(f), 1) => Layer::Sasl(handover(ch, f)),
            (Layer::Hdr(f), 2) => Layer::Amqp(handover(ch, f)),
            (Layer::Sasl(f), 0) => Layer::Hdr(handover(ch, f)),
            (Layer::Sasl(f), 2) => Layer::Amqp(handover(ch, f)),
            (Layer::Amqp(f), 0) => Layer::Hdr(handover(ch, f)),
            (l, _) => l,
        };
    }
    fn submit(&mut self, ch: &Ch, tx: &Tx) -> Result<bool, Viol> {
        let kind = match tx {
            Tx::Hdr(_) => 0,
            Tx::Frame(f) if f.sasl => 1,
            _ => 2,
        };
        self.to(ch, kind);
        use amqp_codec::AmqpCodecError as E;
        match (&mut self.layer, tx) {
            (Layer::Hdr(f), Tx::Hdr(x)) => match f.start_send(pid(*x)) {
                Ok(AsyncSink::Ready) => Ok(true),
                Ok(_) => Ok(false),
                Err(amqp_codec::ProtocolIdError::Io(_)) => Ok(false),
                Err(e) => viol("encode-error", format!("{:?}", e)),
            },
            (Layer::Sasl(f), Tx::Frame(x)) => match f.start_send(SaslFrame::build(x)) {
                Ok(AsyncSink::Ready) => Ok(true),
                Ok(_) | Err(E::Io(_)) => Ok(false),
                Err(e) => viol("encode-error", format!("{:?}", e)),
            },
            (Layer::Amqp(f), Tx::Frame(x)) | (Layer::Amqp(f), Tx::Value(x, _, _)) => match f.start_send(AmqpFrame::build(x)) {
                Ok(AsyncSink::Ready) => Ok(true),
                Ok(_) | Err(E::Io(_)) => Ok(false),
                Err(e) => viol("encode-error", format!("{:?}", e)),
            },
            _ => Ok(false),
        }
    }
    fn flush(&mut self) -> bool {
        match self.layer {
            Layer::Hdr(ref mut f) => f.poll_complete().ok().map_or(false, |x| x.is_ready()),
            Layer::Sasl(ref mut f) => f.poll_complete().ok().map_or(false, |x| x.is_ready()),
            Layer::Amqp(ref mut f) => f.poll_complete().ok().map_or(false, |x| x.is_ready()),
            Layer::Moving => true,
        }
    }
    fn calm(&mut self) {
        match self.layer {
            Layer::Hdr(ref mut f) => f.get_mut().k = Knobs::calm(),
            Layer::Sasl(ref mut f) => f.get_mut().k = Knobs::calm(),
            Layer::Amqp(ref mut f) => f.get_mut().k = Knobs::calm(),
            Layer::Moving => (),
        }
    }
}

pub fn c07(ch: &Ch) -> Res {
    let mut g = G::new(ch);
    g.rarely_big(0, 1 << 24);
    let mut script: Vec<Tx> = Vec::new();
    if ch.chance(1, 3) {
        script.push(Tx::Hdr(ch.pick(&[3u8, 2])));
        for f in workload(ch, true, 4) {
            script.push(Tx::Frame(f));
        }
    }
    if ch.chance(1, 2) {
        script.push(Tx::Hdr(0));
    }
    let n = ch.below(8);
    for i in 0..n {
        if ch.chance(1, 4) {
            let k = kinds::pick(ch);
            let v = (k.gen)(&g);
            let mut b = BytesMut::with_capacity((k.size)(&v) + 64);
            (k.enc)(&v, &mut b, 1);
            script.push(Tx::Value(g.transfer(i as u16, BodyM::Bytes(b.to_vec())), k, v));
        } else if ch.chance(1, 5) {
            script.push(Tx::Frame(g.transfer(i as u16, BodyM::Msg(Box::new(g.msg(3))))));
        } else {
            script.push(Tx::Frame(g.amqp_frame()));
        }
    }
    // one link, the simulated peer at the far end
    let clock = Clock::new();
    let wr = Pipe::new(ch);
    let rd = Pipe::new(ch);
    let total: usize = script
        .iter()
        .map(|t| match t {
            Tx::Hdr(_) => 8,
            Tx::Frame(f) | Tx::Value(f, _, _) if !f.sasl => AmqpFrame::build(f).encoded_size(),
            Tx::Frame(f) => SaslFrame::build(f).encoded_size(),
            Tx::Value(..) => 0,
        })
        .sum();
    wr.widen(total);
    let mut k = Knobs::draw(ch);
    k.widen(total);
    let io = SimIo { rd, wr: wr.clone(), ch: ch.clone(), clock: clock.clone(), k };
    let mut s = Sender { layer: Layer::Hdr(Framed::new(io, ProtocolIdCodec::default())) };
    let mut peer = RefPeer { got: Vec::new(), pos: 0, next: 0 };
    let mut next = 0;
    let mut idle = 0;
    let mut steps = 0;
    let budget = 40 + 20 * script.len();
    loop {
        steps += 1;
        if steps == budget {
            s.calm();
        }
        let mut any = false;
        if steps > budget || ch.coin() {
            if next < script.len() && s.submit(ch, &script[next])? {
                ch.ev(60, next as u64, 0);
                next += 1;
                any = true;
            }
        }
        if steps > budget || ch.coin() {
            let before = wr.written();
            s.flush();
            any |= wr.written() > before;
        }
        if steps > budget || ch.coin() {
            if let Some(t) = wr.next_arrival() {
                clock.advance(t);
                wr.deliver(t);
                ch.ev(61, t, 0);
                any = true;
            }
            let mut tmp = [0u8; 4096];
            while wr.unread() > 0 {
                match std::io::Result::ok(wr.read(&mut tmp)) {
                    Some(n) if n > 0 => peer.got.extend_from_slice(&tmp[..n]),
                    _ => break,
                }
            }
            peer.take(ch, &script)?;
        }
        if any || steps <= budget {
            idle = 0;
        } else {
            idle += 1;
            if idle > 3 {
                break;
            }
        }
        if steps > 2_000_000 {
            return viol("livelock", "sender never becomes idle".into());
        }
    }
    ensure!(next == script.len(), "stuck-sender", "{} of {} items accepted", next, script.len());
    ensure!(
        peer.next == script.len() && peer.pos == peer.got.len(),
        "unreadable-stream",
        "{} items were sent; an independent peer read {} and has {} bytes it cannot place: {}",
        script.len(),
        peer.next,
        peer.got.len() - peer.pos,
        hex(&peer.got[peer.pos..])
    );
    ch.add("frames.delivered", script.len() as u64);
    ch.add_sim_ns(clock.now());
    Ok(())
}

/// The independent peer: reads the stream as it arrives.
struct RefPeer {
    got: Vec<u8>,
    pos: usize,
    next: usize,
}
impl RefPeer {
    fn take(&mut self, ch: &Ch, script: &[Tx]) -> Res {
        loop {
            let b = &self.got[self.pos..];
            let tx = match script.get(self.next) {
                Some(t) => t,
                None => {
                    ensure!(b.is_empty(), "surplus-bytes", "bytes nobody sent: {}", hex(b));
                    return Ok(());
                }
            };
            let n = match tx {
                Tx::Hdr(x) => {
                    if b.len() < 8 {
                        return Ok(());
                    }
                    ensure!(b[..8] == [b'A', b'M', b'Q', b'P', *x, 1, 0, 0], "header-bytes", "protocol {} was sent as {}", x, hex(&b[..8]));
                    8
                }
                Tx::Frame(f) | Tx::Value(f, _, _) => {
                    if b.len() < 4 {
                        return Ok(());
                    }
                    let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
                    ensure!(n >= 8, "length-prefix", "{}: length prefix {}", frame_name(f), n);
                    if b.len() < n {
                        return Ok(());
                    }
                    match judge(|| frame_body(&b[4..n], f.sasl)) {
                        Verdict::Valid(m) => {
                            if let Err(e) = check_frame(f, &m) {
                                return viol("peer-reads-otherwise", format!("{}: {}: {}", frame_name(f), e, hex(&b[..n])));
                            }
                            if let (Tx::Value(_, k, v), BodyM::Bytes(p)) = (tx, &m.body) {
                                match judge(|| (k.read)(p)) {
                                    Verdict::Valid(ref g) if g == v => (),
                                    Verdict::Valid(g) => {
                                        return viol("peer-reads-otherwise", format!("{}: {}: {}", k.name, diff(v, &g), hex(p)))
                                    }
                                    r => return viol("not-amqp", format!("{}: {:?}: {}", k.name, r, hex(p))),
                                }
                                ch.probe("load.single_value");
                            }
                        }
                        r => return viol("not-amqp", format!("{}: {:?}: {}", frame_name(f), r, hex(&b[..n]))),
                    }
                    n
                }
            };
            self.pos += n;
            self.next += 1;
            ch.ev(62, self.next as u64, 0);
        }
    }
}

// ---------------------------------------------------------------- C08

pub fn c08(ch: &Ch) -> Res {
    if ch.chance(1, 5) {
        c08_t::<SaslFrame>(ch)
    } else {
        c08_t::<AmqpFrame>(ch)
    }
}

fn c08_t<T: FrameT>(ch: &Ch) -> Res {
    let mut g = G::new(ch);
    g.rarely_big(0, 1 << 24);
    g.wire_only = true;
    let e = Enc::varied(ch);
    let mut sent: Vec<FM> = Vec::new();
    let mut extra: Vec<Option<(&'static Kind, V)>> = Vec::new();
    let mut bytes = Vec::new();
    let mut ends = Vec::new();
    for i in 0..1 + ch.below(6) {
        let mut x = None;
        let f = if T::SASL {
            g.sasl_frame()
        } else {
            match ch.below(4) {
                0 => {
                    let k = kinds::pick(ch);
                    let v = (k.gen)(&g);
                    let mut b = Vec::new();
                    (k.write)(&e, &mut b, &v);
                    x = Some((k, v));
                    g.transfer(i as u16, BodyM::Bytes(b))
                }
                1 => g.transfer(i as u16, BodyM::Msg(Box::new(g.msg(1)))),
                _ => g.amqp_frame(),
            }
        };
        let b = e.frame(&f);
        // what the peer wrote is what the peer meant
        match judge(|| frame_body(&b[4..], f.sasl)) {
            Verdict::Valid(ref m) if check_frame(&f, m).is_ok() => (),
            r => panic!("harness: reference peer wrote {} as {:?}", frame_name(&f), r),
        }
        bytes.extend_from_slice(&b);
        ends.push(bytes.len());
        sent.push(f);
        extra.push(x);
    }
    let w = Watch { ends: &ends, valid: ends.len(), limit: ends.len() + 2, meter: None };
    let o = receive::<T>(ch, &bytes, &w)?;
    for (i, x) in o.got.iter().enumerate() {
        match x {
            Got::Frame(f) => {
                expect_frame(&sent, i, f)?;
                if let (BodyM::Bytes(p), Some(s)) = (&f.body, sent.get(i)) {
                    if let BodyM::Msg(m) = &s.body {
                        received_message(ch, m, p)?;
                    }
                    if let Some((k, v)) = &extra[i] {
                        received_value(k, v, p)?;
                    }
                }
            }
            Got::Err(err) => {
                let s = if i == 0 { 0 } else { ends[i.min(ends.len()) - 1] };
                let t = ends[i.min(ends.len() - 1)];
                return viol(
                    "legal-encoding-refused",
                    format!("{}: {}: {}", sent.get(i).map(frame_name).unwrap_or_default(), err, hex(&bytes[s.min(t)..t])),
                );
            }
        }
    }
    ensure!(o.got.len() == sent.len(), "lost-frame", "{} frames written by the peer, {} received", sent.len(), o.got.len());
    ensure!(o.end.is_none(), "unclean-end", "{:?}", o.end);
    ch.add("frames.delivered", sent.len() as u64);
    ch.nontrivial();
    Ok(())
}

fn received_value(k: &Kind, v: &V, p: &[u8]) -> Res {
    match (k.dec)(p) {
        Ok((0, ref g)) if g == v => Ok(()),
        Ok((0, g)) => viol("value-misread", format!("{}: {}: {}", k.name, diff(v, &g), hex(p))),
        Ok((n, _)) => viol("bytes-not-consumed", format!("{}: {} bytes left: {}", k.name, n, hex(p))),
        Err(e) => viol("legal-encoding-refused", format!("{}: {}: {} for {:?}", k.name, e, hex(p), v)),
    }
}

/// A message written by the peer, decoded by the application.
pub fn received_message(ch: &Ch, m: &MsgM, p: &[u8]) -> Res {
    ch.probe("load.message");
    match InMessage::decode(p) {
        Ok((rest, x)) => {
            ensure!(rest.is_empty(), "bytes-not-consumed", "message: {} bytes left: {}", rest.len(), hex(p));
            in_message_is(m, &x)?;
        }
        Err(e) => return viol("legal-encoding-refused", format!("message: {:?}: {}", e, hex(p))),
    }
    match OutMessage::decode(p) {
        Ok((rest, x)) => {
            ensure!(rest.is_empty(), "bytes-not-consumed", "message: {} bytes left: {}", rest.len(), hex(p));
            out_message_is(m, &x)?;
        }
        Err(e) => return viol("legal-encoding-refused", format!("message: {:?}: {}", e, hex(p))),
    }
    Ok(())
}

fn put<T: Encode>(x: &T) -> Vec<u8> {
    let mut b = BytesMut::with_capacity(x.encoded_size() + 1024);
    x.encode(&mut b);
    b.to_vec()
}

fn body_is(m: &MsgM, b: &amqp_codec::MessageBody) -> Res {
    // nested messages and bodyless messages travel as data sections
    let mut data: Vec<&BodyM> = Vec::new();
    let own: Vec<BodyM> = m.data.iter().map(|d| BodyM::Bytes(d.clone())).collect();
    data.extend(own.iter());
    data.extend(m.nested.iter());
    let empty = BodyM::Bytes(Vec::new());
    if data.is_empty() && m.seq.is_empty() && m.value.is_none() {
        data.push(&empty);
    }
    if b.data.len() != data.len() {
        return viol("message-differs", format!("{} data sections expected, got {}", data.len(), b.data.len()));
    }
    for (x, y) in data.iter().zip(&b.data) {
        if let Err(e) = check_body(x, y) {
            return viol("message-differs", format!("data: {}", e));
        }
    }
    ensure!(b.data().map(|x| &x[..]) == b.data.first().map(|x| &x[..]), "message-differs", "data() is not the first data section");
    let seq: Vec<V> = b.sequence.iter().map(|x| x.m()).collect();
    ensure!(seq == m.seq, "message-differs", "sequence: expected {:?} got {:?}", m.seq, seq);
    let v = b.value().map(|x| x.m());
    ensure!(v == m.value, "message-differs", "value: expected {:?} got {:?}", m.value, v);
    ensure!(b.messages.is_empty(), "message-differs", "{} nested messages out of nowhere", b.messages.len());
    Ok(())
}

/// everything an application can ask a decoded message
pub fn in_message_is(m: &MsgM, x: &InMessage) -> Res {
    let h = x.header().map(|x| x.m());
    ensure!(h == m.header, "message-differs", "header: expected {:?} got {:?}", m.header, h);
    let p = x.properties().map(|x| x.m());
    ensure!(p == m.props, "message-differs", "properties: expected {:?} got {:?}", m.props, p);
    if let Some(ap) = &m.ap {
        for (k, v) in ap {
            let g = x.app_property(k).map(|x| x.m());
            ensure!(g.as_ref() == Some(v), "message-differs", "application property {:?}: expected {:?} got {:?}", k, v, g);
        }
    }
    ensure!(x.app_property("no such \u{7f} key").is_none(), "message-differs", "an application property out of nowhere");
    let v = x.value().map(|x| x.m());
    ensure!(v == m.value, "message-differs", "value: expected {:?} got {:?}", m.value, v);
    body_is(m, x.body())?;
    // annotations and footer have no accessors: look at the message as it is sent on
    sent_on(m, &put(x))
}

pub fn out_message_is(m: &MsgM, x: &OutMessage) -> Res {
    let h = x.header().map(|x| x.m());
    ensure!(h == m.header, "message-differs", "header: expected {:?} got {:?}", m.header, h);
    let p = x.properties().map(|x| x.m());
    ensure!(p == m.props, "message-differs", "properties: expected {:?} got {:?}", m.props, p);
    let ap = x.app_properties().map(|kv| V::map(kv.iter().map(|(k, v): &(Str, Variant)| (k.m(), v.m())).collect()));
    let want = m.ap.as_ref().map(|x| V::map(x.iter().map(|(k, v)| (V::Str(k.clone()), v.clone())).collect()));
    ensure!(ap == want, "message-differs", "application properties: expected {:?} got {:?}", want, ap);
    let v = x.value().map(|x| x.m());
    ensure!(v == m.value, "message-differs", "value: expected {:?} got {:?}", m.value, v);
    body_is(m, x.body())?;
    sent_on(m, &put(x))
}

fn sent_on(m: &MsgM, b: &[u8]) -> Res {
    match judge(|| refamqp::message(b)) {
        Verdict::Valid(w) => match check_msg(m, &w) {
            Ok(()) => Ok(()),
            Err(e) => viol("message-differs", format!("sent on: {}", e)),
        },
        r => viol("message-differs", format!("sent on: an independent reader finds {:?}: {}", r, hex(b))),
    }
}
