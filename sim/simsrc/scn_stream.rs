//! Scenarios about the byte stream: C01, C02, C04, C11, C12.

use crate::conn::*;
use crate::drive::*;
use crate::ensure;
use crate::gen::G;
use crate::model::*;
use crate::net::*;
use crate::refamqp::{split, Enc};
use crate::tape::*;
use crate::typed::*;
use amqp_codec::protocol::ProtocolId;
use amqp_codec::{AmqpCodec, AmqpFrame, ProtocolIdCodec, ProtocolIdError, SaslFrame};
use bytes::BytesMut;
use futures::{Async, AsyncSink, Sink, Stream};
use tokio_codec::{Decoder, Encoder, Framed, FramedParts};

/// Frames whose whole length sits at a buffer-management threshold.
fn sized_frame(g: &G, target: usize) -> FM {
    let mut f = g.transfer(1, BodyM::None);
    if let V::Comp(_, ref mut fs) = f.perf {
        fs[2] = V::Null;
        fs[7] = V::Null;
    }
    let have = Enc::canon().frame(&f).len();
    if target > have {
        f.body = BodyM::Bytes(g.bytes_of(target - have));
    }
    f
}

pub fn workload(ch: &Ch, sasl: bool, max: u64) -> Vec<FM> {
    let g = G::new(ch);
    let n = match ch.below(8) {
        0 => 0,
        1 => 1,
        _ => 1 + ch.below(max),
    };
    let mut v = Vec::new();
    for _ in 0..n {
        if !sasl && ch.chance(1, 12) {
            let t = ch.pick(&[4096u64, 8192, 8188, 16_384, 32_768, 65_536]) + ch.below(24) - 12;
            v.push(sized_frame(&g, t as usize));
            continue;
        }
        if !v.is_empty() && ch.chance(1, 10) {
            // the same again, or nearly
            let mut f: FM = v[ch.idx(v.len())].clone();
            match ch.below(4) {
                0 if !sasl => f.ch = f.ch.wrapping_add(1),
                1 => f.perf = g.frame(sasl).perf,
                _ => (),
            }
            if !matches!(f.perf, V::Comp(0x14, _)) {
                f.body = BodyM::None;
            }
            ch.probe("load.frame_again");
            for _ in 0..1 + ch.below(3) {
                v.push(f.clone());
            }
            continue;
        }
        v.push(g.frame(sasl));
    }
    v
}

/// rarely, a peer that has saved up hundreds of small frames
fn crowd(ch: &Ch, fs: &mut Vec<FM>) {
    let small: Vec<FM> = fs.iter().filter(|f| Enc::canon().frame(f).len() < 300).cloned().collect();
    if small.is_empty() || !ch.chance(1, 300) {
        return;
    }
    let n = ch.pick(&[70u64, 140, 300, 700, 1500]) + ch.below(30);
    let at = ch.idx(fs.len() + 1);
    let more: Vec<FM> = (0..n).map(|_| small[ch.idx(small.len())].clone()).collect();
    fs.splice(at..at, more);
    ch.probe("load.hundreds_of_small_frames");
}

/// A size past every threshold an implementation might have in mind: a megabyte, and sometimes the
/// 16 MiB that three bytes of length can count.
pub fn huge(ch: &Ch) -> usize {
    if ch.chance(1, 30) {
        ch.probe("load.frame_over_16_megabytes");
        ch.range(16_700_000, 18_500_000) as usize
    } else {
        ch.range(1_000_000, 5_000_000) as usize
    }
}

pub fn est<T: FrameT>(fs: &[FM]) -> usize {
    fs.iter().map(|f| T::build(f).encoded_size() + 8).sum()
}

pub fn c01(ch: &Ch) -> Res {
    if ch.chance(1, 5) {
        c01_t::<SaslFrame>(ch)
    } else {
        c01_t::<AmqpFrame>(ch)
    }
}

fn c01_t<T: FrameT>(ch: &Ch) -> Res {
    let (a, b) = match ch.below(60) {
        59 if !T::SASL => {
            // very large frames
            let g = G::new(ch);
            let mut v = vec![g.amqp_frame()];
            let n = huge(ch);
            v.push(g.transfer(3, BodyM::Bytes(g.bytes_of(n))));
            v.push(g.amqp_frame());
            if ch.coin() {
                v.push(sized_frame(&g, ch.range(900_000, 1_100_000) as usize));
            }
            ch.probe("load.multi_megabyte_frame");
            (v, workload(ch, T::SASL, 4))
        }
        58 if !T::SASL => {
            // thousands of small frames on one connection
            let g = G::small(ch);
            let mut n = ch.range(800, 3000);
            let mut kinds: Vec<FM> = (0..6).map(|_| g.amqp_frame()).collect();
            if ch.chance(1, 150) {
                // more than two bytes count
                n = ch.range(65_530, 67_000);
                let perf = kinds.iter().map(|f| f.perf.clone()).min_by_key(|p| Enc::canon().frame(&FM { sasl: false, ch: 0, perf: p.clone(), body: BodyM::None }).len()).unwrap_or(V::Null);
                kinds = (0..6).map(|i| FM { sasl: false, ch: 0, perf: if i % 2 == 0 { V::Null } else { perf.clone() }, body: BodyM::None }).collect();
                ch.probe("load.66k_frames");
            }
            let v = (0..n)
                .map(|i| {
                    let mut f = kinds[(i % 6) as usize].clone();
                    f.ch = i as u16;
                    f
                })
                .collect();
            ch.probe("load.thousands_of_frames");
            (v, workload(ch, T::SASL, 6))
        }
        _ => (workload(ch, T::SASL, 10), workload(ch, T::SASL, 10)),
    };
    let total = est::<T>(&a) + est::<T>(&b);
    let sent = [a.clone(), b.clone()];
    let steps = 30 + ch.below(60 + 6 * (a.len() + b.len()) as u64);
    let mut c = Conn::<T>::new(ch, a, b, total);
    let check = |i: usize, n: usize, f: &FM| expect_frame(&sent[1 - i], n, f);
    for _ in 0..steps {
        c.step(check)?;
    }
    c.drain(check)?;
    for i in 0..2 {
        ensure!(
            c.s[i].next == sent[i].len(),
            "stuck-sender",
            "side {} could hand over only {} of {} frames",
            i,
            c.s[i].next,
            sent[i].len()
        );
        ensure!(
            c.s[1 - i].got.len() == sent[i].len(),
            "lost-frame",
            "{} frames sent, all {} bytes arrived, but only {} were delivered",
            sent[i].len(),
            c.pipe[i].arrived(),
            c.s[1 - i].got.len()
        );
    }
    c.pipe[0].close(End::Fin);
    c.pipe[1].close(End::Fin);
    c.drain(check)?;
    for i in 0..2 {
        ensure!(c.s[i].end == Some(None), "unclean-end", "side {} saw {:?} at the end of a complete stream", i, c.s[i].end);
    }
    c.unchanged()?;
    c.finish();
    Ok(())
}

// ---------------------------------------------------------------- C02

pub fn c02(ch: &Ch) -> Res {
    if ch.chance(1, 5) {
        c02_t::<SaslFrame>(ch)
    } else {
        c02_t::<AmqpFrame>(ch)
    }
}

fn encode_all<T: FrameT>(fs: &[FM]) -> Result<(Vec<u8>, Vec<usize>), Viol> {
    let mut codec = AmqpCodec::<T>::new();
    let mut out = BytesMut::new();
    let mut ends = Vec::new();
    for f in fs {
        if let Err(e) = codec.encode(T::build(f), &mut out) {
            return viol("encode-error", format!("{}: {:?}", frame_name(f), e));
        }
        ends.push(out.len());
    }
    Ok((out.to_vec(), ends))
}

/// an offset at which to break the stream, biased to frame edges and length prefixes
fn cut_offset(ch: &Ch, total: usize, ends: &[usize]) -> usize {
    if total == 0 {
        return 0;
    }
    let o = match ch.below(4) {
        0 => ch.idx(total + 1) as i64,
        1 => {
            let e = if ch.chance(1, 4) || ends.is_empty() { 0 } else { ends[ch.idx(ends.len())] };
            e as i64
        }
        2 => {
            let e = if ch.chance(1, 4) || ends.is_empty() { 0 } else { ends[ch.idx(ends.len())] };
            e as i64 + ch.range(0, 12) as i64
        }
        _ => {
            let e = if ends.is_empty() { 0 } else { ends[ch.idx(ends.len())] };
            e as i64 - ch.range(1, 4) as i64
        }
    };
    o.max(0).min(total as i64) as usize
}

fn c02_t<T: FrameT>(ch: &Ch) -> Res {
    let mut a = workload(ch, T::SASL, 8);
    crowd(ch, &mut a);
    let b = if ch.coin() { Vec::new() } else { workload(ch, T::SASL, 5) };
    let sent = [a, b];
    let mut done = [0usize, 0usize];
    let mut delivered: [Vec<FM>; 2] = [Vec::new(), Vec::new()];
    let cuts = 1 + ch.below(4);
    for round in 0..=cuts {
        let last = round == cuts;
        let rest = [sent[0][done[0]..].to_vec(), sent[1][done[1]..].to_vec()];
        let enc = [encode_all::<T>(&rest[0])?, encode_all::<T>(&rest[1])?];
        let total = enc[0].0.len() + enc[1].0.len();
        let mut c = Conn::<T>::new(ch, rest[0].clone(), rest[1].clone(), total);
        if !last {
            for i in 0..2 {
                if i == 0 || ch.coin() {
                    let o = cut_offset(ch, enc[i].0.len(), &enc[i].1);
                    let e = if ch.chance(1, 4) { End::Rst } else { End::Fin };
                    c.pipe[i].cut_at(o, e);
                    if o == 0 {
                        c.pipe[i].close(e);
                    }
                    ch.probe(if e == End::Rst { "fault.reset" } else { "fault.cut" });
                    ch.nontrivial();
                    ch.log(|| format!("connection {}: direction {} breaks after {} of {} bytes ({:?})", round, i, o, enc[i].0.len(), e));
                }
            }
        }
        let base = done;
        let check = |i: usize, n: usize, f: &FM| expect_frame(&sent[1 - i][base[1 - i]..], n, f);
        let steps = 20 + ch.below(40 + 6 * (rest[0].len() + rest[1].len()) as u64);
        for _ in 0..steps {
            c.step(check)?;
        }
        // an unbroken direction ends once everything sent has been received
        c.drain(check)?;
        let fin: Vec<bool> = (0..2).map(|i| c.pipe[i].is_cut()).collect();
        c.pipe[0].close(End::Fin);
        c.pipe[1].close(End::Fin);
        c.drain(check)?;
        for i in 0..2 {
            let tap = c.pipe[i].tap();
            let arrived = c.pipe[i].arrived();
            let (whole, left) = split(&tap[..arrived]);
            let r = &c.s[1 - i];
            ensure!(
                r.got.len() == whole.len(),
                "incomplete-delivery",
                "{} bytes arrived holding {} complete frames, but {} were delivered",
                arrived,
                whole.len(),
                r.got.len()
            );
            match &r.end {
                None => return viol("no-end", format!("the stream ended after {} bytes and the receiver was never told", arrived)),
                Some(None) => {
                    ensure!(
                        left.is_empty(),
                        "false-clean-end",
                        "the stream ended {} bytes into a frame and the receiver reports a clean end",
                        left.len()
                    );
                    if fin[i] {
                        ch.probe("state.cut_on_frame_boundary");
                    }
                }
                Some(Some(e)) => {
                    let reset = e.contains("Reset");
                    ensure!(
                        !left.is_empty() || reset,
                        "false-bad-end",
                        "the stream ended between frames and the receiver reports {}",
                        e
                    );
                    if left.len() < 8 {
                        ch.probe("state.cut_inside_frame_header");
                    } else {
                        ch.probe("state.cut_inside_frame_content");
                    }
                }
            }
            done[i] += r.got.len();
            delivered[i].extend(r.seen.iter().cloned());
        }
        c.unchanged()?;
        c.finish();
    }
    for i in 0..2 {
        ensure!(
            delivered[i].len() == sent[i].len(),
            "not-exactly-once",
            "{} frames sent over {} connections, {} delivered",
            sent[i].len(),
            cuts + 1,
            delivered[i].len()
        );
        for n in 0..sent[i].len() {
            expect_frame(&sent[i], n, &delivered[i][n])?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

pub fn c04(ch: &Ch) -> Res {
    if ch.chance(1, 5) {
        c04_t::<SaslFrame>(ch)
    } else {
        c04_t::<AmqpFrame>(ch)
    }
}

pub fn ends_of(b: &[u8]) -> Vec<usize> {
    let mut v = Vec::new();
    let mut o = 0;
    for f in split(b).0 {
        o += f.len();
        v.push(o);
    }
    v
}

fn c04_t<T: FrameT>(ch: &Ch) -> Res {
    // a stream written by either implementation, possibly damaged, possibly cut
    let mut fs = workload(ch, T::SASL, 8);
    if !T::SASL && ch.chance(1, 1500) {
        let g = G::small(ch);
        let n = huge(ch);
        let at = ch.idx(fs.len() + 1);
        fs.insert(at, g.transfer(3, BodyM::Bytes(g.bytes_of(n))));
        ch.probe("load.multi_megabyte_frame");
    }
    crowd(ch, &mut fs);
    let mut b = if ch.coin() {
        encode_all::<T>(&fs)?.0
    } else {
        let e = Enc::varied(ch);
        let mut v = Vec::new();
        for f in &fs {
            v.extend_from_slice(&e.frame(f));
        }
        v
    };
    let clean = ends_of(&b);
    let mut valid = clean.len();
    let dmg = ch.below(4);
    if dmg >= 2 && !b.is_empty() {
        let at = crate::scn_hostile::damage(ch, &mut b, &clean);
        valid = clean.iter().take_while(|&&e| e <= at).count();
        ch.nontrivial();
    }
    if dmg == 1 && !b.is_empty() {
        let o = cut_offset(ch, b.len(), &clean);
        b.truncate(o);
        valid = clean.iter().take_while(|&&e| e <= o).count();
    }
    let ends = ends_of(&b);
    let w = Watch { ends: &ends, valid, limit: ends.len() + 6, meter: None };
    let r1 = receive::<T>(ch, &b, &w)?;
    let runs = 1 + ch.below(3);
    for _ in 0..runs {
        let r2 = receive::<T>(ch, &b, &w)?;
        same(&r1, &r2)?;
    }
    Ok(())
}

fn same<T: FrameT>(a: &Outcome<T>, b: &Outcome<T>) -> Res {
    for (i, (x, y)) in a.got.iter().zip(&b.got).enumerate() {
        ensure!(
            x == y,
            "chunking-dependent",
            "item #{} differs between two deliveries of the same bytes: {:?} / {:?}",
            i,
            x,
            y
        );
    }
    ensure!(
        a.got.len() == b.got.len(),
        "chunking-dependent",
        "{} items in one delivery, {} in another of the same bytes; ends {:?} / {:?}",
        a.got.len(),
        b.got.len(),
        a.end,
        b.end
    );
    ensure!(
        a.stopped == b.stopped && (a.stopped || a.end.is_some() == b.end.is_some()),
        "chunking-dependent",
        "ends differ: {:?} / {:?}",
        a.end,
        b.end
    );
    for (x, y) in a.frames.iter().zip(&b.frames) {
        // what the application sees compares equal too, unless it holds a NaN-like value
        if x != y {
            if let Err(e) = check_frame(&x.model(), &y.model()) {
                return viol("chunking-dependent", e);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

pub fn pid(x: u8) -> ProtocolId {
    match x {
        0 => ProtocolId::Amqp,
        2 => ProtocolId::AmqpTls,
        _ => ProtocolId::AmqpSasl,
    }
}
fn pid_code(p: ProtocolId) -> u8 {
    match p {
        ProtocolId::Amqp => 0,
        ProtocolId::AmqpTls => 2,
        ProtocolId::AmqpSasl => 3,
    }
}

#[derive(Clone, PartialEq, Debug)]
enum H {
    Id(u8),
    Bad(&'static str),
}
fn judge(h: &[u8]) -> H {
    if &h[..4] != b"AMQP" {
        return H::Bad("InvalidHeader");
    }
    if h[5..8] != [1, 0, 0] {
        return H::Bad("Incompatible");
    }
    match h[4] {
        0 | 2 | 3 => H::Id(h[4]),
        _ => H::Bad("Unknown"),
    }
}
fn perr(e: &ProtocolIdError) -> &'static str {
    let _ = format!("{} {:?}", e, e);
    match e {
        ProtocolIdError::InvalidHeader => "InvalidHeader",
        ProtocolIdError::Incompatible => "Incompatible",
        ProtocolIdError::Unknown => "Unknown",
        ProtocolIdError::Unexpected { .. } => "Unexpected",
        ProtocolIdError::Disconnected => "Disconnected",
        ProtocolIdError::Io(_) => "Io",
    }
}

pub fn rand_header(ch: &Ch) -> [u8; 8] {
    let mut h = *b"AMQP\0\x01\0\0";
    h[4] = ch.pick(&[0u8, 2, 3]);
    match ch.below(5) {
        0 | 1 => (),
        2 => {
            // one to three damaged bytes
            for _ in 0..1 + ch.below(3) {
                let i = ch.idx(8);
                h[i] = match ch.below(4) {
                    0 => ch.below(256) as u8,
                    1 => h[i] ^ (1 << ch.below(8)),
                    2 => ch.pick(&[0u8, 1, 2, 3, 4, 255]),
                    _ => h[i].wrapping_add(1),
                };
            }
        }
        3 => h[4] = ch.below(256) as u8,
        _ => {
            for x in h.iter_mut() {
                *x = ch.below(256) as u8;
            }
        }
    }
    h
}

pub fn c11(ch: &Ch) -> Res {
    // what is sent
    let n = 1 + ch.below(4) as usize;
    let mut bytes: Vec<u8> = Vec::new();
    let mut expect: Vec<H> = Vec::new();
    for _ in 0..n {
        let h = rand_header(ch);
        bytes.extend_from_slice(&h);
        expect.push(judge(&h));
        match expect.last().unwrap() {
            H::Id(_) => ch.probe("state.header_valid"),
            H::Bad("InvalidHeader") => ch.probe("state.header_bad_prefix"),
            H::Bad("Incompatible") => ch.probe("state.header_bad_version"),
            _ => ch.probe("state.header_unknown_id"),
        }
    }
    let extra = ch.below(12) as usize % 8;
    for i in 0..extra {
        bytes.push((i * 31) as u8);
    }
    if ch.coin() {
        ch.probe("fault.header_chunked");
        c11_raw(ch, &bytes, &expect, extra)?;
    } else {
        c11_framed(ch, &bytes, &expect, extra)?;
    }
    c11_encode(ch)
}

fn c11_raw(ch: &Ch, bytes: &[u8], expect: &[H], extra: usize) -> Res {
    let mut rx = BytesMut::with_capacity(ch.idx(64));
    let mut codec = ProtocolIdCodec::default();
    let cuts = pieces(ch, bytes.len(), &[8, 16, 24]);
    if !cuts.is_empty() {
        ch.nontrivial();
    }
    let mut prev = 0;
    let mut got = 0;
    for c in cuts.iter().cloned().chain(std::iter::once(bytes.len())) {
        rx.extend_from_slice(&bytes[prev..c]);
        prev = c;
        ch.ev(30, c as u64, 0);
        if ch.chance(1, 3) {
            reshape(ch, &mut rx);
        }
        loop {
            let before = rx.len();
            let complete = before >= 8;
            let r = codec.decode(&mut rx);
            let item = match r {
                Ok(None) => {
                    ensure!(!complete, "header-held-back", "8 header bytes have arrived and nothing was yielded");
                    ensure!(rx.len() == before, "header-consumed-early", "{} of 8 bytes arrived and some were consumed", before);
                    break;
                }
                Ok(Some(p)) => H::Id(pid_code(p)),
                Err(ref e) => H::Bad(perr(e)),
            };
            ensure!(complete, "header-early", "{:?} after only {} bytes", item, before);
            ensure!(rx.len() == before - 8, "header-consumption", "{} bytes consumed for one header", before - rx.len());
            ensure!(rx[..] == bytes[(got + 1) * 8..prev], "buffer-changed", "bytes after the header changed");
            ensure!(
                got < expect.len() && item == expect[got],
                "header-verdict",
                "header {} is {:?}, expected {:?}",
                hex(&bytes[got * 8..got * 8 + 8]),
                item,
                expect.get(got)
            );
            got += 1;
            // the driver stops after the last whole header so that stray bytes stay for the next layer
        }
    }
    ensure!(got == expect.len(), "header-missing", "{} of {} headers yielded", got, expect.len());
    ensure!(rx.len() == extra, "header-consumption", "{} bytes left, {} expected", rx.len(), extra);
    let e = codec.decode_eof(&mut rx);
    match (extra, e) {
        (0, Ok(None)) => Ok(()),
        (0, r) => viol("header-eof", format!("clean end reported as {:?}", r)),
        (_, Err(_)) => Ok(()),
        (n, r) => viol("header-eof", format!("end after {} bytes of a header reported as {:?}", n, r)),
    }
}

fn c11_framed(ch: &Ch, bytes: &[u8], expect: &[H], extra: usize) -> Res {
    let clock = Clock::new();
    let rd = Pipe::new(ch);
    let cuts = pieces(ch, bytes.len(), &[8, 16, 24]);
    rd.inject(ch, &clock, bytes, &cuts);
    rd.close(End::Fin);
    let io = SimIo { rd: rd.clone(), wr: Pipe::new(ch), ch: ch.clone(), clock: clock.clone(), k: Knobs::draw(ch) };
    let mut f = Framed::new(io, ProtocolIdCodec::default());
    let mut got = 0;
    for _ in 0..5000 {
        match f.poll() {
            Ok(Async::NotReady) => {
                if rd.unread() == 0 {
                    if let Some(t) = rd.next_arrival() {
                        clock.advance(t);
                        rd.deliver(t);
                        ch.ev(31, t, 0);
                    }
                }
            }
            Ok(Async::Ready(None)) => {
                ensure!(extra == 0, "header-eof", "the stream ended {} bytes into a header and a clean end is reported", extra);
                ensure!(got == expect.len(), "header-missing", "{} of {} headers yielded", got, expect.len());
                ch.add_sim_ns(clock.now());
                return Ok(());
            }
            r => {
                let item = match r {
                    Ok(Async::Ready(Some(p))) => H::Id(pid_code(p)),
                    Err(ProtocolIdError::Io(ref e)) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                    Err(ref e) => H::Bad(perr(e)),
                    _ => continue,
                };
                if item == H::Bad("Io") {
                    ensure!(extra > 0, "header-eof", "a clean end is reported as an I/O error");
                    ensure!(got == expect.len(), "header-missing", "{} of {} headers yielded", got, expect.len());
                    return Ok(());
                }
                ensure!(
                    got < expect.len() && item == expect[got],
                    "header-verdict",
                    "header #{} of {} is {:?}, expected {:?}",
                    got,
                    hex(bytes),
                    item,
                    expect.get(got)
                );
                got += 1;
            }
        }
    }
    viol("livelock", "header exchange never ends".into())
}

fn c11_encode(ch: &Ch) -> Res {
    let mut b = BytesMut::new();
    let pre = ch.idx(24);
    for i in 0..pre {
        b.extend_from_slice(&[i as u8]);
    }
    reshape(ch, &mut b);
    let mut want = b.to_vec();
    for _ in 0..1 + ch.below(3) {
        if ch.chance(1, 3) {
            let n = ch.idx(b.len() + 1);
            let _ = b.split_to(n);
            want.drain(..n);
        }
        let id = ch.pick(&[0u8, 2, 3]);
        if let Err(e) = ProtocolIdCodec::default().encode(pid(id), &mut b) {
            return viol("header-encode", format!("{:?}", e));
        }
        want.extend_from_slice(b"AMQP");
        want.extend_from_slice(&[id, 1, 0, 0]);
        ensure!(b[..] == want[..], "header-encode", "buffer holds {} expected {}", hex(&b), hex(&want));
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

/// One side of a negotiation. Layers: header, SASL, header, AMQP (or header, AMQP).
pub enum Layer {
    Hdr(Framed<SimIo, ProtocolIdCodec>),
    Sasl(Framed<SimIo, AmqpCodec<SaslFrame>>),
    Amqp(Framed<SimIo, AmqpCodec<AmqpFrame>>),
    Moving,
}

/// change the codec of a connection the way applications do
pub fn handover<A, B: Default>(ch: &Ch, f: Framed<SimIo, A>) -> Framed<SimIo, B> {
    let old = f.into_parts();
    let mut new = FramedParts::new(old.io, B::default());
    new.read_buf = old.read_buf;
    new.write_buf = old.write_buf;
    if ch.chance(1, 3) {
        reshape(ch, &mut new.read_buf);
    }
    Framed::from_parts(new)
}

#[derive(Clone, Debug)]
enum Tx {
    Hdr(u8),
    F(FM),
}

struct Peer {
    layer: Layer,
    /// which stage of the conversation the reading side is in
    stage: usize,
    /// what this side sends, in order, and how many items of the peer it waits for first
    script: Vec<Item>,
    sent: usize,
    /// items received so far
    recv: usize,
    expect: Vec<Item>,
}

#[derive(Clone, Debug)]
struct Item {
    tx: Tx,
    stage: usize,
    after: usize,
}

fn kind(t: &Tx) -> u8 {
    match t {
        Tx::Hdr(_) => 0,
        Tx::F(f) if f.sasl => 1,
        _ => 2,
    }
}

impl Peer {
    fn layer_kind(&self) -> u8 {
        match self.layer {
            Layer::Hdr(_) => 0,
            Layer::Sasl(_) => 1,
            Layer::Amqp(_) => 2,
            Layer::Moving => 9,
        }
    }
    fn switch(&mut self, ch: &Ch, to: u8) {
        let l = std::mem::replace(&mut self.layer, Layer::Moving);
        ch.ev(40, u64::from(to), self.recv as u64);
        self.layer = match (l, to) {
            (Layer::Hdr(f), 1) => Layer::Sasl(handover(ch, f)),
            (Layer::Hdr(f), 2) => Layer::Amqp(handover(ch, f)),
            (Layer::Sasl(f), 0) => Layer::Hdr(handover(ch, f)),
            (l, _) => l,
        };
    }
    fn read_buf_len(&mut self, ch: &Ch) -> usize {
        // look through into_parts, as a hand-over would
        let l = std::mem::replace(&mut self.layer, Layer::Moving);
        fn look<A>(f: Framed<SimIo, A>) -> (usize, FramedParts<SimIo, A>) {
            let p = f.into_parts();
            (p.read_buf.len(), p)
        }
        let _ = ch;
        match l {
            Layer::Hdr(f) => {
                let (n, p) = look(f);
                self.layer = Layer::Hdr(Framed::from_parts(p));
                n
            }
            Layer::Sasl(f) => {
                let (n, p) = look(f);
                self.layer = Layer::Sasl(Framed::from_parts(p));
                n
            }
            Layer::Amqp(f) => {
                let (n, p) = look(f);
                self.layer = Layer::Amqp(Framed::from_parts(p));
                n
            }
            Layer::Moving => 0,
        }
    }

    /// The next stage begins when everything of this one has been sent and received.
    fn align(&mut self, ch: &Ch) -> bool {
        let next = match self.expect.get(self.recv) {
            Some(x) => x.clone(),
            None => return false,
        };
        if next.stage <= self.stage || self.script.get(self.sent).map_or(false, |x| x.stage <= self.stage) {
            return false;
        }
        if kind(&next.tx) != self.layer_kind() {
            self.switch(ch, kind(&next.tx));
        }
        self.stage = next.stage;
        true
    }
    fn read(&mut self, ch: &Ch) -> Result<bool, Viol> {
        let want = match self.expect.get(self.recv) {
            Some(w) if w.stage == self.stage => w.tx.clone(),
            _ => return Ok(false),
        };
        macro_rules! fail {
            ($e:expr) => {
                return viol("layer-rejected", format!("item #{} ({:?}) was answered with {:?}", self.recv, want, $e))
            };
        }
        let ok = match self.layer {
            Layer::Hdr(ref mut f) => match f.poll() {
                Ok(Async::Ready(Some(p))) => {
                    let p = pid_code(p);
                    match want {
                        Tx::Hdr(x) => ensure!(x == p, "wrong-protocol", "protocol {} arrived as {}", x, p),
                        ref w => return viol("layer-theft", format!("a header was read where {:?} was sent", w)),
                    }
                    true
                }
                Ok(Async::NotReady) => false,
                Ok(Async::Ready(None)) => fail!("end"),
                Err(ProtocolIdError::Io(ref e)) if e.kind() == std::io::ErrorKind::Interrupted => false,
                Err(e) => fail!(e),
            },
            Layer::Sasl(ref mut f) => match f.poll() {
                Ok(Async::Ready(Some(x))) => {
                    let m = x.model();
                    match want {
                        Tx::F(ref e) if e.sasl => {
                            if let Err(s) = check_frame(e, &m) {
                                return viol("wrong-sasl-frame", s);
                            }
                        }
                        ref w => return viol("layer-theft", format!("a SASL frame was read where {:?} was sent", w)),
                    }
                    true
                }
                Ok(Async::NotReady) => false,
                Ok(Async::Ready(None)) => fail!("end"),
                Err(amqp_codec::AmqpCodecError::Io(Some(ref e))) if e.kind() == std::io::ErrorKind::Interrupted => false,
                Err(e) => fail!(e),
            },
            Layer::Amqp(ref mut f) => match f.poll() {
                Ok(Async::Ready(Some(x))) => {
                    let m = x.model();
                    match want {
                        Tx::F(ref e) if !e.sasl => {
                            if let Err(s) = check_frame(e, &m) {
                                return viol("wrong-frame", s);
                            }
                        }
                        ref w => return viol("layer-theft", format!("an AMQP frame was read where {:?} was sent", w)),
                    }
                    true
                }
                Ok(Async::NotReady) => false,
                Ok(Async::Ready(None)) => fail!("end"),
                Err(amqp_codec::AmqpCodecError::Io(Some(ref e))) if e.kind() == std::io::ErrorKind::Interrupted => false,
                Err(e) => fail!(e),
            },
            Layer::Moving => false,
        };
        if ok {
            ch.log(|| format!("received item #{} {:?}", self.recv, want));
            self.recv += 1;
        }
        Ok(ok)
    }
    fn send(&mut self, ch: &Ch) -> Result<bool, Viol> {
        let it = match self.script.get(self.sent) {
            Some(x) => x.clone(),
            None => return Ok(false),
        };
        let tx = it.tx;
        if self.recv < it.after || it.stage != self.stage {
            return Ok(false);
        }
        let ok = match (&mut self.layer, &tx) {
            (Layer::Hdr(f), Tx::Hdr(x)) => match f.start_send(pid(*x)) {
                Ok(AsyncSink::Ready) => true,
                Ok(_) => false,
                Err(ProtocolIdError::Io(_)) => false,
                Err(e) => return viol("encode-error", format!("{:?}", e)),
            },
            (Layer::Sasl(f), Tx::F(x)) => match f.start_send(SaslFrame::build(x)) {
                Ok(AsyncSink::Ready) => true,
                Ok(_) => false,
                Err(amqp_codec::AmqpCodecError::Io(_)) => false,
                Err(e) => return viol("encode-error", format!("{:?}", e)),
            },
            (Layer::Amqp(f), Tx::F(x)) => match f.start_send(AmqpFrame::build(x)) {
                Ok(AsyncSink::Ready) => true,
                Ok(_) => false,
                Err(amqp_codec::AmqpCodecError::Io(_)) => false,
                Err(e) => return viol("encode-error", format!("{:?}", e)),
            },
            _ => false,
        };
        if ok {
            ch.ev(41, self.sent as u64, 0);
            ch.log(|| format!("sent item #{} {:?}", self.sent, tx));
            self.sent += 1;
        }
        Ok(ok)
    }
    fn flush(&mut self) -> bool {
        match self.layer {
            Layer::Hdr(ref mut f) => f.poll_complete().ok().map_or(false, |x| x.is_ready()),
            Layer::Sasl(ref mut f) => f.poll_complete().ok().map_or(false, |x| x.is_ready()),
            Layer::Amqp(ref mut f) => f.poll_complete().ok().map_or(false, |x| x.is_ready()),
            Layer::Moving => true,
        }
    }
    fn calm(&mut self) {
        match self.layer {
            Layer::Hdr(ref mut f) => f.get_mut().k = Knobs::calm(),
            Layer::Sasl(ref mut f) => f.get_mut().k = Knobs::calm(),
            Layer::Amqp(ref mut f) => f.get_mut().k = Knobs::calm(),
            Layer::Moving => (),
        }
    }
}

/// a name or password as people have them: any text without NUL, with spaces where they may be
fn credential(ch: &Ch, g: &G) -> String {
    let s = match ch.below(6) {
        0 => String::new(),
        1 => ch.pick(&["user", "guest", "PLAIN", "p\u{e4}ss", "user@host", "a b"]).to_string(),
        _ => g.string(),
    };
    let mut s = s.replace('\0', "0");
    if ch.chance(1, 3) {
        let w = ch.pick(&[" ", "\t", "\n", "\u{a0}", "\r\n", ":", "@", "%20"]);
        match ch.below(3) {
            0 => s.insert_str(0, w),
            1 => s.push_str(w),
            _ => {
                s.insert_str(0, w);
                s.push_str(w);
            }
        }
    }
    s
}

pub fn c12(ch: &Ch) -> Res {
    let mut g = G::small(ch);
    g.rarely_big(0, 1 << 18);
    let with_sasl = !ch.chance(1, 5);
    let tls_first = ch.chance(1, 6);
    // the conversation, as (side, item) in causal order
    let mut conv: Vec<(usize, Tx)> = Vec::new();
    if tls_first {
        // a client asking for TLS first and being answered with what the server wants instead
        conv.push((0, Tx::Hdr(2)));
        conv.push((1, Tx::Hdr(2)));
    }
    if with_sasl {
        conv.push((0, Tx::Hdr(3)));
        conv.push((1, Tx::Hdr(3)));
        let s = |code: u8| Tx::F(FM { sasl: true, ch: 0, perf: g.comp(code), body: BodyM::None });
        conv.push((1, s(0x40)));
        conv.push((0, s(0x41)));
        let rounds = if ch.chance(1, 12) { 3 + ch.below(12) } else { ch.below(3) };
        for _ in 0..rounds {
            conv.push((1, s(0x42)));
            conv.push((0, s(0x43)));
        }
        conv.push((1, s(0x44)));
        if ch.coin() {
            // credentials exactly as an application prepares them
            let authn = credential(ch, &g);
            let authz = match ch.below(3) {
                0 => String::new(),
                1 => authn.clone(),
                _ => credential(ch, &g),
            };
            let pass = credential(ch, &g);
            let r = amqp_codec::protocol::SaslInit::prepare_response(&authz, &authn, &pass);
            let mut want = authz.into_bytes();
            want.push(0);
            want.extend_from_slice(authn.as_bytes());
            want.push(0);
            want.extend_from_slice(pass.as_bytes());
            ensure!(r[..] == want[..], "credentials", "prepared response is {}, expected {}", hex(&r), hex(&want));
            for x in conv.iter_mut() {
                if let (_, Tx::F(FM { perf: V::Comp(0x41, fs), .. })) = x {
                    fs[1] = V::Bin(want.clone());
                }
            }
        }
    }
    conv.push((0, Tx::Hdr(0)));
    conv.push((1, Tx::Hdr(0)));
    for _ in 0..if ch.chance(1, 20) { ch.below(40) } else { ch.below(6) } {
        conv.push((ch.idx(2), Tx::F(g.amqp_frame())));
    }
    // pipelining: a side that does not wait sends as soon as its own previous items are out
    let pipeline = [ch.coin(), ch.coin()];
    let mut script: [Vec<Item>; 2] = [Vec::new(), Vec::new()];
    let mut count = [0usize, 0usize];
    let mut stage = 0;
    let mut last = 0;
    for (i, (s, t)) in conv.iter().enumerate() {
        let k = kind(t);
        if k != last || (i == 2 && tls_first) {
            stage += 1;
            last = k;
        }
        let after = if pipeline[*s] { 0 } else { count[1 - *s] };
        script[*s].push(Item { tx: t.clone(), stage, after });
        count[*s] += 1;
    }
    if pipeline[0] || pipeline[1] {
        ch.probe("sched.pipelined_layers");
        ch.nontrivial();
    }
    c12_run(ch, script)
}

/// A side that pipelines may have to write a later layer while its reader is still in an earlier one:
/// it then queues the bytes with the later layer's encoder, as an application does.
fn c12_run(ch: &Ch, script: [Vec<Item>; 2]) -> Res {
    let clock = Clock::new();
    let p = [Pipe::new(ch), Pipe::new(ch)];
    p[0].widen(60_000);
    p[1].widen(60_000);
    let [e1, e0] = script.clone();
    let mk = |i: usize, script: Vec<Item>, expect: Vec<Item>| -> Peer {
        let mut k = Knobs::draw(ch);
        k.widen(60_000);
        let io = SimIo { rd: p[1 - i].clone(), wr: p[i].clone(), ch: ch.clone(), clock: clock.clone(), k };
        Peer { layer: Layer::Hdr(Framed::new(io, ProtocolIdCodec::default())), stage: 0, script, sent: 0, recv: 0, expect }
    };
    let [s0, s1] = script;
    let mut peers = [mk(0, s0, e0), mk(1, s1, e1)];
    let chaos = 60 + ch.below(200);
    let mut idle = 0;
    let mut steps = 0u64;
    loop {
        steps += 1;
        ensure!(steps < 100_000, "livelock", "negotiation does not come to rest");
        let calm = steps > chaos;
        if steps == chaos {
            for q in peers.iter_mut() {
                q.calm();
            }
        }
        let acts: Vec<usize> = if calm { (0..7).collect() } else { vec![ch.idx(7)] };
        let mut any = false;
        for a in acts {
            match a {
                0 => {
                    let t = match (p[0].next_arrival(), p[1].next_arrival()) {
                        (Some(a), Some(b)) => Some(a.min(b)),
                        (a, b) => a.or(b),
                    };
                    if let Some(t) = t {
                        clock.advance(t);
                        p[0].deliver(t);
                        p[1].deliver(t);
                        any = true;
                    }
                }
                1 | 2 => {
                    let q = &mut peers[a - 1];
                    any |= q.send(ch)?;
                    // pipelined items of a later layer go out through that layer's own encoder
                    any |= push_ahead(ch, q)?;
                }
                3 | 4 => {
                    let w = p[a - 3].written();
                    peers[a - 3].flush();
                    any |= p[a - 3].written() > w;
                }
                _ => {
                    let q = &mut peers[a - 5];
                    any |= q.align(ch);
                    let u = p[1 - (a - 5)].unread();
                    any |= q.read(ch)?;
                    any |= p[1 - (a - 5)].unread() != u;
                }
            }
        }
        if calm {
            if any {
                idle = 0;
            } else {
                idle += 1;
                if idle > 2 {
                    break;
                }
            }
        }
    }
    for (i, q) in peers.iter_mut().enumerate() {
        ensure!(q.sent == q.script.len(), "negotiation-stuck", "side {} sent {} of {} items", i, q.sent, q.script.len());
        ensure!(
            q.recv == q.expect.len(),
            "negotiation-stuck",
            "side {} received {} of {} items; next is {:?}, layer {}",
            i,
            q.recv,
            q.expect.len(),
            q.expect.get(q.recv),
            q.layer_kind()
        );
        let n = q.read_buf_len(ch);
        ensure!(n == 0, "stray-bytes", "side {} has {} bytes left over after the whole conversation", i, n);
    }
    ch.add_sim_ns(clock.now());
    Ok(())
}

fn push_ahead(ch: &Ch, q: &mut Peer) -> Result<bool, Viol> {
    let it = match q.script.get(q.sent) {
        Some(x) => x.clone(),
        None => return Ok(false),
    };
    if q.recv < it.after || it.stage <= q.stage {
        return Ok(false);
    }
    let tx = it.tx;
    let l = std::mem::replace(&mut q.layer, Layer::Moving);
    fn put<A>(f: Framed<SimIo, A>, tx: &Tx) -> (Framed<SimIo, A>, Result<(), String>) {
        let mut p = f.into_parts();
        let r = match tx {
            Tx::Hdr(x) => ProtocolIdCodec::default().encode(pid(*x), &mut p.write_buf).map_err(|e| format!("{:?}", e)),
            Tx::F(x) if x.sasl => AmqpCodec::<SaslFrame>::new().encode(SaslFrame::build(x), &mut p.write_buf).map_err(|e| format!("{:?}", e)),
            Tx::F(x) => AmqpCodec::<AmqpFrame>::new().encode(AmqpFrame::build(x), &mut p.write_buf).map_err(|e| format!("{:?}", e)),
        };
        (Framed::from_parts(p), r)
    }
    let r = match l {
        Layer::Hdr(f) => {
            let (f, r) = put(f, &tx);
            q.layer = Layer::Hdr(f);
            r
        }
        Layer::Sasl(f) => {
            let (f, r) = put(f, &tx);
            q.layer = Layer::Sasl(f);
            r
        }
        Layer::Amqp(f) => {
            let (f, r) = put(f, &tx);
            q.layer = Layer::Amqp(f);
            r
        }
        Layer::Moving => Ok(()),
    };
    if let Err(e) = r {
        return viol("encode-error", e);
    }
    ch.ev(42, q.sent as u64, 0);
    q.sent += 1;
    Ok(true)
}

