//! Hostile and damaged streams: C03, C05, C13, C14.

use crate::drive::*;
use crate::ensure;
use crate::gen::G;
use crate::kinds;
use crate::model::*;
use crate::net::log_size;
use crate::refamqp::{self, judge, Enc, Verdict};
use crate::scn_stream::{ends_of, workload};
use crate::spec::{self, FT};
use crate::tape::*;
use crate::typed::*;
use amqp_codec::protocol::{self, Frame, TransferBody};
use amqp_codec::types::Variant;
use amqp_codec::{AmqpFrame, Decode, Encode, InMessage, OutMessage, ProtocolIdCodec, SaslFrame};
use bytes::BytesMut;
use tokio_codec::Decoder;

// ---------------------------------------------------------------- where things are in a frame

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mk {
    Code,
    S8,
    S32,
    C8,
    C32,
    L8,
    L32,
    Data(usize),
    Doff,
    Type,
    Chan,
    FrameLen,
}

/// Walk one value, noting the offset of every format code, size, count and payload.
fn walk(b: &[u8], at: usize, depth: u32, out: &mut Vec<(usize, Mk)>) -> Option<usize> {
    if at >= b.len() || depth > 40 || out.len() > 3000 {
        return None;
    }
    let c = b[at];
    out.push((at, Mk::Code));
    let p = at + 1;
    let be32 = |o: usize| -> Option<usize> { b.get(o..o + 4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]]) as usize) };
    let end = match c >> 4 {
        0 => {
            let q = walk(b, p, depth + 1, out)?;
            return walk(b, q, depth + 1, out);
        }
        4 => p,
        5 => p + 1,
        6 => p + 2,
        7 => p + 4,
        8 => p + 8,
        9 => p + 16,
        0xa => {
            out.push((p, Mk::L8));
            p + 1 + *b.get(p)? as usize
        }
        0xb => {
            out.push((p, Mk::L32));
            p + 4 + be32(p)?
        }
        0xc => {
            out.push((p, Mk::S8));
            out.push((p + 1, Mk::C8));
            let e = p + 1 + *b.get(p)? as usize;
            let mut q = p + 2;
            while q < e.min(b.len()) {
                q = walk(b, q, depth + 1, out)?;
            }
            e
        }
        0xd => {
            out.push((p, Mk::S32));
            out.push((p + 4, Mk::C32));
            let e = p + 4 + be32(p)?;
            let mut q = p + 8;
            while q < e.min(b.len()) {
                q = walk(b, q, depth + 1, out)?;
            }
            e
        }
        0xe => {
            out.push((p, Mk::S8));
            out.push((p + 1, Mk::C8));
            out.push((p + 2, Mk::Code));
            out.push((p + 3, Mk::L8));
            p + 1 + *b.get(p)? as usize
        }
        0xf => {
            out.push((p, Mk::S32));
            out.push((p + 4, Mk::C32));
            out.push((p + 8, Mk::Code));
            out.push((p + 9, Mk::L32));
            p + 4 + be32(p)?
        }
        _ => return None,
    };
    if end > p && c >> 4 >= 5 && c >> 4 <= 0xb {
        out.push((p, Mk::Data(end - p)));
    }
    Some(end)
}

fn marks(f: &[u8]) -> Vec<(usize, Mk)> {
    let mut out = vec![(0, Mk::FrameLen), (4, Mk::Doff), (5, Mk::Type), (6, Mk::Chan)];
    let mut at = (f.get(4).cloned().unwrap_or(2) as usize * 4).max(8);
    while at < f.len() {
        match walk(f, at, 0, &mut out) {
            Some(e) if e > at => at = e,
            _ => break,
        }
    }
    out.retain(|x| x.0 < f.len());
    out
}

const CODES: &[u8] = &[
    0x00, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73, 0x74, 0x80, 0x81, 0x82,
    0x83, 0x84, 0x94, 0x98, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0xc0, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0, 0x01, 0xff, 0x3f, 0x46,
];

fn set32(b: &mut [u8], at: usize, x: u32) {
    for (i, v) in x.to_be_bytes().iter().enumerate() {
        if let Some(p) = b.get_mut(at + i) {
            *p = *v;
        }
    }
}
fn get32(b: &[u8], at: usize) -> u32 {
    let mut a = [0u8; 4];
    for (i, x) in a.iter_mut().enumerate() {
        *x = b.get(at + i).cloned().unwrap_or(0);
    }
    u32::from_be_bytes(a)
}

fn lie8(ch: &Ch, x: u8) -> u8 {
    match ch.below(6) {
        0 => x.wrapping_sub(1),
        1 => x.wrapping_add(1),
        2 => ch.pick(&[0u8, 1, 2, 255, 254, 127, 128]),
        3 => x.wrapping_add(ch.below(16) as u8),
        4 => x.wrapping_sub(ch.below(16) as u8),
        _ => ch.below(256) as u8,
    }
}
fn lie32(ch: &Ch, x: u32) -> u32 {
    match ch.below(7) {
        0 => x.wrapping_sub(1),
        1 => x.wrapping_add(1),
        2 => ch.pick(&[0u32, 1, 2, 3, 4, 5, 7, 8, 0xffff_ffff, 0xffff_fffe, 0xffff_fffb, 0x7fff_ffff, 0x8000_0000, 0x0100_0000, 65536]),
        3 => x.wrapping_add(ch.below(64) as u32),
        4 => x.wrapping_sub(ch.below(64) as u32),
        5 => 1u32 << ch.below(32),
        _ => ch.u64() as u32,
    }
}

/// Damage one structural position of a frame, in place. `inside`: leave the frame's length alone.
fn tweak(ch: &Ch, f: &mut Vec<u8>, inside: bool) -> &'static str {
    let ms: Vec<(usize, Mk)> = marks(f).into_iter().filter(|m| !inside || m.1 != Mk::FrameLen).collect();
    if ms.is_empty() {
        return "nothing";
    }
    // codes and payloads are the most numerous: first choose a class
    let class = ch.below(5);
    let pick: Vec<(usize, Mk)> = ms
        .iter()
        .cloned()
        .filter(|m| match class {
            0 => m.1 == Mk::Code,
            1 => matches!(m.1, Mk::S8 | Mk::S32),
            2 => matches!(m.1, Mk::C8 | Mk::C32),
            3 => matches!(m.1, Mk::L8 | Mk::L32 | Mk::Doff | Mk::Type | Mk::Chan | Mk::FrameLen),
            _ => matches!(m.1, Mk::Data(_)),
        })
        .collect();
    let ms = if pick.is_empty() { ms } else { pick };
    let (at, k) = ms[ch.idx(ms.len())];
    match k {
        Mk::Code => {
            f[at] = match ch.below(3) {
                0 => f[at] ^ (1 << ch.below(8)),
                _ => ch.pick(CODES),
            };
            "format_code"
        }
        Mk::S8 => {
            f[at] = lie8(ch, f[at]);
            "size8"
        }
        Mk::C8 => {
            f[at] = lie8(ch, f[at]);
            "count8"
        }
        Mk::L8 => {
            f[at] = lie8(ch, f[at]);
            "length8"
        }
        Mk::S32 => {
            let x = lie32(ch, get32(f, at));
            set32(f, at, x);
            "size32"
        }
        Mk::C32 => {
            let x = lie32(ch, get32(f, at));
            set32(f, at, x);
            "count32"
        }
        Mk::L32 => {
            let x = lie32(ch, get32(f, at));
            set32(f, at, x);
            "length32"
        }
        Mk::Data(n) if n <= 16 && at + n <= f.len() && ch.coin() => {
            extreme(ch, &mut f[at..at + n]);
            "extreme"
        }
        Mk::Data(n) => {
            let i = at + ch.idx(n);
            if let Some(p) = f.get_mut(i) {
                *p = match ch.below(3) {
                    0 => *p ^ (1 << ch.below(8)),
                    1 => ch.pick(&[0u8, 0xff, 0x80, 0xc0, 0xed, 0xf8]),
                    _ => ch.below(256) as u8,
                };
            }
            "payload"
        }
        Mk::Doff => {
            f[at] = ch.pick(&[0u8, 1, 2, 3, 4, 255, 128, 64]);
            "doff"
        }
        Mk::Type => {
            f[at] = ch.pick(&[0u8, 1, 2, 255]);
            "type"
        }
        Mk::Chan => {
            f[at] = ch.below(256) as u8;
            "channel"
        }
        Mk::FrameLen => {
            let x = lie32(ch, get32(f, at));
            set32(f, at, x);
            "frame_length"
        }
    }
}

/// A value at the edge of what its bytes can hold, or of what its type allows.
fn extreme(ch: &Ch, b: &mut [u8]) {
    let n = b.len();
    let fill = |b: &mut [u8], x: i64| {
        let x = i128::from(x).to_be_bytes();
        b.copy_from_slice(&x[16 - n..]);
    };
    match ch.below(8) {
        0 => fill(b, 0),
        1 => fill(b, -1 - ch.below(3) as i64),
        2 => {
            // the least, or the greatest, or nearly
            fill(b, 0);
            b[0] = 0x80;
            if ch.coin() {
                for i in 0..n {
                    b[i] = !b[i];
                }
            }
            if ch.coin() {
                b[n - 1] ^= 1 << ch.below(8);
            }
        }
        3 => fill(b, 0xd800 + ch.range(0, 0x800) as i64 - 1),
        4 => fill(b, 0x11_0000 - 2 + ch.below(4) as i64),
        // years that a calendar may not hold
        5 => fill(b, ch.pick(&[8_210_298_412_799_999i64, -8_334_632_851_200_000, 253_402_300_800_000, -62_135_596_800_001, i64::MAX / 1000, i64::MIN / 1000]) + ch.below(3) as i64 - 1),
        6 => fill(b, (1i64 << ch.below(63)) - ch.below(2) as i64),
        _ => fill(b, -(1i64 << ch.below(63)) - ch.below(2) as i64),
    }
}

/// Damage a byte stream of frames. Returns the offset of the first byte that differs.
pub fn damage(ch: &Ch, b: &mut Vec<u8>, ends: &[usize]) -> usize {
    let old = b.clone();
    let n = b.len();
    if n == 0 {
        return 0;
    }
    let at = ch.idx(n);
    match ch.below(9) {
        0 => {
            b[at] ^= 1 << ch.below(8);
            ch.probe("fault.bit_flip");
        }
        1 => {
            for i in at..(at + 1 + ch.idx(8)).min(n) {
                b[i] = ch.below(256) as u8;
            }
            ch.probe("fault.overwrite");
        }
        2 => {
            let k = log_size(ch, 64).min(n - at);
            b.drain(at..at + k);
            ch.probe("fault.lost_bytes");
        }
        3 => {
            let k = log_size(ch, 64);
            let x: Vec<u8> = (0..k).map(|_| ch.below(256) as u8).collect();
            let t = b.split_off(at);
            b.extend_from_slice(&x);
            b.extend_from_slice(&t);
            ch.probe("fault.inserted_bytes");
        }
        4 => {
            let k = log_size(ch, 64).min(n - at);
            let x = b[at..at + k].to_vec();
            let t = b.split_off(at);
            b.extend_from_slice(&x);
            b.extend_from_slice(&t);
            ch.probe("fault.duplicated_bytes");
        }
        5 | 6 if !ends.is_empty() => {
            let i = ch.idx(ends.len());
            // earlier damage may have moved or removed the frame
            let s = (if i == 0 { 0 } else { ends[i - 1] }).min(n - 1);
            let e = ends[i].min(n).max(s + 1);
            let mut f = b[s..e].to_vec();
            for _ in 0..1 + ch.below(3) {
                tweak(ch, &mut f, ch.coin());
            }
            b.splice(s..e, f);
            ch.probe("fault.structural_damage");
        }
        7 if !ends.is_empty() => {
            let i = ch.idx(ends.len());
            let s = (if i == 0 { 0 } else { ends[i - 1] }).min(n.saturating_sub(4));
            if n >= 4 {
                let x = lie32(ch, get32(b, s));
                set32(b, s, x);
            }
            ch.probe("fault.frame_length_damaged");
        }
        _ => {
            b.truncate(at);
            let k = log_size(ch, 64);
            for _ in 0..k {
                b.push(ch.below(256) as u8);
            }
            ch.probe("fault.garbage_tail");
        }
    }
    old.iter().zip(b.iter()).take_while(|(x, y)| x == y).count()
}

/// Damage the content of one frame and make its length prefix right again.
pub fn damage_inside(ch: &Ch, f: &mut Vec<u8>) -> &'static str {
    let n = f.len();
    let k = match ch.below(9) {
        0 | 1 | 2 | 3 => tweak(ch, f, true),
        4 => {
            let at = 4 + ch.idx(n - 4);
            f[at] ^= 1 << ch.below(8);
            "bit"
        }
        5 => {
            let at = 4 + ch.idx(n - 4);
            let k = log_size(ch, 16).min(n - at);
            f.drain(at..at + k);
            "cut"
        }
        6 => {
            let at = 4 + ch.idx(n - 3);
            let k = log_size(ch, 16);
            let x: Vec<u8> = (0..k).map(|_| if ch.coin() { ch.pick(CODES) } else { ch.below(256) as u8 }).collect();
            let t = f.split_off(at.min(n));
            f.extend_from_slice(&x);
            f.extend_from_slice(&t);
            "insert"
        }
        7 => {
            // two stretches change places
            let a = 4 + ch.idx(n - 4);
            let b = 4 + ch.idx(n - 4);
            let (a, b) = (a.min(b), a.max(b));
            let k = (b - a).min(n - b).min(log_size(ch, 8));
            for i in 0..k {
                f.swap(a + i, b + i);
            }
            "swap"
        }
        _ => {
            for _ in 0..1 + ch.below(4) {
                tweak(ch, f, true);
            }
            "several"
        }
    };
    while f.len() < 8 {
        f.push(0);
    }
    let n = f.len() as u32;
    set32(f, 0, n);
    k
}

// ---------------------------------------------------------------- hostile frames

/// wrap a frame body (from doff on) with a correct length
fn framed(mut body: Vec<u8>) -> Vec<u8> {
    while body.len() < 4 {
        body.push(0);
    }
    let mut v = ((body.len() + 4) as u32).to_be_bytes().to_vec();
    v.extend_from_slice(&body);
    v
}

/// A value that declares far more than it holds, or nests far deeper than anything real.
fn bomb(ch: &Ch, out: &mut Vec<u8>) {
    let big = |ch: &Ch| -> u32 {
        match ch.below(4) {
            0 => u32::max_value() - ch.below(8) as u32,
            1 => 0x7fff_ffff,
            2 => 1 << ch.range(8, 31),
            _ => ch.range(100, 100_000) as u32,
        }
    };
    match ch.below(9) {
        8 => cake(ch, out, big(ch)),
        7 => run_of(ch, out),
        0 => {
            // count bomb
            out.push(ch.pick(&[0xd0u8, 0xd1, 0xf0]));
            let size = if ch.coin() { big(ch) } else { ch.range(4, 60) as u32 };
            out.extend_from_slice(&size.to_be_bytes());
            out.extend_from_slice(&big(ch).to_be_bytes());
            for _ in 0..ch.below(40) {
                out.push(ch.pick(CODES));
            }
        }
        1 => {
            out.push(ch.pick(&[0xc0u8, 0xc1, 0xe0]));
            out.push(ch.below(256) as u8);
            out.push(ch.pick(&[255u8, 254, 128, 16]));
            for _ in 0..ch.below(40) {
                out.push(ch.pick(CODES));
            }
        }
        2 => {
            out.push(ch.pick(&[0xb0u8, 0xb1, 0xb3]));
            out.extend_from_slice(&big(ch).to_be_bytes());
            for _ in 0..ch.below(20) {
                out.push(b'x');
            }
        }
        3 | 4 => {
            // deep nesting
            let n = log_size(ch, 60_000);
            ch.probe(if n > 1000 { "fault.nesting_over_1000" } else { "fault.nesting" });
            let kind = ch.below(5);
            let mut tail: Vec<u8> = Vec::new();
            match kind {
                0 => {
                    // described by described
                    for _ in 0..n {
                        out.extend_from_slice(&[0x00, 0x53, 0x01]);
                    }
                    out.push(0x40);
                }
                1 => {
                    // lists whose sizes are all right
                    let n = n.min(12_000);
                    for i in 0..n {
                        out.push(0xd0);
                        out.extend_from_slice(&(((n - i - 1) * 9 + 5) as u32).to_be_bytes());
                        out.extend_from_slice(&1u32.to_be_bytes());
                    }
                    out.push(0x40);
                }
                2 => {
                    // lists that claim everything
                    let c = big(ch);
                    for _ in 0..n.min(12_000) {
                        out.push(0xd0);
                        out.extend_from_slice(&u32::max_value().to_be_bytes());
                        out.extend_from_slice(&c.to_be_bytes());
                    }
                }
                3 => {
                    // a map inside the key of a map inside the key ...
                    let n = n.min(6000);
                    for i in 0..n {
                        out.push(0xd1);
                        out.extend_from_slice(&(((n - i - 1) * 10 + 6) as u32).to_be_bytes());
                        out.extend_from_slice(&2u32.to_be_bytes());
                        tail.push(0x40);
                    }
                    out.push(0x40);
                    out.push(0x40);
                }
                _ => {
                    // maps in values
                    let n = n.min(6000);
                    for i in 0..n {
                        out.push(0xd1);
                        out.extend_from_slice(&(((n - i - 1) * 10 + 6) as u32).to_be_bytes());
                        out.extend_from_slice(&2u32.to_be_bytes());
                        out.push(0x40);
                    }
                    out.push(0x40);
                }
            }
            out.extend_from_slice(&tail);
        }
        5 => {
            // many small containers
            let n = log_size(ch, 3000);
            let item: &[u8] = ch.pick(&[
                &[0xc0u8, 1, 0][..],
                &[0xc1, 3, 2, 0x40, 0x40],
                &[0xc1, 1, 0],
                &[0x45],
                &[0x40],
                &[0xc0, 2, 1, 0x40],
                &[0, 0x53, 0, 0x40],
                &[0xa0, 0],
                &[0xa3, 1, b'a'],
            ]);
            out.push(0xd0);
            out.extend_from_slice(&((n * item.len() + 4) as u32).to_be_bytes());
            out.extend_from_slice(&(n as u32).to_be_bytes());
            for _ in 0..n {
                out.extend_from_slice(item);
            }
        }
        _ => {
            // many distinct keys
            let n = log_size(ch, 2000);
            out.push(0xd1);
            out.extend_from_slice(&((n * 4 + 4) as u32).to_be_bytes());
            out.extend_from_slice(&(2 * n as u32).to_be_bytes());
            for i in 0..n {
                out.extend_from_slice(&[0x60, (i >> 8) as u8, i as u8, 0x40]);
            }
        }
    }
}

/// Containers within containers, each with items of its own first and a count that may be a lie;
/// every size is right.
fn cake(ch: &Ch, out: &mut Vec<u8>, big: u32) {
    let depth = ch.range(1, 135) as usize;
    let own = ch.pick(&[0usize, 1, 4, 31, 32, 33, 34, 65, 140]);
    let lie = ch.below(4);
    let filler = log_size(ch, 60_000);
    ch.probe("fault.layers");
    let map = ch.below(3);
    // written from the inside out, backwards
    let mut back: Vec<u8> = vec![0x40; filler];
    if ch.coin() {
        back.push(ch.pick(CODES));
    }
    let mut first = true;
    for k in 0..depth {
        let m = !first && (map == 1 || map == 2 && k % 2 == 0);
        let mut count = if first { back.len() as u32 } else { 1 };
        first = false;
        if m {
            // key of the entry that holds the layer below
            back.push(0x40);
            count += 1;
            for i in 0..own {
                back.extend_from_slice(&[0x40, i as u8, 0x50]);
                count += 2;
            }
        } else {
            for _ in 0..own {
                back.push(0x40);
                count += 1;
            }
        }
        if lie == 0 || lie == 1 && ch.coin() {
            count = big;
        }
        let size = back.len() as u32 + 4;
        back.extend(count.to_be_bytes().iter().rev());
        back.extend(size.to_be_bytes().iter().rev());
        back.push(if m { 0xd1 } else { 0xd0 });
    }
    out.extend(back.iter().rev());
}

/// One byte, or a few, over and over. Short mostly; sometimes longer than any stack is deep.
fn run_of(ch: &Ch, out: &mut Vec<u8>) {
    let n = if ch.chance(1, 40) {
        ch.range(65_536, if ch.chance(1, 8) { 9_000_000 } else { 1_000_000 }) as usize
    } else {
        log_size(ch, 60_000)
    };
    ch.probe(if n > 65_535 { "fault.run_over_64k" } else { "fault.run" });
    let mut two = [0, 0];
    let pat: &[u8] = match ch.below(4) {
        0 => &[0],
        1 => {
            two[0] = ch.pick(CODES);
            &two[..1]
        }
        2 => {
            two = [ch.pick(CODES), ch.pick(CODES)];
            &two
        }
        _ => ch.pick(&[
            &[0u8, 0x53][..],
            &[0, 0x80],
            &[0xc0, 0xff],
            &[0xc1, 0xff],
            &[0xc0, 0xff, 0x01],
            &[0xc1, 0xff, 0x02],
            &[0xe0, 0xff, 0x01],
            &[0xd0, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 1],
            &[0xf0, 0, 0xff, 0xff, 0xff, 0, 0, 0, 1],
            &[0, 0xa3, 0],
            &[0, 0x00, 0x53, 0x24],
            &[0, 0x53, 0x24, 0xc0, 0xff, 0x01],
            &[0, 0x53, 0x77],
            &[0, 0x53, 0x75, 0xa0, 0],
            &[0, 0x53, 0x73, 0x45],
        ]),
    };
    out.reserve(n);
    let end = out.len() + n;
    while out.len() < end {
        out.extend_from_slice(pat);
    }
    if ch.coin() {
        out.push(ch.pick(CODES));
    }
}

/// A message whose sections hold bombs
fn bomb_message(ch: &Ch) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..1 + ch.below(2) {
        v.extend_from_slice(&[0, 0x53, ch.pick(&[0x77u8, 0x76, 0x71, 0x72, 0x74, 0x78, 0x75, 0x70, 0x73])]);
        if ch.coin() {
            bomb(ch, &mut v);
        } else {
            // as the value of a map
            let mut x = vec![0xa3, 1, b'k'];
            if ch.coin() {
                x[0] = 0xa1;
            }
            bomb(ch, &mut x);
            v.push(0xd1);
            v.extend_from_slice(&((x.len() + 4) as u32).to_be_bytes());
            v.extend_from_slice(&2u32.to_be_bytes());
            v.extend_from_slice(&x);
        }
    }
    v
}

/// A frame with a bomb in one of its fields
pub fn bomb_frame(ch: &Ch, g: &G, sasl: bool) -> Vec<u8> {
    if !sasl && ch.chance(1, 4) {
        let m = bomb_message(ch);
        return Enc::canon().frame(&g.transfer(1, BodyM::Bytes(m)));
    }
    let mut f = g.frame(sasl);
    let mut b = Vec::new();
    bomb(ch, &mut b);
    if let V::Comp(code, ref mut fs) = f.perf {
        let sp = spec::comp(code);
        // fields of map or array type reach furthest
        let want: Vec<usize> = (0..fs.len())
            .filter(|&i| matches!(sp.fields[i].ty, FT::Fields | FT::Map | FT::Filter | FT::Symbols | FT::Comp(_) | FT::State))
            .collect();
        if !fs.is_empty() {
            let i = if want.is_empty() || ch.chance(1, 8) { ch.idx(fs.len()) } else { want[ch.idx(want.len())] };
            let inner = match (sp.fields[i].ty, ch.below(4)) {
                (FT::Fields, 0..=2) | (FT::Map, 0..=2) => {
                    // a well-formed map around the bomb
                    let mut x = vec![0xa3, 1, b'k'];
                    x.extend_from_slice(&b);
                    let mut m = vec![0xd1];
                    m.extend_from_slice(&((x.len() + 4) as u32).to_be_bytes());
                    m.extend_from_slice(&2u32.to_be_bytes());
                    m.extend_from_slice(&x);
                    m
                }
                _ => b,
            };
            fs[i] = V::Raw(inner);
        }
    }
    let mut out = Enc::canon().frame(&f);
    if ch.chance(1, 6) {
        let x = lie32(ch, get32(&out, 0));
        set32(&mut out, 0, x);
    }
    out
}

/// Bytes that look like AMQP to a careless reader
fn soup(ch: &Ch, n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| match ch.below(4) {
            0 => ch.pick(CODES),
            1 => ch.below(12) as u8,
            2 => ch.pick(&[0x53u8, 0x10, 0x14, 0x28, 0x00, 0xff]),
            _ => ch.below(256) as u8,
        })
        .collect()
}

// ---------------------------------------------------------------- C03

fn try_message(ch: &Ch, b: &[u8]) -> Res {
    if let Ok((_, m)) = InMessage::decode(b) {
        ch.probe("state.hostile_message_accepted");
        use_it(&m)?;
        let _ = m.app_property("k").is_some();
        let _ = (m.header().is_some(), m.properties().is_some(), m.body().data().is_some(), m.value().is_some());
        let r = m.reply_message();
        use_it(&r)?;
        let m2 = m.set_app_property("zz", 5u32);
        use_it(&m2)?;
    }
    if let Ok((_, m)) = OutMessage::decode(b) {
        use_it(&m)?;
        let m2 = OutMessage::with_messages(vec![TransferBody::MessageOut(m)]);
        use_it(&m2)?;
    }
    if let Ok((_, v)) = Variant::decode(b) {
        use_it(&v)?;
    }
    fn told<T: std::fmt::Debug>(r: Result<(&[u8], T), amqp_codec::AmqpParseError>) {
        match r {
            Ok((_, x)) => drop(format!("{:?}", x)),
            // printing an error is part of reporting it
            Err(e) => drop(format!("{} {:?}", e.clone(), amqp_codec::AmqpCodecError::from(e))),
        }
    }
    told(protocol::Section::decode(b));
    told(protocol::Frame::decode(b));
    told(AmqpFrame::decode(b));
    told(protocol::MessageId::decode(b));
    for _ in 0..ch.below(4) {
        let k = kinds::pick(ch);
        let i = if ch.chance(1, 3) { ch.idx(b.len() + 1) } else { 0 };
        if !weightless(&b[i..]) && (k.accepts)(&b[i..]) {
            ch.probe("state.hostile_value_accepted");
        }
    }
    Ok(())
}

/// what an application does with anything it has been given
fn use_it<T: Clone + PartialEq + std::fmt::Debug + Encode>(x: &T) -> Res {
    let y = x.clone();
    let _ = *x == y;
    let s = format!("{:?}", x);
    let n = x.encoded_size();
    let mut o = BytesMut::with_capacity(n + 64);
    x.encode(&mut o);
    let _ = s.len();
    Ok(())
}

pub fn c03(ch: &Ch) -> Res {
    match ch.below(10) {
        0 | 1 => c03_t::<SaslFrame>(ch),
        2 => {
            // protocol headers
            let n = log_size(ch, 64);
            let b = soup(ch, n);
            let mut rx = BytesMut::new();
            let mut prev = 0;
            for c in pieces(ch, b.len(), &[]).into_iter().chain(std::iter::once(b.len())) {
                rx.extend_from_slice(&b[prev..c]);
                prev = c;
                for _ in 0..20 {
                    match ProtocolIdCodec::default().decode(&mut rx) {
                        Ok(None) => break,
                        r => {
                            let _ = format!("{:?}", r);
                        }
                    }
                }
            }
            ch.ev(50, b.len() as u64, hash_bytes(&b));
            try_message(ch, &b)
        }
        3 if ch.coin() => {
            // values of every kind, cut short or changed in a byte, as any of the kinds
            let mut g = G::small(ch);
            g.wire_only = true;
            let e = Enc::varied(ch);
            for _ in 0..1 + ch.below(12) {
                let k = kinds::pick(ch);
                let mut p = Vec::new();
                (k.write)(&e, &mut p, &(k.gen)(&g));
                if ch.coin() {
                    p.truncate(ch.idx(p.len() + 1));
                }
                if ch.coin() && !p.is_empty() {
                    let i = ch.idx(p.len().min(12));
                    p[i] = ch.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xfe, 0xff, p[i] ^ 1, p[i].wrapping_add(1), p[i].wrapping_sub(1)]);
                }
                let k = if ch.chance(1, 4) { kinds::pick(ch) } else { k };
                ch.ev(58, p.len() as u64, hash_bytes(&p));
                if p.len() < 20_000 && !weightless(&p) {
                    ch.probe("fault.damaged_value");
                    if (k.accepts)(&p) {
                        ch.probe("state.hostile_value_accepted");
                    }
                }
            }
            Ok(())
        }
        _ => c03_t::<AmqpFrame>(ch),
    }
}

fn c03_t<T: FrameT>(ch: &Ch) -> Res {
    let mut g = G::new(ch);
    // no check keeps a peer from putting any text into a symbol
    g.any_sym = ch.coin();
    let mut b: Vec<u8> = Vec::new();
    // frames before the damage, which must come through
    let good = workload(ch, T::SASL, 4);
    let e = Enc::varied(ch);
    for f in &good {
        b.extend_from_slice(&e.frame(f));
    }
    let clean = ends_of(&b);
    let mut first_bad = b.len();
    match ch.below(7) {
        6 => {
            for _ in 0..1 + ch.below(4) {
                let (f, name) = malformed(ch, &g, T::SASL);
                ch.log(|| format!("malformed: {}", name));
                b.extend_from_slice(&f);
            }
            ch.probe("fault.malformed");
        }
        0 => {
            for _ in 0..1 + ch.below(4) {
                let f = bomb_frame(ch, &g, T::SASL);
                b.extend_from_slice(&f);
            }
            ch.probe("fault.bomb");
        }
        1 => {
            let n = log_size(ch, 300);
            let mut x = soup(ch, n);
            if ch.chance(1, 3) {
                // the body of a frame
                x = vec![2, T::SASL as u8, 0, 0];
                if ch.coin() {
                    x.extend_from_slice(&[0, 0x53, ch.pick(if T::SASL { spec::SASL_PERFS } else { spec::AMQP_PERFS })]);
                }
                run_of(ch, &mut x);
            }
            let x = if ch.coin() { framed(x) } else { x };
            b.extend_from_slice(&x);
            ch.probe("fault.garbage");
        }
        2 => {
            // plausible header, garbage fields
            for _ in 0..1 + ch.below(5) {
                let mut x = vec![ch.pick(&[2u8, 2, 2, 3, 0, 255]), T::SASL as u8, 0, 0];
                let d = ch.pick(if T::SASL { spec::SASL_PERFS } else { spec::AMQP_PERFS });
                x.extend_from_slice(&[0, 0x53, d, ch.pick(&[0xc0u8, 0xd0, 0x45, 0xc1])]);
                let n = log_size(ch, 200);
                let y = soup(ch, n);
                x.extend_from_slice(&y);
                b.extend_from_slice(&framed(x));
            }
            ch.probe("fault.garbage_fields");
        }
        _ => {
            // the tail: more frames, damaged
            let n = b.len();
            for _ in 0..1 + ch.below(4) {
                let f = e.frame(&g.frame(T::SASL));
                b.extend_from_slice(&f);
            }
            let mut t = b.split_off(n);
            let te = ends_of(&t);
            let mut at = t.len();
            for _ in 0..1 + ch.below(5) {
                at = at.min(damage(ch, &mut t, &te));
            }
            first_bad = n + at;
            b.extend_from_slice(&t);
        }
    }
    if let Some(n) = long_life(ch) {
        // the peer keeps at it
        let mut k: Vec<Vec<u8>> = Vec::new();
        for _ in 0..1 + ch.below(5) {
            k.push(match ch.below(3) {
                0 => bomb_frame(ch, &g, T::SASL),
                1 => malformed(ch, &g, T::SASL).0,
                _ => {
                    let mut f = e.frame(&g.frame(T::SASL));
                    damage_inside(ch, &mut f);
                    f
                }
            });
        }
        let size: usize = k.iter().map(|x| x.len()).sum::<usize>() / k.len() + 1;
        for _ in 0..n.min(2_000_000 / size + 1) {
            let x = ch.pick(&k);
            b.extend_from_slice(&x);
        }
    }
    ch.nontrivial();
    let ends = ends_of(&b);
    let valid = clean.iter().take_while(|&&e| e <= first_bad).count();
    let w = Watch { ends: &ends, valid, limit: ends.len() + 8, meter: None };
    let o = receive::<T>(ch, &b, &w)?;
    for i in 0..valid {
        match o.got.get(i) {
            Some(Got::Frame(f)) => {
                if let Err(s) = check_frame(&good[i], f) {
                    return viol("good-frame-lost", format!("frame #{} before the damage: {}", i, s));
                }
            }
            x => return viol("good-frame-lost", format!("frame #{} was complete before the damage, got {:?}", i, x)),
        }
    }
    for t in &o.frames {
        use_it(t)?;
        drop(t.shown());
        let f = t.model();
        if let BodyM::Bytes(p) = &f.body {
            if !p.is_empty() {
                let mut p = p.clone();
                if ch.coin() {
                    let k = ch.idx(p.len());
                    p[k] ^= 1 << ch.below(8);
                }
                try_message(ch, &p)?;
            }
        }
    }
    ch.add("frames.hostile_accepted", o.frames.len().saturating_sub(valid) as u64);
    Ok(())
}

// ---------------------------------------------------------------- C05

/// the composite nodes of a value, as paths of field indices
fn nodes(v: &V, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if let V::Comp(_, fs) = v {
        out.push(path.clone());
        for (i, x) in fs.iter().enumerate() {
            path.push(i);
            nodes(x, path, out);
            path.pop();
        }
    }
}
fn node_mut<'a>(v: &'a mut V, path: &[usize]) -> (u8, &'a mut Vec<V>) {
    match v {
        V::Comp(c, fs) => {
            if path.is_empty() {
                (*c, fs)
            } else {
                node_mut(&mut fs[path[0]], &path[1..])
            }
        }
        _ => panic!("harness: path"),
    }
}

/// The descriptor of a composite, missed narrowly.
fn near_descriptor(ch: &Ch, code: u8) -> Vec<u8> {
    let mut v = vec![0u8];
    let wide = |v: &mut Vec<u8>, x: u64| {
        v.push(0x80);
        v.extend_from_slice(&x.to_be_bytes());
    };
    match ch.below(8) {
        0 | 1 => wide(&mut v, u64::from(code) | 1 << ch.range(8, 63)),
        2 => wide(&mut v, u64::from(code) | ch.u64() << 8),
        3 => wide(&mut v, u64::from(code ^ 1 << ch.below(8))),
        4 => v.extend_from_slice(&[0x53, ch.pick(&[code ^ 1 << ch.below(8), code.wrapping_add(1), code.wrapping_sub(1)])]),
        5 => match ch.below(6) {
            0 => v.extend_from_slice(&[ch.pick(&[0x50u8, 0x51, 0x52, 0x54, 0x55, 0x56]), code]),
            1 => v.extend_from_slice(&[ch.pick(&[0x60u8, 0x61]), 0, code]),
            2 => v.extend_from_slice(&[ch.pick(&[0x70u8, 0x71, 0x73]), 0, 0, 0, code]),
            3 => v.extend_from_slice(&[ch.pick(&[0x81u8, 0x83]), 0, 0, 0, 0, 0, 0, 0, code]),
            _ => v.push(ch.pick(&[0x40u8, 0x41, 0x42, 0x43, 0x44, 0x45])),
        },
        _ => {
            let mut s = spec::sym_of_code(code).unwrap_or("amqp:open:list").as_bytes().to_vec();
            let i = ch.idx(s.len());
            match ch.below(6) {
                0 => s[i] ^= 1 << ch.below(7),
                1 => {
                    s.remove(i);
                }
                2 => s.insert(i, ch.pick(b"a:lx ")),
                3 => s.truncate(i),
                4 => {
                    let t = ch.pick(&[" ", ":", "s", "0", "x:list"]);
                    s.extend_from_slice(t.as_bytes());
                }
                _ => (),
            }
            let plain = spec::sym_of_code(code).map_or(false, |x| x.as_bytes() == &s[..]);
            match ch.below(4) {
                0 if !plain => {
                    v.push(0xb3);
                    v.extend_from_slice(&(s.len() as u32).to_be_bytes());
                }
                _ => {
                    v.push(if plain { ch.pick(&[0xa1u8, 0xa0]) } else { 0xa3 });
                    v.push(s.len() as u8);
                }
            }
            v.extend_from_slice(&s);
        }
    }
    v
}

/// The same composite under a descriptor that is not its own.
fn redescribed(ch: &Ch, e: &Enc, v: &V) -> V {
    if let V::Comp(code, fs) = v {
        let mut b = Vec::new();
        e.comp(&mut b, *code, fs);
        let n = match b[1] {
            0x44 => 2,
            0x53 => 3,
            0x80 => 10,
            0xa3 => 3 + b[2] as usize,
            _ => 6 + get32(&b, 2) as usize,
        };
        let mut d = near_descriptor(ch, *code);
        d.extend_from_slice(&b[n..]);
        return V::Raw(d);
    }
    v.clone()
}

/// The composite with every field written, and a count that stops before field `i`: what follows in the list
/// is not a field of it.
fn counted_out(e: &Enc, v: &V, i: usize) -> Option<V> {
    if let V::Comp(code, fs) = v {
        let mut b = Vec::new();
        e.comp(&mut b, *code, fs);
        let n = match b[1] {
            0x44 => 2,
            0x53 => 3,
            0x80 => 10,
            0xa3 => 3 + b[2] as usize,
            _ => 6 + get32(&b, 2) as usize,
        };
        match b[n] {
            0xc0 if b[n + 2] as usize > i => b[n + 2] = i as u8,
            0xd0 if get32(&b, n + 5) as usize > i => b[n + 5..n + 9].copy_from_slice(&(i as u32).to_be_bytes()),
            _ => return None,
        }
        return Some(V::Raw(b));
    }
    None
}

/// a type that is easily taken for this one
fn close_type(ch: &Ch, ty: FT) -> Option<V> {
    let n = ch.pick(&[0u64, 1, 9, 127, 200]);
    let num = |ch: &Ch, not: usize| -> V {
        let i = ch.idx(8);
        match if i == not { (i + 1) % 8 } else { i } {
            0 => V::U8(n as u8),
            1 => V::U16(n as u16),
            2 => V::U32(n as u32),
            3 => V::U64(n),
            4 => V::I8(n as i8),
            5 => V::I16(n as i16),
            6 => V::I32(n as i32),
            _ => V::I64(n as i64),
        }
    };
    let text = |ch: &Ch, not: usize| -> V {
        let i = ch.idx(3);
        match if i == not { (i + 1) % 3 } else { i } {
            0 => V::Str("text".into()),
            1 => V::Sym("text".into()),
            _ => V::Bin(b"text".to_vec()),
        }
    };
    Some(match ty {
        FT::U8 | FT::EnumU8(_) => num(ch, 0),
        FT::U16 => num(ch, 1),
        FT::U32 | FT::EnumU32(_) => num(ch, 2),
        FT::U64 => num(ch, 3),
        FT::Ts => num(ch, 9),
        FT::Bool => V::U8(ch.below(2) as u8),
        FT::Str => text(ch, 0),
        FT::Sym | FT::EnumSym(_) => text(ch, 1),
        FT::Bin => text(ch, 2),
        FT::MsgId => V::Sym("text".into()),
        FT::Symbols => match ch.below(4) {
            0 => V::List(vec![V::Sym("a".into())]),
            // an array of strings, of binaries
            1 => V::Raw(vec![0xe0, 6, 2, ch.pick(&[0xa1u8, 0xa0]), 1, b'a', 1, b'b']),
            _ => text(ch, 1),
        },
        FT::Fields | FT::Filter => match ch.below(4) {
            0 => V::List(vec![V::Sym("a".into()), V::Null]),
            1 => V::Map(vec![(V::U32(1), V::Null)]),
            _ => V::Map(vec![(text(ch, 1), V::Null)]),
        },
        _ => return None,
    })
}

fn wrong_typed(ch: &Ch, g: &G, ty: FT) -> V {
    if ch.coin() {
        if let Some(v) = close_type(ch, ty) {
            return v;
        }
    }
    for _ in 0..8 {
        let v = match ch.below(9) {
            0 => V::Bool(true),
            1 => V::U8(9),
            2 => V::U16(900),
            3 => V::U32(70_000),
            4 => V::U64(5_000_000_000),
            5 => V::Str("text".into()),
            6 => V::Sym("sym".into()),
            7 => V::Bin(vec![1, 2, 3]),
            _ => V::Ts(5),
        };
        let bad = match (ty, &v) {
            (FT::Bool, V::Bool(_)) | (FT::U8, V::U8(_)) | (FT::U16, V::U16(_)) | (FT::U32, V::U32(_)) | (FT::U64, V::U64(_)) => false,
            (FT::Str, V::Str(_)) | (FT::Sym, V::Sym(_)) | (FT::Symbols, V::Sym(_)) | (FT::Bin, V::Bin(_)) | (FT::Ts, V::Ts(_)) => false,
            (FT::MsgId, V::U64(_)) | (FT::MsgId, V::Str(_)) | (FT::MsgId, V::Bin(_)) => false,
            (FT::EnumU8(_), V::U8(_)) | (FT::EnumU32(_), V::U32(_)) | (FT::EnumSym(_), V::Sym(_)) => false,
            _ => true,
        };
        if bad {
            return v;
        }
    }
    let _ = g;
    V::List(vec![])
}

/// Text that is not UTF-8, in one of the ways that matter
fn bad_utf8(ch: &Ch) -> Vec<u8> {
    let mut v = ch.pick(&[
        &b"\xff"[..],
        b"\xc0\x80",
        b"\xed\xa0\x80",
        b"\xf4\x90\x80\x80",
        b"abc\xe2\x82",
        b"\x80",
        b"\xe0\x9f\xbf",
        b"\xf0\x8f\xbf\xbf",
        b"ok\xc3\x28",
    ])
    .to_vec();
    if ch.coin() {
        v.splice(0..0, std::iter::repeat(b'p').take(ch.idx(300)));
    }
    v
}

fn raw_text(v8: u8, v32: u8, b: &[u8]) -> V {
    let mut o = Vec::new();
    if b.len() < 256 {
        o.push(v8);
        o.push(b.len() as u8);
    } else {
        o.push(v32);
        o.extend_from_slice(&(b.len() as u32).to_be_bytes());
    }
    o.extend_from_slice(b);
    V::Raw(o)
}

pub fn malformed(ch: &Ch, g: &G, sasl: bool) -> (Vec<u8>, &'static str) {
    let e = Enc::varied(ch);
    let mut f = g.frame(sasl);
    if f.perf == V::Null {
        f = g.frame(sasl);
    }
    let mut paths = Vec::new();
    nodes(&f.perf, &mut Vec::new(), &mut paths);
    let kind = ch.below(16);
    if kind >= 14 && !paths.is_empty() {
        let p = paths[ch.idx(paths.len())].clone();
        if p.is_empty() {
            f.perf = redescribed(ch, &e, &f.perf);
        } else {
            let v = {
                let (_, fs) = node_mut(&mut f.perf, &p[..p.len() - 1]);
                &mut fs[p[p.len() - 1]]
            };
            *v = redescribed(ch, &e, v);
        }
        return (e.frame(&f), "descriptor_missed");
    }
    if (4..=8).contains(&kind) && !paths.is_empty() {
        let p = paths[ch.idx(paths.len())].clone();
        if kind == 4 && ch.chance(1, 3) {
            let whole = if p.is_empty() {
                f.perf.clone()
            } else {
                let (_, fs) = node_mut(&mut f.perf, &p[..p.len() - 1]);
                fs[p[p.len() - 1]].clone()
            };
            let mands: Vec<usize> = match &whole {
                V::Comp(code, _) => spec::comp(*code).fields.iter().enumerate().filter(|(_, f)| f.mand).map(|(i, _)| i).collect(),
                _ => Vec::new(),
            };
            if !mands.is_empty() {
                if let Some(v) = counted_out(&e, &whole, mands[ch.idx(mands.len())]) {
                    if p.is_empty() {
                        f.perf = v;
                    } else {
                        let (_, fs) = node_mut(&mut f.perf, &p[..p.len() - 1]);
                        fs[p[p.len() - 1]] = v;
                    }
                    return (e.frame(&f), "mandatory_field_not_counted");
                }
            }
        }
        let (code, fs) = node_mut(&mut f.perf, &p);
        let sp = spec::comp(code);
        let pickf = |ch: &Ch, ok: &dyn Fn(&spec::Field) -> bool| -> Option<usize> {
            let c: Vec<usize> = (0..sp.fields.len()).filter(|&i| ok(&sp.fields[i])).collect();
            if c.is_empty() {
                None
            } else {
                Some(c[ch.idx(c.len())])
            }
        };
        let name = match kind {
            4 => {
                if let Some(i) = pickf(ch, &|f| f.mand) {
                    fs.truncate(i);
                }
                "mandatory_field_missing"
            }
            5 => {
                if let Some(i) = pickf(ch, &|f| f.mand) {
                    fs[i] = V::Null;
                }
                "mandatory_field_null"
            }
            6 => {
                if let Some(i) = pickf(ch, &|_| true) {
                    fs[i] = wrong_typed(ch, g, sp.fields[i].ty);
                }
                "wrong_type"
            }
            7 => {
                if let Some(i) = pickf(ch, &|f| matches!(f.ty, FT::Str | FT::Sym | FT::Symbols | FT::Fields | FT::MsgId | FT::Filter | FT::Map | FT::EnumSym(_))) {
                    let b = bad_utf8(ch);
                    fs[i] = match sp.fields[i].ty {
                        FT::Str | FT::MsgId => raw_text(0xa1, 0xb1, &b),
                        FT::Sym | FT::Symbols | FT::EnumSym(_) => raw_text(0xa3, 0xb3, &b),
                        FT::Filter => V::Map(vec![(V::Sym("f".into()), raw_text(0xa1, 0xb1, &b))]),
                        _ => {
                            if ch.coin() {
                                V::Map(vec![(raw_text(0xa3, 0xb3, &b), V::Null)])
                            } else {
                                V::Map(vec![(V::Sym("k".into()), V::List(vec![raw_text(0xa1, 0xb1, &b)]))])
                            }
                        }
                    };
                }
                "invalid_utf8"
            }
            _ => {
                if let Some(i) = pickf(ch, &|f| matches!(f.ty, FT::EnumU8(_) | FT::EnumU32(_) | FT::EnumSym(_))) {
                    fs[i] = match sp.fields[i].ty {
                        FT::EnumU8(n) => V::U8(ch.pick(&[n + 1, n + 2, 255, 128])),
                        FT::EnumU32(n) => V::U32(ch.pick(&[n + 1, n + 2, 255, 256, 65536, u32::max_value()])),
                        _ => V::Sym(ch.pick(&["session-en", "session-endx", "", "Never", "link detach"]).to_string()),
                    };
                }
                "unknown_enum"
            }
        };
        return (e.frame(&f), name);
    }
    let mut b = e.frame(&f);
    let doff = b[4] as usize * 4;
    let name = match kind {
        0 => {
            b[5] = ch.pick(&[1 - sasl as u8, 2, 3, 128, 255]);
            "frame_type"
        }
        1 => {
            b[4] = ch.below(2) as u8;
            "doff_small"
        }
        2 => {
            let least = b.len() / 4 + 1;
            if least < 256 {
                b[4] = ch.range(least as u64, 255) as u8;
            }
            "doff_large"
        }
        3 | 4 | 5 => {
            // descriptor of another layer, of another kind of thing, or of nothing
            let d = match ch.below(5) {
                0 => ch.pick(if sasl { spec::AMQP_PERFS } else { spec::SASL_PERFS }),
                1 => ch.pick(&[0x1du8, 0x23, 0x24, 0x28, 0x29, 0x30, 0x70, 0x73, 0x75, 0x77]),
                2 => ch.pick(&[0u8, 0x0f, 0x19, 0x1a, 0x3f, 0x45, 0xff]),
                _ => ch.below(256) as u8,
            };
            let mut c = b[4..doff].to_vec();
            match ch.below(7) {
                5 => {
                    // a descriptor that is itself described
                    c.push(0);
                    for _ in 0..1 + ch.below(3) {
                        c.push(0);
                        match ch.below(3) {
                            0 => c.extend_from_slice(&[0x53, ch.pick(spec::AMQP_PERFS)]),
                            1 => c.extend_from_slice(&[0x80, 0, 0, 0, 0, 0, 0, 0, d]),
                            _ => (),
                        }
                    }
                    let own = b.iter().skip(doff + 1).take(2).cloned().collect::<Vec<u8>>();
                    if ch.coin() && own.first() == Some(&0x53) {
                        c.extend_from_slice(&own);
                    } else {
                        c.extend_from_slice(&[0x53, d]);
                    }
                }
                6 => {
                    // a number or a text of another type
                    let own = if b.get(doff + 1) == Some(&0x53) && ch.coin() { b[doff + 2] } else { d };
                    c.push(0);
                    match ch.below(9) {
                        0 => c.extend_from_slice(&[0x50, own]),
                        1 => c.extend_from_slice(&[0x52, own]),
                        2 => c.extend_from_slice(&[0x60, 0, own]),
                        3 => c.extend_from_slice(&[0x70, 0, 0, 0, own]),
                        4 => c.extend_from_slice(&[0x55, own]),
                        5 => c.extend_from_slice(&[0x81, 0, 0, 0, 0, 0, 0, 0, own]),
                        6 => c.extend_from_slice(&[0x83, 0, 0, 0, 0, 0, 0, 0, own]),
                        7 => {
                            let s = spec::sym_of_code(own).unwrap_or("amqp:open:list");
                            c.push(ch.pick(&[0xa1u8, 0xa0]));
                            c.push(s.len() as u8);
                            c.extend_from_slice(s.as_bytes());
                        }
                        _ => c.push(ch.pick(&[0x40u8, 0x43, 0x45, 0x41])),
                    }
                }
                0 => {
                    c.push(0);
                    c.push(0x80);
                    let hi = if ch.coin() { ch.u64() | 1 << 40 } else { 0x100 };
                    let x = if ch.coin() { u64::from(d) } else { (hi & !0xff) | u64::from(spec::AMQP_PERFS[ch.idx(9)]) };
                    c.extend_from_slice(&x.to_be_bytes());
                }
                1 => {
                    let s = match ch.below(6) {
                        4 => {
                            // long ones in any letters
                            let n = ch.range(20, 250) as usize;
                            format!("x{}", g.string_of(n))
                        }
                        5 => format!("{}{}", ch.pick(&["x-", "a", ":", " "]), spec::sym_of_code(d).unwrap_or("x")),
                        0 => "amqp:nothing:list".to_string(),
                        1 => ch.pick(&["amqp:open", "amqp:open:lisT", "", "amqp:open:list ", "open"]).to_string(),
                        2 => ch.pick(&["amqp:sasl-init:list", "amqp:begin:list"]).to_string(),
                        _ => spec::sym_of_code(d).unwrap_or("x").to_string(),
                    };
                    c.push(0);
                    c.push(0xa3);
                    c.push(s.len() as u8);
                    c.extend_from_slice(s.as_bytes());
                }
                2 => {
                    c.push(0);
                    c.push(0x44);
                }
                3 => c.extend_from_slice(&[ch.pick(&[0x40u8, 0x45, 0x53, 0xc0, 1]), 0x53, d]),
                _ => c.extend_from_slice(&[0, 0x53, d]),
            }
            // the fields of the original
            let mut scratch = Vec::new();
            if let Some(q) = walk(&b, doff + 1, 0, &mut scratch) {
                if q <= b.len() {
                    let t = b[q..].to_vec();
                    c.extend_from_slice(&t);
                }
            }
            b = framed(c);
            "descriptor"
        }
        9 => {
            // inner size or count
            tweak(ch, &mut b, true);
            "tweak"
        }
        10 => {
            // bytes left over
            if ch.coin() {
                b.push(ch.pick(CODES));
            } else {
                let f2 = Enc::canon().frame(&g.frame(sasl));
                b.extend_from_slice(&f2[8..]);
            }
            let n = b.len() as u32;
            set32(&mut b, 0, n);
            "left_over"
        }
        11 => {
            // content cut short
            let n = 8 + ch.idx(b.len() - 7);
            b.truncate(n.max(8));
            let n = b.len() as u32;
            set32(&mut b, 0, n);
            "cut_short"
        }
        12 if sasl => {
            b.truncate(8);
            b[4] = 2;
            set32(&mut b, 0, 8);
            "empty_sasl"
        }
        _ => {
            damage_inside(ch, &mut b);
            "damaged"
        }
    };
    (b, name)
}

/// Now and then a connection lives long: how often, in all, the frames of a short one are sent, in an order
/// drawn anew each time.
fn long_life(ch: &Ch) -> Option<usize> {
    if ch.chance(1, 2000) {
        ch.probe("load.long_lived_connection");
        Some(ch.range(280, 1500) as usize)
    } else {
        None
    }
}

pub fn c05(ch: &Ch) -> Res {
    if ch.chance(1, 4) {
        c05_t::<SaslFrame>(ch)
    } else {
        c05_t::<AmqpFrame>(ch)
    }
}

#[derive(Clone)]
enum Exp {
    Good(FM),
    Bad(&'static str, &'static str),
}

fn c05_t<T: FrameT>(ch: &Ch) -> Res {
    let g = G::new(ch);
    let n = 1 + ch.below(9);
    let mut exp: Vec<Exp> = Vec::new();
    let mut b: Vec<u8> = Vec::new();
    let mut raw: Vec<Vec<u8>> = Vec::new();
    let mut any = false;
    let e = Enc::varied(ch);
    for _ in 0..n {
        if ch.coin() {
            let (f, k) = malformed(ch, &g, T::SASL);
            // only what the independent reading calls malformed counts
            match refamqp::frame_body(&f[4..], T::SASL) {
                Err(refamqp::Bad::Invalid(why)) if get32(&f, 0) as usize == f.len() && f.len() >= 8 => {
                    ch.probe("fault.malformed_frame");
                    ch.probe(k);
                    raw.push(f);
                    exp.push(Exp::Bad(k, why));
                    any = true;
                }
                _ => {
                    ch.probe("malformed_candidate_was_legal");
                }
            }
        } else {
            let m = g.frame(T::SASL);
            raw.push(e.frame(&m));
            exp.push(Exp::Good(m));
        }
    }
    if let (Some(n), false) = (long_life(ch), exp.is_empty()) {
        let k = exp.len();
        for _ in 0..n {
            let i = ch.idx(k);
            exp.push(exp[i].clone());
            raw.push(raw[i].clone());
        }
    }
    for f in &raw {
        b.extend_from_slice(f);
    }
    let ends = ends_of(&b);
    ensure!(ends.len() == exp.len(), "harness", "harness: {} frames framed as {}", exp.len(), ends.len());
    // a length prefix below the minimum ends what can be said about the rest of the stream
    let short = ch.chance(1, 3);
    // with fewer than 8 bytes in all the header is incomplete, which the end of the stream reports
    let mut tail = 0;
    if short {
        let n = ch.below(8) as u32;
        let from = b.len();
        b.extend_from_slice(&n.to_be_bytes());
        match ch.below(3) {
            0 => (),
            1 => b.extend_from_slice(&[2, 0, 0, 0]),
            _ => b.extend_from_slice(&e.frame(&g.frame(T::SASL))),
        }
        tail = b.len() - from;
        ch.probe("fault.length_below_minimum");
        any = true;
    }
    if any {
        ch.nontrivial();
    }
    let valid = exp.iter().take_while(|x| matches!(x, Exp::Good(_))).count();
    let w = Watch { ends: &ends, valid, limit: 3 * exp.len() + 12, meter: None };
    let o = receive::<T>(ch, &b, &w)?;
    let mut p = 0;
    for (i, x) in exp.iter().enumerate() {
        match x {
            Exp::Good(m) => match o.got.get(p) {
                Some(Got::Frame(f)) => {
                    if let Err(s) = check_frame(m, f) {
                        let c = if i > 0 && matches!(exp[i - 1], Exp::Bad(..)) { "neighbour-damaged" } else { "good-frame-changed" };
                        return viol(c, format!("frame #{} of {}: {}", i, exp.len(), s));
                    }
                    p += 1;
                }
                y => {
                    return viol(
                        "neighbour-lost",
                        format!("well-formed frame #{} ({}) of {} was answered with {:?}", i, frame_name(m), exp.len(), y),
                    )
                }
            },
            Exp::Bad(k, why) => {
                let s = if i == 0 { 0 } else { ends[i - 1] };
                match o.got.get(p) {
                    Some(Got::Err(_)) => {
                        p += 1;
                        // further errors for the same frame are tolerated unless the next frame is bad too
                        while matches!(o.got.get(p), Some(Got::Err(_))) && matches!(exp.get(i + 1), Some(Exp::Good(_))) {
                            p += 1;
                        }
                    }
                    y => {
                        return viol(
                            "malformed-accepted",
                            format!("malformed frame #{} ({}: {}) {} was answered with {:?}", i, k, why, hex(&b[s..ends[i]]), y),
                        )
                    }
                }
            }
        }
    }
    if short {
        ensure!(
            matches!(o.got.get(p), Some(Got::Err(_))) || matches!(o.got.get(p), None) && o.end.is_some() && tail < 8,
            "short-length-accepted",
            "a frame length below 8 was answered with {:?}, end {:?}",
            o.got.get(p),
            o.end
        );
    } else {
        while matches!(o.got.get(p), Some(Got::Err(_))) && matches!(exp.last(), Some(Exp::Bad(..))) {
            p += 1;
        }
        ensure!(p == o.got.len(), "extra-item", "after the last frame came {:?}", o.got.get(p));
        ensure!(o.end.is_none() || o.stopped, "false-bad-end", "complete stream, but the end is reported as {:?}", o.end);
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

pub const ALLOWANCE: usize = 256 * 1024;
pub const FACTOR: usize = 400;

/// What one container may set aside before its first item, and how many can be open inside each
/// other. A container announces itself with one byte, so streams without such bytes get no such room.
pub const PER_LAYER: usize = 16 * 1024;
pub const LAYERS: usize = 130;

thread_local! {
    static ROOM: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
fn room_for(b: &[u8]) {
    let n = b.iter().filter(|x| matches!(**x, 0xc0 | 0xc1 | 0xd0 | 0xd1 | 0xe0 | 0xf0)).take(LAYERS).count();
    ROOM.with(|r| r.set(n * PER_LAYER));
}

fn meter(peak: usize, received: usize, what: &'static str) -> Res {
    ensure!(
        peak <= ALLOWANCE + FACTOR * received + ROOM.with(|r| r.get()),
        "memory-out-of-proportion",
        "{} bytes received, {} bytes of memory held after {} (largest single request {})",
        received,
        peak,
        what,
        crate::alloc::largest()
    );
    Ok(())
}

pub fn c13(ch: &Ch) -> Res {
    if ch.chance(1, 5) {
        c13_t::<SaslFrame>(ch)
    } else {
        c13_t::<AmqpFrame>(ch)
    }
}

/// Everything a connection makes the receiver hold, from its first byte on: buffer, codec and frames.
fn hold<T: FrameT>(ch: &Ch, b: &[u8], limit: usize) -> Res {
    let ends = ends_of(b);
    let cuts = pieces(ch, b.len(), &ends);
    let keep = ch.coin();
    let again = ch.below(3);
    ch.probe("state.connection_metered_as_a_whole");
    let mut frames: Vec<T> = Vec::with_capacity(limit);
    let mut codec = amqp_codec::AmqpCodec::<T>::new();
    let m = crate::alloc::mark();
    let mut rx = BytesMut::with_capacity(if ch.coin() { 0 } else { 8192 });
    let (mut prev, mut errors) = (0, 0);
    for c in cuts.into_iter().chain(std::iter::once(b.len())) {
        rx.extend_from_slice(&b[prev..c]);
        prev = c;
        let mut idle = 0;
        loop {
            let r = codec.decode(&mut rx);
            meter(crate::alloc::peak_since(m), prev, "all decoding so far")?;
            match r {
                Ok(Some(f)) => {
                    if keep {
                        frames.push(f);
                    }
                }
                Ok(None) => {
                    idle += 1;
                    if idle > again {
                        break;
                    }
                }
                Err(_) => errors += 1,
            }
            if frames.len() + errors >= limit {
                return Ok(());
            }
        }
    }
    let r = codec.decode_eof(&mut rx);
    meter(crate::alloc::peak_since(m), prev, "the end of the stream")?;
    drop(r);
    ch.ev(60, frames.len() as u64, errors as u64);
    Ok(())
}

fn c13_t<T: FrameT>(ch: &Ch) -> Res {
    let g = G::new(ch);
    let mut b: Vec<u8> = Vec::new();
    let mut payloads: Vec<Vec<u8>> = Vec::new();
    for _ in 0..1 + ch.below(5) {
        match ch.below(7) {
            0 => {
                let f = Enc::varied(ch).frame(&g.frame(T::SASL));
                b.extend_from_slice(&f);
            }
            1 => {
                let mut f = Enc::varied(ch).frame(&g.frame(T::SASL));
                for _ in 0..1 + ch.below(3) {
                    tweak(ch, &mut f, true);
                }
                b.extend_from_slice(&f);
            }
            2 => payloads.push(bomb_message(ch)),
            _ => {
                let f = bomb_frame(ch, &g, T::SASL);
                b.extend_from_slice(&f);
            }
        }
    }
    if let Some(n) = long_life(ch) {
        let e = ends_of(&b);
        if b.len() < 4000 && e.last() == Some(&b.len()) {
            for _ in 0..n {
                let i = ch.idx(e.len());
                let f = b[if i == 0 { 0 } else { e[i - 1] }..e[i]].to_vec();
                b.extend_from_slice(&f);
            }
        }
    }
    if ch.chance(1, 3) {
        // a frame that never arrives
        let n = match ch.below(4) {
            0 => u32::max_value() - ch.below(16) as u32,
            1 => 1 << ch.range(16, 31),
            2 => 0x7fff_ffff,
            _ => ch.range(1_000_000, 100_000_000) as u32,
        };
        b.extend_from_slice(&n.to_be_bytes());
        let k = ch.idx(20);
        let f = Enc::canon().frame(&g.frame(T::SASL));
        b.extend_from_slice(&f[4..(4 + k).min(f.len())]);
        ch.probe("fault.huge_frame_declared");
    }
    ch.nontrivial();
    let ends = ends_of(&b);
    room_for(&b);
    if ch.coin() {
        hold::<T>(ch, &b, ends.len() + 8)?;
    } else {
        let w = Watch { ends: &ends, valid: 0, limit: ends.len() + 8, meter: Some(meter) };
        receive::<T>(ch, &b, &w)?;
    }
    for p in payloads {
        ch.probe("fault.bomb_message");
        room_for(&p);
        let m = crate::alloc::mark();
        let r = InMessage::decode(&p).map(|x| x.1);
        meter(crate::alloc::peak_since(m), p.len(), "InMessage::decode")?;
        drop(r);
        let m = crate::alloc::mark();
        let r = OutMessage::decode(&p).map(|x| x.1);
        meter(crate::alloc::peak_since(m), p.len(), "OutMessage::decode")?;
        drop(r);
        for _ in 0..ch.below(4) {
            // the application reads a value of its own out of the payload
            let k = kinds::pick(ch);
            let mut x = Vec::new();
            if ch.coin() {
                if ch.coin() {
                    // as the value of a list or a map
                    x.extend_from_slice(&[0xd1, 0, 0, 0, 0, 0, 0, 0, 2, ch.pick(&[0xa3u8, 0xa1]), 1, b'k']);
                    bomb(ch, &mut x);
                    let n = x.len() as u32 - 5;
                    set32(&mut x, 1, n);
                } else {
                    bomb(ch, &mut x);
                }
            } else {
                let i = ch.idx(p.len() + 1);
                x.extend_from_slice(&p[i..]);
            }
            if !weightless(&x) {
                room_for(&x);
                let m = crate::alloc::mark();
                (k.accepts)(&x);
                meter(crate::alloc::peak_since(m), x.len(), k.name)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

pub fn c14(ch: &Ch) -> Res {
    if ch.chance(1, 6) {
        c14_t::<SaslFrame>(ch)
    } else {
        c14_t::<AmqpFrame>(ch)
    }
}

fn c14_t<T: FrameT>(ch: &Ch) -> Res {
    let mut g = if ch.coin() { G::small(ch) } else { G::new(ch) };
    g.any_sym = ch.chance(1, 3);
    let e = Enc::varied(ch);
    let n = 1 + ch.below(7);
    let mut b = Vec::new();
    let mut raw: Vec<Vec<u8>> = Vec::new();
    let mut fs: Vec<(Verdict<FM>, bool)> = Vec::new();
    for _ in 0..n {
        let m = g.frame(T::SASL);
        let mut f = e.frame(&m);
        let hit = !ch.chance(1, 3);
        if hit {
            if ch.chance(1, 4) {
                let (x, k) = malformed(ch, &g, T::SASL);
                if get32(&x, 0) as usize == x.len() && x.len() >= 8 {
                    f = x;
                    ch.probe(k);
                }
            } else {
                damage_inside(ch, &mut f);
                ch.probe("fault.damaged_frame");
            }
            ch.nontrivial();
        }
        let v = judge(|| refamqp::frame_body(&f[4..], T::SASL));
        match &v {
            Verdict::Valid(_) if hit => ch.probe("verdict.valid"),
            Verdict::Valid(_) if g.any_sym => (),
            Verdict::Valid(x) => {
                // the two halves of the simulated peer agree about undamaged frames
                if let Err(s) = check_frame(&m, x) {
                    panic!("harness: reference disagrees with itself: {}", s);
                }
            }
            Verdict::Tolerated(..) => ch.probe("verdict.tolerated"),
            Verdict::Invalid(_) => ch.probe("verdict.invalid"),
            Verdict::Unspec(_) => ch.probe("verdict.unspecified"),
        }
        raw.push(f);
        fs.push((v, hit));
    }
    if let Some(n) = long_life(ch) {
        let k = fs.len();
        for _ in 0..n {
            let i = ch.idx(k);
            fs.push(fs[i].clone());
            raw.push(raw[i].clone());
        }
    }
    for f in &raw {
        b.extend_from_slice(f);
    }
    let ends = ends_of(&b);
    ensure!(ends.len() == fs.len(), "harness", "harness: framing");
    let valid = fs.iter().take_while(|x| !x.1).count();
    let w = Watch { ends: &ends, valid, limit: fs.len() * 2 + 8, meter: None };
    let o = receive::<T>(ch, &b, &w)?;
    for (i, (v, hit)) in fs.iter().enumerate() {
        let s = if i == 0 { 0 } else { ends[i - 1] };
        let what = || hex(&b[s..ends[i]]);
        match (v, o.got.get(i)) {
            (_, None) => return viol("frame-swallowed", format!("frame #{} {} got no answer", i, what())),
            (Verdict::Valid(m), Some(Got::Frame(f))) | (Verdict::Tolerated(m, _), Some(Got::Frame(f))) => {
                if let Err(d) = check_frame(m, f) {
                    let c = if *hit { "misread" } else { "neighbour-damaged" };
                    return viol(c, format!("frame #{} {} is {:?} but was read as {:?}: {}", i, what(), m, f, d));
                }
                if *hit {
                    payload_check(ch, f)?;
                }
            }
            (Verdict::Valid(m), Some(Got::Err(x))) => {
                ensure!(*hit, "neighbour-lost", "undamaged frame #{} ({}) was answered with {}", i, frame_name(m), x);
            }
            (Verdict::Invalid(why), Some(Got::Frame(f))) => {
                return viol("malformed-accepted", format!("frame #{} {} is malformed ({}) but was read as {:?}", i, what(), why, f));
            }
            _ => (),
        }
    }
    ensure!(o.got.len() == fs.len(), "extra-item", "{} frames were answered with {} items", fs.len(), o.got.len());
    // damaged messages inside intact transfers
    if !T::SASL {
        for _ in 0..ch.below(3) {
            let mut g = G::small(ch);
            g.wire_only = true;
            let mut m = g.msg(1);
            let e = Enc::varied(ch);
            if ch.chance(1, 3) {
                // well encoded, but not what belongs there
                let v = match ch.below(8) {
                    0 | 1 => &mut m.header,
                    2 | 3 => &mut m.props,
                    4 => &mut m.da,
                    5 => &mut m.ma,
                    6 => &mut m.footer,
                    _ => {
                        // a section under a descriptor that is not its own
                        let c = ch.range(0x70, 0x78) as u8;
                        let mut d = near_descriptor(ch, c);
                        e.v(&mut d, &ch.pick(&[V::Bin(vec![1]), V::Map(vec![]), V::List(vec![]), V::Null, V::Map(vec![(V::Sym("k".into()), V::U8(1))])]));
                        let mut b = e.msg(&m);
                        if ch.coin() {
                            b.extend_from_slice(&d);
                        } else {
                            b.splice(0..0, d);
                        }
                        ch.probe("fault.malformed_message");
                        message_check(ch, &b)?;
                        continue;
                    }
                };
                if let Some(x) = v {
                    if let V::Map(_) = x {
                        *x = wrong_typed(ch, &g, FT::Fields);
                    } else if ch.chance(1, 3) {
                        *x = redescribed(ch, &e, x);
                    } else if let V::Comp(code, fs) = x {
                        let sp = spec::comp(*code);
                        let i = ch.idx(sp.fields.len());
                        while fs.len() <= i {
                            fs.push(V::Null);
                        }
                        fs[i] = wrong_typed(ch, &g, sp.fields[i].ty);
                    }
                    ch.probe("fault.malformed_message");
                    message_check(ch, &e.msg(&m))?;
                    continue;
                }
            }
            let m = e.msg(&m);
            let mut f = framed([&[2u8, 0, 0, 0][..], &m].concat());
            if f.len() > 9 {
                damage_inside(ch, &mut f);
                ch.probe("fault.damaged_message");
                message_check(ch, &f[8..])?;
            }
        }
    }
    for _ in 0..ch.below(3) {
        let mut g = G::small(ch);
        g.wire_only = true;
        value_check(ch, &g)?;
    }
    Ok(())
}

/// An array of elements that take no room on the wire: what it asks for is not in proportion to
/// its bytes by definition of the encoding, and no frame or message contains one.
fn weightless(b: &[u8]) -> bool {
    b.len() > 9 && b[0] == 0xf0 && (0x40..0x46).contains(&b[9]) && get32(b, 5) > 10_000
}

/// A value of a kind that an application reads out of a payload itself: damaged bytes are refused
/// or read as what they say, and no more of them is used up than the value takes.
fn value_check(ch: &Ch, g: &G) -> Res {
    let k = kinds::pick(ch);
    let e = Enc::varied(ch);
    let v = (k.gen)(g);
    let mut p = Vec::new();
    match ch.below(4) {
        0 if matches!(v, V::Comp(..)) => {
            // the same content under another descriptor
            let mut paths = Vec::new();
            nodes(&v, &mut Vec::new(), &mut paths);
            let path = paths[ch.idx(paths.len())].clone();
            let mut x = v.clone();
            if path.is_empty() {
                x = redescribed(ch, &e, &v);
            } else {
                let (_, fs) = node_mut(&mut x, &path[..path.len() - 1]);
                let i = path[path.len() - 1];
                fs[i] = redescribed(ch, &e, &fs[i]);
            }
            e.v(&mut p, &x);
        }
        1 if matches!(v, V::Comp(..)) => {
            // another type in a field
            let mut paths = Vec::new();
            nodes(&v, &mut Vec::new(), &mut paths);
            let path = paths[ch.idx(paths.len())].clone();
            let mut x = v.clone();
            let (code, fs) = node_mut(&mut x, &path);
            let sp = spec::comp(code);
            if sp.fields.is_empty() {
                return Ok(());
            }
            let i = ch.idx(sp.fields.len());
            while fs.len() <= i {
                fs.push(V::Null);
            }
            fs[i] = if ch.chance(1, 6) { V::Null } else { wrong_typed(ch, g, sp.fields[i].ty) };
            e.v(&mut p, &x);
        }
        x => {
            (k.write)(&e, &mut p, &v);
            if x == 2 {
                // a kind is asked for that the peer did not send
                if ch.coin() {
                    p.truncate(ch.idx(p.len() + 1));
                }
            } else {
                let mut f = framed([&[2u8, 0, 0, 0][..], &p].concat());
                damage_inside(ch, &mut f);
                p = f.split_off(8);
            }
        }
    }
    if ch.chance(1, 4) {
        let n = 1 + ch.below(5);
        for _ in 0..n {
            p.push(ch.below(256) as u8);
        }
    }
    ch.probe("fault.damaged_value");
    ch.ev(57, p.len() as u64, hash_bytes(&p));
    let k = if ch.chance(1, 5) { kinds::pick(ch) } else { k };
    if p.len() > 20_000 || weightless(&p) {
        return Ok(());
    }
    if let Ok((left, x)) = (k.dec)(&p) {
        ensure!(left <= p.len(), "bytes-from-nowhere", "{}: {} bytes left of {}", k.name, left, p.len());
        let taken = &p[..p.len() - left];
        match judge(|| (k.read)(taken)) {
            Verdict::Valid(y) | Verdict::Tolerated(y, _) => {
                ch.probe("verdict.value_read");
                ensure!(x == y, "value-misread", "{}: {}: {}", k.name, diff(&y, &x), hex(taken));
            }
            Verdict::Invalid(why) => {
                return viol("malformed-value-accepted", format!("{}: {} is malformed ({}) but was read as {:?}", k.name, hex(taken), why, x));
            }
            Verdict::Unspec(_) => ch.probe("verdict.unspecified"),
        }
    } else {
        ch.probe("verdict.value_refused");
    }
    Ok(())
}

fn payload_check(ch: &Ch, f: &FM) -> Res {
    if let BodyM::Bytes(p) = &f.body {
        if !p.is_empty() && p.len() < 4000 {
            return message_check(ch, p);
        }
    }
    Ok(())
}

/// A message reader gives an error or what the bytes say.
fn message_check(ch: &Ch, p: &[u8]) -> Res {
    let v = judge(|| refamqp::message(p));
    let mut reads: Vec<(&str, Option<Vec<u8>>)> = Vec::new();
    fn again<M: Encode>(m: &M) -> Vec<u8> {
        let mut o = BytesMut::with_capacity(m.encoded_size() + 64);
        m.encode(&mut o);
        o.to_vec()
    }
    reads.push(("InMessage", InMessage::decode(p).ok().map(|x| again(&x.1))));
    reads.push(("OutMessage", OutMessage::decode(p).ok().map(|x| again(&x.1))));
    for (k, r) in reads {
        match (&v, r) {
            (Verdict::Invalid(why), Some(_)) => {
                return viol("malformed-message-accepted", format!("{}: {} is malformed ({})", k, hex(p), why));
            }
            (Verdict::Valid(m), Some(b)) | (Verdict::Tolerated(m, _), Some(b)) => {
                ch.probe("verdict.message_read");
                match judge(|| refamqp::message(&b)) {
                    Verdict::Valid(x) | Verdict::Tolerated(x, _) => {
                        if let Err(d) = same_message(m, &x) {
                            return viol("message-misread", format!("{}: {} re-sent as {}: {}", k, hex(p), hex(&b), d));
                        }
                    }
                    Verdict::Unspec(_) => (),
                    Verdict::Invalid(why) => {
                        return viol("message-misread", format!("{}: {} re-sent as {} ({})", k, hex(p), hex(&b), why));
                    }
                }
            }
            _ => (),
        }
    }
    Ok(())
}

/// equal up to the order of sections
pub fn same_message(a: &WireMsg, b: &WireMsg) -> Result<(), String> {
    let mut a = a.clone();
    let mut b = b.clone();
    // a message without a body is sent with one empty data section
    let bare = |m: &WireMsg| m.data.is_empty() && m.seq.is_empty() && m.value.is_none();
    if bare(&a) {
        a.data.push(Vec::new());
    }
    if bare(&b) {
        b.data.push(Vec::new());
    }
    for m in [&mut a, &mut b].iter_mut() {
        m.order.clear();
        if let Some(x) = m.ap.as_mut() {
            x.sort();
        }
    }
    if a == b {
        return Ok(());
    }
    for (n, x, y) in [
        ("header", &a.header, &b.header),
        ("delivery-annotations", &a.da, &b.da),
        ("message-annotations", &a.ma, &b.ma),
        ("properties", &a.props, &b.props),
        ("value", &a.value, &b.value),
        ("footer", &a.footer, &b.footer),
    ] {
        if x != y {
            return Err(match (x, y) {
                (Some(x), Some(y)) => format!("{}: {}", n, diff(x, y)),
                _ => format!("{}: expected {:?}, got {:?}", n, x, y),
            });
        }
    }
    if a.data != b.data {
        return Err(format!("data sections: expected {} got {}", a.data.len(), b.data.len()));
    }
    Err(format!("expected {:?}, got {:?}", a, b))
}

pub fn frame_of(t: &AmqpFrame) -> &Frame {
    t.performative()
}
