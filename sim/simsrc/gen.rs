//! Seeded generators of application values. Swarm style: every run draws its own mix of sizes,
//! presence probabilities and shapes, biased towards encoding boundaries.

use crate::model::*;
use crate::refamqp::{Enc, TS_MAX, TS_MIN};
use crate::spec::{self, FT};
use crate::tape::Ch;
use crate::typed::STATICS;
use std::cell::{Cell, RefCell};

pub struct G {
    pub ch: Ch,
    budget: Cell<i64>,
    /// one value of many megabytes is still to be made
    huge: Cell<usize>,
    many: Cell<usize>,
    uniq: Cell<u64>,
    /// texts made before, to be used again
    before: RefCell<Vec<String>>,
    /// weights: tiny, small, at the 255 boundary, medium, at the 64 KiB boundary
    lens: [u64; 5],
    /// presence of optional fields, out of 16
    presence: u64,
    pad: u64,
    pub depth: u32,
    /// weights of frame kinds 0x10..=0x18 and empty
    perfs: Vec<u64>,
    pub wire_only: bool,
    /// symbols the type lets an application make although the wire calls for ASCII
    pub any_sym: bool,
}

const EDGE64: &[u64] = &[
    0, 1, 2, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff,
    0x1_0000_0000, 1 << 24, 1 << 48, 1 << 53, i64::max_value() as u64, 1 << 63, u64::max_value(), u64::max_value() - 127, u64::max_value() - 128,
    u64::max_value() - 255,
];
pub const CHARS: &[char] = &[
    'a', 'z', ' ', '0', '\u{0}', '\u{7f}', '\u{80}', '\u{e9}', '\u{7ff}', '\u{800}', '\u{20ac}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}',
    '\u{1f4af}', '\u{10ffff}', '/', ':', '\n', '\t', '\r', '"', '\\', '\u{a0}', '\u{df}', '\u{130}', '\u{301}', '\u{200b}', '\u{feff}',
    '\u{fffd}', 'A',
];

impl G {
    pub fn new(ch: &Ch) -> G {
        let lens = match ch.below(6) {
            0 => [10, 6, 0, 0, 0],
            1 => [6, 6, 4, 1, 0],
            2 => [2, 2, 10, 1, 0],
            3 => [6, 4, 2, 2, 1],
            4 => [4, 8, 1, 4, 0],
            _ => [1, 0, 0, 0, 0],
        };
        let mut perfs: Vec<u64> = vec![1, 1, 2, 2, 6, 2, 1, 1, 1, 1];
        if ch.chance(1, 2) {
            // emphasise one kind
            let k = ch.idx(perfs.len());
            perfs[k] += 20;
        }
        G {
            ch: ch.clone(),
            budget: Cell::new(ch.pick(&[2_000i64, 20_000, 150_000])),
            huge: Cell::new(0),
            many: Cell::new(0),
            uniq: Cell::new(0),
            before: RefCell::new(Vec::new()),
            lens,
            presence: ch.pick(&[8u64, 0, 3, 13, 16]),
            pad: ch.pick(&[12u64, 5, 0]),
            depth: ch.pick(&[2u32, 1, 3, 5]),
            perfs,
            wire_only: false,
            any_sym: false,
        }
    }
    /// generator that never makes anything big
    pub fn small(ch: &Ch) -> G {
        let mut g = G::new(ch);
        g.lens = [6, 4, 1, 0, 0];
        g.budget = Cell::new(1500);
        g.depth = 2;
        g
    }
    pub fn set_budget(&self, n: i64) {
        self.budget.set(n);
    }
    /// Now and then values of some 64 KiB, and very seldom one of up to `most` bytes (megabytes where
    /// a run handles it but a few times). Gives the budget to use where it is renewed.
    pub fn rarely_big(&mut self, usual: i64, most: usize) -> i64 {
        let ch = self.ch.clone();
        match ch.below(6_000) {
            0 => {
                if ch.coin() {
                    self.huge.set(most);
                } else {
                    self.many.set(most / 16);
                }
                self.lens = [6, 4, 1, 0, 0];
                usual
            }
            1..=150 => {
                self.lens = [6, 4, 2, 2, 2];
                self.set_budget(300_000);
                ch.probe("load.big_values");
                300_000
            }
            _ => usual,
        }
    }
    /// more items than two bytes count, or than half of that
    fn vast(&self) -> Option<usize> {
        let most = self.many.get();
        if most == 0 || !self.ch.coin() {
            return None;
        }
        self.many.set(0);
        self.ch.probe("load.vast_collection");
        let n = self.ch.pick(&[32_766usize, 65_534, 65_534, 2_000]);
        Some((n + self.ch.range(0, 4) as usize).min(most))
    }
    fn huge_len(&self) -> usize {
        let most = self.huge.replace(0);
        self.ch.probe("load.huge_value");
        let at = self.ch.pick(&[1usize << 24, 1 << 24, 1 << 20, 1 << 17]).min(most);
        at + self.ch.range(0, 4000) as usize - 40
    }

    pub fn len(&self) -> usize {
        let ch = &self.ch;
        let n = match ch.weighted(&self.lens) {
            0 => ch.below(9),
            1 => ch.below(40),
            2 => 250 + ch.below(11),
            3 => {
                let x = 262 + ch.below(3000);
                // around a power of two, as buffers have it
                if ch.chance(1, 4) {
                    (512u64 << ch.below(7)) - 12 + x % 16
                } else {
                    x
                }
            }
            _ => 65_527 + ch.below(20),
        } as i64;
        let left = self.budget.get();
        let n = if n > left { (left.max(0)).min(6) } else { n };
        self.budget.set(left - n - 2);
        n as usize
    }

    fn fill(&self, n: usize) -> Vec<u8> {
        let ch = &self.ch;
        let mut v = vec![0u8; n];
        let salt = self.uniq.get();
        self.uniq.set(salt + 1);
        if n == 0 {
            return v;
        }
        match ch.below(4) {
            0 => {
                let r = ch.u64();
                for (i, x) in v.iter_mut().enumerate() {
                    let mut y = r.wrapping_add(i as u64);
                    *x = (crate::tape::splitmix(&mut y) >> 24) as u8;
                }
            }
            1 => {
                let b = ch.below(256) as u8;
                for x in v.iter_mut() {
                    *x = b;
                }
            }
            2 => {
                // bytes that look like AMQP
                let pat = ch.pick(&[
                    &[0u8, 0, 0, 8, 2, 0, 0, 0][..],
                    b"AMQP\x00\x01\x00\x00",
                    &[0, 0x53, 0x75, 0xa0, 4],
                    &[0xff],
                    &[0, 0x53, 0x14, 0xc0, 0x10, 0x0b],
                    &[0x40],
                ]);
                for (i, x) in v.iter_mut().enumerate() {
                    *x = pat[i % pat.len()];
                }
            }
            _ => {
                for (i, x) in v.iter_mut().enumerate() {
                    *x = (i as u64 ^ salt) as u8;
                }
            }
        }
        v
    }

    /// A text used before, or nearly.
    fn again(&self, odds: u64) -> Option<String> {
        let ch = &self.ch;
        let pool = self.before.borrow();
        if pool.is_empty() || !ch.chance(1, odds) {
            return None;
        }
        let mut s = pool[ch.idx(pool.len())].clone();
        match ch.below(8) {
            0 => {
                // one letter is another
                let mut b = s.into_bytes();
                let i = ch.idx(b.len());
                if b[i] < 0x80 {
                    b[i] = if b[i].is_ascii_alphabetic() && ch.coin() { b[i] ^ 0x20 } else { b'a' + ch.below(26) as u8 };
                }
                s = String::from_utf8(b).unwrap_or_default();
            }
            1 => {
                s.pop();
            }
            2 => s.push(CHARS[ch.idx(CHARS.len())]),
            _ => (),
        }
        self.budget.set(self.budget.get() - s.len() as i64 - 2);
        Some(s)
    }
    fn keep(&self, s: &str) {
        let mut pool = self.before.borrow_mut();
        if !s.is_empty() && s.len() <= 64 {
            if pool.len() < 6 {
                pool.push(s.to_string());
            } else {
                let i = s.len() % 6;
                pool[i] = s.to_string();
            }
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        if self.huge.get() == 0 {
            if let Some(s) = self.again(16) {
                return s.into_bytes();
            }
        }
        let n = if self.huge.get() > 0 { self.huge_len() } else { self.len() };
        self.fill(n)
    }
    pub fn bytes_of(&self, n: usize) -> Vec<u8> {
        self.fill(n)
    }

    pub fn string_of(&self, n: usize) -> String {
        let ch = &self.ch;
        let mut s = String::with_capacity(n);
        let kind = ch.below(3);
        let c0 = CHARS[ch.idx(CHARS.len())];
        let mut i = self.uniq.get();
        self.uniq.set(i + 1);
        while s.len() < n {
            let c = match kind {
                0 => (b'a' + (i % 26) as u8) as char,
                1 => c0,
                _ => CHARS[((i.wrapping_mul(0x9e37_79b9) >> 7) % CHARS.len() as u64) as usize],
            };
            i += 1;
            if s.len() + c.len_utf8() > n {
                s.push('x');
            } else {
                s.push(c);
            }
        }
        s
    }
    pub fn string(&self) -> String {
        if self.ch.chance(1, 6) {
            return self.static_text().to_string();
        }
        if let Some(s) = self.again(10) {
            return s;
        }
        if self.ch.chance(1, 24) {
            return self.lookalike();
        }
        let n = if self.huge.get() > 0 && self.ch.coin() { self.huge_len() } else { self.len() };
        let s = self.string_of(n);
        self.keep(&s);
        s
    }
    /// Text that spells a value of another kind.
    fn lookalike(&self) -> String {
        let ch = &self.ch;
        match ch.below(6) {
            0 => self.num().to_string(),
            1 => (self.num() as i64).to_string(),
            2 => {
                let b: String = (0..16).map(|_| format!("{:02x}", ch.below(256))).collect();
                format!("{}-{}-{}-{}-{}", &b[..8], &b[8..12], &b[12..16], &b[16..20], &b[20..])
            }
            3 => format!("{}.{}", ch.below(100), ch.below(100)),
            4 => format!("{:x}", ch.u64()),
            _ => ch.pick(&["true", "false", "null", "True", "NaN", "2011-07-26T18:21:03.521Z", "AMQP", "\"a\"", " a ", "a=b", "{}", "[]", "%41", "&amp;", "a\\nb"]).to_string(),
        }
    }
    fn static_text(&self) -> &'static str {
        if self.ch.chance(1, 4) {
            let p = crate::typed::spelled();
            return p[self.ch.idx(p.len())];
        }
        let s = self.ch.pick(STATICS);
        // long ones as seldom as other long values
        if s.len() > 40 && self.len() < 60 {
            return STATICS[self.ch.idx(20)];
        }
        s
    }
    pub fn symbol(&self) -> String {
        if self.any_sym && self.ch.chance(1, 3) {
            return self.string();
        }
        match self.ch.below(6) {
            0 => {
                let s = self.static_text();
                if s.is_ascii() {
                    s.to_string()
                } else {
                    "sym".into()
                }
            }
            _ => {
                if let Some(s) = self.again(10).filter(|s| s.is_ascii()) {
                    return s;
                }
                let n = self.len();
                let s = self.symbol_of(n);
                self.keep(&s);
                s
            }
        }
    }
    fn symbol_of(&self, n: usize) -> String {
        let i = self.uniq.get();
        self.uniq.set(i + 1);
        match self.ch.below(6) {
            0 => (0..n).map(|_| (b'0' + (i % 75) as u8) as char).collect(),
            1 => "amqp:symbol-x:List-2.map com.Example.".chars().cycle().skip(i as usize % 7).take(n).collect(),
            2 => (0..n as u64).map(|k| (((k ^ i).wrapping_mul(0x9e37_79b9) >> 9) % 128) as u8 as char).collect(),
            _ => (0..n as u64).map(|k| (b'!' + ((k + i) % 90) as u8) as char).collect(),
        }
    }

    pub fn num(&self) -> u64 {
        let ch = &self.ch;
        match ch.below(4) {
            0 => ch.below(4),
            1 => ch.pick(EDGE64),
            2 => ch.pick(EDGE64).wrapping_add(ch.below(5)).wrapping_sub(2),
            _ => {
                let b = ch.below(64);
                ch.u64() >> b
            }
        }
    }
    pub fn ts(&self) -> V {
        let ch = &self.ch;
        let x = match ch.below(5) {
            0 => 1_311_704_463_521 + ch.below(1_000_000) as i64,
            1 => ch.pick(&[0i64, 1, 999, 1000, 1001, -1, -999, -1000, -1001, -1999, -2000, -2001, 253_402_300_799_999, -62_135_596_800_000]),
            2 => -(ch.below(5_000_000_000_000) as i64),
            3 => -(ch.below(100_000) as i64) * 1000,
            _ => (ch.u64() % ((TS_MAX - TS_MIN) as u64)) as i64 + TS_MIN,
        };
        V::Ts(x)
    }
    pub fn uuid(&self) -> V {
        let mut b = [0u8; 16];
        match self.ch.below(4) {
            0 => (),
            1 => b = [0xff; 16],
            _ => {
                b[..8].copy_from_slice(&self.ch.u64().to_be_bytes());
                b[8..].copy_from_slice(&self.ch.u64().to_le_bytes());
            }
        }
        V::Uuid(b)
    }
    pub fn char(&self) -> V {
        V::Char(if self.ch.coin() {
            CHARS[self.ch.idx(CHARS.len())] as u32
        } else {
            let x = self.ch.below(0x10_f800) as u32;
            if x >= 0xd800 {
                x + 0x800
            } else {
                x
            }
        })
    }

    /// any value a Variant can hold; `key` avoids floats, whose key equality is not bitwise
    pub fn v(&self, depth: u32, key: bool) -> V {
        let ch = &self.ch;
        let n = if depth == 0 { 18 } else { 23 };
        match ch.below(n) {
            0 => V::Null,
            1 => V::Bool(ch.coin()),
            2 => V::U8(self.num() as u8),
            3 => V::U16(self.num() as u16),
            4 => V::U32(self.num() as u32),
            5 => V::U64(self.num()),
            6 => V::I8(self.num() as i8),
            7 => V::I16(self.num() as i16),
            8 => V::I32(self.num() as i32),
            9 => V::I64(self.num() as i64),
            10 if !key => V::F32(if ch.chance(1, 4) { ch.u64() as u32 } else { ch.pick(&[0u32, 0x7f80_0001, 0xffc0_0000, 0x8000_0000, 0x7f80_0000, 0x7fc0_0000, 0x7fc0_0001, 1, 0x3f80_0001, 0xff7f_ffff]) }),
            11 if !key => V::F64(match ch.below(4) {
                1 => ch.u64(),
                0 => ch.pick(&[0u64, 1 << 63, 0x7ff8_0000_0000_0000, 0x7ff8_0000_0000_0001, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0001, 1]),
                _ => f64::to_bits((ch.u64() >> 11) as f64 / 7.0),
            }),
            12 => self.char(),
            13 => self.ts(),
            14 => self.uuid(),
            15 => V::Bin(self.bytes()),
            16 => V::Str(self.string()),
            17 | 10 | 11 => V::Sym(self.symbol()),
            18 | 19 => V::List(self.items(depth - 1, key)),
            20 | 21 => self.map(depth - 1, key),
            _ => {
                let d = match ch.below(4) {
                    0 => V::U64(0),
                    1 => V::U64(self.num()),
                    2 => V::U64(ch.pick(&[0x70u64, 0x75, 0x24, 0x10])),
                    _ => V::Sym(self.symbol()),
                };
                V::Desc(Box::new(d), Box::new(self.v(depth - 1, key)))
            }
        }
    }

    fn count(&self) -> usize {
        let ch = &self.ch;
        if self.budget.get() <= 0 {
            return 0;
        }
        (match ch.below(14) {
            0 => 0,
            13 => 20 + ch.below(100),
            12 if self.budget.get() > 10_000 => 250 + ch.below(12),
            x => 1 + x % 4,
        }) as usize
    }

    pub fn items(&self, depth: u32, key: bool) -> Vec<V> {
        let n = match self.vast() {
            Some(n) => n,
            None => self.count(),
        };
        let mut xs: Vec<V> = if n > 30 {
            // many tiny items
            self.budget.set(self.budget.get() - n as i64);
            let z = self.ch.below(3);
            (0..n)
                .map(|i| match z {
                    0 => V::Null,
                    1 => V::U32(i as u32),
                    _ => V::Bool(i % 2 == 0),
                })
                .collect()
        } else {
            (0..n).map(|_| self.v(depth, key)).collect()
        };
        if self.padding() {
            let have: usize = xs.iter().map(|x| crate::refamqp::enc_v(x).len()).sum();
            if let Some(n) = self.pad_len(have) {
                xs.push(V::Bin(self.fill(n)));
            }
        }
        xs
    }

    /// many small entries: past what one byte counts, in pairs and in items
    fn wide(&self) -> Option<usize> {
        let ch = &self.ch;
        if let Some(n) = self.vast() {
            return Some(n);
        }
        if self.budget.get() < 1200 || !ch.chance(1, 40) {
            return None;
        }
        let n = match ch.below(4) {
            0 => 125 + ch.below(6),
            1 => 253 + ch.below(6),
            2 => 20 + ch.below(300),
            _ => 40 + ch.below(50),
        };
        self.budget.set(self.budget.get() - 6 * n as i64);
        ch.probe("load.wide_map");
        Some(n as usize)
    }
    /// many small body sections, past what one byte counts
    fn sections(&self) -> Option<usize> {
        let ch = &self.ch;
        if let Some(n) = self.vast() {
            return Some(n.min(70_000));
        }
        if self.budget.get() < 1200 || !ch.chance(1, 30) {
            return None;
        }
        let n = if ch.coin() { 250 + ch.below(12) } else { 60 + ch.below(500) };
        self.budget.set(self.budget.get() - 6 * n as i64);
        ch.probe("load.many_sections");
        Some(n as usize)
    }
    fn tiny(&self, i: usize) -> V {
        match i % 5 {
            0 => V::Bool(true),
            1 => V::Null,
            2 => V::U32(i as u32),
            3 => V::Str(String::new()),
            _ => V::U8(i as u8),
        }
    }

    fn padding(&self) -> bool {
        self.pad > 0 && self.ch.chance(1, self.pad)
    }
    /// content length that brings a container to the one-byte size limit
    fn pad_len(&self, have: usize) -> Option<usize> {
        let target = 248 + self.ch.below(14) as usize;
        if have + 2 > target {
            return None;
        }
        let n = target - have - 2;
        self.budget.set(self.budget.get() - n as i64);
        if n <= 255 {
            Some(n)
        } else {
            None
        }
    }

    pub fn map(&self, depth: u32, key: bool) -> V {
        if let Some(n) = self.wide() {
            let z = self.ch.below(3);
            let k = |i: usize| match z {
                0 => V::U32(i as u32),
                1 if n < 65_536 => V::U16(i as u16),
                _ => V::Str(format!("{}", i)),
            };
            return V::map((0..n).map(|i| (k(i), self.tiny(i))).collect());
        }
        let n = self.count().min(40);
        let mut kv: Vec<(V, V)> = Vec::new();
        for _ in 0..n {
            let k = self.v(depth.min(1), true);
            let x = self.v(depth, key);
            if !kv.iter().any(|(a, _)| same_key(a, &k)) {
                kv.push((k, x));
            }
        }
        self.pad_map(&mut kv, V::Str("pad".into()));
        V::map(kv)
    }
    fn pad_map(&self, kv: &mut Vec<(V, V)>, pk: V) {
        if self.padding() && !kv.iter().any(|(a, _)| same_key(a, &pk)) {
            let have: usize = kv.iter().map(|(k, x)| crate::refamqp::enc_v(k).len() + crate::refamqp::enc_v(x).len()).sum();
            let have = have + crate::refamqp::enc_v(&pk).len();
            if let Some(n) = self.pad_len(have) {
                kv.push((pk, V::Bin(self.fill(n))));
            }
        }
    }
    /// map with symbol keys
    pub fn fields(&self) -> V {
        if let Some(n) = self.wide() {
            return V::map((0..n).map(|i| (V::Sym(format!("k{}", i)), self.tiny(i))).collect());
        }
        let n = self.count().min(20);
        let mut kv: Vec<(V, V)> = Vec::new();
        for _ in 0..n {
            let k = V::Sym(self.symbol());
            let x = self.v(self.depth, false);
            if !kv.iter().any(|(a, _)| *a == k) {
                kv.push((k, x));
            }
        }
        self.pad_map(&mut kv, V::Sym("pad".into()));
        V::map(kv)
    }
    fn filter(&self) -> V {
        if let Some(n) = self.wide() {
            return V::map((0..n).map(|i| (V::Sym(format!("k{}", i)), V::Str(format!("{}", i % 3)))).collect());
        }
        let n = self.count().min(8);
        let mut kv: Vec<(V, V)> = Vec::new();
        for _ in 0..n {
            let k = V::Sym(self.symbol());
            let x = if self.ch.chance(1, 4) { V::Null } else { V::Str(self.string()) };
            if !kv.iter().any(|(a, _)| *a == k) {
                kv.push((k, x));
            }
        }
        V::map(kv)
    }
    pub fn symbols(&self) -> V {
        let ch = &self.ch;
        let mut xs: Vec<V> = Vec::new();
        if self.padding() {
            // array whose content sits at the one-byte limit
            let k = 1 + ch.below(3);
            let target = 246 + ch.below(14) as i64;
            let mut left = target - 5 * k as i64;
            for i in 0..=k {
                let n = if i == k { left.max(0) } else { left.max(1) / 2 };
                left -= n;
                xs.push(V::Sym(self.symbol_of(n as usize)));
            }
        } else {
            let n = match self.vast() {
                Some(n) => n,
                None => self.count(),
            };
            for i in 0..n {
                xs.push(if n > 20 { V::Sym(self.symbol_of(i % 3)) } else { V::Sym(self.symbol()) });
            }
        }
        V::Array(xs)
    }

    pub fn msg_id(&self) -> V {
        match self.ch.below(4) {
            0 => V::U64(self.num()),
            1 => self.uuid(),
            2 => V::Bin(self.bytes()),
            _ => V::Str(self.string()),
        }
    }

    pub fn field(&self, ty: FT) -> V {
        let ch = &self.ch;
        match ty {
            FT::Bool => V::Bool(ch.coin()),
            FT::U8 => V::U8(self.num() as u8),
            FT::U16 => V::U16(self.num() as u16),
            FT::U32 => V::U32(self.num() as u32),
            FT::U64 => V::U64(self.num()),
            FT::Ts => self.ts(),
            FT::Bin => V::Bin(self.bytes()),
            FT::Str => V::Str(self.string()),
            FT::Sym => match ch.below(4) {
                0 => V::Sym(ch.pick(spec::ERROR_CONDITIONS).to_string()),
                1 => V::Sym(ch.pick(&["move", "copy", "PLAIN", "x-custom"]).to_string()),
                _ => V::Sym(self.symbol()),
            },
            FT::EnumU8(n) => V::U8(ch.below(u64::from(n) + 1) as u8),
            FT::EnumU32(n) => V::U32(ch.below(u64::from(n) + 1) as u32),
            FT::EnumSym(xs) => V::Sym(ch.pick(xs).to_string()),
            FT::Fields => self.fields(),
            FT::Map => self.map(self.depth, false),
            FT::Filter => self.filter(),
            FT::Symbols => self.symbols(),
            FT::Comp(c) => self.comp(c),
            FT::State => self.comp(ch.pick(&[0x24u8, 0x23, 0x25, 0x26, 0x27])),
            FT::Outcome => self.comp(ch.pick(&[0x24u8, 0x25, 0x26, 0x27])),
            FT::MsgId => self.msg_id(),
        }
    }

    pub fn comp(&self, code: u8) -> V {
        let sp = spec::comp(code);
        let ch = &self.ch;
        let p = if ch.chance(1, 3) { ch.pick(&[0u64, 1, 8, 16]) } else { self.presence };
        let mut fs: Vec<V> = Vec::new();
        for f in sp.fields {
            let take = f.mand || ch.chance(p, 16);
            fs.push(if take { self.field(f.ty) } else { f.default() });
        }
        if self.padding() {
            // stretch one text or binary field so that the list content meets the one-byte limit
            let have = {
                let mut o = Vec::new();
                for x in &fs {
                    Enc::canon().v(&mut o, x);
                }
                o.len()
            };
            let cands: Vec<usize> = (0..fs.len()).filter(|&i| matches!(sp.fields[i].ty, FT::Str | FT::Bin | FT::Sym)).collect();
            if !cands.is_empty() && have < 240 {
                let i = cands[ch.idx(cands.len())];
                let cur = crate::refamqp::enc_v(&fs[i]).len();
                if let Some(n) = self.pad_len(have - cur) {
                    fs[i] = match sp.fields[i].ty {
                        FT::Str => V::Str(self.string_of(n)),
                        FT::Bin => V::Bin(self.fill(n)),
                        _ => V::Sym(self.symbol_of(n)),
                    };
                }
            }
        }
        V::Comp(code, fs)
    }

    pub fn app_props(&self) -> Vec<(String, V)> {
        if let Some(n) = self.wide() {
            return (0..n).map(|i| (format!("k{}", i), self.tiny(i))).collect();
        }
        let n = self.count().min(30);
        let mut kv: Vec<(String, V)> = Vec::new();
        for _ in 0..n {
            let k = self.string();
            if !kv.iter().any(|(a, _)| *a == k) {
                kv.push((k, self.v(self.depth.min(2), false)));
            }
        }
        if self.padding() && !kv.iter().any(|(a, _)| a == "pad") {
            let have: usize = kv
                .iter()
                .map(|(k, x)| crate::refamqp::enc_v(&V::Str(k.clone())).len() + crate::refamqp::enc_v(x).len())
                .sum();
            if let Some(n) = self.pad_len(have + 5) {
                kv.push(("pad".into(), V::Bin(self.fill(n))));
            }
        }
        kv
    }

    /// a message; annotations and footer only when the message is to be written by the simulated peer
    pub fn msg(&self, nest: u32) -> MsgM {
        let ch = &self.ch;
        let mut m = MsgM::default();
        let p = self.presence.max(2);
        if ch.chance(p, 18) {
            m.header = Some(self.comp(0x70));
        }
        if self.wire_only && ch.chance(p, 18) {
            m.da = Some(self.fields());
        }
        if self.wire_only && ch.chance(p, 18) {
            m.ma = Some(self.fields());
        }
        if ch.chance(p, 18) {
            m.props = Some(self.comp(0x73));
        }
        if ch.chance(p, 18) {
            let a = self.app_props();
            if !a.is_empty() || self.wire_only {
                m.ap = Some(a);
            }
        }
        let k = ch.below(10);
        if k >= 1 && k <= 5 {
            let n = match (k, ch.below(12)) {
                (5, 0) => 5 + ch.below(60),
                (5, _) => 1 + ch.below(4),
                _ => 1,
            };
            match self.sections() {
                Some(n) => m.data.extend((0..n).map(|i| if i % 3 == 2 { Vec::new() } else { (i as u16).to_be_bytes().to_vec() })),
                None => (0..n).for_each(|_| m.data.push(self.bytes())),
            }
        }
        if k == 6 || k == 9 {
            let few = if ch.chance(1, 16) { 4 + ch.below(20) } else { 1 + ch.below(3) };
            match self.sections() {
                Some(n) => m.seq.extend((0..n).map(|i| V::List(vec![self.tiny(i); i % 4]))),
                None => (0..few).for_each(|_| m.seq.push(V::List(self.items(self.depth, false)))),
            }
        }
        if k == 7 || k == 9 {
            m.value = Some(self.v(self.depth, false));
        }
        if k == 8 && nest > 0 {
            let few = if ch.chance(1, 16) { 4 + ch.below(14) } else { 1 + ch.below(3) };
            if let Some(n) = self.sections() {
                m.nested.extend((0..n).map(|i| BodyM::Bytes((i as u16).to_be_bytes().to_vec())));
            }
            for _ in 0..few {
                m.nested.push(if ch.chance(1, 4) {
                    BodyM::Bytes(self.bytes())
                } else {
                    BodyM::Msg(Box::new(self.msg(nest - 1)))
                });
            }
        }
        if self.wire_only && ch.chance(p, 18) {
            m.footer = Some(self.fields());
        }
        m
    }

    pub fn amqp_frame(&self) -> FM {
        let k = self.ch.weighted(&self.perfs);
        self.amqp_frame_of(k)
    }
    pub fn amqp_frame_of(&self, k: usize) -> FM {
        let ch = &self.ch;
        let chn = match ch.below(3) {
            0 => ch.below(8) as u16,
            1 => ch.pick(&[0u16, 1, 255, 256, 65535, 0x0102]),
            _ => ch.below(65536) as u16,
        };
        if k >= 9 {
            return FM { sasl: false, ch: chn, perf: V::Null, body: BodyM::None };
        }
        let code = spec::AMQP_PERFS[k];
        let perf = self.comp(code);
        let body = if code == 0x14 {
            match ch.below(4) {
                0 => BodyM::None,
                1 | 2 => BodyM::Bytes(self.bytes()),
                _ => BodyM::Msg(Box::new(self.msg(2))),
            }
        } else {
            BodyM::None
        };
        FM { sasl: false, ch: chn, perf, body }
    }
    pub fn sasl_frame(&self) -> FM {
        let c = self.ch.pick(spec::SASL_PERFS);
        FM { sasl: true, ch: 0, perf: self.comp(c), body: BodyM::None }
    }
    pub fn frame(&self, sasl: bool) -> FM {
        if sasl {
            self.sasl_frame()
        } else {
            self.amqp_frame()
        }
    }
    /// a transfer carrying exactly these bytes
    pub fn transfer(&self, chn: u16, body: BodyM) -> FM {
        FM { sasl: false, ch: chn, perf: self.comp(0x14), body }
    }
}

fn same_key(a: &V, b: &V) -> bool {
    a == b
}
