//! Independent AMQP 1.0 implementation: the simulated peer. Shares no code with the crate.
//!
//! The encoder makes, when given a tape, a random legal choice wherever the specification allows
//! several encodings. The decoder is three-valued: a value, `Invalid` (the bytes are not AMQP 1.0, or not
//! a frame of this layer), or `Unspec` (well-formed AMQP the crate does not claim to support, or a
//! tolerance stated with the property).

use crate::model::*;
use crate::spec::{self, Comp, FT};
use crate::tape::Ch;

// ---------------------------------------------------------------- encoder

pub struct Enc<'a> {
    pub ch: Option<&'a Ch>,
    /// one in `alt` choices takes a non-canonical alternative
    pub alt: u64,
}

fn be32(out: &mut Vec<u8>, x: u32) {
    out.extend_from_slice(&x.to_be_bytes());
}

impl<'a> Enc<'a> {
    pub fn canon() -> Enc<'static> {
        Enc { ch: None, alt: 0 }
    }
    pub fn varied(ch: &'a Ch) -> Enc<'a> {
        let alt = ch.pick(&[2u64, 3, 6, 1]);
        Enc { ch: Some(ch), alt }
    }
    fn alt(&self) -> bool {
        match self.ch {
            Some(c) if self.alt == 1 => c.coin(),
            Some(c) => c.chance(1, self.alt),
            None => false,
        }
    }

    fn var(&self, out: &mut Vec<u8>, c8: u8, c32: u8, b: &[u8]) {
        if b.len() <= 255 && !self.alt() {
            out.push(c8);
            out.push(b.len() as u8);
        } else {
            out.push(c32);
            be32(out, b.len() as u32);
        }
        out.extend_from_slice(b);
    }

    /// compound with content already encoded
    fn compound(&self, out: &mut Vec<u8>, c8: u8, c32: u8, count: usize, content: &[u8]) {
        if content.len() + 1 <= 255 && count <= 255 && !self.alt() {
            out.push(c8);
            out.push((content.len() + 1) as u8);
            out.push(count as u8);
        } else {
            out.push(c32);
            be32(out, (content.len() + 4) as u32);
            be32(out, count as u32);
        }
        out.extend_from_slice(content);
    }

    pub fn ulong(&self, out: &mut Vec<u8>, x: u64) {
        if x == 0 && !self.alt() {
            out.push(0x44);
        } else if x <= 255 && !self.alt() {
            out.push(0x53);
            out.push(x as u8);
        } else {
            out.push(0x80);
            out.extend_from_slice(&x.to_be_bytes());
        }
    }

    pub fn v(&self, out: &mut Vec<u8>, v: &V) {
        match v {
            V::Null => out.push(0x40),
            V::Bool(b) => {
                if self.alt() {
                    out.push(0x56);
                    out.push(*b as u8);
                } else {
                    out.push(if *b { 0x41 } else { 0x42 });
                }
            }
            V::U8(x) => {
                out.push(0x50);
                out.push(*x);
            }
            V::U16(x) => {
                out.push(0x60);
                out.extend_from_slice(&x.to_be_bytes());
            }
            V::U32(x) => {
                if *x == 0 && !self.alt() {
                    out.push(0x43);
                } else if *x <= 255 && !self.alt() {
                    out.push(0x52);
                    out.push(*x as u8);
                } else {
                    out.push(0x70);
                    be32(out, *x);
                }
            }
            V::U64(x) => self.ulong(out, *x),
            V::I8(x) => {
                out.push(0x51);
                out.push(*x as u8);
            }
            V::I16(x) => {
                out.push(0x61);
                out.extend_from_slice(&x.to_be_bytes());
            }
            V::I32(x) => {
                if (-128..=127).contains(x) && !self.alt() {
                    out.push(0x54);
                    out.push(*x as i8 as u8);
                } else {
                    out.push(0x71);
                    out.extend_from_slice(&x.to_be_bytes());
                }
            }
            V::I64(x) => {
                if (-128..=127).contains(x) && !self.alt() {
                    out.push(0x55);
                    out.push(*x as i8 as u8);
                } else {
                    out.push(0x81);
                    out.extend_from_slice(&x.to_be_bytes());
                }
            }
            V::F32(x) => {
                out.push(0x72);
                be32(out, *x);
            }
            V::F64(x) => {
                out.push(0x82);
                out.extend_from_slice(&x.to_be_bytes());
            }
            V::Char(x) => {
                out.push(0x73);
                be32(out, *x);
            }
            V::Ts(x) => {
                out.push(0x83);
                out.extend_from_slice(&x.to_be_bytes());
            }
            V::Uuid(x) => {
                out.push(0x98);
                out.extend_from_slice(x);
            }
            V::Bin(x) => self.var(out, 0xa0, 0xb0, x),
            V::Str(x) => self.var(out, 0xa1, 0xb1, x.as_bytes()),
            V::Sym(x) => self.var(out, 0xa3, 0xb3, x.as_bytes()),
            V::List(xs) => self.list(out, xs),
            V::Map(kv) => {
                let mut c = Vec::new();
                // entry order is free
                let n = kv.len();
                let rot = match self.ch {
                    Some(ch) if n > 1 => ch.idx(n),
                    _ => 0,
                };
                for i in 0..n {
                    let (k, x) = &kv[(i + rot) % n];
                    self.v(&mut c, k);
                    self.v(&mut c, x);
                }
                self.compound(out, 0xc1, 0xd1, 2 * n, &c);
            }
            V::Array(xs) => self.symbols(out, xs),
            V::Desc(d, x) => {
                out.push(0);
                self.v(out, d);
                self.v(out, x);
            }
            V::Comp(c, fs) => self.comp(out, *c, fs),
            V::Raw(b) => out.extend_from_slice(b),
        }
    }

    pub fn list(&self, out: &mut Vec<u8>, xs: &[V]) {
        let mut c = Vec::new();
        for x in xs {
            self.v(&mut c, x);
        }
        if xs.is_empty() && !self.alt() {
            out.push(0x45);
        } else {
            self.compound(out, 0xc0, 0xd0, xs.len(), &c);
        }
    }

    /// map with entries in the given order (may repeat keys)
    pub fn pairs(&self, out: &mut Vec<u8>, kv: &[(V, V)]) {
        let mut c = Vec::new();
        for (k, x) in kv {
            self.v(&mut c, k);
            self.v(&mut c, x);
        }
        self.compound(out, 0xc1, 0xd1, 2 * kv.len(), &c);
    }

    /// multiple symbols: single value or array
    fn symbols(&self, out: &mut Vec<u8>, xs: &[V]) {
        if xs.len() == 1 && !self.alt() {
            return self.v(out, &xs[0]);
        }
        let mut c = Vec::new();
        let short = xs.iter().all(|x| matches!(x, V::Sym(s) if s.len() <= 255));
        if short && self.alt() {
            c.push(0xa3);
            for x in xs {
                if let V::Sym(s) = x {
                    c.push(s.len() as u8);
                    c.extend_from_slice(s.as_bytes());
                }
            }
        } else {
            c.push(0xb3);
            for x in xs {
                if let V::Sym(s) = x {
                    be32(&mut c, s.len() as u32);
                    c.extend_from_slice(s.as_bytes());
                }
            }
        }
        self.compound(out, 0xe0, 0xf0, xs.len(), &c);
    }

    pub fn descriptor(&self, out: &mut Vec<u8>, code: u8) {
        out.push(0);
        let sym = spec::sym_of_code(code).unwrap();
        match self.ch {
            Some(ch) if self.alt() => match ch.below(3) {
                0 => {
                    out.push(0x80);
                    out.extend_from_slice(&u64::from(code).to_be_bytes());
                }
                1 => {
                    out.push(0xa3);
                    out.push(sym.len() as u8);
                    out.extend_from_slice(sym.as_bytes());
                }
                _ => {
                    out.push(0xb3);
                    be32(out, sym.len() as u32);
                    out.extend_from_slice(sym.as_bytes());
                }
            },
            _ => {
                out.push(0x53);
                out.push(code);
            }
        }
    }

    pub fn comp(&self, out: &mut Vec<u8>, code: u8, fs: &[V]) {
        let sp = spec::comp(code);
        self.descriptor(out, code);
        let mut n = fs.len();
        // trailing fields that are null or at their default may be left out
        if self.ch.is_some() {
            while n > 0 && !sp.fields[n - 1].mand && fs[n - 1] == sp.fields[n - 1].default() {
                if self.ch.unwrap().chance(1, 4) {
                    break;
                }
                n -= 1;
            }
        }
        let mut c = Vec::new();
        for (f, x) in sp.fields.iter().zip(fs).take(n) {
            if *x == f.default() && !f.mand && self.alt() {
                c.push(0x40);
            } else {
                self.v(&mut c, x);
            }
        }
        if n == 0 && self.ch.is_some() && !self.alt() {
            out.push(0x45);
        } else {
            self.compound(out, 0xc0, 0xd0, n, &c);
        }
    }

    pub fn section(&self, out: &mut Vec<u8>, code: u8, v: &V) {
        self.descriptor(out, code);
        self.v(out, v);
    }

    pub fn msg(&self, m: &MsgM) -> Vec<u8> {
        let mut out = Vec::new();
        match &m.header {
            Some(V::Comp(c, f)) => self.comp(&mut out, *c, f),
            Some(V::Raw(b)) => out.extend_from_slice(b),
            _ => (),
        }
        if let Some(x) = &m.da {
            self.section(&mut out, 0x71, x);
        }
        if let Some(x) = &m.ma {
            self.section(&mut out, 0x72, x);
        }
        match &m.props {
            Some(V::Comp(c, f)) => self.comp(&mut out, *c, f),
            Some(V::Raw(b)) => out.extend_from_slice(b),
            _ => (),
        }
        if let Some(x) = &m.ap {
            self.descriptor(&mut out, 0x74);
            let kv: Vec<(V, V)> = x.iter().map(|(k, v)| (V::Str(k.clone()), v.clone())).collect();
            self.pairs(&mut out, &kv);
        }
        for d in &m.data {
            self.section(&mut out, 0x75, &V::Bin(d.clone()));
        }
        for d in &m.seq {
            self.section(&mut out, 0x76, d);
        }
        if let Some(x) = &m.value {
            self.section(&mut out, 0x77, x);
        }
        for n in &m.nested {
            let b = self.body(n);
            self.section(&mut out, 0x75, &V::Bin(b));
        }
        if m.data.is_empty() && m.seq.is_empty() && m.value.is_none() && m.nested.is_empty() {
            self.section(&mut out, 0x75, &V::Bin(Vec::new()));
        }
        if let Some(x) = &m.footer {
            self.section(&mut out, 0x78, x);
        }
        out
    }

    pub fn body(&self, b: &BodyM) -> Vec<u8> {
        match b {
            BodyM::None => Vec::new(),
            BodyM::Bytes(b) => b.clone(),
            BodyM::Msg(m) => self.msg(m),
        }
    }

    /// a whole frame including its length prefix
    pub fn frame(&self, f: &FM) -> Vec<u8> {
        let mut c = Vec::new();
        let mut doff = 2u8;
        let mut chn = if f.sasl { 0 } else { f.ch };
        if let Some(ch) = self.ch {
            if ch.chance(1, 6) {
                doff = ch.pick(&[3u8, 4, 7, 255, 64]);
                ch.probe("ref.ext_header");
            }
            if f.sasl && ch.chance(1, 3) {
                chn = ch.below(65536) as u16;
            }
        }
        c.push(doff);
        c.push(f.sasl as u8);
        c.extend_from_slice(&chn.to_be_bytes());
        for i in 0..(doff as usize - 2) * 4 {
            c.push((i as u8).wrapping_mul(37) ^ doff);
        }
        match &f.perf {
            V::Comp(code, fs) => self.comp(&mut c, *code, fs),
            V::Raw(b) => c.extend_from_slice(b),
            _ => (),
        }
        c.extend_from_slice(&self.body(&f.body));
        let mut out = Vec::with_capacity(c.len() + 4);
        be32(&mut out, (c.len() + 4) as u32);
        out.extend_from_slice(&c);
        out
    }
}

pub fn enc_v(v: &V) -> Vec<u8> {
    let mut o = Vec::new();
    Enc::canon().v(&mut o, v);
    o
}

// ---------------------------------------------------------------- decoder

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    Invalid(&'static str),
    Unspec(&'static str),
}
pub type D<T> = Result<T, Bad>;
fn inv<T>(s: &'static str) -> D<T> {
    Err(Bad::Invalid(s))
}
fn uns<T>(s: &'static str) -> D<T> {
    Err(Bad::Unspec(s))
}

thread_local! {
    static LENIENT: std::cell::Cell<bool> = std::cell::Cell::new(false);
    static TOLERATED: std::cell::Cell<Option<&'static str>> = std::cell::Cell::new(None);
}
/// a deviation the properties allow a receiver to accept, reading the rest as if it were not there
fn tol(s: &'static str) -> D<()> {
    if LENIENT.with(|x| x.get()) {
        TOLERATED.with(|x| x.set(Some(s)));
        Ok(())
    } else {
        uns(s)
    }
}

pub const NOT_ASCII: &str = "symbol is not ASCII";

/// What a receiver may make of some bytes.
#[derive(Clone, Debug, PartialEq)]
pub enum Verdict<T> {
    /// well-formed: this value
    Valid(T),
    /// this value or an error
    Tolerated(T, &'static str),
    /// an error
    Invalid(&'static str),
    /// no statement
    Unspec(&'static str),
}
pub fn judge<T, F: FnOnce() -> D<T>>(f: F) -> Verdict<T> {
    LENIENT.with(|x| x.set(true));
    TOLERATED.with(|x| x.set(None));
    let r = f();
    LENIENT.with(|x| x.set(false));
    match (r, TOLERATED.with(|x| x.get())) {
        (Ok(v), None) => Verdict::Valid(v),
        (Ok(v), Some(s)) => Verdict::Tolerated(v, s),
        (Err(Bad::Invalid(s)), _) => Verdict::Invalid(s),
        (Err(Bad::Unspec(s)), _) => Verdict::Unspec(s),
    }
}

/// at the start of a run: an earlier run may have ended inside `judge`
pub fn reset() {
    LENIENT.with(|x| x.set(false));
    TOLERATED.with(|x| x.set(None));
}

/// nesting beyond this is outside what the properties promise to accept
pub const DEPTH: u32 = 24;

pub struct Rd<'a> {
    pub b: &'a [u8],
}

impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> D<&'a [u8]> {
        if self.b.len() < n {
            return inv("value runs past its container");
        }
        let (a, b) = self.b.split_at(n);
        self.b = b;
        Ok(a)
    }
    fn u8(&mut self) -> D<u8> {
        Ok(self.take(1)?[0])
    }
    fn n<const N: usize>(&mut self) -> D<[u8; N]> {
        let mut a = [0u8; N];
        a.copy_from_slice(self.take(N)?);
        Ok(a)
    }
    fn u32(&mut self) -> D<u32> {
        Ok(u32::from_be_bytes(self.n()?))
    }
    fn var(&mut self, wide: bool) -> D<&'a [u8]> {
        let n = if wide { self.u32()? as usize } else { self.u8()? as usize };
        self.take(n)
    }
    /// (content, count)
    fn compound(&mut self, wide: bool) -> D<(Rd<'a>, u32)> {
        let size = if wide { self.u32()? as usize } else { self.u8()? as usize };
        let c = if wide { 4 } else { 1 };
        if size < c {
            return inv("compound size smaller than its count");
        }
        let mut inner = Rd { b: self.take(size)? };
        let count = if wide { inner.u32()? } else { u32::from(inner.u8()?) };
        Ok((inner, count))
    }

    fn text(b: &[u8]) -> D<String> {
        match std::str::from_utf8(b) {
            Ok(s) => Ok(s.to_string()),
            Err(_) => inv("text is not UTF-8"),
        }
    }
    fn symbol(b: &[u8]) -> D<String> {
        let s = Self::text(b)?;
        if !s.is_ascii() {
            tol(NOT_ASCII)?;
        }
        Ok(s)
    }

    pub fn value(&mut self, depth: u32) -> D<V> {
        let c = self.u8()?;
        self.value_with(c, depth)
    }

    fn value_with(&mut self, c: u8, depth: u32) -> D<V> {
        if depth > DEPTH {
            return uns("nesting depth");
        }
        Ok(match c {
            0x00 => {
                let d = self.u8()?;
                let d = match d {
                    0x80 | 0x53 | 0x44 | 0xa3 | 0xb3 => self.value_with(d, depth + 1)?,
                    _ => return uns("descriptor of another type"),
                };
                let v = self.value(depth + 1)?;
                V::Desc(Box::new(d), Box::new(v))
            }
            0x40 => V::Null,
            0x41 => V::Bool(true),
            0x42 => V::Bool(false),
            0x56 => match self.u8()? {
                0 => V::Bool(false),
                1 => V::Bool(true),
                _ => {
                    tol("boolean byte other than 0 and 1")?;
                    V::Bool(true)
                }
            },
            0x43 => V::U32(0),
            0x44 => V::U64(0),
            0x45 => V::List(vec![]),
            0x50 => V::U8(self.u8()?),
            0x51 => V::I8(self.u8()? as i8),
            0x52 => V::U32(u32::from(self.u8()?)),
            0x53 => V::U64(u64::from(self.u8()?)),
            0x54 => V::I32(i32::from(self.u8()? as i8)),
            0x55 => V::I64(i64::from(self.u8()? as i8)),
            0x60 => V::U16(u16::from_be_bytes(self.n()?)),
            0x61 => V::I16(i16::from_be_bytes(self.n()?)),
            0x70 => V::U32(self.u32()?),
            0x71 => V::I32(i32::from_be_bytes(self.n()?)),
            0x72 => V::F32(self.u32()?),
            0x73 => {
                let x = self.u32()?;
                if char::from_u32(x).is_none() {
                    return inv("not a Unicode scalar");
                }
                V::Char(x)
            }
            0x80 => V::U64(u64::from_be_bytes(self.n()?)),
            0x81 => V::I64(i64::from_be_bytes(self.n()?)),
            0x82 => V::F64(u64::from_be_bytes(self.n()?)),
            0x83 => self.ts()?,
            0x98 => V::Uuid(self.n()?),
            0xa0 | 0xb0 => V::Bin(self.var(c == 0xb0)?.to_vec()),
            0xa1 | 0xb1 => V::Str(Self::text(self.var(c == 0xb1)?)?),
            0xa3 | 0xb3 => V::Sym(Self::symbol(self.var(c == 0xb3)?)?),
            0xc0 | 0xd0 => {
                let (mut r, n) = self.compound(c == 0xd0)?;
                let mut xs = Vec::new();
                for _ in 0..n {
                    xs.push(r.value(depth + 1)?);
                }
                if !r.b.is_empty() {
                    tol("surplus bytes in list")?;
                }
                V::List(xs)
            }
            0xc1 | 0xd1 => V::Map(self.map_with(c, depth, |r, d| r.value(d), |r, d| r.value(d))?),
            0x74 | 0x84 | 0x94 => return uns("decimal"),
            0xe0 | 0xf0 => return uns("array as a value"),
            _ => return inv("unknown format code"),
        })
    }

    fn ts(&mut self) -> D<V> {
        let x = i64::from_be_bytes(self.n()?);
        if !(TS_MIN..=TS_MAX).contains(&x) {
            return uns("timestamp outside the range the crate can represent");
        }
        Ok(V::Ts(x))
    }

    fn map_with<K, X>(&mut self, c: u8, depth: u32, k: K, x: X) -> D<Vec<(V, V)>>
    where
        K: Fn(&mut Rd<'a>, u32) -> D<V>,
        X: Fn(&mut Rd<'a>, u32) -> D<V>,
    {
        let (mut r, n) = self.compound(c == 0xd1)?;
        let mut kv = Vec::new();
        for _ in 0..n / 2 {
            let a = k(&mut r, depth + 1)?;
            let b = x(&mut r, depth + 1)?;
            kv.push((a, b));
        }
        if n % 2 == 1 {
            tol("odd number of map items")?;
        }
        if !r.b.is_empty() {
            tol("surplus bytes in map")?;
        }
        let mut keys: Vec<V> = kv.iter().map(|(k, _)| norm_key(k)).collect();
        keys.sort();
        if keys.windows(2).any(|w| w[0] == w[1]) {
            return uns("repeated map key");
        }
        kv.sort();
        Ok(kv)
    }

    fn sym_key(&mut self) -> D<V> {
        match self.u8()? {
            0xa3 => Ok(V::Sym(Self::symbol(self.var(false)?)?)),
            0xb3 => Ok(V::Sym(Self::symbol(self.var(true)?)?)),
            0x44 | 0x53 | 0x80 => uns("ulong annotation key"),
            _ => inv("map key is not a symbol"),
        }
    }
    fn str_key(&mut self) -> D<V> {
        match self.u8()? {
            0xa1 => Ok(V::Str(Self::text(self.var(false)?)?)),
            0xb1 => Ok(V::Str(Self::text(self.var(true)?)?)),
            _ => inv("map key is not a string"),
        }
    }

    /// map of symbol to any value
    pub fn fields(&mut self, depth: u32) -> D<V> {
        let c = self.u8()?;
        if c != 0xc1 && c != 0xd1 {
            return inv("not a map");
        }
        Ok(V::Map(self.map_with(c, depth, |r, _| r.sym_key(), |r, d| r.value(d))?))
    }
    pub fn app_props(&mut self) -> D<Vec<(V, V)>> {
        let c = self.u8()?;
        if c != 0xc1 && c != 0xd1 {
            return inv("not a map");
        }
        self.map_with(c, 0, |r, _| r.str_key(), |r, d| r.value(d))
    }
    fn filter_value(&mut self) -> D<V> {
        match self.u8()? {
            0x40 => Ok(V::Null),
            0xa1 => Ok(V::Str(Self::text(self.var(false)?)?)),
            0xb1 => Ok(V::Str(Self::text(self.var(true)?)?)),
            _ => uns("filter value of another type"),
        }
    }

    fn symbols(&mut self, c: u8) -> D<V> {
        match c {
            0xa3 | 0xb3 => Ok(V::Array(vec![V::Sym(Self::symbol(self.var(c == 0xb3)?)?)])),
            0xe0 | 0xf0 => {
                let (mut r, n) = self.compound(c == 0xf0)?;
                if r.b.is_empty() {
                    return if n == 0 { uns("array without constructor") } else { inv("array without constructor") };
                }
                let ctor = r.u8()?;
                if ctor == 0 {
                    return uns("array with a described constructor");
                }
                if ctor != 0xa3 && ctor != 0xb3 {
                    return if n == 0 { uns("empty array of another type") } else { inv("array item is not a symbol") };
                }
                let mut xs = Vec::new();
                for _ in 0..n {
                    xs.push(V::Sym(Self::symbol(r.var(ctor == 0xb3)?)?));
                }
                if !r.b.is_empty() {
                    tol("surplus bytes in array")?;
                }
                Ok(V::Array(xs))
            }
            _ => inv("not a symbol or array of symbols"),
        }
    }

    pub fn descriptor(&mut self) -> D<u64> {
        if self.u8()? != 0 {
            return inv("not a described type");
        }
        let c = self.u8()?;
        match c {
            0x44 => Ok(0),
            0x53 => Ok(u64::from(self.u8()?)),
            0x80 => Ok(u64::from_be_bytes(self.n()?)),
            0xa3 | 0xb3 => {
                let s = Self::text(self.var(c == 0xb3)?)?;
                match spec::code_of_sym(&s) {
                    Some(x) => Ok(u64::from(x)),
                    None => Ok(u64::MAX),
                }
            }
            _ => inv("descriptor is neither ulong nor symbol"),
        }
    }

    fn nested(&mut self, ok: &[u8], depth: u32) -> D<V> {
        let d = self.descriptor()?;
        if d <= 255 && ok.contains(&(d as u8)) {
            return self.comp_body(spec::comp(d as u8), depth + 1);
        }
        if (0x30..=0x34).contains(&d) {
            return uns("transaction type");
        }
        inv("wrong descriptor for the field")
    }

    fn field(&mut self, ty: FT, depth: u32) -> D<V> {
        // composite-typed and map-typed fields look at the code themselves
        match ty {
            FT::Comp(x) => return self.nested(&[x], depth),
            FT::State => return self.nested(&[0x23, 0x24, 0x25, 0x26, 0x27], depth),
            FT::Outcome => return self.nested(&[0x24, 0x25, 0x26, 0x27], depth),
            FT::Fields => return self.fields(depth),
            _ => (),
        }
        let c = self.u8()?;
        match (ty, c) {
            (FT::Bool, 0x41) | (FT::Bool, 0x42) | (FT::Bool, 0x56) => self.value_with(c, depth),
            (FT::U8, 0x50) | (FT::U16, 0x60) => self.value_with(c, depth),
            (FT::U32, 0x43) | (FT::U32, 0x52) | (FT::U32, 0x70) => self.value_with(c, depth),
            (FT::U64, 0x44) | (FT::U64, 0x53) | (FT::U64, 0x80) => self.value_with(c, depth),
            (FT::Ts, 0x83) => self.value_with(c, depth),
            (FT::Bin, 0xa0) | (FT::Bin, 0xb0) => self.value_with(c, depth),
            (FT::Str, 0xa1) | (FT::Str, 0xb1) => self.value_with(c, depth),
            (FT::Sym, 0xa3) | (FT::Sym, 0xb3) => self.value_with(c, depth),
            (FT::EnumU8(n), 0x50) => match self.u8()? {
                x if x <= n => Ok(V::U8(x)),
                _ => inv("unknown enumeration value"),
            },
            (FT::EnumU32(n), 0x43) | (FT::EnumU32(n), 0x52) | (FT::EnumU32(n), 0x70) => match self.value_with(c, depth)? {
                V::U32(x) if x <= n => Ok(V::U32(x)),
                _ => inv("unknown enumeration value"),
            },
            (FT::EnumSym(xs), 0xa3) | (FT::EnumSym(xs), 0xb3) => {
                let s = Self::text(self.var(c == 0xb3)?)?;
                if xs.contains(&s.as_str()) {
                    Ok(V::Sym(s))
                } else {
                    inv("unknown enumeration value")
                }
            }
            (FT::Map, 0xc1) | (FT::Map, 0xd1) => self.value_with(c, depth),
            (FT::Filter, 0xc1) | (FT::Filter, 0xd1) => {
                Ok(V::Map(self.map_with(c, depth, |r, _| r.sym_key(), |r, _| r.filter_value())?))
            }
            (FT::Symbols, _) => self.symbols(c),
            (FT::MsgId, 0x44) | (FT::MsgId, 0x53) | (FT::MsgId, 0x80) => self.value_with(c, depth),
            (FT::MsgId, 0x98) | (FT::MsgId, 0xa0) | (FT::MsgId, 0xb0) => self.value_with(c, depth),
            (FT::MsgId, 0xa1) | (FT::MsgId, 0xb1) => self.value_with(c, depth),
            _ => inv("field of the wrong type"),
        }
    }

    /// after the descriptor
    pub fn comp_body(&mut self, sp: &'static Comp, depth: u32) -> D<V> {
        if depth > DEPTH {
            return uns("nesting depth");
        }
        let c = self.u8()?;
        let (mut r, n) = match c {
            0x45 => (Rd { b: &[] }, 0),
            0xc0 | 0xd0 => self.compound(c == 0xd0)?,
            _ => return inv("composite is not a list"),
        };
        let mut fs = Vec::new();
        for (i, f) in sp.fields.iter().enumerate() {
            if i as u32 >= n {
                if f.mand {
                    return inv("mandatory field omitted");
                }
                fs.push(f.default());
                continue;
            }
            if r.b.first() == Some(&0x40) {
                if f.mand {
                    return inv("mandatory field is null");
                }
                r.b = &r.b[1..];
                fs.push(f.default());
                continue;
            }
            fs.push(r.field(f.ty, depth)?);
        }
        if n as usize > sp.fields.len() {
            tol("surplus fields")?;
        }
        if !r.b.is_empty() {
            tol("surplus bytes in composite")?;
        }
        Ok(V::Comp(sp.code, fs))
    }
}

/// keys that the crate treats as one (ordered-float equality)
fn norm_key(k: &V) -> V {
    match k {
        V::F32(x) => {
            let f = f32::from_bits(*x);
            V::F32(if f.is_nan() {
                0x7fc0_0000
            } else if f == 0.0 {
                0
            } else {
                *x
            })
        }
        V::F64(x) => {
            let f = f64::from_bits(*x);
            V::F64(if f.is_nan() {
                0x7ff8_0000_0000_0000
            } else if f == 0.0 {
                0
            } else {
                *x
            })
        }
        V::List(xs) => V::List(xs.iter().map(norm_key).collect()),
        V::Map(kv) => V::map(kv.iter().map(|(a, b)| (norm_key(a), norm_key(b))).collect()),
        V::Desc(a, b) => V::Desc(a.clone(), Box::new(norm_key(b))),
        x => x.clone(),
    }
}

/// chrono's DateTime<Utc> covers these milliseconds (a little inside its true limits)
pub const TS_MIN: i64 = -8_334_000_000_000_000;
pub const TS_MAX: i64 = 8_210_000_000_000_000;

/// A frame body: everything after the 4-byte length.
pub fn frame_body(b: &[u8], sasl: bool) -> D<FM> {
    if b.len() < 4 {
        return inv("frame shorter than its header");
    }
    let doff = b[0] as usize * 4;
    if doff < 8 {
        return inv("data offset below 2");
    }
    if doff > b.len() + 4 {
        return inv("data offset past the frame end");
    }
    if b[1] != sasl as u8 {
        return inv("wrong frame type");
    }
    let ch = u16::from_be_bytes([b[2], b[3]]);
    let mut r = Rd { b: &b[doff - 4..] };
    if r.b.is_empty() {
        if sasl {
            return inv("empty SASL frame");
        }
        return Ok(FM { sasl, ch, perf: V::Null, body: BodyM::None });
    }
    let d = r.descriptor()?;
    let ok = if sasl { spec::SASL_PERFS } else { spec::AMQP_PERFS };
    if d > 255 || !ok.contains(&(d as u8)) {
        return inv("unknown or wrong-layer descriptor");
    }
    let perf = r.comp_body(spec::comp(d as u8), 0)?;
    let body = if d == 0x14 && !r.b.is_empty() {
        BodyM::Bytes(r.b.to_vec())
    } else {
        if !r.b.is_empty() {
            return inv("bytes left over after the performative");
        }
        BodyM::None
    };
    Ok(FM { sasl, ch: if sasl { 0 } else { ch }, perf, body })
}

/// Message sections, in any order the crate can write them.
pub fn message(b: &[u8]) -> D<WireMsg> {
    let mut r = Rd { b };
    let mut m = WireMsg::default();
    loop {
        let d = r.descriptor()?;
        let code = if d <= 255 { d as u8 } else { 0 };
        macro_rules! once {
            ($x:expr) => {
                if $x.is_some() {
                    return uns("repeated section");
                }
            };
        }
        match code {
            0x70 => {
                once!(m.header);
                m.header = Some(r.comp_body(spec::comp(0x70), 0)?);
            }
            0x71 => {
                once!(m.da);
                m.da = Some(r.fields(0)?);
            }
            0x72 => {
                once!(m.ma);
                m.ma = Some(r.fields(0)?);
            }
            0x73 => {
                once!(m.props);
                m.props = Some(r.comp_body(spec::comp(0x73), 0)?);
            }
            0x74 => {
                once!(m.ap);
                m.ap = Some(r.app_props()?);
            }
            0x75 => {
                let c = r.u8()?;
                if c != 0xa0 && c != 0xb0 {
                    return inv("data section is not binary");
                }
                m.data.push(r.var(c == 0xb0)?.to_vec());
            }
            0x76 => {
                let c = r.u8()?;
                if c != 0x45 && c != 0xc0 && c != 0xd0 {
                    return inv("sequence section is not a list");
                }
                m.seq.push(r.value_with(c, 0)?);
            }
            0x77 => {
                once!(m.value);
                m.value = Some(r.value(0)?);
            }
            0x78 => {
                once!(m.footer);
                m.footer = Some(r.fields(0)?);
            }
            _ => return inv("unknown section descriptor"),
        }
        m.order.push(code);
        if r.b.is_empty() {
            break;
        }
    }
    Ok(m)
}

/// Split a byte stream by its length prefixes: (complete frames including prefix, leftover)
pub fn split(b: &[u8]) -> (Vec<&[u8]>, &[u8]) {
    let mut out = Vec::new();
    let mut r = b;
    while r.len() >= 4 {
        let n = u32::from_be_bytes([r[0], r[1], r[2], r[3]]) as usize;
        if n < 8 || r.len() < n {
            break;
        }
        let (a, c) = r.split_at(n);
        out.push(a);
        r = c;
    }
    (out, r)
}

/// A primitive array: (constructor, items)
pub fn array(b: &[u8]) -> D<(u8, Vec<V>)> {
    let mut r = Rd { b };
    let c = r.u8()?;
    if c != 0xe0 && c != 0xf0 {
        return inv("not an array");
    }
    let (mut a, n) = r.compound(c == 0xf0)?;
    let ctor = a.u8()?;
    let mut xs = Vec::new();
    for _ in 0..n {
        xs.push(a.value_with(ctor, 1)?);
    }
    if !r.b.is_empty() {
        return inv("bytes left over after the array");
    }
    if !a.b.is_empty() {
        tol("surplus bytes in an array")?;
    }
    Ok((ctor, xs))
}

/// One value and nothing else.
pub fn single(b: &[u8]) -> D<V> {
    let mut r = Rd { b };
    let v = r.value(0)?;
    if !r.b.is_empty() {
        return inv("bytes left over after the value");
    }
    Ok(v)
}
/// One composite and nothing else.
pub fn single_comp(b: &[u8], code: u8) -> D<V> {
    let mut r = Rd { b };
    let v = r.nested(&[code], 0)?;
    if !r.b.is_empty() {
        return inv("bytes left over after the composite");
    }
    Ok(v)
}
/// A transfer; whatever follows is its payload.
pub fn single_transfer(b: &[u8]) -> D<V> {
    Rd { b }.nested(&[0x14], 0)
}
/// One multiple-symbol field and nothing else.
pub fn single_symbols(b: &[u8]) -> D<V> {
    let mut r = Rd { b };
    let c = r.u8()?;
    let v = r.symbols(c)?;
    if !r.b.is_empty() {
        return inv("bytes left over after the field");
    }
    Ok(v)
}
