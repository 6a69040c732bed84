//! Scenario about names: C16. A router keeps its tables keyed by names it was configured with and
//! names it received, over connections that come and go.

use crate::drive::*;
use crate::ensure;
use crate::gen::{CHARS, G};
use crate::model::*;
use crate::refamqp::{enc_v, Enc};
use crate::scn_stream::ends_of;
use crate::tape::*;
use crate::typed::*;
use amqp_codec::protocol::Frame;
use amqp_codec::types::*;
use amqp_codec::{AmqpFrame, Decode};
use bytes::{Bytes, BytesMut};
use hashbrown::HashMap as HbMap;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// what a hasher is fed, byte for byte
#[derive(Default)]
struct Feed(Vec<u8>);
impl Hasher for Feed {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn feed<T: Hash + ?Sized>(x: &T) -> Vec<u8> {
    let mut h = Feed::default();
    x.hash(&mut h);
    h.0
}

struct Router {
    ch: Ch,
    texts: Vec<String>,
    strs: Vec<(usize, Str)>,
    syms: Vec<(usize, Symbol)>,
    // the tables
    by_str: HbMap<Str, u32>,
    by_sym: HashMap<Symbol, u32>,
    by_var: HbMap<Variant, u32>,
    sorted: BTreeMap<Str, u32>,
    set: BTreeSet<Str>,
    // what must be in them
    m_str: BTreeMap<String, u32>,
    m_sym: BTreeMap<String, u32>,
    m_var: BTreeMap<V, u32>,
    m_sorted: BTreeMap<String, u32>,
    m_set: BTreeSet<String>,
    next: u32,
}

fn bytestr(b: Bytes) -> ByteStr {
    match <ByteStr as string::TryFrom<Bytes>>::try_from(b) {
        Ok(x) => x,
        Err(_) => panic!("harness: utf8"),
    }
}

impl Router {
    /// a name made by the application
    fn local(&self, i: usize) -> Str {
        let ch = &self.ch;
        let t = &self.texts[i];
        match ch.below(5) {
            0 | 1 => {
                if let Some(x) = as_static(t) {
                    self.ch.probe("state.static_name");
                    if ch.coin() {
                        return Str::from(other_static(x));
                    }
                    return Str::from(x);
                }
                Str::from_str(t)
            }
            2 => Str::from_str(t),
            3 => Str::from(bytestr(Bytes::from(t.as_bytes()))),
            _ => {
                // a view into something longer
                let mut b = BytesMut::with_capacity(t.len() + 20);
                b.extend_from_slice(b"prefix");
                b.extend_from_slice(t.as_bytes());
                b.extend_from_slice(b"suffix");
                Str::from(bytestr(b.freeze().slice(6, 6 + t.len())))
            }
        }
    }
    fn any(&self) -> (usize, Str) {
        let ch = &self.ch;
        if !self.strs.is_empty() && ch.coin() {
            ch.probe("state.received_name");
            let (i, s) = &self.strs[ch.idx(self.strs.len())];
            return (*i, s.clone());
        }
        let i = ch.idx(self.texts.len());
        (i, self.local(i))
    }
    fn any_sym(&self) -> (usize, Symbol) {
        let ch = &self.ch;
        if !self.syms.is_empty() && ch.coin() {
            ch.probe("state.received_name");
            let (i, s) = &self.syms[ch.idx(self.syms.len())];
            return (*i, s.clone());
        }
        let i = ch.idx(self.texts.len());
        let s = match ch.below(3) {
            0 => Symbol::from_slice(&self.texts[i]),
            _ => Symbol(self.local(i)),
        };
        (i, s)
    }
    fn str_of(&self, i: usize) -> Str {
        let c: Vec<&Str> = self.strs.iter().filter(|x| x.0 == i).map(|x| &x.1).collect();
        if !c.is_empty() && self.ch.coin() {
            return c[self.ch.idx(c.len())].clone();
        }
        self.local(i)
    }
    /// the same value, held some other way
    fn build(&self, v: &V) -> Variant {
        let ch = &self.ch;
        let text = |s: &str| match self.texts.iter().position(|t| t == s) {
            Some(i) => self.str_of(i),
            None => Str::from_str(s),
        };
        match v {
            V::Str(s) => Variant::String(text(s)),
            V::Sym(s) => Variant::Symbol(Symbol(text(s))),
            V::List(xs) => Variant::List(List(xs.iter().map(|x| self.build(x)).collect())),
            V::Map(kv) => {
                let mut kv: Vec<&(V, V)> = kv.iter().collect();
                for i in (1..kv.len()).rev() {
                    kv.swap(i, ch.idx(i + 1));
                }
                let mut h = if ch.coin() { HbMap::new() } else { HbMap::with_capacity(ch.idx(200)) };
                if ch.chance(1, 4) {
                    // a table that has seen other entries
                    for k in 0..ch.below(40) {
                        h.insert(Variant::Ulong(0xdead_0000 + k), Variant::Null);
                    }
                    h.retain(|k, _| match k {
                        Variant::Ulong(x) => *x < 0xdead_0000 || *x >= 0xdead_0100,
                        _ => true,
                    });
                }
                for (k, x) in kv {
                    h.insert(self.build(k), self.build(x));
                }
                Variant::Map(VariantMap::new(h))
            }
            V::Desc(d, x) => Variant::Described((
                match &**d {
                    V::U64(x) => Descriptor::Ulong(*x),
                    V::Sym(s) => Descriptor::Symbol(Symbol(text(s))),
                    d => panic!("harness: descriptor {:?}", d),
                },
                Box::new(self.build(x)),
            )),
            V::Ts(ms) => {
                use chrono::{TimeZone, Utc};
                Variant::Timestamp(Utc.timestamp_millis(*ms))
            }
            V::Bin(b) => Variant::Binary(if ch.coin() { Bytes::from(b.clone()) } else { Bytes::from(&b[..]) }),
            v => Variant::un(v),
        }
    }
    fn received(&self, v: &V) -> Result<Variant, Viol> {
        let mut b = Vec::new();
        if self.ch.coin() {
            b = enc_v(v);
        } else {
            Enc::varied(&self.ch).v(&mut b, v);
        }
        match Variant::decode(&b) {
            Ok((r, x)) if r.is_empty() => Ok(x),
            r => viol("value-refused", format!("{:?}: {:?}", v, r.map(|x| x.1))),
        }
    }

    fn pair(&self) -> Res {
        let (i, a) = self.any();
        let (j, b) = if self.ch.coin() { (i, self.str_of(i)) } else { self.any() };
        let (s, t) = (&self.texts[i][..], &self.texts[j][..]);
        self.ch.ev(30, i as u64, j as u64);
        ensure!((a == b) == (s == t) && (b == a) == (s == t), "equality", "{:?} == {:?} is {}", a, b, a == b);
        ensure!((a != b) == (s != t), "equality", "{:?} != {:?} is {}", a, b, a != b);
        ensure!(a == *t && b == *s || s != t, "equality", "{:?} / {:?} does not equal the string {:?}", a, b, t);
        ensure!((a == *t) == (s == t), "equality", "{:?} == {:?} as a plain string", a, t);
        ensure!(a.cmp(&b) == s.cmp(t), "order", "{:?} cmp {:?} is {:?}", a, b, a.cmp(&b));
        ensure!(b.cmp(&a) == t.cmp(s), "order", "{:?} cmp {:?} is {:?}", b, a, b.cmp(&a));
        ensure!(a.partial_cmp(&b) == s.partial_cmp(t), "order", "{:?} partial_cmp {:?} is {:?}", a, b, a.partial_cmp(&b));
        ensure!((a < b) == (s < t) && (a >= b) == (s >= t), "order", "{:?} < {:?} is {}", a, b, a < b);
        ensure!(hash(&a) == hash(s), "hash", "{:?} does not hash like the string it borrows as", a);
        ensure!(feed(&a) == feed(s), "hash", "{:?} does not hash like the string it borrows as", a);
        let bo: &str = std::borrow::Borrow::borrow(&a);
        ensure!(bo == s, "text", "{:?} borrows as {:?}", a, bo);
        ensure!(a.as_str() == s && a.as_bytes() == s.as_bytes() && a.len() == s.len(), "text", "{:?} is not {:?}", a, s);
        let x = a.as_bytes_str();
        ensure!(&x[..] == s, "text", "{:?} converts to {:?}", a, &x[..]);
        self.alias(&a, s)?;
        // symbols
        let (i, p) = self.any_sym();
        let (j, q) = if self.ch.coin() { (i, Symbol(self.str_of(i))) } else { self.any_sym() };
        let (s, t) = (&self.texts[i][..], &self.texts[j][..]);
        ensure!((p == q) == (s == t) && (q == p) == (s == t), "equality", "{:?} == {:?} is {}", p, q, p == q);
        ensure!((p == *t) == (s == t), "equality", "{:?} == {:?} as a plain string", p, t);
        ensure!(feed(&p) == feed(s) && hash(&p) == hash(s), "hash", "{:?} does not hash like the string it borrows as", p);
        let bo: &str = std::borrow::Borrow::borrow(&p);
        ensure!(bo == s && p.as_str() == s && p.as_bytes() == s.as_bytes() && p.len() == s.len(), "text", "{:?} is not {:?}", p, s);
        let x = p.as_bytes_str();
        ensure!(&x[..] == s, "text", "{:?} converts to {:?}", p, &x[..]);
        // variants holding them
        let (va, vb) = (Variant::String(a.clone()), Variant::String(b.clone()));
        ensure!((va == vb) == (a == b), "equality", "{:?} == {:?} is {}", va, vb, va == vb);
        ensure!(va != vb || hash(&va) == hash(&vb), "hash", "equal values {:?} and {:?} hash differently", va, vb);
        ensure!(va == *a.as_str() && va.as_str() == Some(a.as_str()), "text", "{:?} is not {:?}", va, a);
        ensure!(va.as_bytes_str().map_or(false, |x| &x[..] == a.as_str()), "text", "{:?} is not {:?}", va, a);
        let (vp, vq) = (Variant::Symbol(p.clone()), Variant::Symbol(q.clone()));
        ensure!((vp == vq) == (p == q), "equality", "{:?} == {:?} is {}", vp, vq, vp == vq);
        ensure!(vp != vq || hash(&vp) == hash(&vq), "hash", "equal values {:?} and {:?} hash differently", vp, vq);
        ensure!(vp == *p.as_str() && vp.as_str() == Some(p.as_str()), "text", "{:?} is not {:?}", vp, p);
        ensure!(vp.as_bytes_str().map_or(false, |x| &x[..] == p.as_str()), "text", "{:?} is not {:?}", vp, p);
        ensure!(va != vp, "equality", "the string {:?} equals the symbol {:?}", va, vp);
        // and compared with texts that are nearly theirs
        for (v, s) in [(&va, a.as_str()), (&vp, p.as_str())].iter() {
            let other = &self.texts[self.ch.idx(self.texts.len())][..];
            let near = self.nearly(s);
            for t in [other, &near[..]].iter() {
                ensure!((**v == **t) == (s == t), "equality", "{:?} == {:?} as a plain string", v, t);
                ensure!((Str::from_str(t) == **s) == (s == t), "equality", "{:?} == {:?} as a plain string", t, s);
            }
            let x = Str::from_str(&near);
            ensure!((a == x) == (a.as_str() == near) && (p.0 == x) == (p.as_str() == near), "equality", "{:?} / {:?} == {:?}", a, p, near);
            ensure!(a.cmp(&x) == a.as_str().cmp(&near[..]), "order", "{:?} cmp {:?} is {:?}", a, near, a.cmp(&x));
            ensure!((p == Symbol(x)) == (p.as_str() == near), "equality", "{:?} == {:?}", p, near);
        }
        Ok(())
    }

    /// a text one step away: another case, another end, another order
    fn nearly(&self, s: &str) -> String {
        let ch = &self.ch;
        match ch.below(8) {
            0 => s.to_lowercase(),
            1 => s.to_uppercase(),
            2 => format!("{} ", s),
            3 => format!(" {}", s),
            4 => s.trim().to_string(),
            5 => s.chars().rev().collect(),
            _ => {
                // one letter in another case, or another letter
                let mut c: Vec<char> = s.chars().collect();
                if c.is_empty() {
                    return "\0".into();
                }
                let i = ch.idx(c.len());
                c[i] = match ch.below(3) {
                    0 => ch.pick(CHARS),
                    _ if c[i].is_ascii_lowercase() => c[i].to_ascii_uppercase(),
                    _ if c[i].is_ascii_uppercase() => c[i].to_ascii_lowercase(),
                    _ => '_',
                };
                c.into_iter().collect()
            }
        }
    }

    /// a part of a text that shares its memory is another text
    fn alias(&self, a: &Str, s: &str) -> Res {
        let ch = &self.ch;
        let cuts: Vec<usize> = (0..=s.len()).filter(|c| s.is_char_boundary(*c)).collect();
        let cut = cuts[ch.idx(cuts.len())];
        let head = ch.coin();
        let r = if head { 0..cut } else { cut..s.len() };
        let t = &s[r.clone()];
        let plain = &a.as_str()[r.clone()];
        ensure!((*a == *plain) == (s == t), "equality", "{:?} == {:?}, a part of it, as a plain string", a, plain);
        let b = match a {
            Str::Static(x) => Str::Static(&x[r.clone()]),
            Str::ByteStr(x) => Str::from(bytestr(x.get_ref().slice(r.start, r.end))),
        };
        ch.ev(31, s.len() as u64, t.len() as u64);
        ensure!((*a == b) == (s == t) && (b == *a) == (s == t), "equality", "{:?} == {:?}, a part of it", a, b);
        ensure!(b == *t && (b == *s) == (s == t), "equality", "{:?}, a part of {:?}, as a plain string", b, a);
        ensure!(a.cmp(&b) == s.cmp(t) && b.cmp(a) == t.cmp(s), "order", "{:?} cmp {:?}, a part of it, is {:?}", a, b, a.cmp(&b));
        ensure!(feed(&b) == feed(t), "hash", "{:?}, a part of {:?}, does not hash like its text", b, a);
        let (p, q) = (Symbol(a.clone()), Symbol(b.clone()));
        ensure!((p == q) == (s == t) && (p == *t) == (s == t) && (p == *plain) == (s == t), "equality", "{:?} == {:?}, a part of it", p, q);
        let (p, q) = (Variant::Symbol(p), Variant::Symbol(q));
        ensure!((p == q) == (s == t) && (p == *plain) == (s == t), "equality", "{:?} == {:?}, a part of it", p, q);
        let (p, q) = (Variant::String(a.clone()), Variant::String(b));
        ensure!((p == q) == (s == t) && (p == *plain) == (s == t), "equality", "{:?} == {:?}, a part of it", p, q);
        Ok(())
    }

    /// one value of any shape, made several ways
    fn value(&mut self, g: &G) -> Res {
        let v = self.shape(g, 3);
        let a = self.build(&v);
        let b = self.build(&v);
        let c = self.received(&v)?;
        let d = a.clone();
        self.ch.log(|| format!("compare the makings of {:?}", v));
        for (n, x) in [("rebuilt", &b), ("received", &c), ("cloned", &d)].iter() {
            ensure!(a == **x && **x == a, "equality", "{:?}: {} value differs: {:?} / {:?}", v, n, a, x);
            ensure!(hash(&a) == hash(*x), "hash", "{:?}: {} value is equal and hashes differently", v, n);
        }
        match &v {
            V::Str(_) | V::Sym(_) => (),
            _ => {
                let t = &self.texts[self.ch.idx(self.texts.len())];
                ensure!(
                    a.as_str().is_none() && a.as_bytes_str().is_none() && a != **t,
                    "text",
                    "{:?} is no text and reads as {:?}",
                    a,
                    a.as_str()
                );
            }
        }
        let w = self.shape(g, 3);
        let e = self.build(&w);
        ensure!((e == a) == (v == w), "equality", "{:?} == {:?} is {}", a, e, e == a);
        // and one step away
        if let V::Map(kv) = &v {
            if !kv.is_empty() {
                let mut kv = kv.clone();
                let k = self.ch.idx(kv.len());
                match self.ch.below(4) {
                    0 => {
                        kv.remove(k);
                    }
                    // another name for the same entry
                    1 => kv[k].0 = V::Desc(Box::new(V::U64(77)), Box::new(kv[k].0.clone())),
                    2 => kv.push((V::Desc(Box::new(V::U64(77)), Box::new(V::Null)), V::Null)),
                    _ => kv[k].1 = V::Desc(Box::new(V::U64(77)), Box::new(kv[k].1.clone())),
                }
                let f = self.build(&V::Map(kv));
                ensure!(f != a && a != f, "equality", "{:?} == {:?}", a, f);
            }
        }
        let x = self.edge(&v);
        if x != v {
            let f = self.build(&x);
            ensure!(f != a && a != f, "equality", "{:?} == {:?}, which is {:?}", a, f, x);
        }
        self.numbers()?;
        // as a key
        let n = self.next;
        self.next += 1;
        let old = self.by_var.insert(a, n);
        let mold = self.m_var.insert(v.clone(), n);
        ensure!(old == mold, "table", "binding {:?}: replaced {:?}, expected {:?}", v, old, mold);
        let keys: Vec<V> = self.m_var.keys().cloned().collect();
        let k = &keys[self.ch.idx(keys.len())];
        let probe = if self.ch.coin() { self.build(k) } else { self.received(k)? };
        let got = self.by_var.get(&probe).cloned();
        ensure!(got == self.m_var.get(k).cloned(), "table", "{:?} routes to {:?}, expected {:?}", k, got, self.m_var.get(k));
        if self.ch.chance(1, 4) {
            let got = self.by_var.remove(&probe);
            let want = self.m_var.remove(k);
            ensure!(got == want, "table", "unbinding {:?} removed {:?}, expected {:?}", k, got, want);
        }
        ensure!(self.by_var.len() == self.m_var.len(), "table", "{} bindings, expected {}", self.by_var.len(), self.m_var.len());
        Ok(())
    }
    /// a value next to this one: the same contents in another kind, or one part of it so changed
    fn edge(&self, v: &V) -> V {
        let ch = &self.ch;
        let int = |n: i128| -> V {
            let mut ks: Vec<V> = Vec::new();
            if let Ok(x) = u8::try_from(n) {
                ks.push(V::U8(x));
            }
            if let Ok(x) = u16::try_from(n) {
                ks.push(V::U16(x));
            }
            if let Ok(x) = u32::try_from(n) {
                ks.push(V::U32(x));
                ks.push(V::F32(x));
                if char::from_u32(x).is_some() {
                    ks.push(V::Char(x));
                }
            }
            if let Ok(x) = u64::try_from(n) {
                ks.push(V::U64(x));
                ks.push(V::F64(x));
            }
            if let Ok(x) = i8::try_from(n) {
                ks.push(V::I8(x));
            }
            if let Ok(x) = i16::try_from(n) {
                ks.push(V::I16(x));
            }
            if let Ok(x) = i32::try_from(n) {
                ks.push(V::I32(x));
                ks.push(V::F32((x as f32).to_bits()));
            }
            if let Ok(x) = i64::try_from(n) {
                ks.push(V::I64(x));
                ks.push(V::F64((x as f64).to_bits()));
                if (-(1i64 << 50)..1 << 50).contains(&x) {
                    ks.push(V::Ts(x));
                }
            }
            ks.push(V::Str(n.to_string()));
            ks[ch.idx(ks.len())].clone()
        };
        let text = |b: &[u8]| match (ch.below(3), std::str::from_utf8(b)) {
            (0, Ok(s)) => V::Str(s.into()),
            (1, Ok(s)) if s.is_ascii() => V::Sym(s.into()),
            _ => V::Bin(b.to_vec()),
        };
        if ch.chance(1, 6) {
            // wrapped
            return match ch.below(3) {
                0 => V::List(vec![v.clone()]),
                1 => V::Desc(Box::new(V::U64(ch.below(3))), Box::new(v.clone())),
                _ => V::Map(vec![(v.clone(), V::Null)]),
            };
        }
        match v {
            V::Null => ch.pick(&[V::Bool(false), V::List(vec![]), V::Map(vec![]), V::Bin(vec![]), V::Str("".into()), V::U8(0)]),
            V::Bool(b) => {
                if ch.coin() {
                    V::Bool(!*b)
                } else {
                    int(*b as i128)
                }
            }
            V::U8(x) => int(*x as i128),
            V::U16(x) => int(*x as i128),
            V::U32(x) | V::Char(x) => int(*x as i128),
            V::U64(x) => int(*x as i128),
            V::I8(x) => int(*x as i128),
            V::I16(x) => int(*x as i128),
            V::I32(x) => int(*x as i128),
            V::I64(x) | V::Ts(x) => int(*x as i128),
            V::F32(x) => V::F64((f32::from_bits(*x) as f64).to_bits()),
            V::F64(x) => V::F32((f64::from_bits(*x) as f32).to_bits()),
            V::Str(s) | V::Sym(s) => text(s.as_bytes()),
            V::Bin(b) => text(b),
            V::Uuid(b) => text(&b[..]),
            V::List(xs) => {
                let mut xs = xs.clone();
                if xs.is_empty() {
                    return V::Map(vec![]);
                }
                let i = ch.idx(xs.len());
                match ch.below(5) {
                    0 => {
                        xs.remove(i);
                    }
                    1 => xs.insert(i, xs[i].clone()),
                    2 => xs.rotate_left(1),
                    3 => xs.push(V::Null),
                    _ => xs[i] = self.edge(&xs[i]),
                }
                V::List(xs)
            }
            V::Map(kv) => {
                if kv.is_empty() {
                    return V::List(vec![]);
                }
                let mut kv = kv.clone();
                let i = ch.idx(kv.len());
                match ch.below(3) {
                    0 => return V::List(kv.into_iter().flat_map(|(k, x)| vec![k, x]).collect()),
                    1 => {
                        let k = self.edge(&kv[i].0);
                        if !kv.iter().any(|x| x.0 == k) {
                            kv[i].0 = k;
                        }
                    }
                    _ => kv[i].1 = self.edge(&kv[i].1),
                }
                V::map(kv)
            }
            V::Desc(d, x) => {
                let (mut d, mut x) = (d.clone(), x.clone());
                match ch.below(5) {
                    0 => return *x,
                    1 => x = Box::new(self.edge(&x)),
                    _ => {
                        *d = match &*d {
                            V::U64(n) => match ch.below(3) {
                                0 => V::U64(n ^ (1 << ch.below(64))),
                                1 => V::Sym(n.to_string()),
                                _ => V::Sym(u8::try_from(*n).ok().and_then(crate::spec::sym_of_code).unwrap_or("x").into()),
                            },
                            V::Sym(s) => match crate::spec::code_of_sym(s) {
                                Some(n) => V::U64(n as u64),
                                None => V::U64(s.len() as u64),
                            },
                            d => d.clone(),
                        }
                    }
                }
                V::Desc(d, x)
            }
            v => v.clone(),
        }
    }

    /// numbers: equal within a kind only, and equal ones hash alike
    fn numbers(&self) -> Res {
        let ch = &self.ch;
        let n = ch.pick(&[0i128, 1, 2, 127, 128, 255, 256, 65_535, 65_536, -1, -128, 0x7fff_ffff, 0xffff_ffff, 1_000, 0x24]);
        let of = |k: u64| -> Option<Variant> {
            Some(match k {
                0 => Variant::Ubyte(n.try_into().ok()?),
                1 => Variant::Ushort(n.try_into().ok()?),
                2 => Variant::Uint(n.try_into().ok()?),
                3 => Variant::Ulong(n.try_into().ok()?),
                4 => Variant::Byte(n.try_into().ok()?),
                5 => Variant::Short(n.try_into().ok()?),
                6 => Variant::Int(n.try_into().ok()?),
                7 => Variant::Long(n.try_into().ok()?),
                8 => Variant::Float((n as f32).into()),
                _ => Variant::Double((n as f64).into()),
            })
        };
        let (i, j) = (ch.below(10), ch.below(10));
        if let (Some(a), Some(b)) = (of(i), of(j)) {
            ensure!((a == b) == (i == j) && (b == a) == (i == j), "equality", "{:?} == {:?} is {}", a, b, a == b);
            ensure!(a != b || hash(&a) == hash(&b), "hash", "equal values {:?} and {:?} hash differently", a, b);
        }
        // reals: two notations may be one number
        let f = |ch: &Ch| -> f64 {
            ch.pick(&[
                0.0,
                -0.0,
                1.0,
                -1.0,
                0.5,
                f64::INFINITY,
                f64::NEG_INFINITY,
                f64::NAN,
                -f64::NAN,
                f64::from_bits(0x7ff8_dead_0000_0000),
                f64::from_bits(0xfff0_0000_2000_0001),
                f64::MIN_POSITIVE,
                1e-310,
                3e38,
            ])
        };
        let (x, y) = (f(ch), f(ch));
        ch.ev(32, x.to_bits(), y.to_bits());
        let single = ch.coin();
        let real = |x: f64| if single { Variant::Float((x as f32).into()) } else { Variant::Double(x.into()) };
        let (a, b) = (real(x), real(y));
        let (x, y) = if single { (x as f32 as f64, y as f32 as f64) } else { (x, y) };
        ensure!(a == a.clone() && hash(&a) == hash(&a.clone()), "equality", "{:?} differs from a copy of itself", a);
        ensure!((a == b) == (b == a), "equality", "{:?} == {:?} is {} and the other way {}", a, b, a == b, b == a);
        ensure!(a != b || hash(&a) == hash(&b), "hash", "equal values {:?} and {:?} hash differently", a, b);
        if x.is_nan() != y.is_nan() || (!x.is_nan() && x != y) {
            ensure!(a != b, "equality", "{:?} == {:?}", a, b);
        }
        let wrap = |v: Variant| match ch.below(2) {
            0 => Variant::List(List(vec![v])),
            _ => Variant::Described((Descriptor::Ulong(0x77), Box::new(v))),
        };
        let (p, q) = (wrap(a), wrap(b));
        ensure!(p != q || hash(&p) == hash(&q), "hash", "equal values {:?} and {:?} hash differently", p, q);
        Ok(())
    }

    fn shape(&self, g: &G, depth: u32) -> V {
        let ch = &self.ch;
        let t = |ch: &Ch| self.texts[ch.idx(self.texts.len())].clone();
        let sym = |ch: &Ch| {
            let s = t(ch);
            if s.is_ascii() {
                V::Sym(s)
            } else {
                V::Sym("sym".into())
            }
        };
        match ch.below(if depth == 0 { 5 } else { 9 }) {
            0 => V::Str(t(ch)),
            1 => sym(ch),
            2 | 3 => match g.v(0, true) {
                // described by the texts of the run only
                V::Str(_) => V::Str(t(ch)),
                V::Sym(_) => sym(ch),
                v => v,
            },
            4 => V::Bin(t(ch).into_bytes()),
            5 => V::List((0..ch.below(4)).map(|_| self.shape(g, depth - 1)).collect()),
            6 | 7 => {
                let mut kv: Vec<(V, V)> = Vec::new();
                for _ in 0..ch.below(6) {
                    let k = self.shape(g, depth - 1);
                    if !kv.iter().any(|x| x.0 == k) {
                        kv.push((k, self.shape(g, depth - 1)));
                    }
                }
                V::map(kv)
            }
            _ => V::Desc(
                Box::new(match ch.below(5) {
                    0 | 1 => V::U64(ch.below(3)),
                    2 => V::U64(crate::spec::COMPS[ch.idx(crate::spec::COMPS.len())].code as u64),
                    3 => V::Sym(crate::spec::COMPS[ch.idx(crate::spec::COMPS.len())].sym.into()),
                    _ => sym(ch),
                }),
                Box::new(self.shape(g, depth - 1)),
            ),
        }
    }

    fn bind(&mut self) -> Res {
        let (i, s) = self.any();
        let (j, y) = self.any_sym();
        let n = self.next;
        self.next += 1;
        self.ch.ev(31, i as u64, j as u64);
        self.ch.log(|| format!("bind {:?} and {:?}", s, y));
        let t = self.texts[i].clone();
        let u = self.texts[j].clone();
        let (a, b) = (self.by_str.insert(s.clone(), n), self.m_str.insert(t.clone(), n));
        ensure!(a == b, "table", "binding {:?}: replaced {:?}, expected {:?}", s, a, b);
        let (a, b) = (self.sorted.insert(s.clone(), n), self.m_sorted.insert(t.clone(), n));
        ensure!(a == b, "table", "binding {:?} in order: replaced {:?}, expected {:?}", s, a, b);
        let (a, b) = (self.set.insert(s.clone()), self.m_set.insert(t));
        ensure!(a == b, "table", "{:?} is new: {}, expected {}", s, a, b);
        let (a, b) = (self.by_sym.insert(y.clone(), n), self.m_sym.insert(u, n));
        ensure!(a == b, "table", "binding {:?}: replaced {:?}, expected {:?}", y, a, b);
        Ok(())
    }
    fn unbind(&mut self) -> Res {
        let (i, s) = self.any();
        let t = &self.texts[i][..];
        let plain = self.ch.coin();
        self.ch.ev(32, i as u64, 0);
        self.ch.log(|| format!("unbind {:?}", s));
        let a = if plain { self.by_str.remove(t) } else { self.by_str.remove(&s) };
        let b = self.m_str.remove(t);
        ensure!(a == b, "table", "unbinding {:?} removed {:?}, expected {:?}", s, a, b);
        let a = if plain { self.sorted.remove(t) } else { self.sorted.remove(&s) };
        let b = self.m_sorted.remove(t);
        ensure!(a == b, "table", "unbinding {:?} in order removed {:?}, expected {:?}", s, a, b);
        let a = self.set.remove(&s);
        let b = self.m_set.remove(t);
        ensure!(a == b, "table", "removing {:?}: {}, expected {}", s, a, b);
        let (j, y) = self.any_sym();
        let u = &self.texts[j][..];
        let a = if plain { self.by_sym.remove(u) } else { self.by_sym.remove(&y) };
        let b = self.m_sym.remove(u);
        ensure!(a == b, "table", "unbinding {:?} removed {:?}, expected {:?}", y, a, b);
        Ok(())
    }
    fn route(&self) -> Res {
        for (i, t) in self.texts.iter().enumerate() {
            let s = self.str_of(i);
            let y = Symbol(self.str_of(i));
            let want = self.m_str.get(t);
            ensure!(self.by_str.get(&s) == want, "table", "{:?} routes to {:?}, expected {:?}", s, self.by_str.get(&s), want);
            ensure!(self.by_str.get(&t[..]) == want, "table", "{:?} routes to {:?}, expected {:?}", t, self.by_str.get(&t[..]), want);
            let want = self.m_sorted.get(t);
            ensure!(self.sorted.get(&s) == want, "table", "{:?} routes to {:?} in order, expected {:?}", s, self.sorted.get(&s), want);
            ensure!(self.sorted.get(&t[..]) == want, "table", "{:?} routes to {:?} in order, expected {:?}", t, self.sorted.get(&t[..]), want);
            let want = self.m_sym.get(t);
            ensure!(self.by_sym.get(&y) == want, "table", "{:?} routes to {:?}, expected {:?}", y, self.by_sym.get(&y), want);
            ensure!(self.by_sym.get(&t[..]) == want, "table", "{:?} routes to {:?}, expected {:?}", t, self.by_sym.get(&t[..]), want);
            ensure!(self.set.contains(&s) == self.m_set.contains(t), "table", "{:?} in the set: {}", s, self.set.contains(&s));
        }
        let a: Vec<(&str, u32)> = self.sorted.iter().map(|(k, v)| (k.as_str(), *v)).collect();
        let b: Vec<(&str, u32)> = self.m_sorted.iter().map(|(k, v)| (&k[..], *v)).collect();
        ensure!(a == b, "order", "sorted bindings {:?}, expected {:?}", a, b);
        let mut v: Vec<Str> = (0..self.texts.len()).map(|i| self.str_of(i)).collect();
        v.extend(self.strs.iter().map(|x| x.1.clone()));
        let mut w: Vec<String> = v.iter().map(|x| x.as_str().to_string()).collect();
        v.sort();
        w.sort();
        let v: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
        ensure!(v == w, "order", "sorted {:?}, expected {:?}", v, w);
        ensure!(
            self.by_str.len() == self.m_str.len() && self.by_sym.len() == self.m_sym.len() && self.set.len() == self.m_set.len(),
            "table",
            "{}/{}/{} bindings, expected {}/{}/{}",
            self.by_str.len(),
            self.by_sym.len(),
            self.set.len(),
            self.m_str.len(),
            self.m_sym.len(),
            self.m_set.len()
        );
        Ok(())
    }
    /// a peer connects and announces names
    fn connect(&mut self, g: &G) -> Res {
        let ch = self.ch.clone();
        let mut kv = Vec::new();
        let mut caps = Vec::new();
        for (i, t) in self.texts.iter().enumerate() {
            if ch.coin() {
                kv.push((V::Sym(format!("k{}", i)), V::Str(t.clone())));
                if t.is_ascii() {
                    caps.push(V::Sym(t.clone()));
                    if ch.chance(1, 3) {
                        kv.push((V::Sym(format!("s{}", i)), V::Sym(t.clone())));
                    }
                }
            }
        }
        let mut p = g.comp(0x10);
        if let V::Comp(_, ref mut f) = p {
            f[7] = V::Array(caps);
            f[9] = V::map(kv);
        }
        let f = FM { sasl: false, ch: 0, perf: p, body: BodyM::None };
        let mut b = Enc::varied(&ch).frame(&f);
        if ch.chance(1, 5) {
            b.truncate(ch.idx(b.len()));
            ch.probe("fault.cut");
            ch.nontrivial();
        }
        let ends = ends_of(&b);
        let w = Watch { ends: &ends, valid: ends.len(), limit: 4, meter: None };
        let o = receive::<AmqpFrame>(&ch, &b, &w)?;
        for x in &o.frames {
            let open = match x.performative() {
                Frame::Open(o) => o,
                x => return viol("wrong-frame", format!("{:?}", x)),
            };
            // a fresh lookup by plain name in a received map
            let props = match &open.properties {
                Some(p) => p,
                None => return viol("wrong-frame", "properties lost".into()),
            };
            for (i, t) in self.texts.iter().enumerate() {
                match props.get(&format!("k{}", i)[..]) {
                    Some(Variant::String(s)) => {
                        ensure!(s.as_str() == t, "text", "{:?} received as {:?}", t, s);
                        self.strs.push((i, s.clone()));
                    }
                    None => (),
                    x => return viol("text", format!("{:?} received as {:?}", t, x)),
                }
                if let Some(Variant::Symbol(s)) = props.get(&format!("s{}", i)[..]) {
                    self.syms.push((i, s.clone()));
                }
            }
            for s in open.offered_capabilities.iter().flat_map(|x| x.iter()) {
                match self.texts.iter().position(|t| t == s.as_str()) {
                    Some(i) => self.syms.push((i, s.clone())),
                    None => return viol("text", format!("capability {:?} out of nowhere", s)),
                }
            }
        }
        // old connections' names go away
        while self.strs.len() > 24 {
            self.strs.remove(0);
        }
        while self.syms.len() > 24 {
            self.syms.remove(0);
        }
        Ok(())
    }
}

pub fn c16(ch: &Ch) -> Res {
    let g = G::small(ch);
    let mut texts: Vec<String> = Vec::new();
    let n = 2 + ch.idx(8);
    while texts.len() < n {
        let t = match ch.below(7) {
            0 | 1 | 2 => {
                let s = if ch.chance(1, 4) { spelled()[ch.idx(spelled().len())] } else { ch.pick(STATICS) };
                if s.len() > 40 && !ch.chance(1, 8) {
                    continue;
                }
                s.to_string()
            }
            3 if !texts.is_empty() => {
                // a near miss of another name
                let mut s = texts[ch.idx(texts.len())].clone();
                match ch.below(5) {
                    0 => s.push('a'),
                    1 => {
                        s.pop();
                    }
                    2 => s = s.to_uppercase(),
                    3 => s.push('\u{0}'),
                    _ => s.insert(0, 'a'),
                }
                s
            }
            4 => g.symbol(),
            _ => {
                g.set_budget(600);
                g.string()
            }
        };
        if !texts.contains(&t) {
            texts.push(t);
        } else if ch.chance(1, 4) {
            break;
        }
    }
    let mut r = Router {
        ch: ch.clone(),
        texts,
        strs: Vec::new(),
        syms: Vec::new(),
        by_str: HbMap::new(),
        by_sym: HashMap::new(),
        by_var: HbMap::new(),
        sorted: BTreeMap::new(),
        set: BTreeSet::new(),
        m_str: BTreeMap::new(),
        m_sym: BTreeMap::new(),
        m_var: BTreeMap::new(),
        m_sorted: BTreeMap::new(),
        m_set: BTreeSet::new(),
        next: 0,
    };
    let mut w = [2u64; 6];
    for x in w.iter_mut() {
        *x = ch.pick(&[2u64, 1, 6]);
    }
    for _ in 0..4 + ch.below(40) {
        match ch.weighted(&w) {
            0 => r.connect(&g)?,
            1 => r.bind()?,
            2 => r.unbind()?,
            3 => r.pair()?,
            4 => {
                g.set_budget(600);
                r.value(&g)?
            }
            _ => r.route()?,
        }
    }
    r.route()?;
    ch.nontrivial();
    Ok(())
}
