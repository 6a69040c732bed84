//! Every kind of value that can be encoded on its own: how to draw one, write and read it with the
//! real codec, and write and read it with the independent implementation.

use crate::gen::G;
use crate::model::*;
use crate::refamqp::{array, message, single, single_comp, single_symbols, Enc, D};
use crate::spec::{self, FT};
use crate::tape::Ch;
use crate::typed::M;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{Decode, Encode};
use bytes::{Bytes, BytesMut};
use chrono::{DateTime, Utc};
use hashbrown::HashMap;

use uuid::Uuid;

macro_rules! num {
    ($t:ty, $k:ident, $get:expr, $mk:expr) => {
        impl M for $t {
            fn m(&self) -> V {
                V::$k($get(*self))
            }
            fn un(v: &V) -> Self {
                match v {
                    V::$k(x) => $mk(*x),
                    _ => panic!("harness: model value {:?} does not fit the type", v),
                }
            }
        }
    };
}
fn id<T>(x: T) -> T {
    x
}
num!(i8, I8, id, id);
num!(i16, I16, id, id);
num!(i32, I32, id, id);
num!(i64, I64, id, id);
num!(f32, F32, f32::to_bits, f32::from_bits);
num!(f64, F64, f64::to_bits, f64::from_bits);
num!(char, Char, u32::from, |x| char::from_u32(x).unwrap());

impl<T: M> M for Vec<T> {
    fn m(&self) -> V {
        V::Array(self.iter().map(|x| x.m()).collect())
    }
    fn un(v: &V) -> Self {
        match v {
            V::Array(xs) => xs.iter().map(T::un).collect(),
            _ => panic!("harness: model value {:?} does not fit the type", v),
        }
    }
}
impl M for VecVariantMap {
    fn m(&self) -> V {
        V::map(self.0.iter().map(|(k, v)| (k.m(), v.m())).collect())
    }
    fn un(v: &V) -> Self {
        match v {
            V::Map(kv) => VecVariantMap(kv.iter().map(|(k, x)| (Str::un(k), Variant::un(x))).collect()),
            _ => panic!("harness: model value {:?} does not fit the type", v),
        }
    }
}
fn sec(code: u8, v: V) -> V {
    V::Desc(Box::new(V::U64(u64::from(code))), Box::new(v))
}
impl M for Section {
    fn m(&self) -> V {
        match self {
            Section::Header(x) => x.m(),
            Section::DeliveryAnnotations(x) => sec(0x71, x.m()),
            Section::MessageAnnotations(x) => sec(0x72, x.m()),
            Section::ApplicationProperties(x) => sec(0x74, x.m()),
            Section::Data(x) => sec(0x75, x.m()),
            Section::AmqpSequence(x) => sec(0x76, x.m()),
            Section::AmqpValue(x) => sec(0x77, x.m()),
            Section::Footer(x) => sec(0x78, x.m()),
            Section::Properties(x) => x.m(),
        }
    }
    fn un(v: &V) -> Self {
        match v {
            V::Comp(0x70, _) => Section::Header(M::un(v)),
            V::Comp(0x73, _) => Section::Properties(M::un(v)),
            V::Desc(d, x) => match **d {
                V::U64(0x71) => Section::DeliveryAnnotations(M::un(x)),
                V::U64(0x72) => Section::MessageAnnotations(M::un(x)),
                V::U64(0x74) => Section::ApplicationProperties(M::un(x)),
                V::U64(0x75) => Section::Data(M::un(x)),
                V::U64(0x76) => Section::AmqpSequence(M::un(x)),
                V::U64(0x77) => Section::AmqpValue(M::un(x)),
                V::U64(0x78) => Section::Footer(M::un(x)),
                _ => panic!("harness: section"),
            },
            _ => panic!("harness: section"),
        }
    }
}

/// A plain `str`, which the crate can encode and nothing decodes into.
struct Plain(String);
impl M for Plain {
    fn m(&self) -> V {
        V::Str(self.0.clone())
    }
    fn un(v: &V) -> Self {
        match v {
            V::Str(s) => Plain(s.clone()),
            v => panic!("harness: {:?}", v),
        }
    }
}
impl Encode for Plain {
    fn encoded_size(&self) -> usize {
        self.0.as_str().encoded_size()
    }
    fn encode(&self, b: &mut BytesMut) {
        self.0.as_str().encode(b)
    }
}
impl Decode for Plain {
    fn decode(b: &[u8]) -> Result<(&[u8], Self), amqp_codec::AmqpParseError> {
        ByteStr::decode(b).map(|(r, x)| (r, Plain(x.to_string())))
    }
}

pub struct Kind {
    pub name: &'static str,
    pub gen: fn(&G) -> V,
    /// announced size
    pub size: fn(&V) -> usize,
    /// build the crate's value from the model and encode it `times` times over
    pub enc: fn(&V, &mut BytesMut, usize) -> usize,
    /// decode from the front: (bytes left, value)
    pub dec: fn(&[u8]) -> Result<(usize, V), String>,
    /// decode from the front and use what comes out: is there a value?
    pub accepts: fn(&[u8]) -> bool,
    pub read: fn(&[u8]) -> D<V>,
    pub write: fn(&Enc, &mut Vec<u8>, &V),
}

fn size_of<T: M + Encode>(v: &V) -> usize {
    T::un(v).encoded_size()
}
fn enc_of<T: M + Encode>(v: &V, b: &mut BytesMut, times: usize) -> usize {
    let x = T::un(v);
    for _ in 0..times {
        x.encode(b);
    }
    x.encoded_size()
}
fn dec_of<T: M + Decode>(b: &[u8]) -> Result<(usize, V), String> {
    match T::decode(b) {
        Ok((rest, x)) => Ok((rest.len(), x.m())),
        Err(e) => Err(format!("{:?}", e)),
    }
}
fn accepted_by<T: M + Decode>(b: &[u8]) -> bool {
    T::decode(b).is_ok()
}
fn w_v(e: &Enc, o: &mut Vec<u8>, v: &V) {
    e.v(o, v)
}

macro_rules! k {
    ($n:literal, $t:ty, $g:expr, $r:expr) => {
        k!($n, $t, $g, $r, w_v)
    };
    ($n:literal, $t:ty, $g:expr, $r:expr, $w:expr) => {
        Kind { name: $n, gen: $g, size: size_of::<$t>, enc: enc_of::<$t>, dec: dec_of::<$t>, accepts: accepted_by::<$t>, read: $r, write: $w }
    };
}
macro_rules! comp {
    ($n:literal, $t:ty, $c:literal) => {
        k!($n, $t, |g| g.comp($c), |b| single_comp(b, $c))
    };
}
macro_rules! arr {
    ($n:literal, $t:ty, $item:expr) => {
        k!($n, Vec<$t>, |g| V::Array(items(g, $item)), |b| array(b).map(|x| V::Array(x.1)), w_array)
    };
}

fn items(g: &G, f: fn(&G) -> V) -> Vec<V> {
    let ch = &g.ch;
    let n = match ch.below(12) {
        0 => 0,
        1 => 1,
        2 | 3 => {
            // content around the one-byte size limit
            let w = crate::refamqp::enc_v(&f(g)).len().max(2) as u64 - 1;
            (246 + ch.below(14)) / w.max(1)
        }
        4 => 200 + ch.below(120),
        _ => 2 + ch.below(6),
    };
    let same = ch.chance(1, 4);
    let mut xs: Vec<V> = Vec::new();
    let mut total = 0;
    for i in 0..n {
        if i > 0 && (same || total > 4000) {
            let x = xs[0].clone();
            xs.push(x);
            if xs.len() * total.max(1) / (i as usize) > 200_000 {
                break;
            }
            continue;
        }
        let x = f(g);
        total += crate::refamqp::enc_v(&x).len();
        xs.push(x);
    }
    xs
}

/// the constructors every one of these items can be written with
fn ctors(xs: &[V]) -> Vec<u8> {
    fn of(v: &V) -> Vec<u8> {
        match v {
            V::Bool(true) => vec![0x56, 0x41],
            V::Bool(false) => vec![0x56, 0x42],
            V::U8(_) => vec![0x50],
            V::I8(_) => vec![0x51],
            V::U16(_) => vec![0x60],
            V::I16(_) => vec![0x61],
            V::U32(0) => vec![0x70, 0x52, 0x43],
            V::U32(x) if *x < 256 => vec![0x70, 0x52],
            V::U32(_) => vec![0x70],
            V::U64(0) => vec![0x80, 0x53, 0x44],
            V::U64(x) if *x < 256 => vec![0x80, 0x53],
            V::U64(_) => vec![0x80],
            V::I32(x) if (-128..128).contains(x) => vec![0x71, 0x54],
            V::I32(_) => vec![0x71],
            V::I64(x) if (-128..128).contains(x) => vec![0x81, 0x55],
            V::I64(_) => vec![0x81],
            V::F32(_) => vec![0x72],
            V::F64(_) => vec![0x82],
            V::Char(_) => vec![0x73],
            V::Ts(_) => vec![0x83],
            V::Uuid(_) => vec![0x98],
            V::Bin(b) if b.len() < 256 => vec![0xb0, 0xa0],
            V::Bin(_) => vec![0xb0],
            V::Str(b) if b.len() < 256 => vec![0xb1, 0xa1],
            V::Str(_) => vec![0xb1],
            V::Sym(b) if b.len() < 256 => vec![0xb3, 0xa3],
            V::Sym(_) => vec![0xb3],
            V::Map(_) => vec![0xd1],
            V::List(_) => vec![0xd0],
            _ => panic!("harness: array item"),
        }
    }
    let mut c = of(&xs[0]);
    for x in &xs[1..] {
        let d = of(x);
        c.retain(|k| d.contains(k));
    }
    c
}

/// an array as the independent peer writes it, with any constructor that fits
pub fn w_array(e: &Enc, out: &mut Vec<u8>, v: &V) {
    let xs = match v {
        V::Array(xs) => xs,
        _ => panic!("harness: not an array"),
    };
    let ctor = if xs.is_empty() {
        0x40
    } else {
        let c = ctors(xs);
        match e.ch {
            Some(ch) => c[ch.idx(c.len())],
            None => c[0],
        }
    };
    let canon = Enc::canon();
    let mut c = vec![ctor];
    for x in xs {
        let full = {
            let mut o = Vec::new();
            match (ctor, x) {
                (0xb0, V::Bin(b)) => wide(&mut o, b),
                (0xb1, V::Str(b)) => wide(&mut o, b.as_bytes()),
                (0xb3, V::Sym(b)) => wide(&mut o, b.as_bytes()),
                (0x70, V::U32(n)) => o.extend_from_slice(&n.to_be_bytes()),
                (0x80, V::U64(n)) => o.extend_from_slice(&n.to_be_bytes()),
                (0x71, V::I32(n)) => o.extend_from_slice(&n.to_be_bytes()),
                (0x81, V::I64(n)) => o.extend_from_slice(&n.to_be_bytes()),
                (0x52, V::U32(n)) => o.push(*n as u8),
                (0x53, V::U64(n)) => o.push(*n as u8),
                (0x56, V::Bool(b)) => o.push(*b as u8),
                (0x41, _) | (0x42, _) | (0x43, _) | (0x44, _) => (),
                (0xd1, V::Map(kv)) => {
                    let mut c = Vec::new();
                    for (k, x) in kv {
                        e.v(&mut c, k);
                        e.v(&mut c, x);
                    }
                    o.extend_from_slice(&(c.len() as u32 + 4).to_be_bytes());
                    o.extend_from_slice(&(2 * kv.len() as u32).to_be_bytes());
                    o.extend_from_slice(&c);
                }
                _ => {
                    // the canonical form of these starts with this very constructor
                    canon.v(&mut o, x);
                    assert!(o[0] == ctor, "harness: array constructor {:x} for {:?}", ctor, x);
                    o.remove(0);
                }
            }
            o
        };
        c.extend_from_slice(&full);
    }
    let wide_size = match e.ch {
        Some(ch) => ch.chance(1, 3),
        None => false,
    };
    if c.len() + 1 > 255 || xs.len() > 255 || wide_size {
        out.push(0xf0);
        out.extend_from_slice(&(c.len() as u32 + 4).to_be_bytes());
        out.extend_from_slice(&(xs.len() as u32).to_be_bytes());
    } else {
        out.push(0xe0);
        out.push(c.len() as u8 + 1);
        out.push(xs.len() as u8);
    }
    out.extend_from_slice(&c);
}
fn wide(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(&(b.len() as u32).to_be_bytes());
    o.extend_from_slice(b);
}

fn gen_section(g: &G) -> V {
    match g.ch.below(9) {
        0 => g.comp(0x70),
        1 => g.comp(0x73),
        2 => sec(0x71, g.fields()),
        3 => sec(0x72, g.fields()),
        4 => sec(0x78, g.fields()),
        5 => sec(0x74, V::map(g.app_props().into_iter().map(|(k, v)| (V::Str(k), v)).collect())),
        6 => sec(0x75, V::Bin(g.bytes())),
        7 => sec(0x76, V::List(g.items(g.depth, false))),
        _ => sec(0x77, g.v(g.depth, false)),
    }
}
fn read_section(b: &[u8]) -> D<V> {
    let m = message(b)?;
    if m.order.len() != 1 {
        return Err(crate::refamqp::Bad::Invalid("not exactly one section"));
    }
    if let Some(x) = m.header {
        return Ok(x);
    }
    if let Some(x) = m.props {
        return Ok(x);
    }
    let x = match m.order[0] {
        0x71 => m.da.unwrap(),
        0x72 => m.ma.unwrap(),
        0x74 => V::map(m.ap.unwrap()),
        0x75 => V::Bin(m.data[0].clone()),
        0x76 => m.seq[0].clone(),
        0x77 => m.value.unwrap(),
        _ => m.footer.unwrap(),
    };
    Ok(sec(m.order[0], x))
}
fn write_section(e: &Enc, o: &mut Vec<u8>, v: &V) {
    match v {
        V::Desc(d, x) => match **d {
            V::U64(c) => e.section(o, c as u8, x),
            _ => panic!("harness: section"),
        },
        V::Comp(c, f) => e.comp(o, *c, f),
        _ => panic!("harness: section"),
    }
}
fn app_map(g: &G) -> V {
    V::map(g.app_props().into_iter().map(|(k, v)| (V::Str(k), v)).collect())
}
fn opt(g: &G, f: fn(&G) -> V) -> V {
    if g.ch.chance(1, 4) {
        V::Null
    } else {
        f(g)
    }
}
fn cond(g: &G) -> V {
    if g.ch.coin() {
        V::Sym(g.ch.pick(spec::ERROR_CONDITIONS).to_string())
    } else {
        V::Sym(g.symbol())
    }
}
fn mode(g: &G) -> V {
    match g.ch.below(3) {
        0 => V::Sym("move".into()),
        1 => V::Sym("copy".into()),
        _ => V::Sym(g.symbol()),
    }
}
fn state(g: &G) -> V {
    g.field(FT::State)
}
fn rd_comp(codes: &'static [u8]) -> impl Fn(&[u8]) -> D<V> {
    move |b| {
        let mut last = Err(crate::refamqp::Bad::Invalid("no such composite"));
        for c in codes {
            match single_comp(b, *c) {
                Err(crate::refamqp::Bad::Invalid("wrong descriptor for the field")) => (),
                Err(crate::refamqp::Bad::Invalid(s)) => last = Err(crate::refamqp::Bad::Invalid(s)),
                r => return r,
            }
        }
        last
    }
}
fn uint(g: &G) -> V {
    if g.ch.coin() {
        V::U32(g.ch.below(300) as u32)
    } else {
        V::U32(g.num() as u32)
    }
}
fn ulong(g: &G) -> V {
    if g.ch.coin() {
        V::U64(g.ch.below(300))
    } else {
        V::U64(g.num())
    }
}
fn int(g: &G) -> V {
    if g.ch.coin() {
        V::I32(g.ch.below(300) as i32 - 150)
    } else {
        V::I32(g.num() as i32)
    }
}
fn long(g: &G) -> V {
    if g.ch.coin() {
        V::I64(g.ch.below(300) as i64 - 150)
    } else {
        V::I64(g.num() as i64)
    }
}
fn f32v(g: &G) -> V {
    V::F32(g.ch.u64() as u32)
}
fn f64v(g: &G) -> V {
    V::F64(g.ch.u64())
}
fn small_map(g: &G) -> V {
    g.map(1, true)
}

/// an enumeration: a value of the base type that is one of those listed
fn one_of(b: &[u8], ok: fn(&V) -> bool, base: fn(u8) -> bool) -> D<V> {
    if let Some(c) = b.first() {
        if !base(*c) {
            return Err(crate::refamqp::Bad::Invalid("wrong type for the enumeration"));
        }
    }
    let v = single(b)?;
    if ok(&v) {
        Ok(v)
    } else {
        Err(crate::refamqp::Bad::Invalid("not a value of the enumeration"))
    }
}
fn is_sym(c: u8) -> bool {
    c == 0xa3 || c == 0xb3
}
macro_rules! cnd {
    ($n:literal, $t:ty, $range:expr) => {
        k!(
            $n,
            $t,
            |g| V::Sym(spec::ERROR_CONDITIONS[$range][g.ch.idx($range.len())].to_string()),
            |b| one_of(b, |v| matches!(v, V::Sym(s) if spec::ERROR_CONDITIONS[$range].contains(&s.as_str())), is_sym)
        )
    };
}

pub static KINDS: &[Kind] = &[
    k!("variant", Variant, |g| g.v(g.depth, false), single),
    k!("variant-container", Variant, |g| if g.ch.coin() { V::List(g.items(g.depth, false)) } else { g.map(g.depth, false) }, single),
    k!("list", List, |g| V::List(g.items(g.depth, false)), single),
    k!("map", HashMap<Variant, Variant>, |g| g.map(g.depth, false), single),
    k!("fields", HashMap<Symbol, Variant>, |g| g.fields(), single),
    k!("string-map", HashMap<Str, Variant>, app_map, single),
    k!("string-vec-map", VecVariantMap, app_map, single),
    k!("filter-set", HashMap<Symbol, Option<ByteStr>>, |g| g.field(FT::Filter), single),
    k!("symbols", Multiple<Symbol>, |g| g.symbols(), single_symbols),
    k!("message-id", MessageId, |g| g.msg_id(), single),
    k!("error-condition", ErrorCondition, cond, single),
    k!("distribution-mode", DistributionMode, mode, single),
    k!("delivery-state", DeliveryState, state, |b| rd_comp(&[0x23, 0x24, 0x25, 0x26, 0x27])(b)),
    k!("outcome", Outcome, |g| g.field(FT::Outcome), |b| rd_comp(&[0x24, 0x25, 0x26, 0x27])(b)),
    k!("section", Section, gen_section, read_section, write_section),
    comp!("header", Header, 0x70),
    comp!("properties", Properties, 0x73),
    comp!("source", Source, 0x28),
    comp!("target", Target, 0x29),
    comp!("error", Error, 0x1d),
    comp!("modified", Modified, 0x27),
    comp!("received", Received, 0x23),
    comp!("accepted", Accepted, 0x24),
    comp!("rejected", Rejected, 0x25),
    comp!("released", Released, 0x26),
    k!("transfer", Transfer, |g| g.comp(0x14), crate::refamqp::single_transfer),
    k!("role", Role, |g| V::Bool(g.ch.coin()), |b| one_of(b, |v| matches!(v, V::Bool(_)), |c| c == 0x41 || c == 0x42 || c == 0x56)),
    k!("snd-settle-mode", SenderSettleMode, |g| V::U8(g.ch.below(3) as u8), |b| one_of(b, |v| matches!(v, V::U8(0..=2)), |c| c == 0x50)),
    k!("rcv-settle-mode", ReceiverSettleMode, |g| V::U8(g.ch.below(2) as u8), |b| one_of(b, |v| matches!(v, V::U8(0..=1)), |c| c == 0x50)),
    k!("sasl-code", SaslCode, |g| V::U8(g.ch.below(5) as u8), |b| one_of(b, |v| matches!(v, V::U8(0..=4)), |c| c == 0x50)),
    k!("terminus-durability", TerminusDurability, |g| V::U32(g.ch.below(3) as u32), |b| one_of(b, |v| matches!(v, V::U32(0..=2)), |c| {
        c == 0x43 || c == 0x52 || c == 0x70
    })),
    k!("terminus-expiry-policy", TerminusExpiryPolicy, |g| V::Sym(g.ch.pick(spec::EXPIRY).to_string()), |b| one_of(
        b,
        |v| matches!(v, V::Sym(s) if spec::EXPIRY.contains(&s.as_str())),
        is_sym
    )),
    cnd!("amqp-error", AmqpError, 0..13),
    cnd!("connection-error", ConnectionError, 13..16),
    cnd!("session-error", SessionError, 16..20),
    cnd!("link-error", LinkError, 20..25),
    comp!("open", Open, 0x10),
    comp!("begin", Begin, 0x11),
    comp!("attach", Attach, 0x12),
    comp!("flow", Flow, 0x13),
    comp!("disposition", Disposition, 0x15),
    comp!("detach", Detach, 0x16),
    comp!("end", End, 0x17),
    comp!("close", Close, 0x18),
    comp!("sasl-mechanisms", SaslMechanisms, 0x40),
    comp!("sasl-init", SaslInit, 0x41),
    comp!("sasl-challenge", SaslChallenge, 0x42),
    comp!("sasl-response", SaslResponse, 0x43),
    comp!("sasl-outcome", SaslOutcome, 0x44),
    k!("sasl-body", SaslFrameBody, |g| g.sasl_frame().perf, |b| rd_comp(&[0x40, 0x41, 0x42, 0x43, 0x44])(b)),
    k!("bool", bool, |g| V::Bool(g.ch.coin()), single),
    k!("ubyte", u8, |g| V::U8(g.num() as u8), single),
    k!("ushort", u16, |g| V::U16(g.num() as u16), single),
    k!("uint", u32, uint, single),
    k!("ulong", u64, ulong, single),
    k!("byte", i8, |g| V::I8(g.num() as i8), single),
    k!("short", i16, |g| V::I16(g.num() as i16), single),
    k!("int", i32, int, single),
    k!("long", i64, long, single),
    k!("float", f32, f32v, single),
    k!("double", f64, f64v, single),
    k!("char", char, |g| g.char(), single),
    k!("timestamp", DateTime<Utc>, |g| g.ts(), single),
    k!("uuid", Uuid, |g| g.uuid(), single),
    k!("binary", Bytes, |g| V::Bin(g.bytes()), single),
    k!("string", Str, |g| V::Str(g.string()), single),
    k!("plain-str", Plain, |g| V::Str(g.string()), single),
    k!("byte-string", ByteStr, |g| V::Str(g.string()), single),
    k!("symbol", Symbol, |g| V::Sym(g.symbol()), single),
    k!("optional-string", Option<ByteStr>, |g| opt(g, |g| V::Str(g.string())), single),
    k!("optional-uint", Option<u32>, |g| opt(g, uint), single),
    arr!("array-bool", bool, |g| V::Bool(g.ch.coin())),
    arr!("array-ubyte", u8, |g| V::U8(g.num() as u8)),
    arr!("array-ushort", u16, |g| V::U16(g.num() as u16)),
    arr!("array-uint", u32, uint),
    arr!("array-ulong", u64, ulong),
    arr!("array-byte", i8, |g| V::I8(g.num() as i8)),
    arr!("array-short", i16, |g| V::I16(g.num() as i16)),
    arr!("array-int", i32, int),
    arr!("array-long", i64, long),
    arr!("array-float", f32, f32v),
    arr!("array-double", f64, f64v),
    arr!("array-char", char, |g| g.char()),
    arr!("array-timestamp", DateTime<Utc>, |g| g.ts()),
    arr!("array-uuid", Uuid, |g| g.uuid()),
    arr!("array-binary", Bytes, |g| V::Bin(g.bytes())),
    arr!("array-string", ByteStr, |g| V::Str(g.string())),
    arr!("array-symbol", Symbol, |g| V::Sym(g.symbol())),
    arr!("array-map", HashMap<Variant, Variant>, small_map),
];

/// structured kinds come first in the table; give arrays and scalars their share too
pub fn pick(ch: &Ch) -> &'static Kind {
    &KINDS[ch.idx(KINDS.len())]
}


