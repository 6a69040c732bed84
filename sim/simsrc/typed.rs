//! Adapters between the neutral model and the crate's types. Never relies on the crate's own
//! equality, hashing or conversions where the model can be built from fields directly.

use crate::model::*;
use crate::spec;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{AmqpFrame, InMessage, OutMessage, SaslFrame};
use bytes::{BufMut, Bytes, BytesMut};
use chrono::{DateTime, TimeZone, Utc};
use hashbrown::HashMap;
use ordered_float::OrderedFloat;
use uuid::Uuid;

thread_local! {
    static ALT: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
/// Whether this run reads values through accessor methods and makes them through conversions, the
/// other way of doing what fields and constructors do.
pub fn set_alt(x: bool) {
    ALT.with(|a| a.set(x));
}
pub fn alt() -> bool {
    ALT.with(|a| a.get())
}

pub trait M: Sized {
    fn m(&self) -> V;
    fn un(v: &V) -> Self;
}

/// what an accessor hands out
impl<'a, T: M> M for &'a T {
    fn m(&self) -> V {
        (**self).m()
    }
    fn un(v: &V) -> Self {
        bad(v)
    }
}

fn bad<T>(v: &V) -> T {
    panic!("harness: model value {:?} does not fit the type", v)
}

macro_rules! prim {
    ($t:ty, $k:ident) => {
        impl M for $t {
            fn m(&self) -> V {
                V::$k(*self)
            }
            fn un(v: &V) -> Self {
                match v {
                    V::$k(x) => *x,
                    _ => bad(v),
                }
            }
        }
    };
}
prim!(bool, Bool);
prim!(u8, U8);
prim!(u16, U16);
prim!(u32, U32);
prim!(u64, U64);

/// Values of one kind are held in several ways in memory; pick one from the contents.
fn mk_bytes(b: &[u8]) -> Bytes {
    match b.len() % 4 {
        0 => Bytes::from(b.to_vec()),
        1 => {
            // a view into a larger shared buffer
            let mut v = Vec::with_capacity(b.len() + 9);
            v.extend_from_slice(b"abc");
            v.extend_from_slice(b);
            v.extend_from_slice(b"defghi");
            Bytes::from(v).slice(3, 3 + b.len())
        }
        2 => {
            let mut m = BytesMut::with_capacity(b.len() + 64);
            m.put_slice(b);
            m.freeze()
        }
        _ => Bytes::from(b),
    }
}

static RUN: [u8; 70_000] = [b'q'; 70_000];
const fn long(n: usize) -> &'static str {
    match std::str::from_utf8(RUN.split_at(n).0) {
        Ok(s) => s,
        Err(_) => "",
    }
}
pub static STATICS: &[&str] = &[
    "", "a", "key", "x-opt-jms-dest", "amqp:accepted:list", "amqp:rejected:list", "queue", "move", "copy", "never",
    "session-end", "PLAIN", "ANONYMOUS", "EXTERNAL", "en-US", "product", "version", "platform", "selector", "test",
    "amqp:not-found", "amqp:connection:forced", "\u{fc}n\u{ef}", "\u{1f4af}", long(254), long(255), long(256), long(257), long(1000), long(70_000),
];

/// The words a program written against AMQP holds in its text section, in several spellings.
pub fn spelled() -> &'static [&'static str] {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<&'static str>> = OnceLock::new();
    T.get_or_init(|| {
        let mut words: Vec<&'static str> = STATICS.iter().copied().filter(|x| x.len() < 40).collect();
        words.extend(crate::spec::ERROR_CONDITIONS);
        words.extend(["AMQP", "amqp", "apache.org:selector-filter:string", "com.microsoft:timeout", "SASL", "GSSAPI", "SCRAM-SHA-256", "content-type", "text/plain; charset=utf-8", "x-match"]);
        let mut all: Vec<String> = Vec::new();
        for w in &words {
            let up = w.to_uppercase();
            let cap: String = w.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect();
            for x in [up.clone(), cap, format!("{w} "), format!(" {w}"), format!("{w}\0"), format!("{w}:{w}"), format!("{w}s"), w.replace(':', "."), format!("AMQP:{w}"), format!("x-opt-{w}"), w.chars().rev().collect(), w.chars().skip(1).collect()] {
                if !all.contains(&x) && !STATICS.contains(&x.as_str()) {
                    all.push(x);
                }
            }
        }
        all.into_iter().map(|x| -> &'static str { Box::leak(x.into_boxed_str()) }).collect()
    })
}

/// `s` as text of the program itself, if it holds that text
pub fn as_static(s: &str) -> Option<&'static str> {
    use std::collections::HashMap;
    use std::sync::OnceLock;
    static T: OnceLock<HashMap<&'static str, &'static str>> = OnceLock::new();
    let t = T.get_or_init(|| STATICS.iter().chain(spelled()).map(|x| (*x, *x)).collect());
    t.get(s).copied()
}

/// the same static text at another address, as a second crate of the program would hold it
pub fn other_static(s: &str) -> &'static str {
    use std::collections::HashMap;
    use std::sync::OnceLock;
    static T: OnceLock<HashMap<&'static str, &'static str>> = OnceLock::new();
    let t = T.get_or_init(|| STATICS.iter().chain(spelled()).map(|x| (*x, &*Box::leak(x.to_string().into_boxed_str()))).collect());
    t.get(s).copied().expect("harness: not a static text")
}

fn mk_str(s: &str) -> Str {
    if s.len() % 2 == 1 {
        if let Some(x) = as_static(s) {
            return Str::from(x);
        }
    }
    Str::from(mk_bstr(s))
}
fn mk_bstr(s: &str) -> ByteStr {
    if s.len() % 3 == 0 {
        ByteStr::from_str(s)
    } else {
        match <ByteStr as string::TryFrom<Bytes>>::try_from(mk_bytes(s.as_bytes())) {
            Ok(x) => x,
            Err(_) => panic!("harness: utf8"),
        }
    }
}
fn mk_sym(s: &str) -> Symbol {
    if s.len() % 2 == 0 {
        if let Some(x) = as_static(s) {
            return Symbol::from(other_static(x));
        }
    }
    Symbol::from(mk_bstr(s))
}

impl M for ByteStr {
    fn m(&self) -> V {
        V::Str(self.to_string())
    }
    fn un(v: &V) -> Self {
        match v {
            V::Str(s) => mk_bstr(s),
            _ => bad(v),
        }
    }
}
impl M for Str {
    fn m(&self) -> V {
        V::Str(self.as_str().to_string())
    }
    fn un(v: &V) -> Self {
        match v {
            V::Str(s) => mk_str(s),
            _ => bad(v),
        }
    }
}
impl M for Symbol {
    fn m(&self) -> V {
        V::Sym(self.as_str().to_string())
    }
    fn un(v: &V) -> Self {
        match v {
            V::Sym(s) => mk_sym(s),
            _ => bad(v),
        }
    }
}
impl M for Bytes {
    fn m(&self) -> V {
        V::Bin(self.to_vec())
    }
    fn un(v: &V) -> Self {
        match v {
            V::Bin(b) => mk_bytes(b),
            _ => bad(v),
        }
    }
}
impl M for Uuid {
    fn m(&self) -> V {
        V::Uuid(*self.as_bytes())
    }
    fn un(v: &V) -> Self {
        match v {
            V::Uuid(b) => Uuid::from_slice(b).unwrap(),
            _ => bad(v),
        }
    }
}
impl M for DateTime<Utc> {
    fn m(&self) -> V {
        V::Ts(self.timestamp_millis())
    }
    fn un(v: &V) -> Self {
        match v {
            V::Ts(x) => {
                let secs = x.div_euclid(1000);
                let ms = x.rem_euclid(1000) as u32;
                // an application's clock is finer than the wire's milliseconds
                let sub = match x.rem_euclid(5) {
                    0 => 999_999,
                    1 => 1,
                    _ => 0,
                };
                Utc.timestamp_opt(secs, ms * 1_000_000 + sub).single().expect("harness: timestamp")
            }
            _ => bad(v),
        }
    }
}
impl<T: M> M for Option<T> {
    fn m(&self) -> V {
        match self {
            None => V::Null,
            Some(x) => x.m(),
        }
    }
    fn un(v: &V) -> Self {
        match v {
            V::Null => None,
            v => Some(T::un(v)),
        }
    }
}
impl M for Multiple<Symbol> {
    fn m(&self) -> V {
        if alt() {
            let v: Vec<V> = self.iter().map(|x| x.m()).collect();
            let w: &Vec<Symbol> = &*self;
            if v.len() != self.len() || self.is_empty() != v.is_empty() || w.len() != v.len() {
                return V::Sym("!multiple says it has another length".into());
            }
            return V::Array(v);
        }
        V::Array(self.0.iter().map(|x| x.m()).collect())
    }
    fn un(v: &V) -> Self {
        match v {
            V::Array(xs) if alt() => {
                let mut m: Multiple<Symbol> = Multiple::default();
                for x in xs {
                    m.push(Symbol::un(x));
                }
                m
            }
            V::Array(xs) => Multiple(xs.iter().map(Symbol::un).collect()),
            _ => bad(v),
        }
    }
}
macro_rules! mapm {
    ($k:ty, $x:ty) => {
        impl M for HashMap<$k, $x> {
            fn m(&self) -> V {
                V::map(self.iter().map(|(k, v)| (k.m(), v.m())).collect())
            }
            fn un(v: &V) -> Self {
                match v {
                    V::Map(kv) => {
                        let mut h = HashMap::new();
                        for (k, x) in kv {
                            h.insert(<$k>::un(k), <$x>::un(x));
                        }
                        h
                    }
                    _ => bad(v),
                }
            }
        }
    };
}
mapm!(Symbol, Variant);
mapm!(Variant, Variant);
mapm!(Str, Variant);
mapm!(Symbol, Option<ByteStr>);

impl M for List {
    fn m(&self) -> V {
        if alt() {
            let v: Vec<V> = self.iter().map(|x| x.m()).collect();
            if v.len() != self.len() || self.is_empty() != v.is_empty() {
                return V::Sym("!list says it has another length".into());
            }
            return V::List(v);
        }
        V::List(self.0.iter().map(|x| x.m()).collect())
    }
    fn un(v: &V) -> Self {
        match v {
            V::List(xs) => List(xs.iter().map(Variant::un).collect()),
            _ => bad(v),
        }
    }
}
impl M for Descriptor {
    fn m(&self) -> V {
        match self {
            Descriptor::Ulong(x) => V::U64(*x),
            Descriptor::Symbol(s) => s.m(),
        }
    }
    fn un(v: &V) -> Self {
        match v {
            V::U64(x) => Descriptor::Ulong(*x),
            V::Sym(s) => Descriptor::Symbol(mk_sym(s)),
            _ => bad(v),
        }
    }
}
impl M for Variant {
    fn m(&self) -> V {
        match self {
            Variant::Null => V::Null,
            Variant::Boolean(x) => V::Bool(*x),
            Variant::Ubyte(x) => V::U8(*x),
            Variant::Ushort(x) => V::U16(*x),
            Variant::Uint(x) => V::U32(*x),
            Variant::Ulong(x) => V::U64(*x),
            Variant::Byte(x) => V::I8(*x),
            Variant::Short(x) => V::I16(*x),
            Variant::Int(x) => V::I32(*x),
            Variant::Long(x) => V::I64(*x),
            Variant::Float(x) => V::F32(x.into_inner().to_bits()),
            Variant::Double(x) => V::F64(x.into_inner().to_bits()),
            Variant::Char(x) => V::Char(*x as u32),
            Variant::Timestamp(x) => x.m(),
            Variant::Uuid(x) => x.m(),
            Variant::Binary(x) => x.m(),
            Variant::String(x) => x.m(),
            Variant::Symbol(x) => x.m(),
            Variant::StaticSymbol(x) => V::Sym(x.0.to_string()),
            Variant::List(x) => x.m(),
            Variant::Map(x) => x.map.m(),
            Variant::Described((d, v)) => V::Desc(Box::new(d.m()), Box::new(v.m())),
        }
    }
    fn un(v: &V) -> Self {
        if alt() {
            match v {
                V::Bool(x) => return Variant::from(*x),
                V::U8(x) => return Variant::from(*x),
                V::U16(x) => return Variant::from(*x),
                V::U32(x) => return Variant::from(*x),
                V::U64(x) => return Variant::from(*x),
                V::I8(x) => return Variant::from(*x),
                V::I16(x) => return Variant::from(*x),
                V::I32(x) => return Variant::from(*x),
                V::I64(x) => return Variant::from(*x),
                V::F32(x) => return Variant::from(OrderedFloat(f32::from_bits(*x))),
                V::F64(x) => return Variant::from(OrderedFloat(f64::from_bits(*x))),
                V::Char(x) => return Variant::from(std::char::from_u32(*x).unwrap()),
                V::Ts(_) => return Variant::from(<DateTime<Utc>>::un(v)),
                V::Uuid(_) => return Variant::from(Uuid::un(v)),
                V::Bin(_) => return Variant::from(Bytes::un(v)),
                V::Str(s) => {
                    return match as_static(s) {
                        Some(x) => Variant::from(x),
                        None if s.len() % 2 == 0 => Variant::from(mk_bstr(s)),
                        None => Variant::from(mk_str(s)),
                    }
                }
                V::Sym(s) => {
                    return match as_static(s) {
                        Some(x) if s.len() % 2 == 0 || s.len() > 200 => Variant::from(StaticSymbol::from(x)),
                        _ => Variant::from(mk_sym(s)),
                    }
                }
                V::List(_) => return Variant::from(List::un(v)),
                V::Map(_) => return Variant::from(VariantMap::new(M::un(v))),
                _ => (),
            }
        }
        match v {
            V::Null => Variant::Null,
            V::Bool(x) => Variant::Boolean(*x),
            V::U8(x) => Variant::Ubyte(*x),
            V::U16(x) => Variant::Ushort(*x),
            V::U32(x) => Variant::Uint(*x),
            V::U64(x) => Variant::Ulong(*x),
            V::I8(x) => Variant::Byte(*x),
            V::I16(x) => Variant::Short(*x),
            V::I32(x) => Variant::Int(*x),
            V::I64(x) => Variant::Long(*x),
            V::F32(x) => Variant::Float(OrderedFloat(f32::from_bits(*x))),
            V::F64(x) => Variant::Double(OrderedFloat(f64::from_bits(*x))),
            V::Char(x) => Variant::Char(std::char::from_u32(*x).unwrap()),
            V::Ts(_) => Variant::Timestamp(M::un(v)),
            V::Uuid(_) => Variant::Uuid(M::un(v)),
            V::Bin(_) => Variant::Binary(M::un(v)),
            V::Str(s) => Variant::String(mk_str(s)),
            V::Sym(s) => {
                if s.len() % 3 == 1 || s.len() > 200 {
                    if let Some(x) = as_static(s) {
                        return Variant::StaticSymbol(StaticSymbol(x));
                    }
                }
                Variant::Symbol(mk_sym(s))
            }
            V::List(_) => Variant::List(M::un(v)),
            V::Map(_) => Variant::Map(VariantMap::new(M::un(v))),
            V::Desc(d, x) => Variant::Described((Descriptor::un(d), Box::new(Variant::un(x)))),
            _ => bad(v),
        }
    }
}
impl M for MessageId {
    fn m(&self) -> V {
        match self {
            MessageId::Ulong(x) => V::U64(*x),
            MessageId::Uuid(x) => x.m(),
            MessageId::Binary(x) => x.m(),
            MessageId::String(x) => x.m(),
        }
    }
    fn un(v: &V) -> Self {
        if alt() {
            match v {
                V::U64(x) => return MessageId::from(*x),
                V::Uuid(_) => return MessageId::from(Uuid::un(v)),
                V::Bin(_) => return MessageId::from(Bytes::un(v)),
                V::Str(_) => return MessageId::from(ByteStr::un(v)),
                _ => (),
            }
        }
        match v {
            V::U64(x) => MessageId::Ulong(*x),
            V::Uuid(_) => MessageId::Uuid(M::un(v)),
            V::Bin(_) => MessageId::Binary(M::un(v)),
            V::Str(_) => MessageId::String(M::un(v)),
            _ => bad(v),
        }
    }
}

macro_rules! enm {
    ($t:ident, $k:ident, $conv:expr, [$($v:ident = $x:expr),*]) => {
        impl M for $t {
            fn m(&self) -> V {
                match self {
                    $($t::$v => V::$k($conv($x)),)*
                }
            }
            fn un(v: &V) -> Self {
                $(if *v == V::$k($conv($x)) { return $t::$v; })*
                bad(v)
            }
        }
    };
}
fn id<T>(x: T) -> T {
    x
}
enm!(Role, Bool, id, [Sender = false, Receiver = true]);
enm!(SenderSettleMode, U8, id, [Unsettled = 0, Settled = 1, Mixed = 2]);
enm!(ReceiverSettleMode, U8, id, [First = 0, Second = 1]);
enm!(SaslCode, U8, id, [Ok = 0, Auth = 1, Sys = 2, SysPerm = 3, SysTemp = 4]);
enm!(TerminusDurability, U32, id, [None = 0, Configuration = 1, UnsettledState = 2]);
enm!(TerminusExpiryPolicy, Sym, String::from, [
    LinkDetach = "link-detach", SessionEnd = "session-end", ConnectionClose = "connection-close", Never = "never"]);

macro_rules! conds {
    ($($e:ident::$v:ident = $s:expr),* $(,)?) => {
        fn cond_name(c: &ErrorCondition) -> Option<&'static str> {
            match c {
                $(ErrorCondition::$e($e::$v) => Some($s),)*
                ErrorCondition::Custom(_) => None,
            }
        }
        fn cond_from(s: &str) -> Option<ErrorCondition> {
            $(if s == $s { return Some(ErrorCondition::$e($e::$v)); })*
            None
        }
    };
}
conds! {
    AmqpError::InternalError = "amqp:internal-error",
    AmqpError::NotFound = "amqp:not-found",
    AmqpError::UnauthorizedAccess = "amqp:unauthorized-access",
    AmqpError::DecodeError = "amqp:decode-error",
    AmqpError::ResourceLimitExceeded = "amqp:resource-limit-exceeded",
    AmqpError::NotAllowed = "amqp:not-allowed",
    AmqpError::InvalidField = "amqp:invalid-field",
    AmqpError::NotImplemented = "amqp:not-implemented",
    AmqpError::ResourceLocked = "amqp:resource-locked",
    AmqpError::PreconditionFailed = "amqp:precondition-failed",
    AmqpError::ResourceDeleted = "amqp:resource-deleted",
    AmqpError::IllegalState = "amqp:illegal-state",
    AmqpError::FrameSizeTooSmall = "amqp:frame-size-too-small",
    ConnectionError::ConnectionForced = "amqp:connection:forced",
    ConnectionError::FramingError = "amqp:connection:framing-error",
    ConnectionError::Redirect = "amqp:connection:redirect",
    SessionError::WindowViolation = "amqp:session:window-violation",
    SessionError::ErrantLink = "amqp:session:errant-link",
    SessionError::HandleInUse = "amqp:session:handle-in-use",
    SessionError::UnattachedHandle = "amqp:session:unattached-handle",
    LinkError::DetachForced = "amqp:link:detach-forced",
    LinkError::TransferLimitExceeded = "amqp:link:transfer-limit-exceeded",
    LinkError::MessageSizeExceeded = "amqp:link:message-size-exceeded",
    LinkError::Redirect = "amqp:link:redirect",
    LinkError::Stolen = "amqp:link:stolen",
}
enm!(AmqpError, Sym, String::from, [InternalError = "amqp:internal-error", NotFound = "amqp:not-found", UnauthorizedAccess = "amqp:unauthorized-access", DecodeError = "amqp:decode-error", ResourceLimitExceeded = "amqp:resource-limit-exceeded", NotAllowed = "amqp:not-allowed", InvalidField = "amqp:invalid-field", NotImplemented = "amqp:not-implemented", ResourceLocked = "amqp:resource-locked", PreconditionFailed = "amqp:precondition-failed", ResourceDeleted = "amqp:resource-deleted", IllegalState = "amqp:illegal-state", FrameSizeTooSmall = "amqp:frame-size-too-small"]);
enm!(ConnectionError, Sym, String::from, [ConnectionForced = "amqp:connection:forced", FramingError = "amqp:connection:framing-error", Redirect = "amqp:connection:redirect"]);
enm!(SessionError, Sym, String::from, [WindowViolation = "amqp:session:window-violation", ErrantLink = "amqp:session:errant-link", HandleInUse = "amqp:session:handle-in-use", UnattachedHandle = "amqp:session:unattached-handle"]);
enm!(LinkError, Sym, String::from, [DetachForced = "amqp:link:detach-forced", TransferLimitExceeded = "amqp:link:transfer-limit-exceeded", MessageSizeExceeded = "amqp:link:message-size-exceeded", Redirect = "amqp:link:redirect", Stolen = "amqp:link:stolen"]);
impl M for ErrorCondition {
    fn m(&self) -> V {
        match self {
            ErrorCondition::Custom(s) => {
                if cond_from(s.as_str()).is_some() {
                    // an application matching on the named condition would not see this one
                    V::Sym(format!("!custom!{}", s.as_str()))
                } else {
                    s.m()
                }
            }
            c => V::Sym(cond_name(c).unwrap().to_string()),
        }
    }
    fn un(v: &V) -> Self {
        match v {
            V::Sym(s) => cond_from(s).unwrap_or_else(|| ErrorCondition::Custom(mk_sym(s))),
            _ => bad(v),
        }
    }
}
impl M for DistributionMode {
    fn m(&self) -> V {
        V::Sym(match self {
            DistributionMode::Move => "move".into(),
            DistributionMode::Copy => "copy".into(),
            DistributionMode::Custom(s) => match s.as_str() {
                "move" | "copy" => format!("!custom!{}", s.as_str()),
                s => s.to_string(),
            },
        })
    }
    fn un(v: &V) -> Self {
        match v {
            V::Sym(s) => match s.as_str() {
                "move" => DistributionMode::Move,
                "copy" => DistributionMode::Copy,
                s => DistributionMode::Custom(mk_sym(s)),
            },
            _ => bad(v),
        }
    }
}

macro_rules! compm {
    ($t:ident, $code:expr, [$($f:ident),*]) => {
        impl M for $t {
            fn m(&self) -> V {
                if alt() {
                    V::Comp($code, vec![$(self.$f().m()),*])
                } else {
                    V::Comp($code, vec![$(self.$f.m()),*])
                }
            }
            #[allow(unused_mut, unused_variables)]
            fn un(v: &V) -> Self {
                match v {
                    V::Comp($code, fs) => {
                        let mut it = fs.iter();
                        $t { $($f: M::un(it.next().expect("harness: fields")),)* }
                    }
                    _ => bad(v),
                }
            }
        }
    };
}
compm!(Open, 0x10, [container_id, hostname, max_frame_size, channel_max, idle_time_out, outgoing_locales,
    incoming_locales, offered_capabilities, desired_capabilities, properties]);
compm!(Begin, 0x11, [remote_channel, next_outgoing_id, incoming_window, outgoing_window, handle_max,
    offered_capabilities, desired_capabilities, properties]);
compm!(Attach, 0x12, [name, handle, role, snd_settle_mode, rcv_settle_mode, source, target, unsettled,
    incomplete_unsettled, initial_delivery_count, max_message_size, offered_capabilities, desired_capabilities, properties]);
compm!(Flow, 0x13, [next_incoming_id, incoming_window, next_outgoing_id, outgoing_window, handle, delivery_count,
    link_credit, available, drain, echo, properties]);
compm!(Disposition, 0x15, [role, first, last, settled, state, batchable]);
compm!(Detach, 0x16, [handle, closed, error]);
compm!(End, 0x17, [error]);
compm!(Close, 0x18, [error]);
compm!(Error, 0x1d, [condition, description, info]);
compm!(Received, 0x23, [section_number, section_offset]);
compm!(Accepted, 0x24, []);
compm!(Rejected, 0x25, [error]);
compm!(Released, 0x26, []);
compm!(Modified, 0x27, [delivery_failed, undeliverable_here, message_annotations]);
compm!(Source, 0x28, [address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties, distribution_mode,
    filter, default_outcome, outcomes, capabilities]);
compm!(Target, 0x29, [address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties, capabilities]);
compm!(SaslMechanisms, 0x40, [sasl_server_mechanisms]);
compm!(SaslInit, 0x41, [mechanism, initial_response, hostname]);
compm!(SaslChallenge, 0x42, [challenge]);
compm!(SaslResponse, 0x43, [response]);
compm!(SaslOutcome, 0x44, [code, additional_data]);
compm!(Header, 0x70, [durable, priority, ttl, first_acquirer, delivery_count]);
compm!(Properties, 0x73, [message_id, user_id, to, subject, reply_to, correlation_id, content_type, content_encoding,
    absolute_expiry_time, creation_time, group_id, group_sequence, reply_to_group_id]);

impl M for Transfer {
    fn m(&self) -> V {
        if alt() {
            return V::Comp(0x14, vec![
                self.handle().m(), self.delivery_id().m(), self.delivery_tag().m(), self.message_format().m(), self.settled().m(),
                self.more().m(), self.rcv_settle_mode().m(), self.state().m(), self.resume().m(), self.aborted().m(), self.batchable().m(),
            ]);
        }
        V::Comp(0x14, vec![
            self.handle.m(), self.delivery_id.m(), self.delivery_tag.m(), self.message_format.m(), self.settled.m(),
            self.more.m(), self.rcv_settle_mode.m(), self.state.m(), self.resume.m(), self.aborted.m(), self.batchable.m(),
        ])
    }
    fn un(v: &V) -> Self {
        match v {
            V::Comp(0x14, f) => Transfer {
                handle: M::un(&f[0]),
                delivery_id: M::un(&f[1]),
                delivery_tag: M::un(&f[2]),
                message_format: M::un(&f[3]),
                settled: M::un(&f[4]),
                more: M::un(&f[5]),
                rcv_settle_mode: M::un(&f[6]),
                state: M::un(&f[7]),
                resume: M::un(&f[8]),
                aborted: M::un(&f[9]),
                batchable: M::un(&f[10]),
                body: None,
            },
            _ => bad(v),
        }
    }
}

macro_rules! oneof {
    ($t:ident, [$($v:ident = $c:expr),*]) => {
        impl M for $t {
            fn m(&self) -> V {
                match self { $($t::$v(x) => x.m(),)* }
            }
            fn un(v: &V) -> Self {
                match v {
                    $(V::Comp($c, _) => $t::$v(M::un(v)),)*
                    _ => bad(v),
                }
            }
        }
    };
}
oneof!(DeliveryState, [Received = 0x23, Accepted = 0x24, Rejected = 0x25, Released = 0x26, Modified = 0x27]);
oneof!(Outcome, [Accepted = 0x24, Rejected = 0x25, Released = 0x26, Modified = 0x27]);
oneof!(SaslFrameBody, [SaslMechanisms = 0x40, SaslInit = 0x41, SaslChallenge = 0x42, SaslResponse = 0x43, SaslOutcome = 0x44]);

impl M for Frame {
    fn m(&self) -> V {
        if alt() {
            let name = match self {
                Frame::Open(_) => "Open",
                Frame::Begin(_) => "Begin",
                Frame::Attach(_) => "Attach",
                Frame::Flow(_) => "Flow",
                Frame::Transfer(_) => "Transfer",
                Frame::Disposition(_) => "Disposition",
                Frame::Detach(_) => "Detach",
                Frame::End(_) => "End",
                Frame::Close(_) => "Close",
                Frame::Empty => "Empty",
            };
            if self.name() != name {
                return V::Sym(format!("!frame {} calls itself {}", name, self.name()));
            }
        }
        match self {
            Frame::Open(x) => x.m(),
            Frame::Begin(x) => x.m(),
            Frame::Attach(x) => x.m(),
            Frame::Flow(x) => x.m(),
            Frame::Transfer(x) => x.m(),
            Frame::Disposition(x) => x.m(),
            Frame::Detach(x) => x.m(),
            Frame::End(x) => x.m(),
            Frame::Close(x) => x.m(),
            Frame::Empty => V::Null,
        }
    }
    fn un(v: &V) -> Self {
        if alt() {
            match v {
                V::Comp(0x10, _) => return Open::un(v).into(),
                V::Comp(0x11, _) => return Begin::un(v).into(),
                V::Comp(0x12, _) => return Attach::un(v).into(),
                V::Comp(0x13, _) => return Flow::un(v).into(),
                V::Comp(0x14, _) => return Transfer::un(v).into(),
                V::Comp(0x15, _) => return Disposition::un(v).into(),
                V::Comp(0x16, _) => return Detach::un(v).into(),
                V::Comp(0x17, _) => return End::un(v).into(),
                V::Comp(0x18, _) => return Close::un(v).into(),
                _ => (),
            }
        }
        match v {
            V::Null => Frame::Empty,
            V::Comp(0x10, _) => Frame::Open(M::un(v)),
            V::Comp(0x11, _) => Frame::Begin(M::un(v)),
            V::Comp(0x12, _) => Frame::Attach(M::un(v)),
            V::Comp(0x13, _) => Frame::Flow(M::un(v)),
            V::Comp(0x14, _) => Frame::Transfer(M::un(v)),
            V::Comp(0x15, _) => Frame::Disposition(M::un(v)),
            V::Comp(0x16, _) => Frame::Detach(M::un(v)),
            V::Comp(0x17, _) => Frame::End(M::un(v)),
            V::Comp(0x18, _) => Frame::Close(M::un(v)),
            _ => bad(v),
        }
    }
}

/// The two frame types a connection codec carries.
pub trait FrameT: amqp_codec::Decode + amqp_codec::Encode + std::fmt::Debug + Clone + PartialEq + Sized {
    const SASL: bool;
    fn build(f: &FM) -> Self;
    fn model(&self) -> FM;
    /// what a program logs of it
    fn shown(&self) -> String;
}

impl FrameT for AmqpFrame {
    const SASL: bool = false;
    fn build(f: &FM) -> AmqpFrame {
        let mut p = Frame::un(&f.perf);
        if let Frame::Transfer(ref mut t) = p {
            t.body = build_body(&f.body, f.ch);
        }
        AmqpFrame::new(f.ch, p)
    }
    fn shown(&self) -> String {
        let p = self.performative();
        let e = match p {
            Frame::Detach(x) => x.error.as_ref(),
            Frame::End(x) => x.error.as_ref(),
            Frame::Close(x) => x.error.as_ref(),
            _ => None,
        };
        let f = match p {
            Frame::Transfer(t) => t.body.as_ref().map(|b| (b.len(), b.message_format())),
            _ => None,
        };
        format!("{} {} {:?} {:?}", self.channel_id(), e.map(|e| e.to_string()).unwrap_or_default(), f, p)
    }
    fn model(&self) -> FM {
        if alt() {
            let (ch, p) = self.clone().into_parts();
            if ch != self.channel_id() {
                return FM { sasl: false, ch, perf: V::Sym("!channel id differs".into()), body: BodyM::None };
            }
            let body = match &p {
                Frame::Transfer(t) => match t.body() {
                    None => BodyM::None,
                    Some(b) => {
                        let n = b.len();
                        let mut o = BytesMut::with_capacity(n);
                        amqp_codec::Encode::encode(b, &mut o);
                        if o.len() != n {
                            return FM { sasl: false, ch, perf: V::Sym("!body says it has another length".into()), body: BodyM::None };
                        }
                        BodyM::Bytes(o.to_vec())
                    }
                },
                _ => BodyM::None,
            };
            return FM { sasl: false, ch, perf: p.m(), body };
        }
        let body = match self.performative() {
            Frame::Transfer(t) => match &t.body {
                None => BodyM::None,
                Some(TransferBody::Data(b)) => BodyM::Bytes(b.to_vec()),
                Some(b) => {
                    let mut o = BytesMut::with_capacity(amqp_codec::Encode::encoded_size(b) + 64);
                    amqp_codec::Encode::encode(b, &mut o);
                    BodyM::Bytes(o.to_vec())
                }
            },
            _ => BodyM::None,
        };
        FM { sasl: false, ch: self.channel_id(), perf: self.performative().m(), body }
    }
}
impl FrameT for SaslFrame {
    const SASL: bool = true;
    fn build(f: &FM) -> SaslFrame {
        if alt() {
            return match f.perf {
                V::Comp(0x40, _) => SaslMechanisms::un(&f.perf).into(),
                V::Comp(0x41, _) => SaslInit::un(&f.perf).into(),
                V::Comp(0x42, _) => SaslChallenge::un(&f.perf).into(),
                V::Comp(0x43, _) => SaslResponse::un(&f.perf).into(),
                _ => SaslOutcome::un(&f.perf).into(),
            };
        }
        SaslFrame::new(SaslFrameBody::un(&f.perf))
    }
    fn shown(&self) -> String {
        format!("{:?}", self.body)
    }
    fn model(&self) -> FM {
        FM { sasl: true, ch: 0, perf: self.body.m(), body: BodyM::None }
    }
}

pub fn build_body(b: &BodyM, salt: u16) -> Option<TransferBody> {
    match b {
        BodyM::None => None,
        BodyM::Bytes(b) if alt() => Some(mk_bytes(b).into()),
        BodyM::Bytes(b) => Some(TransferBody::Data(mk_bytes(b))),
        BodyM::Msg(m) => Some(if salt % 2 == 0 {
            TransferBody::MessageIn(build_in(m))
        } else {
            TransferBody::MessageOut(build_out(m))
        }),
    }
}

macro_rules! build_msg {
    ($name:ident, $t:ident) => {
        /// Build a message through its public setters (annotations and footer have none).
        pub fn $name(m: &MsgM) -> $t {
            let mut x = $t::default();
            if let Some(h) = &m.header {
                x = x.set_header(Header::un(h));
            }
            if let Some(p) = &m.props {
                x = x.set_properties(|q| *q = Properties::un(p));
            }
            if let Some(ap) = m.ap.as_ref().filter(|ap| ap.len() > 1000) {
                // adding so many one by one looks each of them up among all the others
                let mut b = Vec::new();
                let v = V::Map(ap.iter().map(|(k, v)| (V::Str(k.clone()), v.clone())).collect());
                crate::refamqp::Enc::canon().section(&mut b, 0x74, &v);
                let mf = x.message_format;
                let (h, p) = (x.header().cloned(), x.properties().cloned());
                x = <$t as amqp_codec::Decode>::decode(&b).expect("application properties are decoded").1;
                x.message_format = mf;
                if let Some(h) = h {
                    x = x.set_header(h);
                }
                if let Some(p) = p {
                    x = x.set_properties(|q| *q = p.clone());
                }
            } else if let Some(ap) = &m.ap {
                for (k, v) in ap {
                    x = x.set_app_property(mk_str(k), Variant::un(v));
                }
            }
            if let Some(v) = &m.value {
                x = x.set_value(Variant::un(v));
            }
            if !m.data.is_empty() || !m.seq.is_empty() || !m.nested.is_empty() {
                x = x.set_body(|b| {
                    for d in &m.data {
                        b.data.push(mk_bytes(d));
                    }
                    for s in &m.seq {
                        b.sequence.push(List::un(s));
                    }
                    for (i, n) in m.nested.iter().enumerate() {
                        if let Some(t) = build_body(n, i as u16) {
                            b.messages.push(t);
                        }
                    }
                });
            }
            x
        }
    };
}
build_msg!(build_in, InMessage);
build_msg!(build_out, OutMessage);

/// Compare what a reader of the wire sees with the message the application built.
pub fn check_msg(e: &MsgM, g: &WireMsg) -> Result<(), String> {
    fn opt(n: &str, e: &Option<V>, g: &Option<V>) -> Result<(), String> {
        match (e, g) {
            (None, None) => Ok(()),
            (Some(a), Some(b)) if a == b => Ok(()),
            (Some(a), Some(b)) => Err(format!("{}: {}", n, diff(a, b))),
            (a, b) => Err(format!("{} section: expected {:?}, got {:?}", n, a, b)),
        }
    }
    // annotations and properties come before the body, the footer after it
    let rank = |c: &u8| if *c >= 0x75 && *c <= 0x77 { 0x75 } else { *c };
    if g.order.windows(2).any(|w| rank(&w[0]) > rank(&w[1])) {
        return Err(format!("sections out of order: {:02x?}", g.order));
    }
    opt("header", &e.header, &g.header)?;
    opt("delivery-annotations", &e.da, &g.da)?;
    opt("message-annotations", &e.ma, &g.ma)?;
    opt("properties", &e.props, &g.props)?;
    opt("footer", &e.footer, &g.footer)?;
    let eap = e.ap.as_ref().map(|x| V::map(x.iter().map(|(k, v)| (V::Str(k.clone()), v.clone())).collect()));
    let gap = g.ap.as_ref().map(|x| V::map(x.clone()));
    opt("application-properties", &eap, &gap)?;
    opt("value", &e.value, &g.value)?;
    if e.seq.len() != g.seq.len() {
        return Err(format!("{} sequence sections expected, got {}", e.seq.len(), g.seq.len()));
    }
    for (i, (a, b)) in e.seq.iter().zip(&g.seq).enumerate() {
        if a != b {
            return Err(format!("sequence[{}]: {}", i, diff(a, b)));
        }
    }
    let mut want = e.data.len() + e.nested.len();
    let empty = want == 0 && e.seq.is_empty() && e.value.is_none();
    if empty {
        want = 1;
    }
    if g.data.len() != want {
        return Err(format!("{} data sections expected, got {}", want, g.data.len()));
    }
    if empty {
        if !g.data[0].is_empty() {
            return Err("empty message has data".into());
        }
        return Ok(());
    }
    for (i, d) in g.data.iter().enumerate() {
        if i < e.data.len() {
            if *d != e.data[i] {
                return Err(format!("data[{}]: {}", i, diff(&V::Bin(e.data[i].clone()), &V::Bin(d.clone()))));
            }
        } else {
            check_body(&e.nested[i - e.data.len()], d).map_err(|s| format!("nested[{}]: {}", i - e.data.len(), s))?;
        }
    }
    Ok(())
}

pub fn check_body(e: &BodyM, g: &[u8]) -> Result<(), String> {
    match e {
        BodyM::None => {
            if g.is_empty() {
                Ok(())
            } else {
                Err(format!("no payload expected, got {} bytes", g.len()))
            }
        }
        BodyM::Bytes(b) => {
            if b.as_slice() == g {
                Ok(())
            } else {
                Err(format!("payload: {}", diff(&V::Bin(b.clone()), &V::Bin(g.to_vec()))))
            }
        }
        BodyM::Msg(m) => match crate::refamqp::message(g) {
            Ok(w) => check_msg(m, &w),
            Err(b) => Err(format!("message not readable: {:?}: {}", b, crate::tape::hex(g))),
        },
    }
}

/// Does the received frame carry exactly what was sent?
pub fn check_frame(e: &FM, g: &FM) -> Result<(), String> {
    if e.sasl != g.sasl {
        return Err("layer".into());
    }
    if !e.sasl && e.ch != g.ch {
        return Err(format!("channel: expected {}, got {}", e.ch, g.ch));
    }
    if e.perf != g.perf {
        return Err(match (&e.perf, &g.perf) {
            (V::Comp(a, _), V::Comp(b, _)) if a != b => {
                format!("expected {}, got {}", spec::comp(*a).name, spec::comp(*b).name)
            }
            _ => diff(&e.perf, &g.perf),
        });
    }
    let gb: &[u8] = match &g.body {
        BodyM::None => &[],
        BodyM::Bytes(b) => b,
        BodyM::Msg(_) => return Err("unreachable".into()),
    };
    check_body(&e.body, gb)
}

pub fn frame_name(f: &FM) -> String {
    let n = match &f.perf {
        V::Comp(c, _) => spec::comp(*c).name,
        _ => "empty",
    };
    let b = match &f.body {
        BodyM::None => String::new(),
        BodyM::Bytes(b) => format!("+{}B", b.len()),
        BodyM::Msg(_) => "+msg".into(),
    };
    format!("{}@{}{}", n, f.ch, b)
}
