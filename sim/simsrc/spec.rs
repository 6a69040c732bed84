//! AMQP 1.0 composite types, written down from the OASIS specification (parts 2, 3 and 5),
//! independently of the crate under test.

use crate::model::V;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FT {
    Bool,
    U8,
    U16,
    U32,
    U64,
    Ts,
    Bin,
    Str,
    Sym,
    /// ubyte restricted to 0..=n
    EnumU8(u8),
    EnumU32(u32),
    EnumSym(&'static [&'static str]),
    /// map of symbol to anything
    Fields,
    /// map of anything to anything
    Map,
    /// map of symbol to (null or string), as the crate can represent it
    Filter,
    /// symbol, multiple
    Symbols,
    Comp(u8),
    State,
    Outcome,
    MsgId,
}

#[derive(Clone, Copy, Debug)]
pub enum Def {
    None,
    B(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    Sym(&'static str),
}

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub name: &'static str,
    pub ty: FT,
    pub mand: bool,
    pub def: Def,
}

impl Field {
    pub fn default(&self) -> V {
        match self.def {
            Def::None => V::Null,
            Def::B(x) => V::Bool(x),
            Def::U8(x) => V::U8(x),
            Def::U16(x) => V::U16(x),
            Def::U32(x) => V::U32(x),
            Def::Sym(x) => V::Sym(x.to_string()),
        }
    }
}

pub struct Comp {
    pub code: u8,
    pub name: &'static str,
    pub sym: &'static str,
    pub fields: &'static [Field],
}

const fn m(name: &'static str, ty: FT) -> Field {
    Field { name, ty, mand: true, def: Def::None }
}
const fn o(name: &'static str, ty: FT) -> Field {
    Field { name, ty, mand: false, def: Def::None }
}
const fn d(name: &'static str, ty: FT, def: Def) -> Field {
    Field { name, ty, mand: false, def }
}

pub const EXPIRY: &[&str] = &["link-detach", "session-end", "connection-close", "never"];

pub static COMPS: &[Comp] = &[
    Comp { code: 0x10, name: "open", sym: "amqp:open:list", fields: &[
        m("container-id", FT::Str),
        o("hostname", FT::Str),
        d("max-frame-size", FT::U32, Def::U32(4_294_967_295)),
        d("channel-max", FT::U16, Def::U16(65535)),
        o("idle-time-out", FT::U32),
        o("outgoing-locales", FT::Symbols),
        o("incoming-locales", FT::Symbols),
        o("offered-capabilities", FT::Symbols),
        o("desired-capabilities", FT::Symbols),
        o("properties", FT::Fields),
    ] },
    Comp { code: 0x11, name: "begin", sym: "amqp:begin:list", fields: &[
        o("remote-channel", FT::U16),
        m("next-outgoing-id", FT::U32),
        m("incoming-window", FT::U32),
        m("outgoing-window", FT::U32),
        d("handle-max", FT::U32, Def::U32(4_294_967_295)),
        o("offered-capabilities", FT::Symbols),
        o("desired-capabilities", FT::Symbols),
        o("properties", FT::Fields),
    ] },
    Comp { code: 0x12, name: "attach", sym: "amqp:attach:list", fields: &[
        m("name", FT::Str),
        m("handle", FT::U32),
        m("role", FT::Bool),
        d("snd-settle-mode", FT::EnumU8(2), Def::U8(2)),
        d("rcv-settle-mode", FT::EnumU8(1), Def::U8(0)),
        o("source", FT::Comp(0x28)),
        o("target", FT::Comp(0x29)),
        o("unsettled", FT::Map),
        d("incomplete-unsettled", FT::Bool, Def::B(false)),
        o("initial-delivery-count", FT::U32),
        o("max-message-size", FT::U64),
        o("offered-capabilities", FT::Symbols),
        o("desired-capabilities", FT::Symbols),
        o("properties", FT::Fields),
    ] },
    Comp { code: 0x13, name: "flow", sym: "amqp:flow:list", fields: &[
        o("next-incoming-id", FT::U32),
        m("incoming-window", FT::U32),
        m("next-outgoing-id", FT::U32),
        m("outgoing-window", FT::U32),
        o("handle", FT::U32),
        o("delivery-count", FT::U32),
        o("link-credit", FT::U32),
        o("available", FT::U32),
        d("drain", FT::Bool, Def::B(false)),
        d("echo", FT::Bool, Def::B(false)),
        o("properties", FT::Fields),
    ] },
    Comp { code: 0x14, name: "transfer", sym: "amqp:transfer:list", fields: &[
        m("handle", FT::U32),
        o("delivery-id", FT::U32),
        o("delivery-tag", FT::Bin),
        o("message-format", FT::U32),
        o("settled", FT::Bool),
        d("more", FT::Bool, Def::B(false)),
        o("rcv-settle-mode", FT::EnumU8(1)),
        o("state", FT::State),
        d("resume", FT::Bool, Def::B(false)),
        d("aborted", FT::Bool, Def::B(false)),
        d("batchable", FT::Bool, Def::B(false)),
    ] },
    Comp { code: 0x15, name: "disposition", sym: "amqp:disposition:list", fields: &[
        m("role", FT::Bool),
        m("first", FT::U32),
        o("last", FT::U32),
        d("settled", FT::Bool, Def::B(false)),
        o("state", FT::State),
        d("batchable", FT::Bool, Def::B(false)),
    ] },
    Comp { code: 0x16, name: "detach", sym: "amqp:detach:list", fields: &[
        m("handle", FT::U32),
        d("closed", FT::Bool, Def::B(false)),
        o("error", FT::Comp(0x1d)),
    ] },
    Comp { code: 0x17, name: "end", sym: "amqp:end:list", fields: &[o("error", FT::Comp(0x1d))] },
    Comp { code: 0x18, name: "close", sym: "amqp:close:list", fields: &[o("error", FT::Comp(0x1d))] },
    Comp { code: 0x1d, name: "error", sym: "amqp:error:list", fields: &[
        m("condition", FT::Sym),
        o("description", FT::Str),
        o("info", FT::Fields),
    ] },
    Comp { code: 0x23, name: "received", sym: "amqp:received:list", fields: &[
        m("section-number", FT::U32),
        m("section-offset", FT::U64),
    ] },
    Comp { code: 0x24, name: "accepted", sym: "amqp:accepted:list", fields: &[] },
    Comp { code: 0x25, name: "rejected", sym: "amqp:rejected:list", fields: &[o("error", FT::Comp(0x1d))] },
    Comp { code: 0x26, name: "released", sym: "amqp:released:list", fields: &[] },
    Comp { code: 0x27, name: "modified", sym: "amqp:modified:list", fields: &[
        o("delivery-failed", FT::Bool),
        o("undeliverable-here", FT::Bool),
        o("message-annotations", FT::Fields),
    ] },
    Comp { code: 0x28, name: "source", sym: "amqp:source:list", fields: &[
        o("address", FT::Str),
        d("durable", FT::EnumU32(2), Def::U32(0)),
        d("expiry-policy", FT::EnumSym(EXPIRY), Def::Sym("session-end")),
        d("timeout", FT::U32, Def::U32(0)),
        d("dynamic", FT::Bool, Def::B(false)),
        o("dynamic-node-properties", FT::Fields),
        o("distribution-mode", FT::Sym),
        o("filter", FT::Filter),
        o("default-outcome", FT::Outcome),
        o("outcomes", FT::Symbols),
        o("capabilities", FT::Symbols),
    ] },
    Comp { code: 0x29, name: "target", sym: "amqp:target:list", fields: &[
        o("address", FT::Str),
        d("durable", FT::EnumU32(2), Def::U32(0)),
        d("expiry-policy", FT::EnumSym(EXPIRY), Def::Sym("session-end")),
        d("timeout", FT::U32, Def::U32(0)),
        d("dynamic", FT::Bool, Def::B(false)),
        o("dynamic-node-properties", FT::Fields),
        o("capabilities", FT::Symbols),
    ] },
    Comp { code: 0x40, name: "sasl-mechanisms", sym: "amqp:sasl-mechanisms:list", fields: &[
        m("sasl-server-mechanisms", FT::Symbols),
    ] },
    Comp { code: 0x41, name: "sasl-init", sym: "amqp:sasl-init:list", fields: &[
        m("mechanism", FT::Sym),
        o("initial-response", FT::Bin),
        o("hostname", FT::Str),
    ] },
    Comp { code: 0x42, name: "sasl-challenge", sym: "amqp:sasl-challenge:list", fields: &[m("challenge", FT::Bin)] },
    Comp { code: 0x43, name: "sasl-response", sym: "amqp:sasl-response:list", fields: &[m("response", FT::Bin)] },
    Comp { code: 0x44, name: "sasl-outcome", sym: "amqp:sasl-outcome:list", fields: &[
        m("code", FT::EnumU8(4)),
        o("additional-data", FT::Bin),
    ] },
    Comp { code: 0x70, name: "header", sym: "amqp:header:list", fields: &[
        d("durable", FT::Bool, Def::B(false)),
        d("priority", FT::U8, Def::U8(4)),
        o("ttl", FT::U32),
        d("first-acquirer", FT::Bool, Def::B(false)),
        d("delivery-count", FT::U32, Def::U32(0)),
    ] },
    Comp { code: 0x73, name: "properties", sym: "amqp:properties:list", fields: &[
        o("message-id", FT::MsgId),
        o("user-id", FT::Bin),
        o("to", FT::Str),
        o("subject", FT::Str),
        o("reply-to", FT::Str),
        o("correlation-id", FT::MsgId),
        o("content-type", FT::Sym),
        o("content-encoding", FT::Sym),
        o("absolute-expiry-time", FT::Ts),
        o("creation-time", FT::Ts),
        o("group-id", FT::Str),
        o("group-sequence", FT::U32),
        o("reply-to-group-id", FT::Str),
    ] },
];

/// The non-composite message sections
pub static SECTIONS: &[(u8, &str)] = &[
    (0x71, "amqp:delivery-annotations:map"),
    (0x72, "amqp:message-annotations:map"),
    (0x74, "amqp:application-properties:map"),
    (0x75, "amqp:data:binary"),
    (0x76, "amqp:amqp-sequence:list"),
    (0x77, "amqp:amqp-value:*"),
    (0x78, "amqp:footer:map"),
];

pub const AMQP_PERFS: &[u8] = &[0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18];
pub const SASL_PERFS: &[u8] = &[0x40, 0x41, 0x42, 0x43, 0x44];

pub const ERROR_CONDITIONS: &[&str] = &[
    "amqp:internal-error",
    "amqp:not-found",
    "amqp:unauthorized-access",
    "amqp:decode-error",
    "amqp:resource-limit-exceeded",
    "amqp:not-allowed",
    "amqp:invalid-field",
    "amqp:not-implemented",
    "amqp:resource-locked",
    "amqp:precondition-failed",
    "amqp:resource-deleted",
    "amqp:illegal-state",
    "amqp:frame-size-too-small",
    "amqp:connection:forced",
    "amqp:connection:framing-error",
    "amqp:connection:redirect",
    "amqp:session:window-violation",
    "amqp:session:errant-link",
    "amqp:session:handle-in-use",
    "amqp:session:unattached-handle",
    "amqp:link:detach-forced",
    "amqp:link:transfer-limit-exceeded",
    "amqp:link:message-size-exceeded",
    "amqp:link:redirect",
    "amqp:link:stolen",
];

pub fn find(code: u8) -> Option<&'static Comp> {
    COMPS.iter().find(|c| c.code == code)
}
pub fn comp(code: u8) -> &'static Comp {
    find(code).expect("known composite")
}
pub fn code_of_sym(s: &str) -> Option<u8> {
    COMPS
        .iter()
        .find(|c| c.sym == s)
        .map(|c| c.code)
        .or_else(|| SECTIONS.iter().find(|x| x.1 == s).map(|x| x.0))
}
pub fn sym_of_code(code: u8) -> Option<&'static str> {
    find(code)
        .map(|c| c.sym)
        .or_else(|| SECTIONS.iter().find(|x| x.0 == code).map(|x| x.1))
}
