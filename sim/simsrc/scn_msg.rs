//! Scenarios about messages: C09 (edit histories), C10 (relays), C15 (request and reply).

use crate::conn::*;
use crate::drive::fresh;
use crate::ensure;
use crate::gen::G;
use crate::model::*;
use crate::net::*;
use crate::refamqp::{self, judge, Enc, Verdict};
use crate::scn_wire::{in_message_is, out_message_is};
use crate::tape::*;
use crate::typed::*;
use amqp_codec::protocol::{Frame, Header, Properties, TransferBody};
use amqp_codec::types::{List, Str, Variant};
use amqp_codec::{AmqpFrame, Decode, Encode, InMessage, MessageBody, OutMessage};
use bytes::BytesMut;
use std::collections::{BTreeMap, VecDeque};

// ---------------------------------------------------------------- messages of either kind

#[derive(Clone, Debug, PartialEq)]
pub enum Real {
    In(InMessage),
    Out(OutMessage),
}

macro_rules! both {
    ($r:expr, $x:ident => $e:expr) => {
        match $r {
            Real::In($x) => $e,
            Real::Out($x) => $e,
        }
    };
}

impl Real {
    fn size(&self) -> usize {
        both!(self, x => x.encoded_size())
    }
    fn put(&self, b: &mut BytesMut) {
        both!(self, x => x.encode(b))
    }
    fn body(&self) -> &MessageBody {
        both!(self, x => x.body())
    }
    fn format(&self) -> Option<u32> {
        both!(self, x => x.message_format)
    }
    fn transfer(self) -> TransferBody {
        both!(self, x => x.into())
    }
    fn decode(out: bool, b: &[u8]) -> Result<(usize, Real), String> {
        if out {
            OutMessage::decode(b).map(|(r, m)| (r.len(), Real::Out(m)))
        } else {
            InMessage::decode(b).map(|(r, m)| (r.len(), Real::In(m)))
        }
        .map_err(|e| format!("{:?}", e))
    }
    fn is_out(&self) -> bool {
        match self {
            Real::Out(_) => true,
            _ => false,
        }
    }
    fn bytes(&self, ch: &Ch) -> Result<Vec<u8>, Viol> {
        let mut b = fresh(ch);
        b.reserve(16);
        b.extend_from_slice(b"queued");
        let n = self.size();
        b.reserve(n);
        self.put(&mut b);
        ensure!(b.len() >= 6 && &b[..6] == b"queued", "queued-bytes-changed", "{}", hex(&b));
        ensure!(
            b.len() - 6 == n,
            "size-mismatch",
            "message announces {} bytes and appends {}: {}",
            n,
            b.len() - 6,
            hex(&b[6..])
        );
        Ok(b[6..].to_vec())
    }
}

/// the message a reader of the wire has in hands
pub fn from_wire(w: &WireMsg) -> MsgM {
    MsgM {
        header: w.header.clone(),
        da: w.da.clone(),
        ma: w.ma.clone(),
        props: w.props.clone(),
        ap: w.ap.as_ref().map(|x| {
            x.iter()
                .map(|(k, v)| match k {
                    V::Str(s) => (s.clone(), v.clone()),
                    k => panic!("harness: key {:?}", k),
                })
                .collect()
        }),
        data: w.data.clone(),
        seq: w.seq.clone(),
        value: w.value.clone(),
        nested: Vec::new(),
        footer: w.footer.clone(),
    }
}

pub fn read_msg(what: &str, b: &[u8], m: &MsgM) -> Result<WireMsg, Viol> {
    match judge(|| refamqp::message(b)) {
        Verdict::Valid(w) => match check_msg(m, &w) {
            Ok(()) => Ok(w),
            Err(e) => viol("stale-or-wrong-bytes", format!("{}: {}: {}", what, e, hex(b))),
        },
        r => viol("stale-or-wrong-bytes", format!("{}: an independent reader finds {:?}: {}", what, r, hex(b))),
    }
}

fn same<T: std::fmt::Debug + PartialEq>(what: &str, want: &T, got: &T) -> Res {
    ensure!(want == got, "contents-changed", "{}: expected {:?} got {:?}", what, want, got);
    Ok(())
}

/// everything the accessors show is what the edits put there
fn holds(m: &MsgM, r: &Real) -> Res {
    same("header", &m.header, &both!(r, x => x.header().map(|x| x.m())))?;
    same("properties", &m.props, &both!(r, x => x.properties().map(|x| x.m())))?;
    same("value", &m.value, &both!(r, x => x.value().map(|x| x.m())))?;
    match r {
        Real::In(x) => {
            for (k, v) in m.ap.iter().flat_map(|x| x) {
                same("application property", &Some(v.clone()), &x.app_property(k).map(|x| x.m()))?;
            }
        }
        Real::Out(x) => {
            // the order of entries means nothing
            let sorted = |mut x: Vec<(String, V)>| {
                x.sort();
                x
            };
            let want = m.ap.clone().map(sorted);
            let g = x
                .app_properties()
                .map(|kv| sorted(kv.iter().map(|(k, v): &(Str, Variant)| (k.as_str().to_string(), v.m())).collect()));
            same("application properties", &want, &g)?;
        }
    }
    let b = r.body();
    let d: Vec<Vec<u8>> = b.data.iter().map(|x| x.to_vec()).collect();
    same("data", &m.data, &d)?;
    same("data()", &m.data.first().map(|x| &x[..]), &b.data().map(|x| &x[..]))?;
    let s: Vec<V> = b.sequence.iter().map(|x| x.m()).collect();
    same("sequence", &m.seq, &s)?;
    same("value", &m.value, &b.value().map(|x| x.m()))?;
    same("nested messages", &m.nested.len(), &b.messages.len())?;
    for (e, g) in m.nested.iter().zip(&b.messages) {
        match (e, g) {
            (BodyM::Bytes(e), TransferBody::Data(g)) => same("nested data", &&e[..], &&g[..])?,
            (BodyM::Msg(e), TransferBody::MessageIn(x)) => holds(e, &Real::In(x.clone()))?,
            (BodyM::Msg(e), TransferBody::MessageOut(x)) => holds(e, &Real::Out(x.clone()))?,
            (e, g) => return viol("contents-changed", format!("nested: expected {:?} got {:?}", e, g)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- edits

#[derive(Clone, Debug)]
enum Edit {
    Header(V),
    Props(V),
    Prop(usize, V),
    Ap(String, V),
    Value(V),
    NoValue,
    PushData(Vec<u8>),
    SetData(Vec<u8>),
    PopData,
    PushSeq(V),
    PopSeq,
    Nest(Vec<TransferBody>, Vec<BodyM>),
    Unnest,
    Bodyless,
    Many(Vec<Edit>),
    IfSome(Option<Box<Edit>>),
    /// the application looks at the size while it is editing
    Peek,
    Format(Option<u32>),
}

fn set_prop(p: &mut Properties, i: usize, v: &V) {
    match i {
        0 => p.message_id = M::un(v),
        1 => p.user_id = M::un(v),
        2 => p.to = M::un(v),
        3 => p.subject = M::un(v),
        4 => p.reply_to = M::un(v),
        5 => p.correlation_id = M::un(v),
        6 => p.content_type = M::un(v),
        7 => p.content_encoding = M::un(v),
        8 => p.absolute_expiry_time = M::un(v),
        9 => p.creation_time = M::un(v),
        10 => p.group_id = M::un(v),
        11 => p.group_sequence = M::un(v),
        _ => p.reply_to_group_id = M::un(v),
    }
}

impl Edit {
    fn on_model(&self, m: &mut MsgM, fmt: &mut Option<u32>, out: bool) {
        let _ = out;
        match self {
            Edit::Header(v) => m.header = Some(v.clone()),
            Edit::Props(v) => m.props = Some(v.clone()),
            Edit::Prop(i, v) => {
                let p = m.props.get_or_insert_with(|| V::Comp(0x73, vec![V::Null; 13]));
                if let V::Comp(_, fs) = p {
                    fs[*i] = v.clone();
                }
            }
            Edit::Ap(k, v) => {
                let a = m.ap.get_or_insert_with(Vec::new);
                match a.iter().position(|x| x.0 == *k) {
                    Some(i) => a[i].1 = v.clone(),
                    None => a.push((k.clone(), v.clone())),
                }
            }
            Edit::Value(v) => m.value = Some(v.clone()),
            Edit::NoValue => m.value = None,
            Edit::PushData(b) => m.data.push(b.clone()),
            Edit::SetData(b) => m.data = vec![b.clone()],
            Edit::PopData => {
                m.data.pop();
            }
            Edit::PushSeq(v) => m.seq.push(v.clone()),
            Edit::PopSeq => {
                m.seq.pop();
            }
            Edit::Nest(_, b) => m.nested.extend(b.iter().cloned()),
            Edit::Unnest => {
                m.nested.pop();
            }
            Edit::Bodyless => {
                m.data.clear();
                m.seq.clear();
                m.nested.clear();
                m.value = None;
            }
            Edit::Many(es) => es.iter().for_each(|e| e.on_model(m, fmt, out)),
            Edit::IfSome(Some(e)) => e.on_model(m, fmt, out),
            Edit::IfSome(None) | Edit::Peek => (),
            Edit::Format(f) => *fmt = *f,
        }
    }
    fn neutral(&self) -> bool {
        match self {
            Edit::Peek | Edit::IfSome(None) | Edit::PopData | Edit::PopSeq | Edit::Unnest | Edit::NoValue => true,
            Edit::IfSome(Some(e)) => e.neutral(),
            Edit::Many(es) => es.iter().all(|e| e.neutral()),
            _ => false,
        }
    }
    fn name(&self) -> String {
        match self {
            Edit::Nest(_, b) => format!("Nest {} messages", b.len()),
            Edit::Many(es) => format!("update({})", es.iter().map(|e| e.name()).collect::<Vec<_>>().join(", ")),
            Edit::IfSome(Some(e)) => format!("if_some({})", e.name()),
            e => {
                let s = format!("{:?}", e);
                s.chars().take(90).collect()
            }
        }
    }
}

macro_rules! on_real {
    ($name:ident, $t:ident) => {
        fn $name(x: $t, e: &Edit) -> $t {
            match e {
                Edit::Header(v) => x.set_header(Header::un(v)),
                Edit::Props(v) => x.set_properties(|p| *p = Properties::un(v)),
                Edit::Prop(i, v) => x.set_properties(|p| set_prop(p, *i, v)),
                Edit::Ap(k, v) => x.set_app_property(Str::un(&V::Str(k.clone())), Variant::un(v)),
                Edit::Value(v) => x.set_value(Variant::un(v)),
                Edit::NoValue => x.set_body(|b| b.value = None),
                Edit::PushData(d) => x.set_body(|b| b.data.push(M::un(&V::Bin(d.clone())))),
                Edit::SetData(d) => x.set_body(|b| b.set_data(M::un(&V::Bin(d.clone())))),
                Edit::PopData => x.set_body(|b| {
                    b.data.pop();
                }),
                Edit::PushSeq(v) => x.set_body(|b| b.sequence.push(List::un(v))),
                Edit::PopSeq => x.set_body(|b| {
                    b.sequence.pop();
                }),
                Edit::Nest(ms, _) => x.set_body(|b| b.messages.extend(ms.iter().cloned())),
                Edit::Unnest => x.set_body(|b| {
                    b.messages.pop();
                }),
                Edit::Bodyless => x.set_body(|b| *b = MessageBody::default()),
                Edit::Many(es) => x.update(|x| es.iter().fold(x, |x, e| $name(x, e))),
                Edit::IfSome(e) => x.if_some(e, |x, e| $name(x, e)),
                Edit::Peek => {
                    let _ = x.encoded_size();
                    x
                }
                Edit::Format(f) => {
                    let mut x = x;
                    x.message_format = *f;
                    x
                }
            }
        }
    };
}
on_real!(edit_in, InMessage);
on_real!(edit_out, OutMessage);

fn edit(r: Real, e: &Edit) -> Real {
    match r {
        Real::In(x) => Real::In(edit_in(x, e)),
        Real::Out(x) => Real::Out(edit_out(x, e)),
    }
}

fn floats(v: &V) -> bool {
    match v {
        V::F32(_) | V::F64(_) => true,
        V::List(x) | V::Array(x) | V::Comp(_, x) => x.iter().any(floats),
        V::Map(x) => x.iter().any(|(k, v)| floats(k) || floats(v)),
        V::Desc(_, x) => floats(x),
        _ => false,
    }
}
fn msg_floats(m: &MsgM) -> bool {
    m.seq.iter().any(floats)
        || m.value.iter().any(floats)
        || m.ap.iter().flat_map(|x| x).any(|x| floats(&x.1))
        || m.da.iter().chain(&m.ma).chain(&m.footer).any(floats)
        || m.nested.iter().any(|n| match n {
            BodyM::Msg(m) => msg_floats(m),
            _ => false,
        })
}

// ---------------------------------------------------------------- C09

struct Slot {
    real: Real,
    /// the same history, measured and encoded at other times
    twin: Real,
    m: MsgM,
    fmt: Option<u32>,
}

struct Pool {
    ch: Ch,
    g: G,
    slots: Vec<Slot>,
}

impl Pool {
    fn slot(&self) -> usize {
        self.ch.idx(self.slots.len())
    }
    fn add(&mut self, s: Slot) {
        if self.slots.len() < 6 {
            self.slots.push(s);
        } else {
            let i = self.slot();
            self.slots[i] = s;
        }
    }
    fn fresh_slot(&mut self) {
        let ch = self.ch.clone();
        let out = ch.coin();
        let mut m = MsgM::default();
        let mut mk: Box<dyn Fn() -> Real> = Box::new(move || if out { Real::Out(OutMessage::default()) } else { Real::In(InMessage::default()) });
        let how = ch.below(3);
        if how == 1 {
            let b = self.g.bytes();
            m.data.push(b.clone());
            mk = Box::new(move || {
                let b = M::un(&V::Bin(b.clone()));
                if out {
                    Real::Out(OutMessage::with_body(b))
                } else {
                    Real::In(InMessage::with_body(b))
                }
            });
        }
        if how == 2 && !self.slots.is_empty() {
            let (ts, bs) = self.some_messages();
            m.nested = bs;
            mk = Box::new(move || {
                if out {
                    Real::Out(OutMessage::with_messages(ts.clone()))
                } else {
                    Real::In(InMessage::with_messages(ts.clone()))
                }
            });
        }
        self.ch.log(|| format!("new {} message", if out { "outbound" } else { "inbound" }));
        self.add(Slot { real: mk(), twin: mk(), m, fmt: None });
    }
    /// clones of messages in the pool, as an application nests them
    fn some_messages(&self) -> (Vec<TransferBody>, Vec<BodyM>) {
        let ch = &self.ch;
        let mut ts = Vec::new();
        let mut bs = Vec::new();
        for _ in 0..1 + ch.below(2) {
            if ch.chance(1, 6) {
                let b = self.g.bytes();
                ts.push(TransferBody::Data(M::un(&V::Bin(b.clone()))));
                bs.push(BodyM::Bytes(b));
                continue;
            }
            let s = &self.slots[self.slot()];
            if depth(&s.m) > 3 {
                continue;
            }
            if ch.coin() {
                let _ = s.real.size();
            }
            ts.push(if ch.coin() { s.real.clone() } else { s.twin.clone() }.transfer());
            bs.push(BodyM::Msg(Box::new(s.m.clone())));
        }
        (ts, bs)
    }
    fn draw_edit(&self, level: u32) -> Edit {
        let ch = &self.ch;
        let g = &self.g;
        match ch.below(if level > 0 { 19 } else { 16 }) {
            0 => Edit::Header(g.comp(0x70)),
            1 => Edit::Props(g.comp(0x73)),
            2 | 3 => {
                let i = ch.idx(13);
                let v = if ch.chance(1, 5) { V::Null } else { g.field(crate::spec::comp(0x73).fields[i].ty) };
                Edit::Prop(i, v)
            }
            4 => Edit::Ap(g.string(), g.v(1, false)),
            5 => Edit::Ap(ch.pick(&["a", "key", ""]).to_string(), g.v(1, false)),
            6 => Edit::Value(g.v(2, false)),
            7 => Edit::NoValue,
            8 => Edit::PushData(g.bytes()),
            9 => Edit::SetData(g.bytes()),
            10 => Edit::PopData,
            11 => Edit::PushSeq(V::List(g.items(1, false))),
            12 => Edit::PopSeq,
            13 => {
                let (a, b) = self.some_messages();
                Edit::Nest(a, b)
            }
            14 => {
                if ch.coin() {
                    Edit::Unnest
                } else {
                    Edit::Bodyless
                }
            }
            15 => {
                if ch.coin() {
                    Edit::Peek
                } else {
                    Edit::Format(if ch.coin() { Some(g.num() as u32) } else { None })
                }
            }
            16 | 17 => Edit::Many((0..ch.below(4)).map(|_| self.draw_edit(level - 1)).collect()),
            _ => Edit::IfSome(if ch.chance(1, 4) { None } else { Some(Box::new(self.draw_edit(level - 1))) }),
        }
    }
    fn edit(&mut self) -> Res {
        let ch = self.ch.clone();
        let i = self.slot();
        let e = self.draw_edit(2);
        ch.log(|| format!("edit #{}: {}", i, e.name()));
        let s = &mut self.slots[i];
        let before = (s.real.clone(), s.m.clone(), s.fmt);
        s.real = edit(s.real.clone(), &e);
        s.twin = edit(s.twin.clone(), &e);
        let out = s.real.is_out();
        e.on_model(&mut s.m, &mut s.fmt, out);
        ch.ev(70, i as u64, 0);
        holds(&s.m, &s.real)?;
        holds(&before.1, &before.0)?;
        let changed = before.1 != s.m || before.2 != s.fmt;
        if !changed {
            // the same value set again may be held at a finer resolution than the wire's
            ensure!(!e.neutral() || before.0 == s.real, "equality", "an edit that changes nothing makes the message differ: {}", e.name());
        } else if !msg_floats(&before.1) && !msg_floats(&s.m) {
            ensure!(before.0 != s.real, "equality", "the message compares equal to itself before {}", e.name());
            ensure!(s.twin != before.0, "equality", "the message compares equal to itself before {}", e.name());
        }
        Ok(())
    }
    /// a look at the size and the bytes, which must change nothing
    fn look(&mut self) -> Res {
        let ch = self.ch.clone();
        let i = self.slot();
        let eq: Vec<bool> = self.slots.iter().map(|s| s.real == self.slots[i].real).collect();
        let how = ch.below(4);
        {
            let s = &self.slots[i];
            let r = if ch.coin() { &s.real } else { &s.twin };
            ch.ev(71, i as u64, how);
            match how {
                0 => {
                    let n = r.size();
                    ch.log(|| format!("measure #{}: {}", i, n));
                    ensure!(r.size() == n, "size-changes", "announced {} then {}", n, r.size());
                    let t = r.clone().transfer();
                    ensure!(t.len() == n && t.encoded_size() == n, "size-changes", "{} bytes, {} as a transfer body", n, t.len());
                    ensure!(t.message_format() == s.fmt, "contents-changed", "message format {:?} / {:?}", t.message_format(), s.fmt);
                }
                1 | 2 => {
                    let b = r.bytes(&ch)?;
                    ch.log(|| format!("encode #{}: {} bytes", i, b.len()));
                    read_msg("encoded message", &b, &s.m)?;
                    let again = r.bytes(&ch)?;
                    ensure!(again.len() == b.len(), "size-changes", "{} bytes then {}", b.len(), again.len());
                }
                _ => {
                    let b = r.body().encoded_size();
                    let mut o = BytesMut::with_capacity(b + 8);
                    r.body().encode(&mut o);
                    ch.log(|| format!("encode the body of #{}: {} bytes", i, o.len()));
                    ensure!(o.len() == b, "size-mismatch", "body announces {} bytes and appends {}", b, o.len());
                }
            }
        }
        for (j, s) in self.slots.iter().enumerate() {
            ensure!((s.real == self.slots[i].real) == eq[j], "equality", "measuring or encoding #{} changed whether it equals #{}", i, j);
        }
        let s = &self.slots[i];
        holds(&s.m, &s.real)?;
        holds(&s.m, &s.twin)
    }
    fn decoded(&mut self, b: &[u8], m: &MsgM, what: &str) -> Res {
        let ch = self.ch.clone();
        let w = read_msg(what, b, m)?;
        let out = ch.coin();
        let mut two = Vec::new();
        for _ in 0..2 {
            match Real::decode(out, b) {
                Ok((0, r)) => two.push(r),
                Ok((n, _)) => return viol("bytes-not-consumed", format!("{}: {} bytes left", what, n)),
                Err(e) => return viol("own-message-refused", format!("{}: {}: {}", what, e, hex(b))),
            }
        }
        let (twin, real) = (two.remove(1), two.remove(0));
        ensure!(real == twin, "equality", "{}: two decodings of the same bytes differ", what);
        match &real {
            Real::In(x) => in_message_is(m, x)?,
            Real::Out(x) => out_message_is(m, x)?,
        }
        let m = from_wire(&w);
        ch.ev(72, b.len() as u64, 0);
        holds(&m, &real)?;
        self.add(Slot { real, twin, m, fmt: None });
        Ok(())
    }
    fn decode(&mut self) -> Res {
        let ch = self.ch.clone();
        let i = self.slot();
        if ch.chance(1, 4) {
            // from the peer, with the sections an application cannot set
            let mut g = G::small(&ch);
            g.wire_only = true;
            let m = g.msg(1);
            let b = Enc::varied(&ch).msg(&m);
            ch.log(|| format!("receive a message from the peer: {} bytes", b.len()));
            return self.decoded(&b, &m, "message of the peer");
        }
        let m = self.slots[i].m.clone();
        let b = self.slots[i].real.bytes(&ch)?;
        ch.log(|| format!("encode and decode #{}", i));
        self.decoded(&b, &m, "own message")
    }
    /// take a nested message out of a decoded one
    fn unwrap(&mut self) -> Res {
        let ch = self.ch.clone();
        let i = self.slot();
        if self.slots[i].m.data.is_empty() {
            return Ok(());
        }
        let d = self.slots[i].m.data[ch.idx(self.slots[i].m.data.len())].clone();
        let w = match judge(|| refamqp::message(&d)) {
            Verdict::Valid(w) => w,
            _ => return Ok(()),
        };
        let rank = |c: &u8| if *c >= 0x75 && *c <= 0x77 { 0x75 } else { *c };
        if w.order.windows(2).any(|x| rank(&x[0]) > rank(&x[1])) {
            return Ok(());
        }
        ch.log(|| format!("open a message nested in #{}", i));
        ch.probe("load.nested_message_opened");
        let m = from_wire(&w);
        self.decoded(&d, &m, "nested message")
    }
    fn copy(&mut self) -> Res {
        let i = self.slot();
        let s = &self.slots[i];
        let c = Slot { real: s.real.clone(), twin: if self.ch.coin() { s.real.clone() } else { s.twin.clone() }, m: s.m.clone(), fmt: s.fmt };
        ensure!(c.real == s.real && s.real == c.real, "equality", "a clone differs from its original");
        self.ch.log(|| format!("clone #{}", i));
        self.add(c);
        Ok(())
    }
    fn twins(&self) -> Res {
        for (i, s) in self.slots.iter().enumerate() {
            ensure!(
                s.real == s.twin && s.twin == s.real,
                "equality",
                "#{}: two messages with the same edits differ because they were measured at different times: {:?} / {:?}",
                i,
                s.real,
                s.twin
            );
            ensure!(s.real.format() == s.fmt, "contents-changed", "message format {:?} / {:?}", s.real.format(), s.fmt);
        }
        Ok(())
    }
    /// send some messages over a connection that may fail; edit what was lost and send it again
    fn send(&mut self) -> Res {
        let ch = self.ch.clone();
        let mut want: VecDeque<(usize, u16)> = (0..1 + ch.below(3)).map(|k| (self.slot(), k as u16)).collect();
        let mut tries = 0;
        while !want.is_empty() {
            tries += 1;
            let mut todo = Vec::new();
            let mut real = BTreeMap::new();
            let mut total = 0;
            for (k, (i, c)) in want.iter().enumerate() {
                let s = &self.slots[*i];
                let f = self.g.transfer(*c, BodyM::Msg(Box::new(s.m.clone())));
                let mut x = AmqpFrame::build(&f);
                let (c, mut p) = x.into_parts();
                if let Frame::Transfer(ref mut t) = p {
                    t.body = Some(if ch.coin() { s.real.clone() } else { s.twin.clone() }.transfer());
                }
                x = AmqpFrame::new(c, p);
                total += x.encoded_size();
                real.insert(k, x);
                todo.push(f);
            }
            let mut c = Conn::<AmqpFrame>::new(&ch, todo.clone(), Vec::new(), total);
            c.s[0].real = real;
            if tries <= 2 && ch.chance(2, 3) {
                let o = ch.idx(total + 1);
                c.pipe[0].cut_at(o, End::Fin);
                if o == 0 {
                    c.pipe[0].close(End::Fin);
                }
                ch.probe("fault.cut");
                ch.nontrivial();
                ch.log(|| format!("this connection breaks after {} of {} bytes", o, total));
            }
            let check = |side: usize, n: usize, f: &FM| if side == 1 { expect_frame(&todo, n, f) } else { Ok(()) };
            for _ in 0..10 + ch.below(20) {
                c.step(check)?;
            }
            c.drain(check)?;
            c.unchanged()?;
            c.finish();
            let got = c.s[1].seen.clone();
            if tries > 2 {
                ensure!(got.len() == todo.len(), "lost-frame", "{} messages sent, {} delivered", todo.len(), got.len());
            }
            for f in &got {
                let (i, _) = want.pop_front().unwrap();
                if let BodyM::Bytes(p) = &f.body {
                    if ch.chance(1, 3) {
                        let m = self.slots[i].m.clone();
                        // the slot may be replaced by the decoded message
                        let keep: Vec<usize> = want.iter().map(|x| x.0).collect();
                        if !keep.is_empty() {
                            read_msg("received message", p, &m)?;
                        } else {
                            self.decoded(p, &m, "received message")?;
                        }
                    }
                }
            }
            if !want.is_empty() {
                ch.probe("state.resend_after_edit");
                for _ in 0..ch.below(3) {
                    self.edit()?;
                }
            }
        }
        Ok(())
    }
}

fn depth(m: &MsgM) -> u32 {
    1 + m
        .nested
        .iter()
        .map(|n| match n {
            BodyM::Msg(m) => depth(m),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

pub fn c09(ch: &Ch) -> Res {
    let mut g = if ch.chance(1, 4) { G::new(ch) } else { G::small(ch) };
    let budget = g.rarely_big(1500, 1 << 19);
    let mut p = Pool { ch: ch.clone(), g, slots: Vec::new() };
    let mut w = [2u64; 7];
    for x in w.iter_mut() {
        *x = ch.pick(&[2u64, 0, 6]);
    }
    w[1] += 2;
    w[2] += 2;
    p.fresh_slot();
    let n = 3 + ch.below(25);
    for _ in 0..n {
        p.g.set_budget(budget);
        match ch.weighted(&w) {
            0 => p.fresh_slot(),
            1 => p.edit()?,
            2 => p.look()?,
            3 => p.decode()?,
            4 => p.copy()?,
            5 => p.send()?,
            _ => p.unwrap()?,
        }
        p.twins()?;
    }
    for s in &p.slots {
        for r in [&s.real, &s.twin].iter() {
            let b = r.bytes(ch)?;
            read_msg("encoded message", &b, &s.m)?;
        }
    }
    ch.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- C10

/// cut a message into the payloads of consecutive transfers
fn chunks(ch: &Ch, b: &[u8]) -> Vec<Vec<u8>> {
    let mut cuts: Vec<usize> = Vec::new();
    match ch.below(5) {
        0 => (),
        1 => (0..1 + ch.below(4)).for_each(|_| cuts.push(ch.idx(b.len() + 1))),
        2 => {
            let n = 1 + ch.idx(300);
            let mut o = n;
            while o < b.len() && cuts.len() < 30 {
                cuts.push(o);
                o += n;
            }
        }
        3 => cuts.extend(1..b.len().min(20)),
        _ => {
            // near the start, where the sections are
            (0..1 + ch.below(4)).for_each(|_| cuts.push(ch.idx(b.len().min(40) + 1)))
        }
    }
    cuts.sort();
    if ch.chance(3, 4) {
        cuts.dedup();
    }
    let mut out = Vec::new();
    let mut p = 0;
    for c in cuts.into_iter().chain(std::iter::once(b.len())) {
        out.push(b[p..c].to_vec());
        p = c;
    }
    out
}

/// one message under way between two nodes
struct Delivery {
    msg: usize,
    /// bytes of the message, and the object they came from
    bytes: Vec<u8>,
    model: MsgM,
    real: Option<Real>,
}

struct Link {
    chan: u16,
    handle: u32,
    queue: VecDeque<Delivery>,
    frames: VecDeque<(FM, Option<AmqpFrame>)>,
    next_id: u32,
}

fn transfer_fields(g: &G, handle: u32, id: Option<u32>, more: bool, aborted: bool) -> V {
    let ch = &g.ch;
    let mut v = g.comp(0x14);
    if let V::Comp(_, ref mut f) = v {
        f[0] = V::U32(handle);
        f[1] = id.map_or(V::Null, V::U32);
        if id.is_none() && ch.chance(3, 4) {
            f[2] = V::Null;
            f[3] = V::Null;
        }
        f[5] = V::Bool(more);
        f[7] = V::Null;
        f[9] = V::Bool(aborted);
    }
    v
}

impl Link {
    /// turn the next delivery into frames
    fn fill(&mut self, g: &G) {
        let ch = &g.ch;
        let d = match self.queue.pop_front() {
            Some(d) => d,
            None => return,
        };
        let id = self.next_id;
        self.next_id = self.next_id.wrapping_add(1);
        if ch.chance(1, 8) {
            // an attempt that is given up
            let parts = chunks(ch, &d.bytes);
            let k = ch.idx(parts.len());
            for (i, c) in parts.iter().take(k).enumerate() {
                let v = transfer_fields(g, self.handle, if i == 0 { Some(id) } else { None }, true, false);
                self.frames.push_back((FM { sasl: false, ch: self.chan, perf: v, body: BodyM::Bytes(c.clone()) }, None));
            }
            let v = transfer_fields(g, self.handle, if k == 0 { Some(id) } else { None }, false, true);
            self.frames.push_back((FM { sasl: false, ch: self.chan, perf: v, body: BodyM::None }, None));
            ch.probe("fault.delivery_aborted");
            self.queue.push_front(d);
            return;
        }
        if let Some(r) = &d.real {
            if ch.coin() {
                // as an object, in one transfer
                let v = transfer_fields(g, self.handle, Some(id), false, false);
                let f = FM { sasl: false, ch: self.chan, perf: v, body: BodyM::Msg(Box::new(d.model.clone())) };
                let plain = FM { body: BodyM::None, ..f.clone() };
                let (c, mut p) = AmqpFrame::build(&plain).into_parts();
                if let Frame::Transfer(ref mut t) = p {
                    t.body = Some(r.clone().transfer());
                }
                self.frames.push_back((f, Some(AmqpFrame::new(c, p))));
                return;
            }
        }
        let parts = chunks(ch, &d.bytes);
        let n = parts.len();
        if n > 1 {
            ch.probe("load.split_delivery");
        }
        for (i, c) in parts.into_iter().enumerate() {
            let v = transfer_fields(g, self.handle, if i == 0 || ch.chance(1, 4) { Some(id) } else { None }, i + 1 < n, false);
            self.frames.push_back((FM { sasl: false, ch: self.chan, perf: v, body: BodyM::Bytes(c) }, None));
        }
    }
}

/// application property lookups with names as an application writes them
fn lookups(m: &MsgM, r: &Real) -> Res {
    if let Some(ap) = &m.ap {
        // all of them, or some of very many
        for (k, v) in ap.iter().step_by(1 + ap.len() / 300) {
            let g = match r {
                Real::In(x) => x.app_property(&k.clone()[..]).map(|x| x.m()),
                Real::Out(x) => x.app_properties().and_then(|kv| kv.iter().find(|x| x.0 == **k).map(|x| x.1.m())),
            };
            ensure!(g.as_ref() == Some(v), "lookup-by-name", "application property {:?}: expected {:?} got {:?}", k, v, g);
        }
    }
    Ok(())
}

pub fn c10(ch: &Ch) -> Res {
    let mut g = if ch.chance(1, 3) { G::new(ch) } else { G::small(ch) };
    let budget = g.rarely_big(4000, 1 << 20);
    g.wire_only = true;
    let n = 1 + ch.idx(4);
    let mut origin: Vec<MsgM> = Vec::new();
    let mut hand: Vec<Delivery> = Vec::new();
    for i in 0..n {
        g.set_budget(budget);
        if ch.coin() {
            let m = g.msg(2);
            let b = Enc::varied(ch).msg(&m);
            // the peer sends data sections, nested or not
            let flat = match judge(|| refamqp::message(&b)) {
                Verdict::Valid(w) => from_wire(&w),
                r => panic!("harness: peer wrote {:?}", r),
            };
            origin.push(m);
            hand.push(Delivery { msg: i, bytes: b, model: flat, real: None });
        } else {
            g.wire_only = false;
            let m = g.msg(2);
            g.wire_only = true;
            let r = if ch.coin() { Real::In(build_in(&m)) } else { Real::Out(build_out(&m)) };
            let b = r.bytes(ch)?;
            origin.push(m.clone());
            hand.push(Delivery { msg: i, bytes: b, model: m, real: Some(r) });
        }
    }
    let hops = 1 + ch.below(4);
    for hop in 0..hops {
        hand = one_hop(ch, &g, hop, hand, n, &origin)?;
        ensure!(hand.len() == n, "lost-message", "{} messages entered hop {}, {} left it", n, hop, hand.len());
    }
    // the consumer
    for d in &hand {
        read_msg("message at the consumer", &d.bytes, &origin[d.msg])?;
    }
    ch.add("messages.relayed", n as u64 * hops);
    ch.nontrivial();
    Ok(())
}

fn one_hop(ch: &Ch, g: &G, hop: u64, hand: Vec<Delivery>, n: usize, origin: &[MsgM]) -> Result<Vec<Delivery>, Viol> {
    // links: a few handles on a few channels
    let mut links: Vec<Link> = Vec::new();
    for _ in 0..1 + ch.below(4) {
        let chan = ch.pick(&[0u16, 1, 7, 256, 65535]);
        let handle = ch.pick(&[0u32, 1, 255, 256, u32::max_value()]);
        if !links.iter().any(|l| l.chan == chan && l.handle == handle) {
            links.push(Link { chan, handle, queue: VecDeque::new(), frames: VecDeque::new(), next_id: ch.pick(&[0u32, 254, u32::max_value()]) });
        }
    }
    let mut order: Vec<Vec<usize>> = vec![Vec::new(); links.len()];
    let mut models: BTreeMap<usize, MsgM> = BTreeMap::new();
    for d in hand {
        let k = ch.idx(links.len());
        order[k].push(d.msg);
        models.insert(d.msg, d.model.clone());
        links[k].queue.push_back(d);
    }
    // interleave
    let mut todo: Vec<FM> = Vec::new();
    let mut real: BTreeMap<usize, AmqpFrame> = BTreeMap::new();
    let mut total = 0;
    while links.iter().any(|l| !l.queue.is_empty() || !l.frames.is_empty()) {
        if ch.chance(1, 8) {
            let k = ch.pick(&[3usize, 5, 9, 2]);
            let f = g.amqp_frame_of(k);
            total += AmqpFrame::build(&f).encoded_size();
            todo.push(f);
        }
        let k = ch.idx(links.len());
        if links[k].frames.is_empty() {
            links[k].fill(g);
        }
        if let Some((f, r)) = links[k].frames.pop_front() {
            if let Some(r) = r {
                total += r.encoded_size();
                real.insert(todo.len(), r);
            } else {
                total += AmqpFrame::build(&f).encoded_size();
            }
            todo.push(f);
        }
    }
    // the wire, over one or more connections
    let mut partial: BTreeMap<(u16, u32), Vec<u8>> = BTreeMap::new();
    let mut done: BTreeMap<(u16, u32), usize> = BTreeMap::new();
    let mut out: Vec<Delivery> = Vec::new();
    let mut from = 0;
    let mut tries = 0;
    while from < todo.len() {
        tries += 1;
        let rest = todo[from..].to_vec();
        let mut c = Conn::<AmqpFrame>::new(ch, rest.clone(), Vec::new(), total);
        c.s[0].real = real.iter().filter(|x| *x.0 >= from).map(|x| (*x.0 - from, x.1.clone())).collect();
        if tries <= 2 && ch.chance(1, 3) {
            let o = ch.idx(total + 1);
            c.pipe[0].cut_at(o, End::Fin);
            if o == 0 {
                c.pipe[0].close(End::Fin);
            }
            ch.probe("fault.cut");
            ch.nontrivial();
        }
        let check = |side: usize, k: usize, f: &FM| if side == 1 { expect_frame(&rest, k, f) } else { Ok(()) };
        for _ in 0..10 + ch.below(10 + 4 * rest.len() as u64) {
            c.step(check)?;
        }
        c.drain(check)?;
        c.finish();
        let got = std::mem::replace(&mut c.s[1].got, Vec::new());
        if tries > 2 {
            ensure!(got.len() == rest.len(), "lost-frame", "{} frames sent, {} delivered", rest.len(), got.len());
        }
        from += got.len();
        // the receiving application puts deliveries together
        for f in got {
            let (chan, p) = f.into_parts();
            let t = match p {
                Frame::Transfer(t) => t,
                _ => continue,
            };
            let key = (chan, t.handle());
            if t.aborted() {
                partial.remove(&key);
                continue;
            }
            let b = partial.entry(key).or_insert_with(Vec::new);
            match t.body() {
                Some(TransferBody::Data(d)) => b.extend_from_slice(d),
                None => (),
                x => return viol("wrong-frame", format!("received payload {:?}", x)),
            }
            if t.more() {
                continue;
            }
            let b = partial.remove(&key).unwrap_or_default();
            let li = match links.iter().position(|l| (l.chan, l.handle) == key) {
                Some(x) => x,
                None => return viol("wrong-frame", format!("delivery on unknown link {:?}", key)),
            };
            let at = done.entry(key).or_insert(0);
            ensure!(*at < order[li].len(), "extra-message", "link {:?} delivered more messages than were sent", key);
            let msg = order[li][*at];
            *at += 1;
            out.push(relay(ch, hop, msg, b, &models[&msg], &origin[msg])?);
        }
    }
    ensure!(partial.is_empty(), "lost-message", "{} deliveries never completed", partial.len());
    ensure!(out.len() == n, "lost-message", "{} of {} messages delivered", out.len(), n);
    Ok(out)
}

/// what a relay does with a message: decode, look, and hand it on
fn relay(ch: &Ch, hop: u64, msg: usize, b: Vec<u8>, m: &MsgM, origin: &MsgM) -> Result<Delivery, Viol> {
    let what = format!("message {} at hop {}", msg, hop);
    let w = read_msg(&what, &b, m)?;
    if let Err(e) = check_msg(origin, &w) {
        return viol("message-differs", format!("{}: {}", what, e));
    }
    let out = ch.coin();
    ch.ev(80, hop, msg as u64);
    ch.log(|| format!("{}: {} bytes, decoded as {}", what, b.len(), if out { "OutMessage" } else { "InMessage" }));
    let r = match Real::decode(out, &b) {
        Ok((0, r)) => r,
        Ok((k, _)) => return viol("bytes-not-consumed", format!("{}: {} bytes left: {}", what, k, hex(&b))),
        Err(e) => return viol("message-refused", format!("{}: {}: {}", what, e, hex(&b))),
    };
    match &r {
        Real::In(x) => in_message_is(m, x)?,
        Real::Out(x) => out_message_is(m, x)?,
    }
    lookups(m, &r)?;
    if ch.chance(1, 3) {
        // store and forward: as received
        return Ok(Delivery { msg, bytes: b, model: from_wire(&w), real: None });
    }
    let b = r.bytes(ch)?;
    Ok(Delivery { msg, bytes: b, model: from_wire(&w), real: Some(r) })
}

// ---------------------------------------------------------------- C15

struct Request {
    real: Real,
    m: MsgM,
    chan: u16,
    answered: u32,
}

fn id_of(m: &MsgM) -> V {
    match &m.props {
        Some(V::Comp(_, f)) => f[0].clone(),
        _ => V::Null,
    }
}

/// a reply as it comes out of `reply_message`: the correlation id and nothing else
fn bare_reply(what: &str, id: &V, r: &OutMessage) -> Res {
    ensure!(r.header().is_none(), "carried-over", "{}: header {:?}", what, r.header());
    ensure!(r.app_properties().is_none(), "carried-over", "{}: application properties {:?}", what, r.app_properties());
    ensure!(r.message_format.is_none(), "carried-over", "{}: message format {:?}", what, r.message_format);
    ensure!(*r.body() == MessageBody::default(), "carried-over", "{}: body {:?}", what, r.body());
    only_correlation(what, id, &r.properties().map(|p| p.m()))?;
    let n = r.encoded_size();
    let mut b = BytesMut::with_capacity(n);
    r.encode(&mut b);
    let mut m = MsgM::default();
    m.props = r.properties().map(|p| p.m());
    let w = read_msg(what, &b, &m)?;
    only_correlation(what, id, &w.props)
}

fn only_correlation(what: &str, id: &V, p: &Option<V>) -> Res {
    let fs = match p {
        None => vec![V::Null; 13],
        Some(V::Comp(_, fs)) => fs.clone(),
        Some(x) => panic!("harness: properties {:?}", x),
    };
    ensure!(fs[5] == *id, "wrong-correlation", "{}: message id {:?}, correlation id {:?}", what, id, fs[5]);
    for (i, x) in fs.iter().enumerate() {
        ensure!(i == 5 || *x == V::Null, "carried-over", "{}: {} = {:?}", what, crate::spec::comp(0x73).fields[i].name, x);
    }
    Ok(())
}

fn reply_of(r: &Real) -> OutMessage {
    both!(r, x => x.reply_message())
}

pub fn c15(ch: &Ch) -> Res {
    let mut g = G::small(ch);
    let budget = g.rarely_big(1000, 1 << 20);
    let chans: Vec<u16> = (0..1 + ch.below(3)).map(|i| i as u16 * 255).collect();
    let mut reqs: Vec<Request> = Vec::new();
    for i in 0..1 + ch.idx(6) {
        g.set_budget(budget);
        let mut m = g.msg(1);
        // which request this is, for the bookkeeping of the simulation only
        m.value = Some(V::U32(i as u32));
        if ch.chance(4, 5) {
            let mut p = match m.props.take() {
                Some(V::Comp(_, f)) => f,
                _ => vec![V::Null; 13],
            };
            p[0] = if ch.chance(1, 8) { V::Null } else { g.msg_id() };
            m.props = Some(V::Comp(0x73, p));
        }
        let mut real = if ch.coin() { Real::In(build_in(&m)) } else { Real::Out(build_out(&m)) };
        if ch.coin() {
            let f = Some(g.num() as u32);
            match real {
                Real::In(ref mut x) => x.message_format = f,
                Real::Out(ref mut x) => x.message_format = f,
            }
        }
        bare_reply("reply to a request not yet sent", &id_of(&m), &reply_of(&real))?;
        holds(&m, &real)?;
        reqs.push(Request { real, m, chan: ch.pick(&chans), answered: 0 });
    }
    let fails = ch.below(4);
    for round in 0..=fails {
        let last = round == fails;
        let open: Vec<usize> = (0..reqs.len()).filter(|&i| reqs[i].answered == 0).collect();
        if open.is_empty() {
            break;
        }
        exchange(ch, &g, &mut reqs, &open, last)?;
    }
    for (i, r) in reqs.iter().enumerate() {
        ensure!(r.answered > 0, "unanswered", "request {} was never answered although the last connection did not fail", i);
    }
    ch.nontrivial();
    Ok(())
}

/// one connection: the client sends its open requests, the server answers in any order
fn exchange(ch: &Ch, g: &G, reqs: &mut [Request], open: &[usize], last: bool) -> Res {
    let mut todo = Vec::new();
    let mut real = BTreeMap::new();
    for &i in open {
        let r = &reqs[i];
        let f = g.transfer(r.chan, BodyM::Msg(Box::new(r.m.clone())));
        let (c, mut p) = AmqpFrame::build(&FM { body: BodyM::None, ..f.clone() }).into_parts();
        if let Frame::Transfer(ref mut t) = p {
            t.body = Some(r.real.clone().transfer());
        }
        real.insert(todo.len(), AmqpFrame::new(c, p));
        todo.push(f);
    }
    let total: usize = real.values().map(|x| x.encoded_size()).sum();
    let mut c = Conn::<AmqpFrame>::new(ch, todo.clone(), Vec::new(), total);
    c.s[0].real = real;
    if !last {
        let k = ch.idx(2);
        let o = ch.idx(total + 1);
        c.pipe[k].cut_at(o, End::Fin);
        if o == 0 {
            c.pipe[k].close(End::Fin);
        }
        ch.probe("fault.cut");
        ch.log(|| format!("this connection breaks after {} bytes in direction {}", o, k));
    }
    let mut server_at = 0;
    let mut client_at = 0;
    // replies the server has not sent yet
    let mut held: Vec<(FM, AmqpFrame)> = Vec::new();
    let mut replies: Vec<FM> = Vec::new();
    let steps = 30 + ch.below(60);
    let mut step = 0;
    loop {
        step += 1;
        {
            let sent = [todo.clone(), replies.clone()];
            let check = |i: usize, n: usize, f: &FM| expect_frame(&sent[1 - i], n, f);
            if step <= steps {
                c.step(check)?;
            } else {
                c.drain(check)?;
            }
        }
        let mut any = false;
        // the server
        while server_at < c.s[1].seen.len() {
            any = true;
            let f = c.s[1].seen[server_at].clone();
            server_at += 1;
            held.push(serve(ch, g, f)?);
        }
        if !held.is_empty() && (step > steps || ch.coin()) {
            any = true;
            // out of order: any held reply may go next
            let k = ch.idx(held.len());
            if k > 0 {
                ch.probe("fault.reply_reordered");
                ch.nontrivial();
            }
            let (f, x) = held.remove(k);
            let at = c.s[1].todo.len();
            c.s[1].real.insert(at, x);
            c.s[1].todo.push(f.clone());
            replies.push(f);
        }
        // the client
        while client_at < c.s[0].seen.len() {
            any = true;
            let f = c.s[0].seen[client_at].clone();
            client_at += 1;
            answer(ch, reqs, f)?;
        }
        if step > steps && !any {
            break;
        }
        if step > 100_000 {
            return viol("livelock", "request/reply never becomes idle".into());
        }
    }
    c.unchanged()?;
    c.finish();
    Ok(())
}

fn payload(f: &FM) -> Vec<u8> {
    match &f.body {
        BodyM::Bytes(b) => b.clone(),
        _ => Vec::new(),
    }
}

fn serve(ch: &Ch, g: &G, f: FM) -> Result<(FM, AmqpFrame), Viol> {
    let p = payload(&f);
    let r = match Real::decode(ch.coin(), &p) {
        Ok((0, r)) => r,
        Ok((k, _)) => return viol("bytes-not-consumed", format!("request: {} bytes left", k)),
        Err(e) => return viol("request-refused", format!("{}: {}", e, hex(&p))),
    };
    let w = match judge(|| refamqp::message(&p)) {
        Verdict::Valid(w) => w,
        x => return viol("request-unreadable", format!("{:?}: {}", x, hex(&p))),
    };
    let m = from_wire(&w);
    let id = id_of(&m);
    let mut reply = reply_of(&r);
    bare_reply("reply to a received request", &id, &reply)?;
    // the request is unchanged
    holds(&m, &r)?;
    let mut rm = MsgM::default();
    if id != V::Null || reply.properties().is_some() {
        let mut fs = vec![V::Null; 13];
        fs[5] = id;
        rm.props = Some(V::Comp(0x73, fs));
    }
    // the server fills in its answer
    rm.value = m.value.clone();
    if let Some(v) = &m.value {
        reply = reply.set_value(Variant::un(v));
    }
    if ch.chance(1, 3) {
        let my = g.msg_id();
        let fs = match rm.props.take() {
            Some(V::Comp(_, mut f)) => {
                f[0] = my.clone();
                f
            }
            _ => {
                let mut f = vec![V::Null; 13];
                f[0] = my.clone();
                f
            }
        };
        rm.props = Some(V::Comp(0x73, fs));
        reply = reply.set_properties(|p| p.message_id = M::un(&my));
    }
    if ch.chance(1, 3) {
        reply = reply.set_app_property("status", 200u32);
        rm.ap = Some(vec![("status".into(), V::U32(200))]);
    }
    ch.log(|| format!("server answers {:?} on channel {}", rm.value, f.ch));
    let chn = if ch.chance(1, 4) { ch.pick(&[0u16, 255, 510]) } else { f.ch };
    let fm = g.transfer(chn, BodyM::Msg(Box::new(rm)));
    let (c, mut p) = AmqpFrame::build(&FM { body: BodyM::None, ..fm.clone() }).into_parts();
    if let Frame::Transfer(ref mut t) = p {
        t.body = Some(reply.into());
    }
    Ok((fm, AmqpFrame::new(c, p)))
}

fn answer(ch: &Ch, reqs: &mut [Request], f: FM) -> Res {
    let p = payload(&f);
    let r = match Real::decode(ch.coin(), &p) {
        Ok((0, r)) => r,
        Ok((k, _)) => return viol("bytes-not-consumed", format!("reply: {} bytes left", k)),
        Err(e) => return viol("reply-refused", format!("{}: {}", e, hex(&p))),
    };
    let which = match both!(&r, x => x.value().map(|x| x.m())) {
        Some(V::U32(n)) if (n as usize) < reqs.len() => n as usize,
        x => return viol("wrong-reply", format!("a reply to no request: {:?}", x)),
    };
    let q = &mut reqs[which];
    let cor = both!(&r, x => x.properties().and_then(|p| p.correlation_id().map(|x| x.m()))).unwrap_or(V::Null);
    ensure!(
        cor == id_of(&q.m),
        "wrong-correlation",
        "the reply to request {} (id {:?}) arrived with correlation id {:?}",
        which,
        id_of(&q.m),
        cor
    );
    // what the client itself sent must match what it compares the reply with
    let own = both!(&q.real, x => x.properties().and_then(|p| p.message_id().cloned()));
    let got = both!(&r, x => x.properties().and_then(|p| p.correlation_id().cloned()));
    ensure!(own == got, "wrong-correlation", "ids compare unequal: {:?} / {:?}", own, got);
    // a reply to the reply correlates with the reply, not with the request
    let rid = both!(&r, x => x.properties().and_then(|p| p.message_id().map(|x| x.m()))).unwrap_or(V::Null);
    bare_reply("reply to a reply", &rid, &reply_of(&r))?;
    q.answered += 1;
    if q.answered > 1 {
        ch.probe("state.duplicate_reply");
    }
    ch.ev(90, which as u64, 0);
    Ok(())
}
