//! Neutral value model shared by the independent AMQP implementation and the adapters to the crate's
//! own types. Two values are equal exactly when an application could not tell them apart.

use std::fmt;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    /// raw IEEE bits
    F32(u32),
    F64(u64),
    Char(u32),
    /// milliseconds since the epoch
    Ts(i64),
    Uuid([u8; 16]),
    Bin(Vec<u8>),
    Str(String),
    Sym(String),
    List(Vec<V>),
    /// sorted by key
    Map(Vec<(V, V)>),
    /// a multiple-valued field
    Array(Vec<V>),
    Desc(Box<V>, Box<V>),
    /// composite: descriptor code, all fields in specification order with defaults filled in
    Comp(u8, Vec<V>),
    /// bytes put on the wire as they are (hostile peers)
    Raw(Vec<u8>),
}

fn short(b: &[u8]) -> String {
    if b.len() <= 24 {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    } else {
        format!(
            "{}..({}B,h{:x})",
            b[..12].iter().map(|x| format!("{:02x}", x)).collect::<String>(),
            b.len(),
            crate::tape::hash_bytes(b) & 0xffff_ffff
        )
    }
}
fn shorts(s: &str) -> String {
    if s.len() <= 40 {
        format!("{:?}", s)
    } else {
        let h: String = s.chars().take(16).collect();
        format!(
            "{:?}..({}B,h{:x})",
            h,
            s.len(),
            crate::tape::hash_bytes(s.as_bytes()) & 0xffff_ffff
        )
    }
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            V::Null => write!(f, "null"),
            V::Bool(x) => write!(f, "{}", x),
            V::U8(x) => write!(f, "{}ub", x),
            V::U16(x) => write!(f, "{}us", x),
            V::U32(x) => write!(f, "{}u", x),
            V::U64(x) => write!(f, "{}ul", x),
            V::I8(x) => write!(f, "{}b", x),
            V::I16(x) => write!(f, "{}s", x),
            V::I32(x) => write!(f, "{}i", x),
            V::I64(x) => write!(f, "{}l", x),
            V::F32(x) => write!(f, "f32:{:08x}", x),
            V::F64(x) => write!(f, "f64:{:016x}", x),
            V::Char(x) => write!(f, "char:{:x}", x),
            V::Ts(x) => write!(f, "ts:{}", x),
            V::Uuid(x) => write!(f, "uuid:{}", short(x)),
            V::Bin(x) => write!(f, "bin:{}", short(x)),
            V::Str(x) => write!(f, "{}", shorts(x)),
            V::Sym(x) => write!(f, ":{}", shorts(x)),
            V::List(x) => {
                write!(f, "list")?;
                f.debug_list().entries(x).finish()
            }
            V::Array(x) => {
                write!(f, "array")?;
                f.debug_list().entries(x).finish()
            }
            V::Map(x) => f.debug_map().entries(x.iter().map(|(k, v)| (k, v))).finish(),
            V::Desc(d, v) => write!(f, "@{:?} {:?}", d, v),
            V::Raw(x) => write!(f, "raw:{}", short(x)),
            V::Comp(c, fs) => {
                write!(f, "{}(", crate::spec::comp(*c).name)?;
                for (i, x) in fs.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{:?}", x)?;
                }
                write!(f, ")")
            }
        }
    }
}

impl V {
    pub fn map(mut kv: Vec<(V, V)>) -> V {
        kv.sort();
        V::Map(kv)
    }
}

/// first difference between two values, for reports
pub fn diff(a: &V, b: &V) -> String {
    match (a, b) {
        (V::Comp(c, x), V::Comp(d, y)) if c == d && x.len() == y.len() => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if p != q {
                    let sp = crate::spec::comp(*c);
                    let n = sp.fields.get(i).map(|f| f.name).unwrap_or("?");
                    return format!("{}.{}: {}", sp.name, n, diff(p, q));
                }
            }
            "no difference".into()
        }
        (V::List(x), V::List(y)) | (V::Array(x), V::Array(y)) if x.len() == y.len() => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if p != q {
                    return format!("[{}]: {}", i, diff(p, q));
                }
            }
            "no difference".into()
        }
        (V::Map(x), V::Map(y)) if x.len() == y.len() => {
            for (p, q) in x.iter().zip(y) {
                if p.0 != q.0 {
                    return format!("map key {:?} vs {:?}", p.0, q.0);
                }
                if p.1 != q.1 {
                    return format!("map[{:?}]: {}", p.0, diff(&p.1, &q.1));
                }
            }
            "no difference".into()
        }
        _ => {
            if a == b {
                "no difference".into()
            } else {
                format!("expected {:?}, got {:?}", a, b)
            }
        }
    }
}

/// A message: the sections of AMQP 1.0 part 3.
#[derive(Clone, PartialEq, Default, Debug)]
pub struct MsgM {
    pub header: Option<V>,
    pub da: Option<V>,
    pub ma: Option<V>,
    pub props: Option<V>,
    /// in insertion order, may repeat a key (outbound messages)
    pub ap: Option<Vec<(String, V)>>,
    pub data: Vec<Vec<u8>>,
    pub seq: Vec<V>,
    pub value: Option<V>,
    pub nested: Vec<BodyM>,
    pub footer: Option<V>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum BodyM {
    None,
    Bytes(Vec<u8>),
    Msg(Box<MsgM>),
}

/// What a reader of the wire sees of a message.
#[derive(Clone, PartialEq, Default, Debug)]
pub struct WireMsg {
    pub header: Option<V>,
    pub da: Option<V>,
    pub ma: Option<V>,
    pub props: Option<V>,
    pub ap: Option<Vec<(V, V)>>,
    pub data: Vec<Vec<u8>>,
    pub seq: Vec<V>,
    pub value: Option<V>,
    pub footer: Option<V>,
    /// descriptors in the order seen
    pub order: Vec<u8>,
}

/// A frame: AMQP or SASL
#[derive(Clone, PartialEq, Debug)]
pub struct FM {
    pub sasl: bool,
    pub ch: u16,
    /// `Null` for an empty frame
    pub perf: V,
    pub body: BodyM,
}
