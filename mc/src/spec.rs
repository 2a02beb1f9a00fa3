//! AMQP 1.0 part 2-5 as a table, written from the OASIS specification: composite types with their
//! descriptors, fields, defaults and mandatory marks, and the restricted types. Everything the
//! checks know about the schema comes from here, nothing from the library.
use crate::rv::{RV, RV::*};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool,
    Ubyte,
    Ushort,
    Uint,
    Ulong,
    Str,
    Sym,
    Bin,
    Ts,
    /// map from symbol to any
    Fields,
    /// map from any to any
    Map,
    /// map from symbol to nullable string (what the library supports of filter-set)
    Filter,
    /// multiple symbol
    Syms,
    Role,
    SndMode,
    RcvMode,
    Durability,
    Expiry,
    SaslCode,
    ErrCond,
    DistMode,
    MsgId,
    State,
    Outcome,
    Comp(&'static str),
    /// string to any (application properties)
    StrMap,
    Any,
    List,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: &'static str,
    pub ty: Ty,
    pub mandatory: bool,
    pub default: Option<RV>,
}
#[derive(Clone, Debug)]
pub struct Comp {
    pub name: &'static str,
    pub code: u64,
    pub sym: String,
    pub fields: Vec<Field>,
}

const TABLE: &str = "
open 16: container-id string!, hostname string, max-frame-size uint=4294967295, channel-max ushort=65535, idle-time-out uint, outgoing-locales symbols, incoming-locales symbols, offered-capabilities symbols, desired-capabilities symbols, properties fields
begin 17: remote-channel ushort, next-outgoing-id uint!, incoming-window uint!, outgoing-window uint!, handle-max uint=4294967295, offered-capabilities symbols, desired-capabilities symbols, properties fields
attach 18: name string!, handle uint!, role role!, snd-settle-mode snd=2, rcv-settle-mode rcv=0, source source, target target, unsettled map, incomplete-unsettled bool=false, initial-delivery-count uint, max-message-size ulong, offered-capabilities symbols, desired-capabilities symbols, properties fields
flow 19: next-incoming-id uint, incoming-window uint!, next-outgoing-id uint!, outgoing-window uint!, handle uint, delivery-count uint, link-credit uint, available uint, drain bool=false, echo bool=false, properties fields
transfer 20: handle uint!, delivery-id uint, delivery-tag binary, message-format uint, settled bool, more bool=false, rcv-settle-mode rcv, state state, resume bool=false, aborted bool=false, batchable bool=false
disposition 21: role role!, first uint!, last uint, settled bool=false, state state, batchable bool=false
detach 22: handle uint!, closed bool=false, error error
end 23: error error
close 24: error error
error 29: condition errcond!, description string, info fields
received 35: section-number uint!, section-offset ulong!
accepted 36:
rejected 37: error error
released 38:
modified 39: delivery-failed bool, undeliverable-here bool, message-annotations fields
source 40: address string, durable durability=0, expiry-policy expiry=session-end, timeout uint=0, dynamic bool=false, dynamic-node-properties fields, distribution-mode distmode, filter filter, default-outcome outcome, outcomes symbols, capabilities symbols
target 41: address string, durable durability=0, expiry-policy expiry=session-end, timeout uint=0, dynamic bool=false, dynamic-node-properties fields, capabilities symbols
sasl-mechanisms 64: sasl-server-mechanisms symbols!
sasl-init 65: mechanism symbol!, initial-response binary, hostname string
sasl-challenge 66: challenge binary!
sasl-response 67: response binary!
sasl-outcome 68: code saslcode!, additional-data binary
header 112: durable bool=false, priority ubyte=4, ttl uint, first-acquirer bool=false, delivery-count uint=0
properties 115: message-id msgid, user-id binary, to string, subject string, reply-to string, correlation-id msgid, content-type symbol, content-encoding symbol, absolute-expiry-time timestamp, creation-time timestamp, group-id string, group-sequence uint, reply-to-group-id string
";

pub fn comps() -> &'static Vec<Comp> {
    static T: OnceLock<Vec<Comp>> = OnceLock::new();
    T.get_or_init(|| {
        let mut out = vec![];
        for line in TABLE.lines().filter(|l| !l.trim().is_empty()) {
            let (head, body) = line.split_once(':').unwrap();
            let (name, code) = head.split_once(' ').unwrap();
            let name: &'static str = name;
            let mut fields = vec![];
            for f in body.split(',').map(|f| f.trim()).filter(|f| !f.is_empty()) {
                let (fname, t) = f.split_once(' ').unwrap();
                let fname: &'static str = fname;
                let mandatory = t.ends_with('!');
                let t = t.trim_end_matches('!');
                let (t, d) = match t.split_once('=') {
                    Some((t, d)) => (t, Some(d)),
                    None => (t, None),
                };
                let ty = match t {
                    "bool" => Ty::Bool,
                    "ubyte" => Ty::Ubyte,
                    "ushort" => Ty::Ushort,
                    "uint" => Ty::Uint,
                    "ulong" => Ty::Ulong,
                    "string" => Ty::Str,
                    "symbol" => Ty::Sym,
                    "binary" => Ty::Bin,
                    "timestamp" => Ty::Ts,
                    "fields" => Ty::Fields,
                    "map" => Ty::Map,
                    "filter" => Ty::Filter,
                    "symbols" => Ty::Syms,
                    "role" => Ty::Role,
                    "snd" => Ty::SndMode,
                    "rcv" => Ty::RcvMode,
                    "durability" => Ty::Durability,
                    "expiry" => Ty::Expiry,
                    "saslcode" => Ty::SaslCode,
                    "errcond" => Ty::ErrCond,
                    "distmode" => Ty::DistMode,
                    "msgid" => Ty::MsgId,
                    "state" => Ty::State,
                    "outcome" => Ty::Outcome,
                    "source" => Ty::Comp("source"),
                    "target" => Ty::Comp("target"),
                    "error" => Ty::Comp("error"),
                    x => panic!("harness: type {}", x),
                };
                let default = d.map(|d| match ty {
                    Ty::Bool => Bool(d == "true"),
                    Ty::Ubyte | Ty::SndMode | Ty::RcvMode => Ubyte(d.parse().unwrap()),
                    Ty::Ushort => Ushort(d.parse().unwrap()),
                    Ty::Uint | Ty::Durability => Uint(d.parse().unwrap()),
                    Ty::Expiry => Sym(d.into()),
                    x => panic!("harness: default {:?}", x),
                });
                fields.push(Field {
                    name: fname,
                    ty,
                    mandatory,
                    default,
                });
            }
            out.push(Comp {
                name,
                code: code.parse().unwrap(),
                sym: format!("amqp:{}:list", name),
                fields,
            });
        }
        out
    })
}

pub fn comp(name: &str) -> &'static Comp {
    static M: OnceLock<HashMap<&'static str, usize>> = OnceLock::new();
    let m = M.get_or_init(|| comps().iter().enumerate().map(|(i, c)| (c.name, i)).collect());
    &comps()[*m.get(name).unwrap_or_else(|| panic!("harness: no composite {}", name))]
}

pub const FRAMES: [&str; 9] = [
    "open", "begin", "attach", "flow", "transfer", "disposition", "detach", "end", "close",
];
pub const SASL: [&str; 5] = [
    "sasl-mechanisms",
    "sasl-init",
    "sasl-challenge",
    "sasl-response",
    "sasl-outcome",
];
pub const STATES: [&str; 5] = ["received", "accepted", "rejected", "released", "modified"];
pub const OUTCOMES: [&str; 4] = ["accepted", "rejected", "released", "modified"];
/// sections that are restricted types rather than composites: name, code, content type, symbol
pub const RSECTIONS: [(&str, u64, Ty, &str); 7] = [
    ("delivery-annotations", 113, Ty::Fields, "amqp:delivery-annotations:map"),
    ("message-annotations", 114, Ty::Fields, "amqp:message-annotations:map"),
    ("application-properties", 116, Ty::StrMap, "amqp:application-properties:map"),
    ("data", 117, Ty::Bin, "amqp:data:binary"),
    ("amqp-sequence", 118, Ty::List, "amqp:amqp-sequence:list"),
    ("amqp-value", 119, Ty::Any, "amqp:amqp-value:*"),
    ("footer", 120, Ty::Fields, "amqp:footer:map"),
];
pub const ERRORS: [&str; 25] = [
    "amqp:internal-error",
    "amqp:not-found",
    "amqp:unauthorized-access",
    "amqp:decode-error",
    "amqp:resource-limit-exceeded",
    "amqp:not-allowed",
    "amqp:invalid-field",
    "amqp:not-implemented",
    "amqp:resource-locked",
    "amqp:precondition-failed",
    "amqp:resource-deleted",
    "amqp:illegal-state",
    "amqp:frame-size-too-small",
    "amqp:connection:forced",
    "amqp:connection:framing-error",
    "amqp:connection:redirect",
    "amqp:session:window-violation",
    "amqp:session:errant-link",
    "amqp:session:handle-in-use",
    "amqp:session:unattached-handle",
    "amqp:link:detach-forced",
    "amqp:link:transfer-limit-exceeded",
    "amqp:link:message-size-exceeded",
    "amqp:link:redirect",
    "amqp:link:stolen",
];
pub const EXPIRY: [&str; 4] = ["link-detach", "session-end", "connection-close", "never"];

/// every descriptor the specification gives to the types the library knows: (code, symbol)
pub fn all_descriptors() -> Vec<(u64, String)> {
    let mut v: Vec<(u64, String)> = comps().iter().map(|c| (c.code, c.sym.clone())).collect();
    v.extend(RSECTIONS.iter().map(|r| (r.1, r.3.to_string())));
    v.sort();
    v
}

/// the composites a polymorphic field admits
pub fn members(ty: Ty) -> Vec<&'static str> {
    match ty {
        Ty::State => STATES.to_vec(),
        Ty::Outcome => OUTCOMES.to_vec(),
        Ty::Comp(n) => vec![n],
        _ => vec![],
    }
}

/// What the content `v`, read from the wire for type `ty`, means; Err when it is not of that type.
pub fn norm(ty: Ty, v: &RV) -> Result<RV, String> {
    let bad = || Err(format!("{:?} is not a {:?}", v, ty));
    Ok(match (ty, v) {
        (Ty::Bool, Bool(_)) | (Ty::Role, Bool(_)) => v.clone(),
        (Ty::Ubyte, Ubyte(_)) => v.clone(),
        (Ty::SndMode, Ubyte(x)) if *x <= 2 => v.clone(),
        (Ty::RcvMode, Ubyte(x)) if *x <= 1 => v.clone(),
        (Ty::SaslCode, Ubyte(x)) if *x <= 4 => v.clone(),
        (Ty::Ushort, Ushort(_)) => v.clone(),
        (Ty::Uint, Uint(_)) => v.clone(),
        (Ty::Durability, Uint(x)) if *x <= 2 => v.clone(),
        (Ty::Ulong, Ulong(_)) => v.clone(),
        (Ty::Str, Str(_)) => v.clone(),
        (Ty::Sym, Sym(_)) | (Ty::ErrCond, Sym(_)) | (Ty::DistMode, Sym(_)) => v.clone(),
        (Ty::Expiry, Sym(s)) if EXPIRY.contains(&s.as_str()) => v.clone(),
        (Ty::Bin, Bin(_)) => v.clone(),
        (Ty::Ts, Ts(_)) => v.clone(),
        (Ty::MsgId, Ulong(_)) | (Ty::MsgId, Uuid(_)) | (Ty::MsgId, Bin(_)) | (Ty::MsgId, Str(_)) => {
            v.clone()
        }
        (Ty::Fields, Map(m)) if m.iter().all(|e| matches!(e.0, Sym(_))) => v.clone(),
        (Ty::StrMap, Map(m)) if m.iter().all(|e| matches!(e.0, Str(_))) => v.clone(),
        (Ty::Filter, Map(m))
            if m.iter()
                .all(|e| matches!(e.0, Sym(_)) && matches!(e.1, Null | Str(_))) =>
        {
            v.clone()
        }
        (Ty::Map, Map(_)) => v.clone(),
        (Ty::List, List(_)) => v.clone(),
        (Ty::Any, _) => v.clone(),
        (Ty::Syms, Sym(_)) => Array(vec![v.clone()]),
        (Ty::Syms, Array(a)) if a.iter().all(|e| matches!(e, Sym(_))) => v.clone(),
        (Ty::Comp(n), _) => return norm_comp(comp(n), v),
        (Ty::State, Desc(..)) | (Ty::Outcome, Desc(..)) => {
            for m in members(ty) {
                if let Ok(x) = norm_comp(comp(m), v) {
                    return Ok(x);
                }
            }
            return bad();
        }
        _ => return bad(),
    })
}

pub fn norm_comp(c: &Comp, v: &RV) -> Result<RV, String> {
    let (d, l) = match v {
        Desc(d, l) => (d, l),
        _ => return Err(format!("{:?} is not a described {}", v, c.name)),
    };
    match d.as_ref() {
        Ulong(x) if *x == c.code => {}
        Sym(s) if *s == c.sym => {}
        x => return Err(format!("descriptor {:?} is not {}", x, c.name)),
    }
    match l.as_ref() {
        List(l) => Ok(RV::desc(c.code, List(norm_fields(c, l)?))),
        x => Err(format!("{:?} is not a list", x)),
    }
}

pub fn norm_fields(c: &Comp, l: &[RV]) -> Result<Vec<RV>, String> {
    if l.len() > c.fields.len() {
        return Err(format!("{} has too many fields", c.name));
    }
    let mut out = vec![];
    for (i, f) in c.fields.iter().enumerate() {
        let v = l.get(i).unwrap_or(&Null);
        out.push(match v {
            Null => {
                if f.mandatory {
                    return Err(format!("mandatory field {} of {} absent", f.name, c.name));
                }
                f.default.clone().unwrap_or(Null)
            }
            v => norm(f.ty, v).map_err(|e| format!("{}.{}: {}", c.name, f.name, e))?,
        });
    }
    Ok(out)
}

// ------------------------------------------------------------------ value domains

fn sym(s: &str) -> RV {
    Sym(s.to_string())
}
fn st(s: &str) -> RV {
    Str(s.to_string())
}

/// A value of `ty` that tells field number `i` apart from its neighbours.
pub fn dist(ty: Ty, i: usize) -> RV {
    let n = i as u32;
    match ty {
        Ty::Bool | Ty::Role => Bool(true),
        Ty::Ubyte => Ubyte(100 + i as u8),
        Ty::SndMode => Ubyte(1),
        Ty::RcvMode => Ubyte(1),
        Ty::SaslCode => Ubyte(3),
        Ty::Ushort => Ushort(0x1200 + i as u16),
        Ty::Uint => Uint(if i % 2 == 0 { 10 + n } else { 0x0a0b_0c00 + n }),
        Ty::Durability => Uint(2),
        Ty::Ulong => Ulong(0x0102_0304_0506_0700 + i as u64),
        Ty::Str => st(&format!("str-{}", i)),
        Ty::Sym => sym(&format!("sym-{}", i)),
        Ty::ErrCond => sym("amqp:session:errant-link"),
        Ty::DistMode => sym("copy"),
        Ty::Expiry => sym("never"),
        Ty::Bin => Bin(vec![0xb0, i as u8, 0, 0xff]),
        Ty::Ts => Ts(1_311_704_463_521 + i as i64),
        Ty::MsgId => {
            if i % 2 == 0 {
                Ulong(7_000_000_000 + i as u64)
            } else {
                st(&format!("id-{}", i))
            }
        }
        Ty::Fields => Map(vec![
            (sym(&format!("k{}", i)), Int(-1000 - i as i32)),
            (sym("z"), Null),
        ]),
        Ty::StrMap => Map(vec![
            (st(&format!("p{}", i)), Ulong(i as u64)),
            (st("q"), st("v")),
        ]),
        Ty::Map => Map(vec![(Ulong(i as u64), List(vec![Ubyte(i as u8)]))]),
        Ty::Filter => Map(vec![
            (sym(&format!("f{}", i)), st("x = 1")),
            (sym("g"), Null),
        ]),
        Ty::Syms => Array(vec![sym(&format!("a{}", i)), sym("bb")]),
        Ty::State => full(comp("received"), i + 1),
        Ty::Outcome => full(comp("modified"), i + 1),
        Ty::Comp(c) => full(comp(c), i + 1),
        Ty::Any => Desc(Box::new(Ulong(77)), Box::new(st("any"))),
        Ty::List => List(vec![Int(1), Null]),
    }
}

/// All fields present and distinguishable.
pub fn full(c: &Comp, salt: usize) -> RV {
    RV::desc(
        c.code,
        List(
            c.fields
                .iter()
                .enumerate()
                .map(|(i, f)| dist(f.ty, i + salt * 7))
                .collect(),
        ),
    )
}

/// Only the mandatory fields, everything else null.
pub fn minimal(c: &Comp) -> RV {
    RV::desc(
        c.code,
        List(
            c.fields
                .iter()
                .enumerate()
                .map(|(i, f)| if f.mandatory { dist(f.ty, i) } else { Null })
                .collect(),
        ),
    )
}

pub fn long_str(n: usize) -> String {
    (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
}

/// Boundary values of `ty`. `deep` adds the wider set used by the thorough tier.
pub fn dom(ty: Ty, deep: bool) -> Vec<RV> {
    let mut v = match ty {
        Ty::Bool | Ty::Role => vec![Bool(false), Bool(true)],
        Ty::Ubyte => vec![Ubyte(0), Ubyte(4), Ubyte(255)],
        Ty::SndMode => vec![Ubyte(0), Ubyte(1), Ubyte(2)],
        Ty::RcvMode => vec![Ubyte(0), Ubyte(1)],
        Ty::SaslCode => (0..5).map(Ubyte).collect(),
        Ty::Ushort => vec![Ushort(0), Ushort(255), Ushort(256), Ushort(65535)],
        Ty::Uint => vec![Uint(0), Uint(1), Uint(255), Uint(256), Uint(0x8000_0000), Uint(u32::MAX)],
        Ty::Durability => vec![Uint(0), Uint(1), Uint(2)],
        Ty::Ulong => vec![
            Ulong(0),
            Ulong(1),
            Ulong(255),
            Ulong(256),
            Ulong(0x1_0000_0000),
            Ulong(u64::MAX),
        ],
        Ty::Str => vec![st(""), st("é\u{1F4AF}"), Str(long_str(255)), Str(long_str(256))],
        Ty::Sym => vec![sym(""), sym("a"), Sym(long_str(255)), Sym(long_str(256))],
        Ty::ErrCond => {
            let mut v: Vec<RV> = ERRORS.iter().map(|s| sym(s)).collect();
            v.push(sym("amqp:custom"));
            v.push(sym(""));
            v
        }
        Ty::DistMode => vec![sym("move"), sym("copy"), sym("other"), sym("")],
        Ty::Expiry => EXPIRY.iter().map(|s| sym(s)).collect(),
        Ty::Bin => vec![
            Bin(vec![]),
            Bin(vec![0]),
            Bin(vec![0xff; 255]),
            Bin(vec![0x40; 256]),
        ],
        Ty::Ts => vec![
            Ts(0),
            Ts(-1),
            Ts(999),
            Ts(-1000),
            Ts(-1001),
            Ts(1_311_704_463_521),
            Ts(253_402_300_799_999),
        ],
        Ty::MsgId => vec![
            Ulong(0),
            Ulong(255),
            Ulong(256),
            Uuid([0; 16]),
            Uuid([0x98, 0x80, 0x53, 0x44, 0xa0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]),
            Bin(vec![]),
            Bin(vec![1, 2, 3]),
            Bin(vec![7; 256]),
            st(""),
            st("x"),
            Str(long_str(256)),
        ],
        Ty::Fields => vec![
            Map(vec![]),
            Map(vec![(sym(""), Null)]),
            Map(vec![(sym("a"), st("")), (sym("b"), List(vec![]))]),
            Map(vec![(sym("big"), Bin(vec![1; 245]))]),
            Map(vec![(sym("big"), Bin(vec![1; 250]))]),
            Map(vec![(
                sym("d"),
                Desc(Box::new(sym("x:y")), Box::new(Map(vec![(Uint(0), Long(-1))]))),
            )]),
        ],
        Ty::StrMap => vec![
            Map(vec![]),
            Map(vec![(st(""), Null)]),
            Map(vec![(st("a"), Bool(true)), (st("b"), Ts(5))]),
            Map(vec![(st("big"), Bin(vec![1; 250]))]),
        ],
        Ty::Map => vec![
            Map(vec![]),
            Map(vec![(Null, Null)]),
            Map(vec![(Bin(vec![1, 2]), full(comp("accepted"), 0)), (Ulong(0), Bool(false))]),
        ],
        Ty::Filter => vec![
            Map(vec![]),
            Map(vec![(sym("f"), Null)]),
            Map(vec![(sym("f"), st("a")), (sym("g"), st(""))]),
        ],
        Ty::Syms => vec![
            Array(vec![]),
            Array(vec![sym("x")]),
            Array(vec![sym("")]),
            Array(vec![sym("x"), sym("yy"), sym("")]),
            Array((0..40).map(|i| Sym(format!("s{:03}", i))).collect()),
        ],
        Ty::State | Ty::Outcome => {
            let mut v = vec![];
            for m in members(ty) {
                v.push(minimal(comp(m)));
                let f = full(comp(m), 1);
                if f != v[v.len() - 1] {
                    v.push(f);
                }
            }
            v
        }
        Ty::Comp(c) => vec![minimal(comp(c)), full(comp(c), 1)],
        Ty::Any => vec![
            Null,
            Bool(true),
            Int(-129),
            st("s"),
            sym("y"),
            List(vec![]),
            List(vec![List(vec![Null]), Uint(0)]),
            Map(vec![]),
            Map(vec![(st("k"), Map(vec![(Null, Char(0x1F4AF))]))]),
            Desc(Box::new(Ulong(0)), Box::new(Null)),
            Desc(Box::new(sym("s:t")), Box::new(List(vec![Double(0)]))),
        ],
        Ty::List => vec![
            List(vec![]),
            List(vec![Null]),
            List(vec![Ulong(0), st("x"), List(vec![])]),
            List(vec![Bin(vec![9; 251])]),
            List(vec![Bin(vec![9; 252])]),
        ],
    };
    if deep {
        match ty {
            Ty::Str => v.extend((250..260).map(|n| Str(long_str(n)))),
            Ty::Sym => v.extend((250..260).map(|n| Sym(long_str(n)))),
            Ty::Bin => v.extend((250..260).map(|n| Bin(vec![n as u8; n]))),
            Ty::Uint => v.extend([2u32, 127, 128, 254, 257, 65535, 65536].iter().map(|x| Uint(*x))),
            Ty::Fields => v.extend((240..256).map(|n| Map(vec![(sym("big"), Bin(vec![2; n]))]))),
            Ty::Syms => v.extend([1usize, 2, 240, 247, 248, 249, 250, 251, 252, 253].iter().map(|n| {
                // array content of exactly n bytes where possible: 4 byte length + text each
                if *n < 8 {
                    Array(vec![Sym(long_str(*n)), sym("")])
                } else {
                    Array(vec![Sym(long_str(*n - 8)), sym("")])
                }
            })),
            _ => {}
        }
    }
    v.dedup();
    v
}
