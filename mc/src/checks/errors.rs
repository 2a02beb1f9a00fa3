//! C24: a rejection names what was rejected.
//!
//! Inputs with exactly one defect; the error must identify it, by itself, wherever the defect is
//! nested, through every decoder and through the stream codec, and so must its clone and its text.
use super::frames::put_frame;
use super::values::readers;
use crate::dectab::{dec, decs, Dec, Want};
use crate::explore::{unit, Ctx, Unit, R};
use crate::items::ts_range;
use crate::rv::{self, RV, RV::*};
use crate::spec::{self, Comp, Ty};
use crate::util::*;
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::{AmqpCodec, AmqpCodecError, AmqpFrame, AmqpParseError, Decode, ProtocolIdError, SaslFrame};
use bytes::BytesMut;
use tokio_codec::Decoder;

/// what the error has to say
#[derive(Debug, Clone, PartialEq)]
pub enum Exp {
    Code(u8),
    Desc(RV),
    FrameType(u8),
    Char(u32),
    Ts(i64),
    /// one of these fields is missing
    Omitted(Vec<&'static str>),
    /// not a member of this restricted type
    Option(&'static str),
    /// text that is valid up to here
    Utf8(usize),
    Size,
    Any(Vec<Exp>),
}
use Exp::{Any, Code, Omitted, Size};

fn plain(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_lowercase()
}

fn meets(e: &AmqpParseError, x: &Exp) -> bool {
    use AmqpParseError::*;
    match (x, e) {
        (Exp::Code(c), InvalidFormatCode(d)) => c == d,
        (Exp::Desc(Ulong(a)), InvalidDescriptor(t::Descriptor::Ulong(b))) => a == b,
        (Exp::Desc(Sym(a)), InvalidDescriptor(t::Descriptor::Symbol(b))) => a == b.as_str(),
        (Exp::FrameType(a), UnexpectedFrameType(b)) => a == b,
        (Exp::Char(a), InvalidChar(b)) => a == b,
        (Exp::Ts(a), InvalidTimestamp(b)) => a == b,
        (Exp::Omitted(a), RequiredFieldOmitted(b)) => a.iter().any(|a| plain(a) == plain(b)),
        (Exp::Option(a), UnknownEnumOption(b)) => plain(a) == plain(b),
        (Exp::Utf8(n), Utf8Error(e)) => e.valid_up_to() == *n,
        (Exp::Size, InvalidSize) => true,
        (Exp::Any(xs), _) => xs.iter().any(|x| meets(e, x)),
        _ => false,
    }
}

/// the text of the error mentions it, too
fn mentions(e: &AmqpParseError) -> Vec<String> {
    use AmqpParseError::*;
    match e {
        InvalidFormatCode(c) => vec![c.to_string()],
        InvalidDescriptor(t::Descriptor::Ulong(n)) => vec![n.to_string()],
        InvalidDescriptor(t::Descriptor::Symbol(s)) => vec![s.as_str().to_string()],
        UnexpectedFrameType(c) => vec![c.to_string()],
        InvalidChar(n) => vec![n.to_string()],
        InvalidTimestamp(n) => vec![n.to_string()],
        RequiredFieldOmitted(n) => vec![n.to_string()],
        UnknownEnumOption(n) => vec![n.to_string()],
        Utf8Error(x) => vec![x.valid_up_to().to_string()],
        Incomplete(Some(n)) => vec![n.to_string()],
        _ => vec![],
    }
}

/// `e`, its clone, its text, and the same as a codec error
fn says(e: &AmqpParseError, x: &Exp) -> R {
    ensure!(meets(e, x), "the error is {:?} instead of {:?}", e, x);
    whole(e)
}
fn whole(e: &AmqpParseError) -> R {
    let k = e.clone();
    ensure!(format!("{:?}", k) == format!("{:?}", e), "{:?} is cloned as {:?}", e, k);
    let text = e.to_string();
    ensure!(!text.is_empty() && text == k.to_string(), "{:?} and its clone read {:?} and {:?}", e, text, k.to_string());
    let o = AmqpCodecError::from(e.clone());
    let o2 = o.clone();
    for o in [&o, &o2] {
        match o {
            AmqpCodecError::ParseError(i) => ensure!(format!("{:?}", i) == format!("{:?}", e), "{:?} becomes {:?}", e, o),
            o => return Err(format!("{:?} becomes {:?}", e, o)),
        }
        for w in mentions(e) {
            let has = |s: &str| s.contains(&w) || s.contains(&w.escape_debug().to_string());
            ensure!(has(&text), "{:?} reads {:?}, without {:?}", e, text, w);
            ensure!(has(&o.to_string()), "{:?} reads {:?}, without {:?}", o, o.to_string(), w);
        }
    }
    Ok(())
}

fn refused(c: &mut Ctx, d: &Dec, b: &[u8], x: &Exp) -> R {
    c.traces(1);
    match (d.raw)(b) {
        Ok(_) => Err(format!("{}: {} is accepted", d.name, hex(b))),
        Err(e) => says(&e, x).map_err(|m| format!("{}: {} ({})", d.name, m, hex(b))),
    }
}

// ------------------------------------------------------------------ the type codes of each type

const ANY: &[u8] = &[
    0x00, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73, 0x80, 0x81, 0x82, 0x83,
    0x98, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0xc0, 0xc1, 0xd0, 0xd1,
    // defined, but not supported inside polymorphic values: not judged
    0xe0, 0xf0, 0x74, 0x84, 0x94,
];
fn codes(t: Ty) -> Vec<u8> {
    match t {
        Ty::Bool | Ty::Role => vec![0x41, 0x42, 0x56],
        Ty::Ubyte | Ty::SndMode | Ty::RcvMode | Ty::SaslCode => vec![0x50],
        Ty::Ushort => vec![0x60],
        Ty::Uint | Ty::Durability => vec![0x43, 0x52, 0x70],
        Ty::Ulong => vec![0x44, 0x53, 0x80],
        Ty::Str => vec![0xa1, 0xb1],
        Ty::Sym | Ty::ErrCond | Ty::DistMode | Ty::Expiry => vec![0xa3, 0xb3],
        Ty::Bin => vec![0xa0, 0xb0],
        Ty::Ts => vec![0x83],
        Ty::Fields | Ty::StrMap | Ty::Map | Ty::Filter => vec![0xc1, 0xd1],
        Ty::Syms => vec![0xa3, 0xb3, 0xe0, 0xf0],
        Ty::MsgId => vec![0x44, 0x53, 0x80, 0x98, 0xa0, 0xb0, 0xa1, 0xb1],
        Ty::State | Ty::Outcome | Ty::Comp(_) => vec![0],
        Ty::List => vec![0x45, 0xc0, 0xd0],
        Ty::Any => ANY.to_vec(),
    }
}
/// of a decoder; null is not judged where a value may be absent
fn codes_of(d: &Dec) -> Option<Vec<u8>> {
    Some(match d.want {
        Want::Codes(c) => c.to_vec(),
        Want::Ty(t) => codes(t),
        Want::Opt(t) => {
            let mut v = codes(t);
            v.push(0x40);
            v
        }
        Want::Comp(_) | Want::Members(_) | Want::Section => vec![0],
        Want::Arr(_) => vec![0xe0, 0xf0],
        Want::Other => match d.name {
            "amqp-error" | "connection-error" | "session-error" | "link-error" => vec![0xa3, 0xb3],
            _ => return None,
        },
    })
}
fn others(ok: &[u8]) -> Vec<u8> {
    (0..=255).filter(|c| !ok.contains(c)).collect()
}

const PADS: [&[u8]; 4] = [&[0; 20], &[1; 20], b"\x04\x00\x00\x00\x01\x40\x40\x40\x40\x40\x40\x40\x40", &[]];

// ------------------------------------------------------------------ raw compounds

fn seq(code: u8, els: &[Vec<u8>], head: &[u8]) -> Vec<u8> {
    let n: usize = els.iter().map(|e| e.len()).sum::<usize>() + head.len();
    let mut o = vec![];
    if n < 250 && els.len() < 255 {
        o.extend_from_slice(&[code, n as u8 + 1, els.len() as u8]);
    } else {
        o.push(code + 0x10);
        o.extend_from_slice(&(n as u32 + 4).to_be_bytes());
        o.extend_from_slice(&(els.len() as u32).to_be_bytes());
    }
    o.extend_from_slice(head);
    for e in els {
        o.extend_from_slice(e);
    }
    o
}
fn list(els: &[Vec<u8>]) -> Vec<u8> {
    seq(0xc0, els, &[])
}
fn map(els: &[Vec<u8>]) -> Vec<u8> {
    seq(0xc1, els, &[])
}
fn described(code: u64, v: &[u8]) -> Vec<u8> {
    let mut o = vec![0];
    o.extend_from_slice(&rv::compact(&Ulong(code)));
    o.extend_from_slice(v);
    o
}
fn sym(s: &str) -> Vec<u8> {
    rv::compact(&Sym(s.into()))
}
fn st(s: &str) -> Vec<u8> {
    rv::compact(&Str(s.into()))
}

/// `co` with field `at` replaced by these bytes, the others as in `full`, or as few as possible
fn with_field(co: &Comp, at: usize, b: &[u8], few: bool) -> Vec<u8> {
    let l = match if few { spec::minimal(co) } else { spec::full(co, 1) } {
        Desc(_, l) => match *l {
            List(l) => l,
            _ => unreachable!(),
        },
        _ => unreachable!(),
    };
    let n = if few { at + 1 } else { l.len() };
    let els: Vec<Vec<u8>> = l.iter().take(n).enumerate().map(|(i, x)| if i == at { b.to_vec() } else { rv::compact(x) }).collect();
    described(co.code, &list(&els))
}

/// The bytes of a composite are refused, for this reason, by everything that can hold it.
fn comp_refused(c: &mut Ctx, co: &Comp, b: &[u8], x: &Exp) -> R {
    for n in readers(co.name) {
        refused(c, dec(n), b, x)?;
    }
    let outer: Vec<Vec<u8>> = match co.name {
        // in the composites that have such a field
        "error" => vec![described(23, &list(&[b.to_vec()])), described(24, &list(&[b.to_vec()])), described(22, &list(&[rv::compact(&Uint(1)), vec![0x40], b.to_vec()]))],
        "source" | "target" => {
            let k = if co.name == "source" { 5 } else { 6 };
            vec![with_field(spec::comp("attach"), k, b, true), with_field(spec::comp("attach"), k, b, false)]
        }
        "received" | "accepted" | "rejected" | "released" | "modified" => {
            vec![with_field(spec::comp("transfer"), 7, b, true), with_field(spec::comp("disposition"), 4, b, false)]
        }
        n if spec::FRAMES.contains(&n) => vec![b.to_vec()],
        n if spec::SASL.contains(&n) => {
            let f = put_frame(1, 0, &[], b);
            return sasl_refused(c, &f, x);
        }
        _ => vec![],
    };
    for o in &outer {
        frame_refused(c, &put_frame(0, 1, &[], o), x)?;
    }
    if co.name == "header" || co.name == "properties" {
        message_refused(c, b, x)?;
    }
    Ok(())
}
fn message_refused(c: &mut Ctx, b: &[u8], x: &Exp) -> R {
    // after another section
    let mut w = described(114, &map(&[]));
    w.extend_from_slice(b);
    for b in [b, &w[..]] {
        refused(c, dec("in message"), b, x)?;
        refused(c, dec("out message"), b, x)?;
    }
    Ok(())
}
fn frame_refused(c: &mut Ctx, f: &[u8], x: &Exp) -> R {
    refused(c, dec("amqp frame"), &f[4..], x)?;
    stream_refused::<AmqpFrame>(c, f, x)
}
fn sasl_refused(c: &mut Ctx, f: &[u8], x: &Exp) -> R {
    refused(c, dec("sasl frame"), &f[4..], x)?;
    stream_refused::<SaslFrame>(c, f, x)
}
fn stream_refused<T: amqp_codec::Decode + amqp_codec::Encode>(c: &mut Ctx, f: &[u8], x: &Exp) -> R {
    c.traces(1);
    let mut k = AmqpCodec::<T>::new();
    let mut b = BytesMut::from(f.to_vec());
    match k.decode(&mut b) {
        Err(AmqpCodecError::ParseError(e)) => says(&e, x).map_err(|m| format!("frame codec: {} ({})", m, hex(f))),
        Err(e) => Err(format!("frame codec: the error is {:?} instead of {:?} ({})", e, x, hex(f))),
        Ok(_) => Err(format!("frame codec: {} is accepted", hex(f))),
    }
}

/// A defective value inside everything that holds polymorphic values.
fn value_refused(c: &mut Ctx, b: &[u8], x: &Exp) -> R {
    let v = b.to_vec();
    let (n5, k, s) = (rv::compact(&Uint(5)), sym("k"), st("s"));
    let in_list = list(&[n5.clone(), v.clone(), n5.clone()]);
    let var: Vec<Vec<u8>> = vec![
        v.clone(),
        in_list.clone(),
        list(&[v.clone()]),
        list(&[list(&[list(&[s.clone(), v.clone()])])]),
        map(&[s.clone(), v.clone()]),
        map(&[v.clone(), s.clone()]),
        map(&[s.clone(), n5.clone(), k.clone(), v.clone(), n5.clone(), n5.clone()]),
        described(5, &v),
        described(5, &in_list),
    ];
    for w in &var {
        refused(c, dec("variant"), w, x)?;
    }
    refused(c, dec("list"), &in_list, x)?;
    refused(c, dec("map any any"), &map(&[s.clone(), v.clone()]), x)?;
    refused(c, dec("map any any"), &map(&[v.clone(), s.clone()]), x)?;
    let by_sym = map(&[k.clone(), n5.clone(), sym("l"), v.clone()]);
    let by_str = map(&[s.clone(), v.clone(), st("t"), n5.clone()]);
    refused(c, dec("map symbol any"), &by_sym, x)?;
    refused(c, dec("map string any"), &by_str, x)?;
    refused(c, dec("vec map"), &by_str, x)?;
    for w in [
        described(113, &by_sym),
        described(114, &by_sym),
        described(120, &by_sym),
        described(116, &by_str),
        described(118, &in_list),
        described(119, &v),
    ] {
        refused(c, dec("section"), &w, x)?;
        message_refused(c, &w, x)?;
    }
    for (co, at, w) in [
        ("open", 9, &by_sym),
        ("begin", 7, &by_sym),
        ("attach", 7, &map(&[v.clone(), n5.clone()])),
        ("attach", 13, &by_sym),
        ("flow", 10, &by_sym),
        ("error", 2, &by_sym),
        ("modified", 2, &by_sym),
        ("source", 5, &by_sym),
        ("target", 5, &by_sym),
    ] {
        comp_refused(c, spec::comp(co), &with_field(spec::comp(co), at, w, true), x)?;
        comp_refused(c, spec::comp(co), &with_field(spec::comp(co), at, w, false), x)?;
    }
    Ok(())
}

fn chars(deep: bool) -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    for k in 16..32 {
        for d in [-1i64, 0, 1] {
            v.push(((1i64 << k) + d) as u32);
        }
    }
    v.extend(0xd7f0..0xe010);
    v.extend(0x10_ffe0..0x11_0020);
    v.push(u32::MAX);
    v.extend(dict().nums.iter().map(|n| *n as u32));
    if deep {
        v.extend((0x11_0000..0x200_0000).step_by(97));
    }
    v.retain(|n| char::from_u32(*n).is_none());
    v.sort_unstable();
    v.dedup();
    v
}
fn millis() -> Vec<i64> {
    let (lo, hi) = ts_range();
    let mut v = vec![];
    for k in 0..64 {
        for d in [-1i64, 0, 1] {
            let x = 1i64.wrapping_shl(k).wrapping_add(d);
            v.push(x);
            v.push(x.wrapping_neg());
        }
    }
    for d in 1..200 {
        v.push(hi + d);
        v.push(lo - d);
    }
    for d in [1000, 86_400_000, 1 << 40] {
        v.push(hi + d);
        v.push(lo - d);
    }
    for n in &dict().nums {
        v.push(*n as i64);
        v.push((*n as i64).wrapping_neg());
    }
    v.retain(|x| *x < lo || *x > hi);
    v.sort_unstable();
    v.dedup();
    v
}

fn enums() -> Vec<(&'static str, Ty, &'static str)> {
    vec![
        ("snd-settle-mode", Ty::SndMode, "sender-settle-mode"),
        ("rcv-settle-mode", Ty::RcvMode, "receiver-settle-mode"),
        ("sasl-code", Ty::SaslCode, "sasl-code"),
        ("durability", Ty::Durability, "terminus-durability"),
        ("expiry-policy", Ty::Expiry, "terminus-expiry-policy"),
    ]
}

fn words() -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), " ".into(), "Never".into(), "never ".into(), "neve".into(), "session_end".into(), "amqp".into(), "amqp:".into(), "x".repeat(300)];
    v.extend(spec::all_descriptors().into_iter().map(|d| d.1));
    v.extend(spec::ERRORS.iter().map(|s| s.to_string()));
    v.extend(spec::EXPIRY.iter().map(|s| s.to_string()));
    v.extend(spec::EXPIRY.iter().map(|s| s.to_uppercase()));
    v.extend(spec::all_descriptors().into_iter().map(|d| d.1.replace("list", "lisp")));
    v.extend(dict().strs.iter().filter(|s| s.is_ascii() && s.len() < 300).cloned());
    v.sort();
    v.dedup();
    v
}

fn no_member(ty: Ty, v: &RV) -> bool {
    spec::norm(ty, v).is_err()
}

/// (name of a decoder, code of its texts, what precedes the text)
const TEXTS: [(&str, u8); 6] = [("string (ByteStr)", 0xa1), ("string (ByteStr)", 0xb1), ("string (Str)", 0xa1), ("string (Str)", 0xb1), ("symbol", 0xa3), ("symbol", 0xb3)];
fn as_text(code: u8, t: &[u8]) -> Vec<u8> {
    let mut o = vec![code];
    if code < 0xb0 {
        o.push(t.len() as u8);
    } else {
        o.extend_from_slice(&(t.len() as u32).to_be_bytes());
    }
    o.extend_from_slice(t);
    o
}

pub fn units(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    us.push(unit("type codes that do not belong", 0, |c| {
        let d = &decs()[c.choose(decs().len())];
        let ok = match codes_of(d) {
            Some(ok) => ok,
            None => return Ok(()),
        };
        for code in others(&ok) {
            for pad in PADS {
                let mut b = vec![code];
                b.extend_from_slice(pad);
                c.state(&(d.name, &b));
                refused(c, d, &b, &Code(code))?;
            }
        }
        c.outcome("wrong type code");
        Ok(())
    }));
    us.push(unit("a wrong type code in every field", 0, |c| {
        let co = c.pick(spec::comps());
        if co.fields.is_empty() {
            return Ok(());
        }
        let i = c.choose(co.fields.len());
        let few = c.flip();
        let mut ok = codes(co.fields[i].ty);
        ok.push(0x40);
        c.say(|| format!("{}.{}", co.name, co.fields[i].name));
        c.sample(|| format!("{}.{}", co.name, co.fields[i].name));
        for code in others(&ok) {
            for pad in PADS {
                let mut v = vec![code];
                v.extend_from_slice(pad);
                let b = with_field(co, i, &v, few);
                c.state(&b);
                comp_refused(c, co, &b, &Code(code))?;
            }
        }
        c.outcome("wrong type code in a field");
        Ok(())
    }));
    us.push(unit("what follows a descriptor must be a list", 0, |c| {
        let co = c.pick(spec::comps());
        for code in others(&[0x45, 0xc0, 0xd0]) {
            for pad in PADS {
                let mut b = vec![0, 0x53, co.code as u8, code];
                b.extend_from_slice(pad);
                c.state(&b);
                comp_refused(c, co, &b, &Code(code))?;
            }
        }
        for (_, n, ty, _) in spec::RSECTIONS {
            for code in others(&codes(ty)) {
                let mut b = vec![0, 0x53, n as u8, code];
                b.extend_from_slice(PADS[0]);
                refused(c, dec("section"), &b, &Code(code))?;
                message_refused(c, &b, &Code(code))?;
            }
        }
        Ok(())
    }));
    us.push(unit("a descriptor of the wrong type", 0, |c| {
        let ds: Vec<&Dec> = decs().iter().filter(|d| matches!(d.want, Want::Comp(_) | Want::Members(_) | Want::Section) || d.name == "variant").collect();
        let d = ds[c.choose(ds.len())];
        for code in others(&[0x44, 0x53, 0x80, 0xa3, 0xb3]) {
            for pad in PADS {
                let mut b = vec![0, code];
                b.extend_from_slice(pad);
                c.state(&(d.name, &b));
                refused(c, d, &b, &Code(code))?;
            }
        }
        Ok(())
    }));
    us.push(unit("elements of arrays", 0, |c| {
        let ds: Vec<&Dec> = decs().iter().filter(|d| matches!(d.want, Want::Arr(_)) || d.want == Want::Ty(Ty::Syms) || d.want == Want::Opt(Ty::Syms)).collect();
        let d = ds[c.choose(ds.len())];
        let ok: &[u8] = match d.want {
            Want::Arr(ok) => ok,
            _ => &[0xa3, 0xb3],
        };
        for code in others(ok) {
            for n in 1..4 {
                let els: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8; 9]).collect();
                for wide in [false, true] {
                    let mut b = seq(0xe0, &els, &[code]);
                    if wide {
                        b = [&[0xf0, 0, 0, 0, n as u8 * 9 + 5, 0, 0, 0, n as u8][..], &b[3..]].concat();
                    }
                    c.state(&(d.name, &b));
                    refused(c, d, &b, &Code(code))?;
                    if d.want == Want::Ty(Ty::Syms) {
                        for (co, i) in [("open", 5), ("open", 8), ("begin", 5), ("attach", 12), ("source", 9), ("source", 10), ("target", 6), ("sasl-mechanisms", 0)] {
                            let co = spec::comp(co);
                            comp_refused(c, co, &with_field(co, i, &b, false), &Code(code))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    us.push(unit("keys of maps", 0, |c| {
        for (d, ok) in [("map symbol any", vec![0xa3, 0xb3]), ("map string any", vec![0xa1, 0xb1]), ("vec map", vec![0xa1, 0xb1]), ("filter set", vec![0xa3, 0xb3]), ("map any any", ANY.to_vec())] {
            let good = if ok[0] == 0xa1 { st("a") } else { sym("a") };
            for code in others(&ok) {
                for pad in PADS {
                    let mut k = vec![code];
                    k.extend_from_slice(pad);
                    for els in [vec![k.clone(), vec![0x40]], vec![good.clone(), vec![0x40], k.clone(), vec![0x40]]] {
                        let b = map(&els);
                        c.state(&(d, &b));
                        refused(c, dec(d), &b, &Code(code))?;
                    }
                }
            }
        }
        // what a filter may be
        for code in others(&[0x40, 0xa1, 0xb1]) {
            let mut v = vec![code];
            v.extend_from_slice(PADS[1]);
            refused(c, dec("filter set"), &map(&[sym("f"), v]), &Code(code))?;
        }
        Ok(())
    }));
    us.push(unit("unknown type codes inside polymorphic values", 0, |c| {
        let code = *c.pick(&others(ANY));
        let mut v = vec![code];
        v.extend_from_slice(PADS[c.choose(PADS.len())]);
        c.state(&v);
        value_refused(c, &v, &Code(code))
    }));
    us.push(unit("unknown descriptors by number", 0, |c| {
        let mut ns: Vec<u64> = (0..=300).collect();
        for k in 8..64 {
            ns.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 0x10, (1 << k) + 0x24, (1 << k) + 0x73]);
        }
        ns.extend(dict().nums.iter().map(|n| *n as u64));
        ns.push(u64::MAX);
        ns.sort_unstable();
        ns.dedup();
        let n = *c.pick(&ns);
        let mut forms = vec![rv::compact(&Ulong(n)), rv::widest(&Ulong(n))];
        forms.dedup();
        unknown(c, &Ulong(n), &forms)
    }));
    us.push(unit("unknown descriptors by name", 0, |c| {
        let ws = words();
        let w = c.pick(&ws).clone();
        let forms = vec![rv::compact(&Sym(w.clone())), rv::widest(&Sym(w.clone()))];
        unknown(c, &Sym(w), &forms)
    }));
    us.push(unit("enumerations", 0, |c| {
        let es = enums();
        let (d, ty, name) = es[c.choose(es.len())];
        let x = Exp::Option(name);
        let vals: Vec<RV> = match ty {
            Ty::Expiry => words().into_iter().map(Sym).collect(),
            Ty::Durability => crate::items::u32s().iter().map(|n| Uint(*n)).collect(),
            _ => (0..=255).map(Ubyte).collect(),
        };
        for v in vals.iter().filter(|v| no_member(ty, v)) {
            for b in [rv::compact(v), rv::widest(v)] {
                c.state(&(d, &b));
                refused(c, dec(d), &b, &x)?;
                for co in spec::comps() {
                    for (i, f) in co.fields.iter().enumerate() {
                        if f.ty == ty {
                            for few in [false, true] {
                                comp_refused(c, co, &with_field(co, i, &b, few), &x)?;
                            }
                        }
                    }
                }
            }
        }
        for d in ["amqp-error", "connection-error", "session-error", "link-error"] {
            let set: Vec<&str> = spec::ERRORS
                .iter()
                .copied()
                .filter(|e| match d {
                    "connection-error" => e.starts_with("amqp:connection:"),
                    "session-error" => e.starts_with("amqp:session:"),
                    "link-error" => e.starts_with("amqp:link:"),
                    _ => e.matches(':').count() == 1,
                })
                .collect();
            for w in words() {
                if !set.contains(&w.as_str()) {
                    let b = sym(&w);
                    refused(c, dec(d), &b, &Exp::Option(d))?;
                }
            }
        }
        Ok(())
    }));
    us.push(unit("characters", 0, move |c| {
        let ns = chars(deep);
        let k = c.choose(64);
        for n in ns.iter().skip(k).step_by(64) {
            let mut b = vec![0x73];
            b.extend_from_slice(&n.to_be_bytes());
            c.state(&b);
            refused(c, dec("char"), &b, &Exp::Char(*n))?;
            let mut a = vec![];
            a.extend_from_slice(&[0, 0, 0, 0x41]);
            a.extend_from_slice(&n.to_be_bytes());
            refused(c, dec("array of char"), &seq(0xe0, &[a[..4].to_vec(), a[4..].to_vec()], &[0x73]), &Exp::Char(*n))?;
            value_refused(c, &b, &Exp::Char(*n))?;
        }
        Ok(())
    }));
    us.push(unit("timestamps", 0, |c| {
        let ns = millis();
        let k = c.choose(64);
        for n in ns.iter().skip(k).step_by(64) {
            let x = Exp::Ts(*n);
            let b = rv::compact(&Ts(*n));
            c.state(&b);
            refused(c, dec("timestamp"), &b, &x)?;
            refused(c, dec("array of timestamp"), &seq(0xe0, &[vec![0; 8], b[1..].to_vec(), vec![0; 8]], &[0x83]), &x)?;
            value_refused(c, &b, &x)?;
            for i in [8, 9] {
                let co = spec::comp("properties");
                comp_refused(c, co, &with_field(co, i, &b, false), &x)?;
            }
        }
        Ok(())
    }));
    us.push(unit("text that is not UTF-8", 0, |c| {
        const FAULTS: [&[u8]; 8] = [b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x92", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80"];
        let fault = FAULTS[c.choose(FAULTS.len())];
        let len = [0usize, 1, 2, 3, 4, 7, 8, 9, 16, 17, 31, 32, 40, 64, 100, 127, 128, 200, 250, 300, 1000][c.choose(21)];
        let style = c.choose(2);
        let text = crate::items::text(len, style).into_bytes();
        let mut at: Vec<usize> = vec![0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, len / 2, len.saturating_sub(1), len];
        at.retain(|x| *x <= len);
        at.sort_unstable();
        at.dedup();
        for i in at {
            let t = [&text[..i], fault, &text[i..]].concat();
            let e = match std::str::from_utf8(&t) {
                Ok(_) => continue,
                Err(e) => e.valid_up_to(),
            };
            let x = Exp::Utf8(e);
            for (d, code) in TEXTS {
                if code < 0xb0 && t.len() > 255 {
                    continue;
                }
                let b = as_text(code, &t);
                c.state(&(d, &b));
                refused(c, dec(d), &b, &x)?;
                if d == "string (Str)" {
                    continue;
                }
                value_refused(c, &b, &x)?;
                let is_sym = code & 0xf == 3;
                if is_sym {
                    refused(c, dec("array of symbol"), &seq(0xe0, &[b[1..].to_vec()], &[code]), &x)?;
                    refused(c, dec("multiple symbols"), &b, &x)?;
                    refused(c, dec("multiple symbols"), &seq(0xe0, &[b[1..].to_vec(), as_text(code, b"ok")[1..].to_vec()], &[code]), &x)?;
                    refused(c, dec("variant"), &[&[0], &b[..], &[0x40]].concat(), &x)?;
                } else {
                    refused(c, dec("array of string"), &seq(0xe0, &[b[1..].to_vec()], &[code]), &x)?;
                }
                for co in spec::comps() {
                    for (i, f) in co.fields.iter().enumerate() {
                        let inside = match f.ty {
                            Ty::Str | Ty::MsgId => !is_sym,
                            Ty::Sym | Ty::ErrCond | Ty::DistMode | Ty::Expiry | Ty::Syms => is_sym,
                            _ => false,
                        };
                        if inside {
                            comp_refused(c, co, &with_field(co, i, &b, false), &x)?;
                        }
                        let key = match f.ty {
                            Ty::Fields | Ty::Filter => is_sym,
                            _ => false,
                        };
                        if key {
                            comp_refused(c, co, &with_field(co, i, &map(&[b.clone(), vec![0x40]]), false), &x)?;
                        }
                        if f.ty == Ty::Filter && !is_sym {
                            comp_refused(c, co, &with_field(co, i, &map(&[sym("f"), b.clone()]), false), &x)?;
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    us.push(unit("mandatory fields that are missing", 0, |c| {
        let cs: Vec<&Comp> = spec::comps().iter().filter(|co| co.fields.iter().any(|f| f.mandatory)).collect();
        let co = cs[c.choose(cs.len())];
        let n = co.fields.len().min(11);
        let len = c.choose(n + 1);
        for mask in 0..1usize << len {
            let r = super::strict::masked(co, len, mask, 0);
            let gone: Vec<&'static str> = co.fields.iter().enumerate().skip(len).filter(|(_, f)| f.mandatory).map(|(_, f)| f.name).collect();
            let null: Vec<&'static str> = co.fields.iter().enumerate().take(len).filter(|(i, f)| f.mandatory && mask >> i & 1 == 0).map(|(_, f)| f.name).collect();
            if gone.is_empty() && null.is_empty() {
                continue;
            }
            let mut xs = vec![];
            if !null.is_empty() {
                // a null is of the wrong type there, or means that the field is missing
                xs.push(Code(0x40));
                xs.push(Omitted(null.clone()));
            } else {
                xs.push(Omitted(gone));
            }
            let x = Any(xs);
            for b in [rv::compact(&r), rv::widest(&r)] {
                c.state(&b);
                comp_refused(c, co, &b, &x)?;
            }
        }
        c.outcome("mandatory field missing");
        Ok(())
    }));
    us.push(unit("frame headers", 0, |c| {
        let ty = c.choose(256) as u8;
        let doff = c.choose(4) as u8;
        let ext = vec![0u8; 4 * (doff as usize).saturating_sub(2)];
        for (kind, body) in [(0u8, rv::compact(&spec::full(spec::comp("end"), 0))), (1, rv::compact(&spec::full(spec::comp("sasl-response"), 0)))] {
            let mut f = put_frame(ty, 9, &ext, &body);
            f[4] = doff;
            c.state(&f);
            let x = match (ty == kind, doff < 2) {
                (true, false) => continue,
                (false, false) => Exp::FrameType(ty),
                (true, true) => Size,
                (false, true) => Any(vec![Size, Exp::FrameType(ty)]),
            };
            if kind == 0 {
                frame_refused(c, &f, &x)?;
            } else {
                sasl_refused(c, &f, &x)?;
            }
        }
        Ok(())
    }));
    us.push(unit("frame sizes and bytes left over", 0, |c| {
        let n = c.choose(40);
        let end = rv::compact(&spec::full(spec::comp("end"), 0));
        let resp = rv::compact(&spec::full(spec::comp("sasl-response"), 0));
        if n < 8 {
            for extra in [0usize, 1, 4, 100] {
                let mut f = vec![0, 0, 0, n as u8, 2, 0, 0, 0];
                f.resize(8 + extra, 0);
                stream_refused::<AmqpFrame>(c, &f, &Size)?;
                f[5] = 1;
                stream_refused::<SaslFrame>(c, &f, &Size)?;
                c.state(&f);
            }
            return Ok(());
        }
        for fill in [0u8, 0x40, 0xff] {
            let more = vec![fill; n - 7];
            let f = put_frame(0, 1, &[], &[&end[..], &more].concat());
            c.state(&f);
            let mut k = AmqpCodec::<AmqpFrame>::new();
            match k.decode(&mut BytesMut::from(f.clone())) {
                Err(e) => leftover(e, &f)?,
                x => return Err(format!("{}: answered with {:?}", hex(&f), x)),
            }
            let f = put_frame(1, 0, &[], &[&resp[..], &more].concat());
            let mut k = AmqpCodec::<SaslFrame>::new();
            match k.decode(&mut BytesMut::from(f.clone())) {
                Err(e) => leftover(e, &f)?,
                x => return Err(format!("{}: answered with {:?}", hex(&f), x)),
            }
            c.traces(2);
        }
        Ok(())
    }));
    us.push(unit("compounds too small for their own count", 0, |c| {
        let kinds: Vec<(&str, u8)> = vec![("list", 0xc0), ("variant", 0xc0), ("variant", 0xc1), ("map any any", 0xc1), ("map symbol any", 0xc1), ("map string any", 0xc1), ("vec map", 0xc1), ("filter set", 0xc1), ("multiple symbols", 0xe0), ("array of ubyte", 0xe0), ("array of symbol", 0xe0)];
        let (d, code) = kinds[c.choose(kinds.len())];
        for pad in PADS {
            if pad.is_empty() {
                continue;
            }
            let b = [&[code, 0][..], pad].concat();
            refused(c, dec(d), &b, &Size)?;
            for n in 0..4u8 {
                let w = [&[code + 0x10, 0, 0, 0, n][..], pad].concat();
                c.state(&(d, &w));
                refused(c, dec(d), &w, &Size)?;
                if d == "variant" {
                    value_refused(c, &w, &Size)?;
                }
            }
        }
        for co in spec::comps() {
            comp_refused(c, co, &[0, 0x53, co.code as u8, 0xc0, 0, 0, 0, 0, 0, 0], &Size)?;
            comp_refused(c, co, &[0, 0x53, co.code as u8, 0xd0, 0, 0, 0, 3, 0, 0, 0, 0], &Size)?;
        }
        Ok(())
    }));
    us.push(unit("errors by themselves", 0, |c| {
        use AmqpParseError as E;
        let n = c.choose(256) as u8;
        let mut es = vec![E::InvalidSize, E::Incomplete(None), E::InvalidFormatCode(n), E::UnexpectedFrameType(n)];
        for k in crate::items::u32s().iter().filter(|k| **k < 2048 || n < 8) {
            es.push(E::InvalidChar(k.wrapping_add(u32::from(n))));
            es.push(E::Incomplete(Some(*k as usize)));
            es.push(E::InvalidTimestamp(i64::from(*k) * -1_000_003 + i64::from(n)));
            es.push(E::InvalidDescriptor(t::Descriptor::Ulong(u64::from(*k) << (n % 33))));
        }
        let ws = words();
        let w = leaked(&ws[n as usize % ws.len()]);
        es.push(E::InvalidDescriptor(t::Descriptor::Symbol(w.into())));
        es.push(E::RequiredFieldOmitted(w));
        es.push(E::UnknownEnumOption(w));
        es.extend(uuid::Uuid::from_slice(&vec![0; n as usize]).err().map(E::from));
        es.extend(std::str::from_utf8(&[b'a', n, 0x80]).err().map(E::from));
        for e in &es {
            whole(e)?;
            c.state(&format!("{:?}", e));
            c.traces(1);
        }
        for kind in [std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::Other] {
            let e = AmqpCodecError::from(std::io::Error::new(kind, w.to_string()));
            match &e {
                AmqpCodecError::Io(Some(i)) => ensure!(i.kind() == kind && i.to_string() == w, "an I/O error becomes {:?}", e),
                e => return Err(format!("an I/O error becomes {:?}", e)),
            }
            let k = e.clone();
            ensure!(matches!(k, AmqpCodecError::Io(_)), "{:?} is cloned as {:?}", e, k);
            let e = ProtocolIdError::from(std::io::Error::new(kind, w.to_string()));
            match &e {
                ProtocolIdError::Io(i) => ensure!(i.kind() == kind && i.to_string() == w, "an I/O error becomes {:?}", e),
                e => return Err(format!("an I/O error becomes {:?}", e)),
            }
        }
        let k = AmqpCodecError::UnparsedBytesLeft.clone();
        ensure!(matches!(k, AmqpCodecError::UnparsedBytesLeft), "UnparsedBytesLeft is cloned as {:?}", k);
        use p::ProtocolId::*;
        for exp in [Amqp, AmqpTls, AmqpSasl] {
            for got in [Amqp, AmqpTls, AmqpSasl] {
                let e = ProtocolIdError::Unexpected { exp, got };
                let s = e.to_string();
                let (a, b) = (format!("{:?}", exp), format!("{:?}", got));
                let i = s.find(&a);
                ensure!(i.map_or(false, |i| s[i + a.len()..].contains(&b)), "{:?} reads {:?}", e, s);
            }
        }
        Ok(())
    }));
    us
}

fn leftover(e: AmqpCodecError, f: &[u8]) -> R {
    let k = e.clone();
    ensure!(matches!(e, AmqpCodecError::UnparsedBytesLeft), "bytes left in a frame are reported as {:?} ({})", e, hex(f));
    ensure!(matches!(k, AmqpCodecError::UnparsedBytesLeft), "{:?} is cloned as {:?}", e, k);
    ensure!(!e.to_string().is_empty(), "no text");
    Ok(())
}

/// everything that does not know this descriptor says so
fn unknown(c: &mut Ctx, d: &RV, forms: &[Vec<u8>]) -> R {
    let is = |co: &Comp| match d {
        Ulong(n) => *n == co.code,
        Sym(s) => *s == co.sym,
        _ => false,
    };
    let is_section = |d: &RV| {
        spec::RSECTIONS.iter().any(|s| match d {
            Ulong(n) => *n == s.1,
            Sym(w) => w == s.3,
            _ => false,
        })
    };
    let x = Exp::Desc(d.clone());
    for f in forms {
        for body in [&b"\x45"[..], b"\xc0\x05\x02\x40\xa1\x01a", b"\x40", b"\xc1\x01\x00"] {
            let b = [&[0], &f[..], body].concat();
            c.state(&b);
            for dc in decs() {
                let known = match dc.want {
                    Want::Comp(n) => is(spec::comp(n)),
                    Want::Members(ms) => ms.iter().any(|n| is(spec::comp(n))),
                    Want::Section => is_section(d) || is(spec::comp("header")) || is(spec::comp("properties")),
                    _ => continue,
                };
                if !known {
                    refused(c, dc, &b, &x)?;
                }
            }
            if !spec::FRAMES.iter().any(|n| is(spec::comp(n))) {
                frame_refused(c, &put_frame(0, 1, &[], &b), &x)?;
            }
            if !spec::SASL.iter().any(|n| is(spec::comp(n))) {
                sasl_refused(c, &put_frame(1, 0, &[], &b), &x)?;
            }
            if !is_section(d) && !is(spec::comp("header")) && !is(spec::comp("properties")) {
                message_refused(c, &b, &x)?;
            }
            for co in spec::comps() {
                for (i, fl) in co.fields.iter().enumerate() {
                    let ms = spec::members(fl.ty);
                    if !ms.is_empty() && !ms.iter().any(|n| is(spec::comp(n))) {
                        comp_refused(c, co, &with_field(co, i, &b, true), &x)?;
                        comp_refused(c, co, &with_field(co, i, &b, false), &x)?;
                    }
                }
            }
        }
    }
    Ok(())
}
