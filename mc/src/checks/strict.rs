//! Properties about what must be refused: C12, C13, C18, C19.
use super::frames::put_frame;
use super::values::{readers, targets};
use crate::conv::ToRv;
use crate::dectab::{dec, decs, zero_width, Dec, Want};
use crate::explore::{unit, Ctx, Unit, R};
use crate::items::ts_range;
use crate::rv::{self, RV, RV::*};
use crate::scan::{self, compare, judge, scan, Scan, Verdict};
use crate::spec::{self, Comp, Ty};
use crate::util::*;
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::{AmqpFrame, Decode, Encode, InMessage, OutMessage, SaslFrame};
use bytes::{Bytes, BytesMut};
use chrono::{DateTime, Datelike, Timelike, Utc};

fn list_of(r: &RV) -> Vec<RV> {
    match r {
        Desc(_, l) => match l.as_ref() {
            List(l) => l.clone(),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}

fn run(c: &mut Ctx, d: &Dec, b: &[u8]) -> Result<bool, String> {
    c.say(|| format!("{}: {} (reference: {:?})", d.name, hex(b), judge(d, b)));
    c.sample(|| format!("{}: {}", d.name, hex(b)));
    c.state(&(d.name, b));
    let r = compare(d, b)?;
    c.outcome(if r { "accepted" } else { "rejected" });
    Ok(r)
}

/// The content must come out of (or be refused by) everything that can hold the composite.
fn everywhere(c: &mut Ctx, co: &Comp, content: &RV, b: &[u8]) -> R {
    let ds = readers(co.name);
    let n = ds.len();
    // also inside frames and messages
    let hosts = match co.name {
        x if spec::FRAMES.contains(&x) || spec::SASL.contains(&x) => 1,
        "header" | "properties" => 2,
        _ => 0,
    };
    let k = c.choose(n + hosts);
    if k < n {
        let d = dec(ds[k]);
        run(c, d, b)?;
        // followed by something else
        if !scan::takes_rest(d, b) {
            let mut w = b.to_vec();
            w.extend_from_slice(b"\x40\x00\x53\x70");
            run(c, d, &w)?;
            c.traces(1);
        }
        return Ok(());
    }
    let want = spec::norm_comp(co, content);
    c.state(&(co.name, k, b));
    c.say(|| format!("{} in a frame or message: {}", co.name, hex(b)));
    let got: Result<RV, String> = match co.name {
        "header" | "properties" => {
            let get = |h: Option<RV>, p: Option<RV>| if co.name == "header" { h } else { p };
            let x = if k == n {
                InMessage::decode(b).map(|(_, m)| get(m.header().map(|x| x.rv()), m.properties().map(|x| x.rv())))
            } else {
                OutMessage::decode(b).map(|(_, m)| get(m.header().map(|x| x.rv()), m.properties().map(|x| x.rv())))
            };
            x.map_err(|e| format!("{:?}", e)).and_then(|x| x.ok_or_else(|| "section missing".to_string()))
        }
        x if spec::SASL.contains(&x) => {
            let f = put_frame(1, 0, &[], b);
            SaslFrame::decode(&f[4..]).map(|(_, x)| x.body.rv()).map_err(|e| format!("{:?}", e))
        }
        _ => {
            let f = put_frame(0, 3, &[], b);
            AmqpFrame::decode(&f[4..]).map(|(_, x)| x.performative().rv()).map_err(|e| format!("{:?}", e))
        }
    };
    match (want, got) {
        (Ok(w), Ok(g)) => {
            ensure!(g.same(&w), "{}: {} arrives as {:?} instead of {:?}", co.name, hex(b), g, w);
            c.outcome("accepted inside a frame or message");
            Ok(())
        }
        (Err(_), Err(_)) => {
            c.outcome("rejected inside a frame or message");
            Ok(())
        }
        (Ok(w), Err(e)) => Err(format!("{}: valid {:?} is rejected: {} ({})", co.name, w, e, hex(b))),
        (Err(w), Ok(g)) => Err(format!("{}: {} is accepted as {:?}, but {}", co.name, hex(b), g, w)),
    }
}

fn write(c: &mut Ctx, r: &RV) -> Vec<u8> {
    if c.flip() {
        rv::widest(r)
    } else {
        rv::compact(r)
    }
}

/// the first `len` fields, of which those in `mask` are present
pub fn masked(co: &Comp, len: usize, mask: usize, salt: usize) -> RV {
    let l = list_of(&spec::full(co, salt));
    RV::desc(
        co.code,
        List(
            l.into_iter()
                .take(len)
                .enumerate()
                .map(|(i, x)| if mask >> i & 1 == 1 { x } else { Null })
                .collect(),
        ),
    )
}

fn pick_mask(c: &mut Ctx, co: &Comp) -> RV {
    let len = c.choose(co.fields.len() + 1);
    // in two steps, so that work is split evenly
    let mask = (0..len).fold(0, |a, i| a | (c.choose(2) << i));
    masked(co, len, mask, 0)
}

// ------------------------------------------------------------------ C12

pub fn absent(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    us.push(unit("every set of absent fields, every length of the field list", 0, |c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        let r = pick_mask(c, co);
        let b = write(c, &r);
        everywhere(c, co, &r, &b)
    }));
    us.push(unit("one field at each of its values, the others null or omitted", 0, |c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        if co.fields.is_empty() {
            return Ok(());
        }
        let i = c.choose(co.fields.len());
        let d = spec::dom(co.fields[i].ty, true);
        let x = c.pick(&d).clone();
        // the mandatory fields present or not
        let base = if c.flip() { list_of(&spec::minimal(co)) } else { vec![Null; co.fields.len()] };
        let mut l = base;
        l[i] = x;
        match c.choose(3) {
            0 => {}
            1 => l.truncate(i + 1),
            _ => {
                while l.last() == Some(&Null) {
                    l.pop();
                }
            }
        }
        let r = RV::desc(co.code, List(l));
        let b = write(c, &r);
        everywhere(c, co, &r, &b)
    }));
    for co in spec::comps().iter().filter(|co| co.fields.len() > 1) {
        let al = crate::items::few(co, if deep { 10_000_000 } else { 400_000 }, true);
        us.push(unit(format!("a few values for every field of {}", co.name), 0, move |c: &mut Ctx| {
            let mut l: Vec<RV> = al.iter().map(|v| v[c.choose(v.len())].clone()).collect();
            // nulls at the end are written or not
            if c.flip() {
                if l.last() != Some(&Null) {
                    return Ok(());
                }
                while l.last() == Some(&Null) {
                    l.pop();
                }
            }
            let r = RV::desc(co.code, List(l));
            let b = rv::compact(&r);
            everywhere(c, co, &r, &b)
        }));
    }
    us.push(unit("composites inside composites, every set of absent inner fields", 0, move |c| {
        // outer composite and one of its fields that holds a composite
        let outs: Vec<(&Comp, usize, &'static str)> = spec::comps()
            .iter()
            .flat_map(|co| {
                co.fields
                    .iter()
                    .enumerate()
                    .flat_map(move |(i, f)| spec::members(f.ty).into_iter().map(move |m| (co, i, m)))
            })
            .collect();
        let (co, i, m) = outs[c.choose(outs.len())];
        let inner = pick_mask(c, spec::comp(m));
        // and around it once more
        let mut l = list_of(&if c.flip() { spec::full(co, 0) } else { spec::minimal(co) });
        l[i] = inner;
        let r = RV::desc(co.code, List(l));
        let more: Vec<&(&Comp, usize, &'static str)> = outs.iter().filter(|o| o.2 == co.name).collect();
        let k = c.choose(more.len() + 1);
        let (co, r) = if k == 0 {
            (co, r)
        } else {
            let (o2, i2, _) = more[k - 1];
            let mut l = list_of(&spec::minimal(o2));
            l[*i2] = r;
            (*o2, RV::desc(o2.code, List(l)))
        };
        let b = write(c, &r);
        everywhere(c, co, &r, &b)
    }));
    us.push(unit("absent fields in every permitted encoding", if deep { 3 } else { 1 }, |c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        // all present, none present, exactly one absent, exactly one present; cut everywhere
        let n = co.fields.len();
        let len = c.choose(n + 1);
        let all = (1usize << len) - 1;
        let k = c.choose(2 * len + 2);
        let mask = match k {
            0 => all,
            1 => 0,
            k if k < 2 + len => all & !(1 << (k - 2)),
            k => 1 << (k - 2 - len),
        };
        let mut r = masked(co, len, mask, 1);
        if c.dev(2) == 1 {
            if let Desc(_, l) = r {
                r = Desc(Box::new(Sym(co.sym.clone())), l);
            }
        }
        let mut b = vec![];
        rv::emit(&r, &mut rv::Dev(c), &mut b);
        everywhere(c, co, &r, &b)
    }));
    us
}

// ------------------------------------------------------------------ C13

/// Where the sizes and counts of an encoding are: position, width, is it a count.
fn marks(b: &[u8]) -> Vec<(usize, usize, bool)> {
    fn be(b: &[u8]) -> usize {
        b.iter().fold(0, |a, x| (a << 8) | *x as usize)
    }
    fn value(b: &[u8], mut i: usize, out: &mut Vec<(usize, usize, bool)>) -> usize {
        while b[i] == 0 {
            i = value(b, i + 1, out);
        }
        body(b[i], b, i + 1, out)
    }
    fn body(code: u8, b: &[u8], i: usize, out: &mut Vec<(usize, usize, bool)>) -> usize {
        match code >> 4 {
            4 => i,
            5..=9 => i + (1 << ((code >> 4) - 5)),
            0xa | 0xb => {
                let w = if code >> 4 == 0xa { 1 } else { 4 };
                out.push((i, w, false));
                i + w + be(&b[i..i + w])
            }
            _ => {
                let w = if code >> 4 == 0xc || code >> 4 == 0xe { 1 } else { 4 };
                out.push((i, w, false));
                out.push((i + w, w, true));
                let n = be(&b[i + w..i + 2 * w]);
                let mut j = i + 2 * w;
                if code >> 4 >= 0xe {
                    let c = b[j];
                    j += 1;
                    for _ in 0..n {
                        j = body(c, b, j, out);
                    }
                } else {
                    for _ in 0..n {
                        j = value(b, j, out);
                    }
                }
                j
            }
        }
    }
    let mut out = vec![];
    let e = value(b, 0, &mut out);
    assert_eq!(e, b.len(), "harness: marks");
    out
}

const TRAIL: [&[u8]; 7] = [
    b"",
    b"\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40",
    b"\x52\x01\x53\x02\x43\x44\x45\x41\x42\x52\x03",
    b"\xa3\x01\x61\xa1\x01\x62\xa3\x01\x63\xa1\x01\x64",
    b"abcdefghijklmnop",
    b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00",
    b"\xc0\x01\x00\xc1\x01\x00\xe0\x02\x00\xa3\x45\x40",
];

/// the number of bytes the outermost value claims, from its declared size alone
fn claimed(b: &[u8]) -> Option<usize> {
    fn at(b: &[u8], i: usize) -> Option<usize> {
        let c = *b.get(i)?;
        let be = |i: usize, w: usize| b.get(i..i + w).map(|x| x.iter().fold(0usize, |a, x| (a << 8) | *x as usize));
        Some(match c >> 4 {
            0 => {
                let j = at(b, i + 1)?;
                at(b, j)?
            }
            4 => i + 1,
            5..=9 => i + 1 + (1 << ((c >> 4) - 5)),
            0xa | 0xc | 0xe => i + 2 + be(i + 1, 1)?,
            0xb | 0xd | 0xf => i + 5 + be(i + 1, 4)?,
            _ => return None,
        })
    }
    at(b, 0)
}

/// All trailing bytes: the reference verdict on each, and no influence of any.
fn windows_of(c: &mut Ctx, d: &Dec, b: &[u8]) -> R {
    let own = claimed(b).map_or(false, |n| n <= b.len());
    let mut first: Option<Result<(usize, RV), ()>> = None;
    c.say(|| format!("{}: {} (reference: {:?})", d.name, hex(b), judge(d, b)));
    c.sample(|| format!("{}: {}", d.name, hex(b)));
    c.state(&(d.name, b));
    let rest = scan::takes_rest(d, b);
    let mut acc = 0;
    for (i, t) in TRAIL.iter().enumerate() {
        let mut w = b.to_vec();
        w.extend_from_slice(t);
        if compare(d, &w)? {
            acc += 1;
        }
        if own {
            let got = (d.full.unwrap())(&w);
            let got = match got {
                Ok((r, v)) => {
                    ensure!(rest || (r <= w.len() && w.len() - r == claimed(b).unwrap()), "{}: {} reads {} bytes although it declares {}", d.name, hex(&w), (w.len() - r) as isize, claimed(b).unwrap());
                    Ok((0, v))
                }
                Err(_) => Err(()),
            };
            match &first {
                None => first = Some(got),
                Some(f) => ensure!(
                    match (f, &got) {
                        (Ok(a), Ok(b)) => a.1.same(&b.1),
                        (Err(_), Err(_)) => true,
                        _ => false,
                    },
                    "{}: what follows decides how {} is read: {:?} alone, {:?} when followed by {}",
                    d.name,
                    hex(b),
                    f,
                    got,
                    hex(TRAIL[i])
                ),
            }
        }
    }
    c.traces(TRAIL.len() as u64 - 1);
    c.outcome_n("accepted", acc);
    c.outcome_n("rejected", TRAIL.len() as u64 - acc);
    Ok(())
}

fn patch(b: &mut [u8], at: usize, w: usize, v: u64) {
    let x = v.to_be_bytes();
    b[at..at + w].copy_from_slice(&x[8 - w..]);
}
fn read(b: &[u8], at: usize, w: usize) -> u64 {
    b[at..at + w].iter().fold(0, |a, x| (a << 8) | u64::from(*x))
}

fn other_values(old: u64, w: usize, deep: bool) -> Vec<u64> {
    let max = if w == 1 { 0xff } else { 0xffff_ffff };
    let mut v: Vec<u64> = vec![];
    let r = if deep { 16 } else { 6 };
    for d in 1..=r {
        v.push(old.wrapping_sub(d));
        v.push(old + d);
    }
    v.extend([0, 1, 2, 3, 4, 5, max, max - 1, max / 2, max / 2 + 1, max - 4, max - 8]);
    v.retain(|x| *x <= max && *x != old);
    v.sort_unstable();
    v.dedup();
    v
}

/// small members of every compound type, by decoder
fn seeds() -> &'static Vec<(&'static str, RV)> {
    static S: std::sync::OnceLock<Vec<(&'static str, RV)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let s = |x: &str| Str(x.into());
        let y = |x: &str| Sym(x.into());
        let mut v: Vec<(&'static str, RV)> = vec![];
        let lists = vec![
            List(vec![]),
            List(vec![Null]),
            List(vec![Uint(7), s("ab")]),
            List(vec![Null, List(vec![Uint(1), Null]), Bool(true)]),
            List(vec![Map(vec![(Null, Uint(3))]), Uint(9)]),
            List(vec![List(vec![List(vec![Uint(5)]), Null]), Bin(vec![1, 2])]),
            List(vec![RV::desc(5, List(vec![Null])), s("c")]),
        ];
        for l in &lists {
            v.push(("list", l.clone()));
            v.push(("variant", l.clone()));
            v.push(("section", RV::desc(118, l.clone())));
            v.push(("section", RV::desc(119, l.clone())));
            v.push(("variant", RV::desc(300, l.clone())));
            v.push(("map symbol any", Map(vec![(y("k"), l.clone()), (y("l"), Null)])));
            v.push(("vec map", Map(vec![(s("k"), l.clone()), (s("l"), Null)])));
        }
        let inner = vec![Null, s("xy"), List(vec![Null]), Map(vec![(Uint(1), Null)]), Bin(vec![])];
        v.push(("map symbol any", Map(vec![])));
        v.push(("vec map", Map(vec![])));
        for x in &inner {
            for n in 1..3 {
                let e = |k: fn(usize) -> RV| Map((0..n).map(|i| (k(i), x.clone())).collect());
                let ks: fn(usize) -> RV = |i| Sym(["a", "bc"][i].into());
                let kt: fn(usize) -> RV = |i| Str(["a", "bc"][i].into());
                let ka: fn(usize) -> RV = |i| [Uint(4), Str("z".into())][i].clone();
                v.push(("map symbol any", e(ks)));
                v.push(("section", RV::desc(113, e(ks))));
                v.push(("section", RV::desc(114, e(ks))));
                v.push(("section", RV::desc(120, e(ks))));
                v.push(("map any any", e(ka)));
                v.push(("variant", e(ka)));
                v.push(("map string any", e(kt)));
                v.push(("vec map", e(kt)));
                v.push(("section", RV::desc(116, e(kt))));
                if matches!(x, Null | Str(_)) {
                    v.push(("filter set", e(ks)));
                }
            }
        }
        for d in ["multiple symbols", "option of symbols"] {
            for a in [vec![y("a")], vec![y("a"), y("bcd")], vec![y(""), y("x"), y("")]] {
                v.push((d, Array(a)));
            }
        }
        for d in decs() {
            if let Want::Arr(cs) = d.want {
                let x = match cs[0] {
                    0x50 => vec![Ubyte(1), Ubyte(2), Ubyte(0x50)],
                    0x60 => vec![Ushort(1), Ushort(0x6060)],
                    0x51 => vec![Byte(1), Byte(-1)],
                    0x55 => vec![Long(1), Long(-1)],
                    0x82 => vec![Double(1), Double(2)],
                    0x73 => vec![Char(65), Char(66)],
                    0x83 => vec![Ts(1), Ts(2)],
                    0x98 => vec![RV::Uuid([1; 16]), RV::Uuid([2; 16])],
                    0xa0 => vec![Bin(vec![1]), Bin(vec![2, 3])],
                    0xa1 => vec![s("a"), s("bc")],
                    0xa3 => vec![y("a"), y("bc")],
                    0x43 => vec![Uint(1), Uint(0x52)],
                    0x44 => vec![Ulong(1), Ulong(0x53)],
                    _ => vec![Bool(true), Bool(false)],
                };
                for n in 1..=x.len() {
                    v.push((d.name, Array(x[..n].to_vec())));
                }
            }
        }
        v
    })
}

fn sizes_of_windows(deep: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=300).collect();
    for k in 9..=(if deep { 18 } else { 15 }) {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend(crate::items::named_sizes(300, if deep { 100_000 } else { 20_000 }));
    v.sort_unstable();
    v.dedup();
    v
}

/// A long value in any field of any composite, in everything that can hold the composite.
pub fn long_fields() -> Unit {
    unit("a long value in any field", 0, |c: &mut Ctx| {
        static S: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
        let names = S.get_or_init(|| spec::comps().iter().map(|co| co.name).collect());
        let (co, r) = crate::items::long_comp(c, names);
        let b = match c.choose(3) {
            0 => rv::widest(&r),
            1 => rv::compact(&r),
            // the other name of the descriptor
            _ => match &r {
                Desc(_, l) => rv::compact(&Desc(Box::new(Sym(co.sym.clone())), l.clone())),
                _ => unreachable!(),
            },
        };
        everywhere(c, co, &r, &b)
    })
}

/// Texts and binaries of every length, followed by every byte, alone and inside a compound:
/// what follows a value is never part of it.
pub fn tails(deep: bool) -> Unit {
    const BINS: [(&str, u8); 4] = [("binary", 0xa0), ("binary", 0xb0), ("variant", 0xa0), ("message-id", 0xa0)];
    let all: Vec<(&'static str, u8)> = TEXTS.iter().chain(&BINS).filter(|t| t.1 != 0).copied().collect();
    unit("texts of every length and what follows them", 0, move |c: &mut Ctx| {
        let len = *c.pick(crate::items::mb_lens());
        let style = if deep { c.choose(4) } else { 0 };
        let form = c.choose(3);
        let text = crate::items::text(len, style).into_bytes();
        let mut n = 0;
        for (name, code) in &all {
            if len > 255 && *code < 0xb0 {
                continue;
            }
            let w = as_text(*code, &text);
            let (d, w, end) = match form {
                0 => (dec(name), w, 0),
                // the last element of a list, and the first of two
                1 => {
                    let mut o = vec![];
                    rv::put_compound(0xd0, 1, &w, &mut o);
                    (dec("list"), o, 0)
                }
                _ => {
                    let mut o = vec![];
                    rv::put_compound(0xd0, 2, &[&w[..], &[0x50, 0]].concat(), &mut o);
                    let e = o.len() - 1;
                    (dec("list"), o, e)
                }
            };
            if form > 0 && *name != "variant" {
                continue;
            }
            let full = d.full.unwrap();
            let alone = full(&w);
            // a distribution mode is one of two texts, and the like
            if let Ok((r, _)) = &alone {
                ensure!(*r == 0, "{}: {} of its {} bytes are left", d.name, r, w.len());
            } else {
                ensure!(["distribution-mode", "error condition"].contains(name) || (style > 0 && code & 0xf == 3), "{}: {} is rejected", d.name, hex(&w));
            }
            let mut x = w.clone();
            if end == 0 {
                x.push(0);
            }
            let at = if end == 0 { x.len() - 1 } else { end };
            for b in 0..=255u8 {
                x[at] = b;
                let got = full(&x);
                n += 1;
                match (&alone, &got) {
                    (Err(_), Err(_)) => {}
                    (Ok((_, v)), Ok((r, g))) if end == 0 => ensure!(*r == 1 && v.same(g), "{}: a text of {} bytes followed by {:02x} leaves {} bytes and is {:?} ({})", d.name, len, b, r, g, hex(&x)),
                    (Ok(_), Ok((r, g))) => {
                        let want = match &alone {
                            Ok((_, List(l))) => List(vec![l[0].clone(), RV::Ubyte(b)]),
                            _ => unreachable!(),
                        };
                        ensure!(*r == 0 && want.same(g), "{}: a text of {} bytes followed by the number {} is {:?} ({})", d.name, len, b, g, hex(&x))
                    }
                    _ => return Err(format!("{}: a text of {} bytes followed by {:02x} gives {:?}, and {:?} alone ({})", d.name, len, b, got, alone, hex(&x))),
                }
            }
        }
        c.states(n);
        c.traces(n);
        Ok(())
    })
}

pub fn windows(deep: bool) -> Vec<Unit> {
    let mut us = vec![tails(deep)];
    // sizes and counts of small compounds, singly and in pairs
    us.push(unit("sizes and counts of small compounds", if deep { 3 } else { 2 }, move |c| {
        let (d, x) = c.pick(seeds());
        let d = dec(d);
        let mut b = write(c, x);
        let ms = marks(&b);
        let mut huge = false;
        for (at, w, count) in ms {
            let old = read(&b, at, w);
            let o = other_values(old, w, deep);
            let k = c.dev(o.len() + 1);
            if k > 0 {
                patch(&mut b, at, w, o[k - 1]);
                huge |= count && o[k - 1] > 10_000;
            }
        }
        // a count alone decides how many elements of no width there are: see known_findings.txt
        if huge && zero_width(d) {
            return Ok(());
        }
        windows_of(c, d, &b)
    }));
    // every composite, in all its decoders, with every size, count and text length inside changed
    us.push(unit("sizes and counts inside composites", if deep { 2 } else { 1 }, move |c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        let r = match c.choose(3) {
            0 => spec::full(co, 0),
            1 => spec::minimal(co),
            _ => RV::desc(co.code, List(vec![])),
        };
        let ds = readers(co.name);
        let d = dec(c.pick(&ds));
        let mut b = write(c, &r);
        for (at, w, _) in marks(&b) {
            let old = read(&b, at, w);
            let o = other_values(old, w, deep);
            let k = c.dev(o.len() + 1);
            if k > 0 {
                patch(&mut b, at, w, o[k - 1]);
            }
        }
        windows_of(c, d, &b)
    }));
    us.push(unit("elements cut short or added inside composites", 0, move |c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        let l = list_of(&spec::full(co, 0));
        let n = c.choose(l.len() + 1);
        let ds = readers(co.name);
        let d = dec(c.pick(&ds));
        let wide = c.flip();
        // the field bytes, of which `keep` are inside the declared size
        let mut body = vec![];
        for x in &l[..n] {
            body.extend(rv::compact(x));
        }
        let keep = c.choose(body.len() + 1);
        let count = [n, l.len()][c.choose(2)];
        let hw = if wide { 4 } else { 1 };
        if !wide && keep + 1 > 255 {
            return Ok(());
        }
        let mut b = vec![0x00, 0x53, co.code as u8];
        b.push(if wide { 0xd0 } else { 0xc0 });
        let mut num = |v: usize| {
            if wide {
                b.extend_from_slice(&(v as u32).to_be_bytes())
            } else {
                b.push(v as u8)
            }
        };
        num(keep + hw);
        num(count);
        // what lies behind the declared end would complete the field
        b.extend_from_slice(&body);
        c.say(|| format!("{}: {} with {} of {} field bytes declared", d.name, hex(&b), keep, body.len()));
        c.state(&(d.name, &b));
        let r = compare(d, &b)?;
        c.outcome(if r { "accepted" } else { "rejected" });
        let mut cut = b.clone();
        cut.truncate(b.len() - body.len() + keep);
        let r2 = compare(d, &cut)?;
        c.traces(1);
        ensure!(r == r2, "{}: bytes behind the declared end decide whether {} is accepted", d.name, hex(&b));
        Ok(())
    }));
    // compounds of every size whose last element ends before, at or behind the declared end
    us.push(unit("the last element of compounds of every size", 0, move |c| {
        // decoder, what precedes the compound, its constructor (one-byte size), fixed elements
        // before the last, the last element's constructor (one-byte size), the filler
        const S: &[(&str, &[u8], u8, &[&[u8]], u8, &[u8])] = &[
            ("list", b"", 0xc0, &[], 0xa0, b"\x43"),
            ("variant", b"", 0xc0, &[b"\x40"], 0xa1, b"\x52\x09"),
            ("variant", b"", 0xc0, &[b"\x42"], 0xc0, b"\x40"),
            ("section", b"\0\x53\x76", 0xc0, &[], 0xa1, b"\x40"),
            ("section", b"\0\x53\x77", 0xc0, &[], 0xa3, b"\x45"),
            ("map any any", b"", 0xc1, &[b"\x40"], 0xa0, b""),
            ("map any any", b"", 0xc1, &[b"\xa1\x01k"], 0xc0, b""),
            ("variant", b"", 0xc1, &[b"\x52\x07"], 0xa1, b""),
            ("map symbol any", b"", 0xc1, &[b"\xa3\x01k"], 0xa1, b""),
            ("map string any", b"", 0xc1, &[b"\xa1\x01k"], 0xa3, b""),
            ("vec map", b"", 0xc1, &[b"\xa1\x01k"], 0xa0, b""),
            ("filter set", b"", 0xc1, &[b"\xa3\x01k"], 0xa1, b""),
            ("section", b"\0\x53\x71", 0xc1, &[b"\xa3\x01k"], 0xa1, b""),
            ("section", b"\0\x53\x74", 0xc1, &[b"\xa1\x01k"], 0xa1, b""),
            ("section", b"\0\x53\x78", 0xc1, &[b"\xa3\x01k"], 0xa0, b""),
            ("error", b"\0\x53\x1d", 0xc0, &[b"\xa3\x01c"], 0xa1, b""),
            ("rejected", b"\0\x53\x25\xd0\0\0\xff\xff\0\0\0\x01\0\x53\x1d", 0xc0, &[b"\xa3\x01c"], 0xa1, b""),
            ("open", b"\0\x53\x10", 0xc0, &[], 0xa1, b""),
            ("performative", b"\0\x53\x10", 0xc0, &[b"\xa1\0"], 0xa1, b""),
            ("properties", b"\0\x53\x73", 0xc0, &[], 0xa0, b""),
            ("section", b"\0\x53\x73", 0xc0, &[b"\x40", b"\x40"], 0xa1, b""),
            ("sasl-challenge", b"\0\x53\x42", 0xc0, &[], 0xa0, b""),
            ("sasl body", b"\0\x53\x41", 0xc0, &[b"\xa3\x05PLAIN"], 0xa0, b""),
            ("array of binary", b"", 0xe0, &[], 0xa0, b""),
            ("array of string", b"", 0xe0, &[b"\x01s"], 0xa1, b"\x00"),
            ("array of symbol", b"", 0xe0, &[], 0xa3, b"\x02xy"),
            ("multiple symbols", b"", 0xe0, &[b"\x00"], 0xa3, b"\x01z"),
        ];
        let (name, lead, code, fixed, last, fill) = *c.pick(S);
        let ls = sizes_of_windows(deep);
        let n = *c.pick(&ls);
        // the size is made up by the last element, or by what comes before it
        let by_fill = !fill.is_empty() && c.flip();
        let over: &[i64] = if n > 300 { &[0, 1, -1] } else { &[0, 1, -1, 2, 5] };
        let over = *c.pick(over);
        let wide = c.flip();
        let array = code == 0xe0;
        let (nfill, nlast) = if by_fill { ((n / fill.len()).max(1), 3) } else { (0, n) };
        let said = (nlast as i64 + over).max(0) as usize;
        let mut body: Vec<u8> = fixed.concat();
        for _ in 0..nfill {
            body.extend_from_slice(fill);
        }
        let mut count = fixed.len() + nfill + 1;
        let big = said > 255;
        // the last element: an array's elements share one constructor
        let arr_wide = array && (big);
        if arr_wide {
            // rewritten with four-byte lengths
            body.clear();
            count = 1;
        }
        if !array {
            body.push(if big { last + 0x10 } else { last });
        }
        let lastb: Vec<u8> = if last == 0xc0 {
            // a list of nulls
            (0..nlast).map(|_| 0x40).collect()
        } else {
            (0..nlast).map(|i| b'a' + (i % 26) as u8).collect()
        };
        if last == 0xc0 {
            if big {
                body.extend_from_slice(&(said as u32 + 4).to_be_bytes());
                body.extend_from_slice(&(said as u32).to_be_bytes());
            } else if said < 255 {
                body.push(said as u8 + 1);
                body.push(said as u8);
            } else {
                return Ok(());
            }
        } else if big {
            body.extend_from_slice(&(said as u32).to_be_bytes());
        } else {
            body.push(said as u8);
        }
        body.extend_from_slice(&lastb);
        let elem = if arr_wide { last + 0x10 } else { last };
        let w = if wide { 4 } else { 1 };
        let size = body.len() + w + usize::from(array);
        if !wide && (size > 255 || count > 255) {
            return Ok(());
        }
        let mut b = lead.to_vec();
        b.push(if wide { code + 0x10 } else { code });
        if wide {
            b.extend_from_slice(&(size as u32).to_be_bytes());
            b.extend_from_slice(&(count as u32).to_be_bytes());
        } else {
            b.push(size as u8);
            b.push(count as u8);
        }
        if array {
            b.push(elem);
        }
        b.extend_from_slice(&body);
        if name == "rejected" {
            // the list around it
            let inner = (b.len() - 8) as u32;
            b[4..8].copy_from_slice(&inner.to_be_bytes());
        }
        windows_of(c, dec(name), &b)
    }));
    // every byte string over a small alphabet of constructors, sizes and counts
    for (name, ds, first) in [
        ("list", vec!["list", "variant"], vec![vec![0xc0u8], vec![0xd0, 0, 0, 0]]),
        ("map", vec!["map symbol any", "map any any", "variant"], vec![vec![0xc1], vec![0xd1, 0, 0, 0]]),
        ("text map", vec!["map string any", "vec map", "filter set"], vec![vec![0xc1], vec![0xd1, 0, 0, 0]]),
        ("array", vec!["multiple symbols", "array of symbol", "array of binary", "array of string", "array of ubyte", "array of uint", "array of bool"], vec![vec![0xe0], vec![0xf0, 0, 0, 0]]),
        ("received", vec!["received", "delivery state"], vec![vec![0, 0x53, 35, 0xc0], vec![0, 0x53, 35, 0xd0, 0, 0, 0]]),
        ("error", vec!["error"], vec![vec![0, 0x53, 29, 0xc0], vec![0, 0x53, 29, 0xd0, 0, 0, 0]]),
        ("rejected", vec!["rejected", "outcome"], vec![vec![0, 0x53, 37, 0xc0]]),
        ("section", vec!["section"], vec![vec![0, 0x53, 114, 0xc1], vec![0, 0x53, 118, 0xc0], vec![0, 0x53, 119, 0xc0]]),
        ("header", vec!["header", "section"], vec![vec![0, 0x53, 112, 0xc0], vec![0, 0x53, 112, 0xd0, 0, 0, 0]]),
    ] {
        us.push(unit(format!("all short byte strings/{}", name), 0, move |c| {
            let mut b = c.pick(&first).clone();
            let ab = alphabet(name);
            // the size
            let size = c.choose(if deep { 9 } else { 7 });
            b.push(size as u8);
            let a0 = c.choose(ab.len());
            if b.len() > 5 || b[0] >= 0xd0 && b[0] < 0xe0 || b[0] == 0xf0 {
                // the rest of the four-byte count starts with zeros
                b.extend_from_slice(&[0, 0, 0]);
            }
            b.extend_from_slice(&ab[a0]);
            let ds: Vec<&Dec> = ds.iter().map(|d| dec(d)).collect();
            let mut n = 0;
            let mut acc = 0;
            grow(&mut b, &ab, if deep { 6 } else { 5 }, &ds, &mut n, &mut acc)?;
            c.traces(n);
            c.states(n);
            c.outcome_n("accepted", acc);
            c.outcome_n("rejected", n - acc);
            Ok(())
        }));
    }
    us
}

fn alphabet(name: &str) -> Vec<Vec<u8>> {
    let v: &[&[u8]] = match name {
        "array" => &[b"\x00", b"\x01", b"\x02", b"\x03", b"\x40", b"\x41", b"\x43", b"\x50", b"\x52", b"\x56", b"\xa0", b"\xa1", b"\xa3", b"\xb3\x00\x00\x00", b"\xb0\x00\x00\x00", b"\xff"],
        "received" | "header" => &[b"\x00", b"\x01", b"\x02", b"\x03", b"\x40", b"\x41", b"\x43", b"\x44", b"\x50", b"\x52", b"\x53", b"\x70\x00\x00\x00", b"\xff"],
        "text map" => &[b"\x00", b"\x01", b"\x02", b"\x03", b"\x40", b"\x45", b"\xa1", b"\xa3", b"\xc0", b"\xb1\x00\x00\x00", b"\xff"],
        _ => &[b"\x00", b"\x01", b"\x02", b"\x03", b"\x40", b"\x45", b"\x52", b"\x53", b"\xa3", b"\xc0", b"\xc1", b"\xd0\x00\x00\x00", b"\xff"],
    };
    v.iter().map(|x| x.to_vec()).collect()
}

fn grow(b: &mut Vec<u8>, ab: &[Vec<u8>], left: usize, ds: &[&Dec], n: &mut u64, acc: &mut u64) -> R {
    for d in ds {
        *n += 1;
        if compare(d, b)? {
            *acc += 1;
        }
    }
    // an inner value may be complete for the reference long before the declared end arrived
    if left == 0 || !matches!(scan(b), Scan::More) {
        if left > 0 {
            // what follows must not matter
            for t in &TRAIL[1..] {
                let l = b.len();
                b.extend_from_slice(t);
                for d in ds {
                    *n += 1;
                    if compare(d, b)? {
                        *acc += 1;
                    }
                }
                b.truncate(l);
            }
        }
        return Ok(());
    }
    for x in ab {
        let l = b.len();
        b.extend_from_slice(x);
        grow(b, ab, left - 1, ds, n, acc)?;
        b.truncate(l);
    }
    Ok(())
}

// ------------------------------------------------------------------ C18

/// one value for every constructor, and the kinds a schema could confuse
fn one_of_each() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let s = |x: &str| Str(x.into());
    let y = |x: &str| Sym(x.into());
    for r in [
        Null,
        Bool(true),
        Bool(false),
        Ubyte(0),
        Ubyte(1),
        Ubyte(5),
        Ushort(1),
        Uint(0),
        Uint(1),
        Uint(3),
        Uint(1 << 20),
        Ulong(0),
        Ulong(1),
        Ulong(1 << 40),
        Byte(1),
        Short(1),
        Int(0),
        Int(1),
        Int(1 << 20),
        Long(1),
        Long(1 << 40),
        Float(0x3f80_0000),
        Double(0x3ff0_0000_0000_0000),
        Char(65),
        Ts(1000),
        RV::Uuid([7; 16]),
        Bin(vec![]),
        Bin(b"ab".to_vec()),
        s(""),
        s("ab"),
        s("move"),
        s("never"),
        y(""),
        y("ab"),
        y("copy"),
        y("session-end"),
        y("amqp:not-found"),
        List(vec![]),
        List(vec![Null]),
        List(vec![y("a"), y("b")]),
        Map(vec![]),
        Map(vec![(y("k"), Null)]),
        Map(vec![(y("k"), s("v"))]),
        Map(vec![(y("k"), Uint(1))]),
        Map(vec![(s("k"), s("v"))]),
        Map(vec![(Uint(1), s("v"))]),
        Map(vec![(Null, Null)]),
        Map(vec![(y("k"), Null), (s("l"), Null)]),
        Array(vec![y("a")]),
        Array(vec![y("a"), y("b")]),
        Array(vec![s("a")]),
        Array(vec![Bin(vec![1])]),
        Array(vec![Uint(1)]),
        Array(vec![Ubyte(1)]),
        Array(vec![Bool(true), Bool(false)]),
        RV::desc(36, List(vec![])),
        RV::desc(35, List(vec![Uint(1), Ulong(2)])),
        RV::desc(29, List(vec![y("amqp:not-found")])),
        RV::desc(40, List(vec![])),
        RV::desc(41, List(vec![])),
        RV::desc(0, Null),
        RV::desc(1, s("x")),
        Desc(Box::new(y("amqp:accepted:list")), Box::new(List(vec![]))),
        Desc(Box::new(y("x:y")), Box::new(Uint(1))),
    ] {
        v.push(rv::compact(&r));
        let w = rv::widest(&r);
        if w != v[v.len() - 1] {
            v.push(w);
        }
    }
    // constructors the specification does not define, and the ones the library does not implement
    for c in [0x01u8, 0x3f, 0x46, 0x4f, 0x57, 0x5f, 0x62, 0x74, 0x84, 0x94, 0x99, 0xa2, 0xa4, 0xb2, 0xb4, 0xc2, 0xd2, 0xe1, 0xf1, 0xff] {
        let mut b = vec![c];
        match c >> 4 {
            5..=9 => b.extend(vec![0u8; 1 << ((c >> 4) - 5)]),
            0xa => b.extend_from_slice(&[1, 97]),
            0xb => b.extend_from_slice(&[0, 0, 0, 1, 97]),
            0xc | 0xe => b.extend_from_slice(&[1, 0]),
            0xd | 0xf => b.extend_from_slice(&[0, 0, 0, 4, 0, 0, 0, 0]),
            _ => {}
        }
        v.push(b);
    }
    // a described value whose descriptor is not one
    v.push(b"\x00\x40\x40".to_vec());
    v.push(b"\x00\xa1\x01a\x40".to_vec());
    v.push(b"\x00\x52\x24\x45".to_vec());
    v
}

fn near(s: &str) -> Vec<String> {
    let mut v = vec![s.to_string(), s.to_uppercase(), format!("{} ", s), format!(" {}", s), format!("{}\0", s), format!("{}s", s), String::new()];
    let b: Vec<char> = s.chars().collect();
    for i in 0..b.len() {
        // one character removed, one changed, one swapped case
        let mut x = b.clone();
        x.remove(i);
        v.push(x.iter().collect());
        let mut x = b.clone();
        x[i] = if x[i] == 'x' { 'y' } else { 'x' };
        v.push(x.iter().collect());
        let mut x = b.clone();
        x[i] = x[i].to_ascii_uppercase();
        v.push(x.iter().collect());
        v.push(b[..i].iter().collect());
        let mut x = b.clone();
        if x[i] == '-' {
            x[i] = '_';
            v.push(x.iter().collect());
            x[i] = ':';
            v.push(x.iter().collect());
        }
        if x[i] == ':' {
            v.push(b[i + 1..].iter().collect());
        }
    }
    v.sort();
    v.dedup();
    v
}

/// whole types that must be exactly these symbols
const SYMBOL_ENUMS: [(&str, &str); 4] = [
    ("amqp-error", "amqp:"),
    ("connection-error", "amqp:connection:"),
    ("session-error", "amqp:session:"),
    ("link-error", "amqp:link:"),
];
fn error_set(prefix: &str) -> Vec<&'static str> {
    spec::ERRORS
        .iter()
        .copied()
        .filter(|s| s.starts_with(prefix) && !s[prefix.len()..].contains(':'))
        .collect()
}

fn symbols_to_try() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for s in spec::ERRORS.iter().chain(spec::EXPIRY.iter()).chain(["move", "copy"].iter()) {
        v.extend(near(s));
    }
    v.extend(crate::items::named_texts(true).iter().cloned());
    v.sort();
    v.dedup();
    v
}

pub fn schema(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    // the first two bytes in full, several continuations
    us.push(unit("every first and second byte for every decoder", 0, move |c| {
        let full: Vec<&Dec> = decs().iter().filter(|d| d.full.is_some() && d.want != Want::Other).collect();
        let d = full[c.choose(full.len())];
        let b0 = c.choose(256) as u8;
        let tails: [&[u8]; 6] = [
            b"",
            b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00",
            b"\x01a\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40",
            b"\x00\x00\x01\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40\x40",
            b"\x24\x45\x40\x52\x01",
            b"\x75\xa0\x01\x07\x45",
        ];
        let mut n = 0;
        let mut acc = 0;
        for b1 in 0..256usize {
            for t in tails {
                let mut b = vec![b0, b1 as u8];
                b.extend_from_slice(t);
                if zero_width(d) && b0 >= 0xe0 {
                    continue;
                }
                n += 1;
                if compare(d, &b)? {
                    acc += 1;
                }
            }
        }
        c.say(|| format!("{} first byte {:02x}", d.name, b0));
        c.traces(n);
        c.states(n);
        c.outcome_n("accepted", acc);
        c.outcome_n("rejected", n - acc);
        Ok(())
    }));
    us.push(unit("every kind of value for every decoder", 0, |c| {
        let full: Vec<&Dec> = decs().iter().filter(|d| d.full.is_some() && d.want != Want::Other).collect();
        let d = full[c.choose(full.len())];
        for b in one_of_each() {
            run(c, d, &b)?;
            c.traces(1);
        }
        Ok(())
    }));
    us.push(unit("every kind of value in every field", if deep { 2 } else { 1 }, |c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        let base = list_of(&if c.flip() { spec::full(co, 0) } else { spec::minimal(co) });
        let ds = readers(co.name);
        let d = dec(c.pick(&ds));
        let all = one_of_each();
        let mut body = vec![];
        for x in &base {
            let k = c.dev(all.len() + 1);
            if k == 0 {
                body.extend(rv::compact(x));
            } else {
                body.extend_from_slice(&all[k - 1]);
            }
        }
        let mut b = vec![0x00, 0x53, co.code as u8];
        rv::put_compound(if body.len() < 255 { 0xc0 } else { 0xd0 }, base.len(), &body, &mut b);
        run(c, d, &b).map(|_| ())
    }));
    // element types of arrays and of the keys and values of maps
    us.push(unit("every kind of value as array element, map key and map value", 0, |c| {
        let full: Vec<&Dec> = decs()
            .iter()
            .filter(|d| matches!(d.want, Want::Arr(_) | Want::Ty(Ty::Syms) | Want::Opt(Ty::Syms) | Want::Ty(Ty::Fields) | Want::Ty(Ty::StrMap) | Want::Ty(Ty::Map) | Want::Ty(Ty::Filter)))
            .collect();
        let d = full[c.choose(full.len())];
        let all = one_of_each();
        let arr = matches!(d.want, Want::Arr(_) | Want::Ty(Ty::Syms) | Want::Opt(Ty::Syms));
        let mut n = 0;
        let mut acc = 0;
        if arr {
            for code in 1..256usize {
                for body in [&b""[..], b"\x00", b"\x01a", b"\x00\x00\x00\x01", b"\x00\x00\x00\x01a", b"\x00\x00\x00\x00\x00\x00\x00\x05", b"\x01\x00", b"\x00\x00\x00\x04\x00\x00\x00\x00", b"0123456789abcdef"] {
                    for count in [0usize, 1, 2] {
                        for w in [0xe0u8, 0xf0] {
                            let mut b = vec![];
                            let mut x = vec![code as u8];
                            x.extend_from_slice(body);
                            rv::put_compound(if w == 0xe0 { 0xe0 } else { 0xf0 }, count, &x, &mut b);
                            c.state(&(d.name, &b));
                            n += 1;
                            if compare(d, &b)? {
                                acc += 1;
                            }
                        }
                    }
                }
            }
        } else {
            for k in &all {
                for x in &all {
                    let mut body = k.clone();
                    body.extend_from_slice(x);
                    let mut b = vec![];
                    rv::put_compound(0xc1, 2, &body, &mut b);
                    c.state(&(d.name, &b));
                    n += 1;
                    if compare(d, &b)? {
                        acc += 1;
                    }
                }
            }
        }
        c.traces(n);
        c.outcome_n("accepted", acc);
        c.outcome_n("rejected", n - acc);
        Ok(())
    }));
    us.push(unit("descriptors", 0, move |c| {
        let full: Vec<&Dec> = decs()
            .iter()
            .filter(|d| matches!(d.want, Want::Comp(_) | Want::Members(_) | Want::Section))
            .collect();
        let d = full[c.choose(full.len())];
        // bodies that suit some descriptor
        let mut bodies: Vec<Vec<u8>> = vec![vec![0x45], vec![0x40], rv::compact(&Map(vec![])), rv::compact(&Bin(vec![1])), rv::compact(&Str("x".into()))];
        for co in spec::comps() {
            let b = rv::compact(&List(list_of(&spec::minimal(co))));
            if !bodies.contains(&b) {
                bodies.push(b);
            }
        }
        let body = c.pick(&bodies).clone();
        let mut descs: Vec<Vec<u8>> = vec![];
        for x in 0..=255u8 {
            descs.push(vec![0x53, x]);
            let mut w = vec![0x80, 0, 0, 0, 0, 0, 0, 0];
            w.push(x);
            descs.push(w);
            // other types with the same bits
            descs.push(vec![0x52, x]);
            descs.push(vec![0x50, x]);
            descs.push(vec![0x54, x]);
            descs.push(vec![0x55, x]);
            descs.push(vec![0x70, 0, 0, 0, x]);
            // the code in other bytes
            for k in 0..7 {
                let mut w = vec![0x80, 0, 0, 0, 0, 0, 0, 0, 0];
                w[1 + k] = x;
                descs.push(w.clone());
                w[8] = x;
                descs.push(w.clone());
                w[1 + k] = 1;
                descs.push(w);
            }
        }
        descs.push(vec![0x44]);
        for (_, s) in spec::all_descriptors() {
            for x in near(&s) {
                for c in [0xa3u8, 0xb3, 0xa1, 0xa0] {
                    let mut w = vec![c];
                    if c == 0xb3 {
                        w.extend_from_slice(&(x.len() as u32).to_be_bytes());
                    } else {
                        w.push(x.len() as u8);
                    }
                    w.extend_from_slice(x.as_bytes());
                    descs.push(w);
                }
            }
        }
        let (mut n, mut acc) = (0, 0);
        for ds in &descs {
            let mut b = vec![0];
            b.extend_from_slice(ds);
            b.extend_from_slice(&body);
            n += 1;
            if compare(d, &b)? {
                acc += 1;
            }
        }
        c.say(|| format!("{} body {}", d.name, hex(&body)));
        c.traces(n);
        c.states(n);
        c.outcome_n("accepted", acc);
        c.outcome_n("rejected", n - acc);
        Ok(())
    }));
    us.push(unit("enumerations of symbols", 0, |c| {
        let all = symbols_to_try();
        let x = c.pick(&all).clone();
        let wide = c.flip();
        let b = if wide { rv::widest(&Sym(x.clone())) } else { rv::compact(&Sym(x.clone())) };
        c.state(&b);
        c.say(|| format!("symbol {:?}", x));
        for (name, prefix) in SYMBOL_ENUMS {
            let d = dec(name);
            let want = error_set(prefix).contains(&x.as_str());
            let got = (d.raw)(&b);
            ensure!(
                got.is_ok() == want,
                "{}: {:?} is {}, but the specification lists {:?}",
                name,
                x,
                if got.is_ok() { "accepted" } else { "rejected" },
                error_set(prefix)
            );
            if let Ok(r) = got {
                ensure!(r == 0, "{}: {:?} leaves {} bytes", name, x, r);
            }
        }
        for name in ["expiry-policy", "error condition", "distribution-mode"] {
            run(c, dec(name), &b)?;
        }
        c.traces(6);
        Ok(())
    }));
    us.push(unit("enumerations of symbols given other types", 0, |c| {
        let d = dec(SYMBOL_ENUMS[c.choose(4)].0);
        for b in one_of_each() {
            let ok = (d.raw)(&b).is_ok();
            let want = match scan(&b) {
                Scan::Value { v: Sym(s), .. } => SYMBOL_ENUMS.iter().any(|e| e.0 == d.name && error_set(e.1).contains(&s.as_str())),
                _ => false,
            };
            ensure!(ok == want, "{}: {} is {}", d.name, hex(&b), if ok { "accepted" } else { "rejected" });
            c.state(&(d.name, &b));
            c.traces(1);
        }
        Ok(())
    }));
    us.push(unit("enumerations of numbers", 0, |c| {
        // all ubytes are covered by the first unit; uints here
        let x = *c.pick(crate::items::u32s());
        for b in [rv::compact(&Uint(x)), rv::widest(&Uint(x))] {
            run(c, dec("durability"), &b)?;
        }
        c.traces(1);
        Ok(())
    }));
    us.push(unit("all strings of up to three bytes as text", 0, |c| {
        let n = c.choose(4);
        let a = if n > 0 { c.choose(256) as u8 } else { 0 };
        let texts = ["string (ByteStr)", "string (Str)", "symbol"].map(dec);
        let var = dec("variant");
        let (mut cnt, mut bad) = (0u64, 0u64);
        let mut b = vec![0, 0, 0, 0, 0, 0, 0];
        for rest in 0..256usize.pow((n.max(1) - 1) as u32) {
            let t = [a, (rest >> 8) as u8, rest as u8];
            let t: &[u8] = match n {
                0 => &[],
                1 => &t[..1],
                2 => {
                    b[0] = a;
                    b[1] = rest as u8;
                    &[]
                }
                _ => &t,
            };
            let own = [a, rest as u8];
            let t = if n == 2 { &own[..] } else { t };
            let ok = utf8(t);
            for (i, d) in texts.iter().enumerate() {
                let mut w = [0u8; 8];
                w[0] = if i == 2 { 0xa3 } else { 0xa1 };
                w[1] = t.len() as u8;
                w[2..2 + t.len()].copy_from_slice(t);
                let got = (d.raw)(&w[..2 + t.len()]);
                cnt += 1;
                // a symbol must at least be text; beyond ASCII nothing is demanded
                let fine = match &got {
                    Ok(r) => ok && *r == 0,
                    Err(_) => !ok || (i == 2 && !t.is_ascii()),
                };
                ensure!(fine, "{}: text {} is {}", d.name, hex(t), if got.is_ok() { "accepted" } else { "rejected" });
                if n < 3 {
                    let got = (var.raw)(&w[..2 + t.len()]);
                    cnt += 1;
                    let fine = match &got {
                        Ok(r) => ok && *r == 0,
                        Err(_) => !ok || (i == 2 && !t.is_ascii()),
                    };
                    ensure!(fine, "variant: text {} is {}", hex(t), if got.is_ok() { "accepted" } else { "rejected" });
                }
            }
            if !ok {
                bad += 1;
            }
        }
        c.traces(cnt);
        c.states(cnt);
        c.outcome_n("not UTF-8", bad);
        Ok(())
    }));
    us.push(unit("four-byte text and text inside longer text", 0, move |c| {
        let a = 0xe0 + c.choose(32) as u8;
        let b = c.choose(256) as u8;
        let edge: Vec<u8> = if deep { (0..=255).collect() } else { vec![0, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xe0, 0xff, 0x41] };
        let mut n = 0;
        for x in &edge {
            for y in &edge {
                for (pre, post) in [(&b""[..], &b""[..]), (b"abc", b"xyz"), (b"\xc3\xa9", b"")] {
                    let mut t = pre.to_vec();
                    t.extend_from_slice(&[a, b, *x, *y]);
                    t.extend_from_slice(post);
                    let ok = utf8(&t);
                    for (d, code) in TEXTS {
                        let w = as_text(code, &t);
                        let got = (dec(d).raw)(&w).is_ok();
                        n += 1;
                        ensure!(got == ok || (code & 0xf == 3 && ok), "{}: text {} is {}", d, hex(&t), if got { "accepted" } else { "rejected" });
                    }
                }
            }
        }
        c.traces(n);
        c.states(n);
        Ok(())
    }));
    // one fault at one place of a text of any length, in every form a text can have
    us.push(unit("a fault anywhere in a text of any length", 0, move |c| {
        let ls = crate::items::mb_lens();
        let len = *c.pick(ls);
        let style = c.choose(4);
        let text = crate::items::text(len, style).into_bytes();
        let mut n = 0;
        let mut at: Vec<usize> = vec![0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, len / 2];
        at.extend((0..5).map(|k| len.saturating_sub(k)));
        at.retain(|x| *x <= len);
        at.sort_unstable();
        at.dedup();
        let faults: [&[u8]; 9] = [b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x92", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b""];
        for (f, fault) in faults.iter().enumerate() {
            for i in &at {
                // put in, or in place of what is there
                for over in [false, true] {
                    let mut t = text[..*i].to_vec();
                    t.extend_from_slice(fault);
                    let skip = if over { fault.len().min(len - i) } else { 0 };
                    t.extend_from_slice(&text[i + skip..]);
                    if f == 8 && (over || *i > 0) {
                        continue;
                    }
                    let ok = utf8(&t);
                    for (d, code) in TEXTS {
                        if t.len() > 255 && code < 0xb0 && code != 0 {
                            continue;
                        }
                        let w = as_text(code, &t);
                        let got = (dec(d).raw)(&w).is_ok();
                        n += 1;
                        ensure!(
                            got == ok || (code & 0xf == 3 && ok),
                            "{}: text {} of {} bytes with {} at {} is {}",
                            d,
                            hex(&t),
                            t.len(),
                            hex(fault),
                            i,
                            if got { "accepted" } else { "rejected" }
                        );
                    }
                }
            }
        }
        c.traces(n);
        c.states(n);
        Ok(())
    }));
    us.push(unit("32-bit numbers as characters", 0, move |c| {
        // everything up to 0x120000, and steps through the rest
        // (thorough: all of them)
        let hi = c.choose(if deep { 1 << 20 } else { 0x120 + 0x100 });
        let mut n = 0;
        let d = dec("char");
        for lo in 0..0x1000u32 {
            let x = if deep || hi < 0x120 {
                (hi as u32) << 12 | lo
            } else {
                ((hi as u32 - 0x120) << 24).wrapping_add(lo.wrapping_mul(0x1003))
            };
            let mut b = vec![0x73];
            b.extend_from_slice(&x.to_be_bytes());
            n += 1;
            let ok = x < 0x11_0000 && !(0xd800..0xe000).contains(&x);
            let g = (d.full.unwrap())(&b);
            match g {
                Ok((0, Char(y))) if ok && y == x => {}
                Err(_) if !ok => {}
                g => return Err(format!("character {:#x} decodes to {:?}", x, g)),
            }
            let g = t::Variant::decode(&b);
            match g {
                Ok((_, t::Variant::Char(y))) if ok && y as u32 == x => {}
                Err(_) if !ok => {}
                g => return Err(format!("character {:#x} as polymorphic value decodes to {:?}", x, g.map(|x| x.1))),
            }
        }
        c.traces(2 * n);
        c.states(n);
        Ok(())
    }));
    us.push(unit("every frame type and data offset", 0, |c| {
        let sasl = c.flip();
        let doff = c.choose(256);
        let perf = match c.choose(4) {
            0 => vec![],
            1 if sasl => rv::compact(&spec::full(spec::comp("sasl-outcome"), 0)),
            1 => rv::compact(&spec::full(spec::comp("end"), 0)),
            2 if sasl => rv::compact(&spec::full(spec::comp("sasl-mechanisms"), 0)),
            2 => {
                let mut b = rv::compact(&spec::minimal(spec::comp("transfer")));
                b.extend_from_slice(b"\x00\x53\x17\x45");
                b
            }
            // the other kind of body
            _ if sasl => rv::compact(&spec::full(spec::comp("end"), 0)),
            _ => rv::compact(&spec::full(spec::comp("sasl-outcome"), 0)),
        };
        let ext = 4 * c.choose(4);
        let pad = [0xffu8, 0x00, 0x45][c.choose(3)];
        let mut n = 0;
        for ty in 0..=255u8 {
            let mut b = vec![doff as u8, ty, 0x12, 0x34];
            b.extend(vec![pad; ext]);
            b.extend_from_slice(&perf);
            c.state(&(sasl, &b));
            n += 1;
            let start = 4 * doff as isize - 4;
            let mut want: Option<RV> = None;
            let mut free = false;
            if ty == u8::from(sasl) && doff >= 2 && start as usize <= b.len() {
                let rest = &b[start as usize..];
                if rest.is_empty() && !sasl {
                    want = Some(Null);
                } else {
                    let d = dec(if sasl { "sasl body" } else { "performative" });
                    match judge(d, rest) {
                        Verdict::Accept(x, l) if l == rest.len() || (!sasl && scan::takes_rest(d, rest)) => want = Some(x),
                        Verdict::Accept(..) | Verdict::Reject => {}
                        _ => free = true,
                    }
                }
            }
            let got: Result<(u16, RV), String> = if sasl {
                SaslFrame::decode(&b).map(|(_, f)| (0x1234, f.body.rv())).map_err(|e| format!("{:?}", e))
            } else {
                AmqpFrame::decode(&b).map(|(_, f)| (f.channel_id(), f.performative().rv())).map_err(|e| format!("{:?}", e))
            };
            match (want, got) {
                _ if free => {}
                (Some(w), Ok((0x1234, g))) if g.same(&w) => c.outcome("accepted"),
                (None, Err(_)) => c.outcome("rejected"),
                (w, g) => {
                    return Err(format!(
                        "{} frame {}: {:?} instead of {:?}",
                        if sasl { "SASL" } else { "AMQP" },
                        hex(&b),
                        g,
                        w
                    ))
                }
            }
        }
        c.traces(n);
        Ok(())
    }));
    us.push(unit("sections of messages", 0, |c| {
        // every described or plain value where a message section is expected
        let all = one_of_each();
        let pre: Vec<Vec<u8>> = vec![
            vec![],
            rv::compact(&spec::minimal(spec::comp("header"))),
            rv::compact(&RV::desc(117, Bin(vec![1]))),
        ];
        let mut b = c.pick(&pre).clone();
        let at = b.len();
        let k = c.choose(3);
        match k {
            0 => b.extend_from_slice(c.pick(&all)),
            1 => {
                b.extend_from_slice(&[0, 0x53, c.choose(256) as u8]);
                b.extend_from_slice(c.pick(&all));
            }
            _ => {
                let names: Vec<String> = spec::all_descriptors().into_iter().map(|d| d.1).collect();
                let s = c.pick(&names).clone();
                b.push(0);
                b.extend(rv::compact(&Sym(s)));
                b.extend_from_slice(c.pick(&all));
            }
        }
        c.state(&b);
        c.say(|| format!("message {}", hex(&b)));
        c.sample(|| format!("message {}", hex(&b)));
        let v = judge(dec("section"), &b[at..]);
        let len = b.len() - at;
        for (who, got) in [
            ("incoming message", InMessage::decode(&b).map(|_| ()).map_err(|e| format!("{:?}", e))),
            ("outgoing message", OutMessage::decode(&b).map(|_| ()).map_err(|e| format!("{:?}", e))),
        ] {
            match (&v, &got) {
                (Verdict::Accept(_, l), Ok(_)) if *l == len => c.outcome("accepted"),
                (Verdict::Accept(_, l), Err(_)) if *l < len => {}
                // a second value behind the section is a plain value: refused
                (Verdict::Reject, Err(_)) => c.outcome("rejected"),
                (Verdict::Either(..), _) | (Verdict::Loose(_), _) => {}
                // a repeated header and similar are not settled here
                (Verdict::Accept(..), Err(_)) if at > 0 => {}
                (v, g) => return Err(format!("{}: {}: {:?} but the section reads as {:?}", who, hex(&b), g, v)),
            }
        }
        c.traces(1);
        Ok(())
    }));
    let _ = targets;
    us
}

/// every decoder of text with every code it may be written in
const TEXTS: [(&str, u8); 22] = [
    ("string (ByteStr)", 0xa1),
    ("string (ByteStr)", 0xb1),
    ("string (Str)", 0xa1),
    ("string (Str)", 0xb1),
    ("symbol", 0xa3),
    ("symbol", 0xb3),
    ("variant", 0xa1),
    ("variant", 0xb1),
    ("variant", 0xa3),
    ("variant", 0xb3),
    ("descriptor", 0xa3),
    ("descriptor", 0xb3),
    ("message-id", 0xa1),
    ("message-id", 0xb1),
    ("error condition", 0xa3),
    ("error condition", 0xb3),
    ("distribution-mode", 0xa3),
    ("distribution-mode", 0xb3),
    ("multiple symbols", 0xa3),
    ("multiple symbols", 0xb3),
    ("option of symbols", 0xb3),
    ("array of string", 0),
];

/// the text written with the code; 0: as the element of an array
fn as_text(code: u8, t: &[u8]) -> Vec<u8> {
    let mut w = vec![];
    match code {
        0 => {
            let body = [&[0xb1u8][..], &(t.len() as u32).to_be_bytes(), t].concat();
            rv::put_compound(if body.len() < 250 { 0xe0 } else { 0xf0 }, 1, &body, &mut w);
            return w;
        }
        0xb0..=0xbf => {
            w.push(code);
            w.extend_from_slice(&(t.len() as u32).to_be_bytes());
        }
        _ => w.extend_from_slice(&[code, t.len() as u8]),
    }
    w.extend_from_slice(t);
    w
}

/// RFC 3629, by its table
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let t = |k: usize, lo: u8, hi: u8| b.get(i + k).map_or(false, |x| *x >= lo && *x <= hi);
        i += match b[i] {
            0..=0x7f => 1,
            0xc2..=0xdf if t(1, 0x80, 0xbf) => 2,
            0xe0 if t(1, 0xa0, 0xbf) && t(2, 0x80, 0xbf) => 3,
            0xe1..=0xec | 0xee..=0xef if t(1, 0x80, 0xbf) && t(2, 0x80, 0xbf) => 3,
            0xed if t(1, 0x80, 0x9f) && t(2, 0x80, 0xbf) => 3,
            0xf0 if t(1, 0x90, 0xbf) && t(2, 0x80, 0xbf) && t(3, 0x80, 0xbf) => 4,
            0xf1..=0xf3 if t(1, 0x80, 0xbf) && t(2, 0x80, 0xbf) && t(3, 0x80, 0xbf) => 4,
            0xf4 if t(1, 0x80, 0x8f) && t(2, 0x80, 0xbf) && t(3, 0x80, 0xbf) => 4,
            _ => return false,
        };
    }
    true
}

// ------------------------------------------------------------------ C19

/// year, month, day of a day number since 1970-01-01 (proleptic Gregorian)
fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    let y = yoe + era * 400 + i64::from(m <= 2);
    (y, m, d)
}

fn check_instant(x: i64, d: &DateTime<Utc>) -> R {
    let ms = x.rem_euclid(86_400_000);
    let (y, m, day) = civil(x.div_euclid(86_400_000));
    let want = (y, m, day, (ms / 3_600_000) as u32, (ms / 60_000 % 60) as u32, (ms / 1000 % 60) as u32, (ms % 1000) as u32 * 1_000_000);
    let got = (i64::from(d.year()), d.month(), d.day(), d.hour(), d.minute(), d.second(), d.nanosecond());
    ensure!(got == want, "{} ms decodes to {:?} instead of {:?}", x, got, want);
    Ok(())
}

fn one_instant(x: i64) -> R {
    let mut b = vec![0x83];
    b.extend_from_slice(&x.to_be_bytes());
    let (r, d) = DateTime::<Utc>::decode(&b).map_err(|e| format!("{} ms is rejected: {:?}", x, e))?;
    ensure!(r.is_empty(), "{} ms: {} bytes left", x, r.len());
    check_instant(x, &d)?;
    let mut o = BytesMut::with_capacity(16);
    d.encode(&mut o);
    ensure!(o[..] == b[..], "{} ms encodes as {} instead of {}", x, hex(&o), hex(&b));
    Ok(())
}

/// everywhere a timestamp can be
fn hosts(x: i64) -> Vec<(&'static str, Vec<u8>)> {
    let tsv = Ts(x);
    let props = |i: usize| {
        let mut l = vec![Null; 13];
        l[i] = tsv.clone();
        RV::desc(115, List(l))
    };
    vec![
        ("timestamp", rv::compact(&tsv)),
        ("variant", rv::compact(&tsv)),
        ("variant", rv::compact(&List(vec![Null, tsv.clone()]))),
        ("variant", rv::compact(&Map(vec![(tsv.clone(), tsv.clone())]))),
        ("variant", rv::compact(&RV::desc(9, tsv.clone()))),
        ("array of timestamp", rv::compact(&Array(vec![Ts(0), tsv.clone()]))),
        ("map symbol any", rv::compact(&Map(vec![(Sym("t".into()), tsv.clone())]))),
        ("properties", rv::compact(&props(8))),
        ("properties", rv::compact(&props(9))),
        ("section", rv::compact(&props(9))),
        ("section", rv::compact(&RV::desc(119, tsv.clone()))),
        ("list", rv::compact(&List(vec![tsv]))),
    ]
}

pub fn timestamps(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    us.push(unit("boundary instants", 0, |c| {
        let x = *c.pick(crate::items::tss());
        c.state(&x);
        c.sample(|| format!("{} ms", x));
        one_instant(x)?;
        for (d, b) in hosts(x) {
            let d = dec(d);
            ensure!(compare(d, &b)?, "{}: {} ms is rejected ({})", d.name, x, hex(&b));
        }
        // and back out of every place
        let v = t::Variant::Timestamp(crate::conv::ts(x));
        let mut o = BytesMut::with_capacity(16);
        v.encode(&mut o);
        ensure!(rv::parse_all(&o) == Ok(Ts(x)), "polymorphic timestamp {} ms encodes as {}", x, hex(&o));
        let mut o = BytesMut::with_capacity(64);
        vec![crate::conv::ts(x), crate::conv::ts(0)].encode(&mut o);
        ensure!(rv::parse_all(&o) == Ok(Array(vec![Ts(x), Ts(0)])), "array of timestamps with {} ms encodes as {}", x, hex(&o));
        let pr = p::Properties {
            creation_time: Some(crate::conv::ts(x)),
            absolute_expiry_time: Some(crate::conv::ts(-x / 2)),
            ..empty_properties()
        };
        let mut o = BytesMut::with_capacity(128);
        pr.encode(&mut o);
        let w = rv::parse_all(&o).and_then(|r| spec::norm_comp(spec::comp("properties"), &r));
        ensure!(
            matches!(&w, Ok(r) if list_of(r)[9] == Ts(x) && list_of(r)[8] == Ts(-x / 2)),
            "properties with creation time {} ms encode as {:?}",
            x,
            w
        );
        c.traces(16);
        Ok(())
    }));
    us.push(unit("every day", 0, move |c| {
        // the whole calendar, some 191 million days
        let (lo, hi) = ts_range();
        let day = 86_400_000i64;
        let (from, to) = (lo.div_euclid(day) + 1, hi.div_euclid(day));
        let times = if deep { 16 } else { 1 };
        let parts = 1usize << 15;
        let k = c.choose(parts) as i64;
        let step = (to - from) / parts as i64 + 1;
        let (a, b) = (from + k * step, (from + (k + 1) * step).min(to));
        let mut n = 0u64;
        for dd in a..b {
            // the ends of the day
            for ms in [0, 5, day - 1] {
                one_instant(dd * day + ms)?;
            }
            n += 3;
            // different times on each day
            for t in 0..times {
                let ms = (dd.wrapping_mul(7_919_317).wrapping_add(t * 28_657_001)).rem_euclid(day);
                one_instant(dd * day + ms)?;
                n += 1;
            }
        }
        c.states(n);
        c.traces(2 * n);
        Ok(())
    }));
    us.push(unit("every second of a few days, every millisecond of a few seconds", 0, |c| {
        let d = *c.pick(&[0i64, -1, 1, -25_567, 11_016, 19_000, 2_932_896, -719_528, -700_000]);
        let h = c.choose(24) as i64;
        let mut n = 0;
        for s in 0..3600 {
            let base = d * 86_400_000 + (h * 3600 + s) * 1000;
            one_instant(base)?;
            one_instant(base + 999)?;
            n += 2;
            if s % 1200 == 0 {
                for ms in 0..1000 {
                    one_instant(base + ms)?;
                }
                n += 1000;
            }
        }
        c.states(n);
        c.traces(n);
        Ok(())
    }));
    us.push(unit("instants the calendar cannot represent", 0, |c| {
        let (lo, hi) = ts_range();
        let mut v: Vec<i64> = vec![i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, i64::MIN / 2, i64::MAX / 2, i64::MIN / 1000, i64::MAX / 1000];
        for d in 1..2000 {
            v.push(lo - d);
            v.push(hi + d);
        }
        for k in 0..63 {
            for d in -2..=2i64 {
                v.push((1i64 << k).wrapping_add(d));
                v.push((-(1i64 << k)).wrapping_add(d));
                v.push(lo.saturating_sub(1 << k));
                v.push(hi.saturating_add(1 << k));
            }
        }
        v.retain(|x| *x < lo || *x > hi);
        v.sort_unstable();
        v.dedup();
        let x = *c.pick(&v);
        c.state(&x);
        c.sample(|| format!("{} ms", x));
        for (d, b) in hosts(x) {
            let d = dec(d);
            ensure!(!compare(d, &b)?, "{}: {} ms is accepted ({})", d.name, x, hex(&b));
        }
        c.traces(12);
        Ok(())
    }));
    us
}

fn empty_properties() -> p::Properties {
    let _ = Bytes::new();
    crate::conv::FromRv::from_rv(&RV::desc(115, List(vec![Null; 13])))
}
