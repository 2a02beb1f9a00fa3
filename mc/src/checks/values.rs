//! Properties of single values: C02, C05, C09, C10, C11.
use crate::dectab::{dec, decs, Want};
use crate::explore::{unit, Ctx, Unit, R};
use crate::items::{comp_value, families, BoxItem, Family, Kind};
use crate::rv::{self, RV, RV::*};
use crate::spec::{self, Ty};
use crate::util::*;
use std::sync::Arc;

fn each(deep: bool, cap: u64, f: impl Fn(&mut Ctx, &Family, &BoxItem) -> R + Send + Sync + 'static) -> Vec<Unit> {
    let f = Arc::new(f);
    families(deep)
        .into_iter()
        .chain(crate::items::combos(if deep { cap * 100 } else { cap }))
        .map(|fam| {
            let f = f.clone();
            let bound = fam.bound;
            unit(fam.name, bound, move |c| {
                let it = (fam.gen)(c);
                c.say(|| format!("{}: {}", it.ty(), it.show()));
                c.sample(|| format!("{} {}", it.ty(), it.show()));
                f(c, &fam, &it)
            })
        })
        .collect()
}

/// A transfer takes everything behind the performative as its payload.
fn takes_rest(k: Kind, content: &RV) -> bool {
    match k {
        Kind::Comp(n) => n == "transfer",
        Kind::Frame => match content {
            Desc(d, _) => **d == Ulong(spec::comp("transfer").code),
            _ => true,
        },
        _ => false,
    }
}

fn label(it: &BoxItem) -> &'static str {
    match it.kind() {
        Kind::Plain => "primitive or polymorphic value",
        Kind::Ty(_) => "restricted type",
        Kind::Comp(_) => "composite",
        Kind::Section => "message section",
        Kind::Frame => "performative",
    }
}

// ------------------------------------------------------------------ C02

pub fn round_trip(deep: bool) -> Vec<Unit> {
    const TAILS: [&[u8]; 5] = [
        b"",
        b"\x00",
        b"\x40",
        b"\xff\xff\xff\xff\xff\xff\xff\xff",
        b"\xa1\x03abc\x45\x00\x53\x10\x45",
    ];
    each(deep, 600_000, |c, _, it| {
        let b = it.bytes();
        c.say(|| format!("encoded: {}", hex(&b)));
        c.state(&(it.ty(), &b[..]));
        c.outcome(label(it));
        let want = it.rv();
        let mut buf = Vec::with_capacity(b.len() + 16);
        for (i, t) in TAILS.iter().enumerate() {
            // a transfer takes everything behind it as its payload
            if i > 0 && takes_rest(it.kind(), &want) {
                break;
            }
            buf.clear();
            buf.extend_from_slice(&b);
            buf.extend_from_slice(t);
            let (rest, got, eq) = it
                .dec(&buf)
                .map_err(|e| format!("{} {} does not decode: {:?} ({})", it.ty(), it.show(), e, hex(&buf)))?;
            ensure!(
                rest == t.len(),
                "{} {}: decoding consumed the wrong bytes: {} left instead of {} ({})",
                it.ty(),
                it.show(),
                rest as isize,
                t.len(),
                hex(&buf)
            );
            ensure!(
                got.same(&want),
                "{} {} decodes to {:?} ({})",
                it.ty(),
                it.show(),
                got,
                hex(&b)
            );
            ensure!(eq, "{} {}: the decoded value is not equal to it", it.ty(), it.show());
        }
        c.traces(TAILS.len() as u64 - 1);
        Ok(())
    })
}

// ------------------------------------------------------------------ C05 (values)

pub fn sizes(deep: bool) -> Vec<Unit> {
    each(deep, 600_000, |c, _, it| {
        let n = it.size();
        let b = it.bytes();
        c.say(|| format!("encoded: {}", hex(&b)));
        c.state(&(it.ty(), &b[..]));
        ensure!(
            n == b.len(),
            "{} {}: announced size {} but {} bytes are written ({})",
            it.ty(),
            it.show(),
            n,
            b.len(),
            hex(&b)
        );
        ensure!(it.size() == n, "{} {}: the announced size changed", it.ty(), it.show());
        c.outcome(label(it));
        // every size and count inside is exact
        rv::parse_all(&b)
            .map(|_| ())
            .map_err(|e| format!("{} {}: inexact size or count: {} ({})", it.ty(), it.show(), e, hex(&b)))
    })
}

// ------------------------------------------------------------------ C10 (values)

pub fn standard(deep: bool) -> Vec<Unit> {
    each(deep, 600_000, |c, _, it| {
        let b = it.bytes();
        c.say(|| format!("encoded: {}", hex(&b)));
        c.state(&(it.ty(), &b[..]));
        c.outcome(label(it));
        let p = rv::parse_all(&b)
            .map_err(|e| format!("{} {}: not well-formed AMQP: {} ({})", it.ty(), it.show(), e, hex(&b)))?;
        it.check(&p)
            .map_err(|e| format!("{} {}: {} ({})", it.ty(), it.show(), e, hex(&b)))
    })
}

// ------------------------------------------------------------------ C09

fn cut_points(n: usize, deep: bool) -> Vec<usize> {
    let all = if deep { 1200 } else { 400 };
    if n <= all {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..150).chain(n - 100..n).collect();
        v.extend([255, 256, 257, n / 2, n / 3]);
        v.retain(|x| *x < n);
        v.sort_unstable();
        v.dedup();
        v
    }
}

pub fn truncation(deep: bool) -> Vec<Unit> {
    let mut us = each(deep, 12_000, move |c, _, it| {
        let b = it.bytes();
        c.say(|| format!("encoded: {}", hex(&b)));
        c.state(&(it.ty(), &b[..]));
        let cuts = cut_points(b.len(), deep);
        c.traces(cuts.len() as u64);
        for n in cuts {
            // no bytes at all are an empty performative
            if n == 0 && it.kind() == Kind::Frame {
                continue;
            }
            match it.dec(&b[..n]) {
                Err(ref e) if is_incomplete(e) => {}
                Err(e) => {
                    return Err(format!(
                        "{} {} cut after {} of {} bytes is reported as {:?} ({})",
                        it.ty(),
                        it.show(),
                        n,
                        b.len(),
                        e,
                        hex(&b)
                    ))
                }
                Ok((_, v, _)) => {
                    return Err(format!(
                        "{} {} cut after {} of {} bytes decodes to {:?} ({})",
                        it.ty(),
                        it.show(),
                        n,
                        b.len(),
                        v,
                        hex(&b)
                    ))
                }
            }
        }
        c.outcome(label(it));
        Ok(())
    });
    // the other permitted encodings as well
    for (name, bound, tg) in targets(deep) {
        us.push(unit(format!("other encodings/{}", name), bound, move |c| {
            let t = tg(c);
            let mut b = vec![];
            rv::emit(&t.content, &mut rv::Dev(c), &mut b);
            c.say(|| format!("{} {:?}: {}", t.dec, t.content, hex(&b)));
            c.state(&(t.dec, &b));
            let d = dec(t.dec);
            let cuts = cut_points(b.len(), deep);
            c.traces(cuts.len() as u64);
            for n in cuts {
                if n == 0 && t.dec == "performative" {
                    continue;
                }
                match (d.raw)(&b[..n]) {
                    Err(ref e) if is_incomplete(e) => {}
                    Err(e) => {
                        return Err(format!("{} {:?} cut after {} of {} bytes is reported as {:?} ({})", t.dec, t.content, n, b.len(), e, hex(&b)))
                    }
                    Ok(_) => return Err(format!("{} {:?} cut after {} of {} bytes decodes ({})", t.dec, t.content, n, b.len(), hex(&b))),
                }
            }
            Ok(())
        }));
    }
    us
}

// ------------------------------------------------------------------ C11

/// Content to be encoded in every permitted way, and the decoder that must read it.
pub struct Target {
    pub dec: &'static str,
    pub content: RV,
    pub want: RV,
}
pub type TargetGen = Arc<dyn Fn(&mut Ctx) -> Target + Send + Sync>;

fn plain_values() -> Vec<(&'static str, RV)> {
    let mut v: Vec<(&'static str, RV)> = vec![];
    for b in [false, true] {
        v.push(("bool", Bool(b)));
        v.push(("role", Bool(b)));
    }
    for x in [0u32, 1, 127, 128, 254, 255, 256, 65535, 1 << 24, u32::MAX] {
        v.push(("uint", Uint(x)));
        v.push(("option of uint", Uint(x)));
    }
    v.push(("option of uint", Null));
    for x in [0u64, 1, 127, 128, 254, 255, 256, 65535, u32::MAX as u64, 1 << 32, u64::MAX] {
        v.push(("ulong", Ulong(x)));
        v.push(("descriptor", Ulong(x)));
        v.push(("message-id", Ulong(x)));
    }
    for x in -129i32..=128 {
        v.push(("int", Int(x)));
        v.push(("long", Long(i64::from(x))));
    }
    for x in [i32::MIN, i32::MAX, -32768, 32767, 0x0102_0304] {
        v.push(("int", Int(x)));
    }
    for x in [i64::MIN, i64::MAX, -1 << 31, 1 << 31, 0x0102_0304_0506_0708] {
        v.push(("long", Long(x)));
    }
    for n in [0usize, 1, 2, 3, 127, 128, 254, 255, 256, 257, 300] {
        let s = spec::long_str(n);
        v.push(("binary", Bin(vec![n as u8; n])));
        v.push(("message-id", Bin(vec![n as u8; n])));
        v.push(("string (ByteStr)", Str(s.clone())));
        v.push(("string (Str)", Str(s.clone())));
        v.push(("message-id", Str(s.clone())));
        v.push(("symbol", Sym(s.clone())));
        v.push(("descriptor", Sym(s.clone())));
        v.push(("multiple symbols", Sym(s.clone())));
        v.push(("distribution-mode", Sym(s.clone())));
        v.push(("error condition", Sym(s)));
    }
    v.push(("string (ByteStr)", Str("h\u{e9}\u{20ac}\u{1f4af}".into())));
    v.push(("string (Str)", Str("h\u{e9}\u{20ac}\u{1f4af}".into())));
    for ty in [
        Ty::SndMode,
        Ty::RcvMode,
        Ty::SaslCode,
        Ty::Durability,
        Ty::Expiry,
        Ty::ErrCond,
        Ty::DistMode,
        Ty::MsgId,
        Ty::Fields,
        Ty::StrMap,
        Ty::Map,
        Ty::Filter,
        Ty::Syms,
        Ty::List,
    ] {
        for d in decs() {
            if d.want == Want::Ty(ty) || d.want == Want::Opt(ty) {
                for x in spec::dom(ty, true) {
                    v.push((d.name, x));
                }
            }
        }
    }
    v
}

fn arrays() -> Vec<(&'static str, RV)> {
    let mut v: Vec<(&'static str, RV)> = vec![];
    let mut put = |n: &'static str, xs: Vec<RV>| {
        for k in 0..=xs.len() {
            v.push((n, Array(xs[..k].to_vec())));
        }
    };
    put("array of ubyte", vec![Ubyte(0), Ubyte(255), Ubyte(0x53)]);
    put("array of ushort", vec![Ushort(0), Ushort(0x4142)]);
    put("array of byte", vec![Byte(0), Byte(-1)]);
    put("array of uint", vec![Uint(0), Uint(0), Uint(7), Uint(255), Uint(256)]);
    put("array of ulong", vec![Ulong(0), Ulong(0), Ulong(7), Ulong(255), Ulong(1 << 40)]);
    put("array of long", vec![Long(0), Long(-128), Long(127), Long(128)]);
    put("array of bool", vec![Bool(true), Bool(true), Bool(false)]);
    put("array of bool", vec![Bool(false), Bool(false)]);
    put("array of double", vec![Double(0), Double(0x3ff0_0000_0000_0000)]);
    put("array of char", vec![Char(0x41), Char(0x10ffff)]);
    put("array of timestamp", vec![Ts(0), Ts(-1)]);
    put("array of uuid", vec![RV::Uuid([1; 16]), RV::Uuid([0x98; 16])]);
    put("array of binary", vec![Bin(vec![]), Bin(vec![1, 2]), Bin(vec![9; 255])]);
    put("array of string", vec![Str("".into()), Str("ab".into()), Str(spec::long_str(255))]);
    put("array of symbol", vec![Sym("".into()), Sym("ab".into()), Sym(spec::long_str(255)), Sym(spec::long_str(256))]);
    v
}

/// model trees with up to `n` nodes, for the polymorphic decoder
fn any_tree(c: &mut Ctx, n: usize) -> RV {
    let leaf = |c: &mut Ctx| -> RV {
        c.pick(&[
            Null,
            Bool(true),
            Bool(false),
            Uint(0),
            Uint(200),
            Ulong(0),
            Ulong(5),
            Int(-1),
            Long(-1),
            Bin(vec![0xc0, 0x45]),
            Str("".into()),
            Str("s\u{e9}".into()),
            Sym("y".into()),
            List(vec![]),
            Map(vec![]),
            Ubyte(0x40),
            Ts(-5),
        ])
        .clone()
    };
    if n == 1 {
        return leaf(c);
    }
    match c.choose(if n >= 3 { 3 } else { 2 }) {
        0 => {
            let mut out = vec![];
            let mut left = n - 1;
            while left > 0 {
                let k = c.choose(left) + 1;
                out.push(any_tree(c, k));
                left -= k;
            }
            List(out)
        }
        1 => {
            let d = c.pick(&[Ulong(0), Ulong(112), Ulong(300), Sym("a:b".into())]).clone();
            Desc(Box::new(d), Box::new(any_tree(c, n - 1)))
        }
        _ => {
            let k = c.choose(n - 2) + 1;
            let key = any_tree(c, k);
            let val = any_tree(c, n - 1 - k);
            Map(vec![(key, val)])
        }
    }
}

/// trailing nulls may be left out (`drop` of them), at every level
fn shorten(c: &mut Ctx, r: &RV) -> RV {
    match r {
        Desc(d, l) => {
            if let (Ulong(code), List(l)) = (d.as_ref(), l.as_ref()) {
                if spec::comps().iter().any(|x| x.code == *code) {
                    let mut l: Vec<RV> = l.iter().map(|x| shorten(c, x)).collect();
                    let t = l.iter().rev().take_while(|x| **x == Null).count();
                    let drop = if t == 0 { 0 } else { [0, t, 1][c.dev(if t > 1 { 3 } else { 2 })] };
                    l.truncate(l.len() - drop);
                    return Desc(d.clone(), Box::new(List(l)));
                }
            }
            r.clone()
        }
        x => x.clone(),
    }
}

/// descriptors may be symbolic, a single symbol may stand for an array of one
fn vary(c: &mut Ctx, r: &RV) -> RV {
    match r {
        Desc(d, x) => {
            let d2 = match d.as_ref() {
                Ulong(code) => match spec::all_descriptors().iter().find(|e| e.0 == *code) {
                    Some(e) => {
                        if c.dev(2) == 1 {
                            Sym(e.1.clone())
                        } else {
                            Ulong(*code)
                        }
                    }
                    None => Ulong(*code),
                },
                x => x.clone(),
            };
            Desc(Box::new(d2), Box::new(vary(c, x)))
        }
        List(l) => List(l.iter().map(|x| vary(c, x)).collect()),
        Array(a) if a.len() == 1 && matches!(a[0], Sym(_)) => {
            if c.dev(2) == 1 {
                a[0].clone()
            } else {
                r.clone()
            }
        }
        x => x.clone(),
    }
}

/// Whether symbolic descriptors may be replaced inside polymorphic values: they are content there.
fn vary_comp(c: &mut Ctx, r: &RV) -> RV {
    // only field values of composites are visited; polymorphic content sits below maps, which
    // `vary` leaves alone
    vary(c, r)
}

pub fn targets(deep: bool) -> Vec<(String, usize, TargetGen)> {
    let b = if deep { 3 } else { 2 };
    let mut v: Vec<(String, usize, TargetGen)> = vec![];
    v.push((
        "single values".into(),
        b + 2,
        Arc::new(|c| {
            let all = plain();
            let (d, x) = c.pick(all);
            let content = match x {
                Array(_) => vary(c, x),
                _ => x.clone(),
            };
            let want = match dec(d).want {
                Want::Ty(t) | Want::Opt(t) if *x != Null => spec::norm(t, x).expect("harness: content"),
                _ => x.clone(),
            };
            Target { dec: d, content, want }
        }),
    ));
    v.push((
        "arrays".into(),
        b + 2,
        Arc::new(|c| {
            let all = arrs();
            let (d, x) = c.pick(all);
            Target { dec: d, content: x.clone(), want: x.clone() }
        }),
    ));
    for n in 1..=(if deep { 4 } else { 3 }) {
        v.push((
            format!("trees of {} nodes", n),
            if n == 4 { 2 } else { b },
            Arc::new(move |c| {
                let x = any_tree(c, n);
                Target { dec: "variant", content: x.clone(), want: x }
            }),
        ));
    }
    // every kind of value next to every other, as elements, keys and values
    v.push((
        "every kind of value beside every other".into(),
        if deep { 2 } else { 1 },
        Arc::new(move |c| {
            let ls = leaves();
            let d = *c.pick(&["variant", "list", "map any any", "map symbol any", "map string any", "vec map"]);
            let x = match d {
                "list" => {
                    let n = 1 + c.choose(3);
                    List((0..n).map(|_| c.pick(ls).clone()).collect())
                }
                "variant" => {
                    // deeper: each below each
                    let (a, b) = (c.pick(ls).clone(), c.pick(ls).clone());
                    match c.choose(4) {
                        0 => Map(vec![(a, List(vec![b]))]),
                        1 => Map(vec![(List(vec![a, b]), Null)]),
                        2 => RV::desc(300, Map(vec![(a, b)])),
                        _ => List(vec![RV::desc(300, a), RV::desc(112, List(vec![b]))]),
                    }
                }
                "map any any" => {
                    let n = 1 + c.choose(2);
                    let i = c.choose(ls.len());
                    let mut m = vec![(ls[i].clone(), c.pick(ls).clone())];
                    if n == 2 {
                        // neither key twice
                        let j = c.choose(ls.len() - 1);
                        let j = if j >= i { j + 1 } else { j };
                        let few = [Null, Str("v".into()), Uint(7), List(vec![Null, Null])];
                        m.push((ls[j].clone(), c.pick(&few).clone()));
                    }
                    Map(m)
                }
                _ => {
                    let k = |s: &str| if d == "map symbol any" { Sym(s.into()) } else { Str(s.into()) };
                    let names = ["", "a", "bc"];
                    let n = 1 + c.choose(2);
                    let f = c.choose(3);
                    Map((0..n).map(|i| (k(names[(f + i) % 3]), c.pick(ls).clone())).collect())
                }
            };
            Target { dec: d, content: x.clone(), want: x }
        }),
    ));
    v.push((
        "composites".into(),
        b,
        Arc::new(move |c| {
            let i = c.choose(spec::comps().len());
            let co = &spec::comps()[i];
            let r = comp_value(c, co, false, 0);
            let want = spec::norm_comp(co, &r).expect("harness: composite");
            let s = shorten(c, &r);
            let content = vary_comp(c, &s);
            let ds: Vec<&'static str> = readers(co.name);
            let d = *c.pick(&ds);
            Target { dec: d, content, want }
        }),
    ));
    v.push((
        "message sections".into(),
        b + 1,
        Arc::new(move |c| {
            let (_, code, ty, sy) = spec::RSECTIONS[c.choose(7)];
            let d = spec::dom(ty, true);
            let x = c.pick(&d).clone();
            let want = RV::desc(code, x.clone());
            let ds = if c.dev(2) == 1 { Sym(sy.into()) } else { Ulong(code) };
            Target { dec: "section", content: Desc(Box::new(ds), Box::new(x)), want }
        }),
    ));
    v
}

/// the decoders that can read the composite
pub fn readers(name: &'static str) -> Vec<&'static str> {
    decs()
        .iter()
        .filter(|d| match d.want {
            Want::Comp(n) => n == name,
            Want::Members(m) => m.contains(&name),
            Want::Section => name == "header" || name == "properties",
            _ => false,
        })
        .map(|d| d.name)
        .collect()
}

/// one value of every kind, some of several widths
fn leaves() -> &'static Vec<RV> {
    static S: std::sync::OnceLock<Vec<RV>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        vec![
            Null,
            Bool(true),
            Bool(false),
            Ubyte(0x40),
            Ushort(0x4100),
            Uint(0),
            Uint(5),
            Uint(1 << 20),
            Ulong(0),
            Ulong(5),
            Ulong(1 << 40),
            Byte(-1),
            Short(-2),
            Int(-3),
            Int(1 << 20),
            Long(-4),
            Long(1 << 40),
            Float(0x3f80_0000),
            Double(0x3ff0_0000_0000_0000),
            Char(0x1f4af),
            Ts(-5),
            RV::Uuid([0x98; 16]),
            Bin(vec![]),
            Bin(vec![0xc0, 0x45]),
            Str("".into()),
            Str("s\u{e9}".into()),
            Sym("".into()),
            Sym("y".into()),
            List(vec![]),
            List(vec![Null]),
            Map(vec![]),
            Map(vec![(Null, Null)]),
            RV::desc(0, Null),
            Desc(Box::new(Sym("d".into())), Box::new(List(vec![]))),
        ]
    })
}
fn plain() -> &'static Vec<(&'static str, RV)> {
    static S: std::sync::OnceLock<Vec<(&'static str, RV)>> = std::sync::OnceLock::new();
    S.get_or_init(plain_values)
}
fn arrs() -> &'static Vec<(&'static str, RV)> {
    static S: std::sync::OnceLock<Vec<(&'static str, RV)>> = std::sync::OnceLock::new();
    S.get_or_init(arrays)
}

pub fn alternatives(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    for (name, bound, tg) in targets(deep) {
        us.push(unit(name.clone(), bound, move |c| {
            let t = tg(c);
            let mut b = vec![];
            // one execution in which everything is as wide as possible, the others step by step
            if c.dev(2) == 1 {
                rv::emit(&t.content, &mut rv::Widest, &mut b);
            } else {
                rv::emit(&t.content, &mut rv::Dev(c), &mut b);
            }
            check_alt(c, &t, &b)
        }));
    }
    us
}

pub fn check_alt(c: &mut Ctx, t: &Target, b: &[u8]) -> R {
    c.say(|| format!("{} {:?}: {}", t.dec, t.content, hex(b)));
    c.sample(|| format!("{} {:?}: {}", t.dec, t.content, hex(b)));
    c.state(&(t.dec, b));
    c.outcome(t.dec);
    let d = dec(t.dec);
    let tails: [&[u8]; 2] = [b"", b"\x41\x00\xff"];
    for tl in tails.iter() {
        if !tl.is_empty() && (t.dec == "transfer" || t.dec == "performative" && takes_rest(Kind::Frame, &t.want)) {
            break;
        }
        let mut w = b.to_vec();
        w.extend_from_slice(tl);
        match (d.full.unwrap())(&w) {
            Ok((rest, got)) => {
                ensure!(
                    rest == tl.len(),
                    "{} {:?}: {} bytes left instead of {} ({})",
                    t.dec,
                    t.content,
                    rest as isize,
                    tl.len(),
                    hex(b)
                );
                ensure!(
                    got.same(&t.want),
                    "{}: a permitted encoding of {:?} decodes to {:?} ({})",
                    t.dec,
                    t.want,
                    got,
                    hex(b)
                );
            }
            Err(e) => {
                return Err(format!(
                    "{}: a permitted encoding of {:?} is rejected: {:?} ({})",
                    t.dec,
                    t.want,
                    e,
                    hex(b)
                ))
            }
        }
    }
    c.traces(1);
    Ok(())
}
