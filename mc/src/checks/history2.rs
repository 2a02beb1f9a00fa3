//! C23, longer and closer histories: long runs of one operation, whole families one after another,
//! containers changed in place, clones that go their own ways, large frames, other threads.
use super::frames::{build, empty, put_frame, same_frame, Af};
use super::history::{af, item_op, kinds, run, Op};
use super::messages;
use crate::conv::{bstr, FromRv, ToRv};
use crate::dectab::{decs, Dec};
use crate::explore::{unit, Ctx, Unit, R};
use crate::items::{filled, tail, v, vk, vv, Kind};
use crate::rv::{self, RV, RV::*};
use crate::spec::{self, Ty};
use crate::util::*;
use amqp_codec::protocol as p;
use amqp_codec::protocol::TransferBody;
use amqp_codec::types::{self as t, Variant};
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, MessageBody, OutMessage};
use bytes::{Bytes, BytesMut};
use std::sync::{Arc, OnceLock};
use tokio_codec::{Decoder, Encoder};

// ------------------------------------------------------------------ numbers that look alike

/// Numbers that agree in a half, a byte, a sum, a fold of their parts.
fn twins() -> &'static Vec<u64> {
    static S: OnceLock<Vec<u64>> = OnceLock::new();
    S.get_or_init(|| {
        let mut o = vec![];
        for x in [0u64, 1, 2, 5, 127, 128, 255, 256, 0x0102, 0x0102_0304, 0x0102_0304_0506_0708] {
            o.extend([x, !x, x.wrapping_neg(), x << 8, x << 16, x << 32, x << 56, x.swap_bytes(), x.rotate_left(32)]);
            o.extend([x | x << 32, x | 1 << 31, x | 1 << 32, x | 1 << 63, x | 0xffff_ffff << 32, x.wrapping_mul(0x1_0001_0001), x.reverse_bits()]);
            o.extend([x + 1, x + 0x1_0000, x + 0x1_0000_0000, x + 1000, x + 86_400_000, x + 4_294_967_296_000]);
        }
        o.sort_unstable();
        o.dedup();
        o
    })
}

struct Fam {
    name: &'static str,
    mk: fn(u64) -> RV,
}

fn uuid_of(n: u64) -> RV {
    let mut b = [0u8; 16];
    b[..8].copy_from_slice(&n.to_be_bytes());
    b[8..].copy_from_slice(&n.swap_bytes().to_be_bytes());
    RV::Uuid(b)
}
fn char_of(n: u64) -> RV {
    let c = (n as u32) ^ (n >> 32) as u32;
    Char(std::char::from_u32(c % 0x11_0000).unwrap_or('\u{fffd}') as u32)
}
fn hexed(n: u64) -> String {
    format!("{:016x}", n)
}

fn fams() -> Vec<Fam> {
    vec![
        Fam { name: "ulong", mk: Ulong },
        Fam { name: "long", mk: |n| Long(n as i64) },
        Fam { name: "uint", mk: |n| Uint(n as u32) },
        Fam { name: "int", mk: |n| Int(n as i32) },
        Fam { name: "ushort", mk: |n| Ushort(n as u16) },
        Fam { name: "short", mk: |n| Short(n as i16) },
        Fam { name: "ubyte", mk: |n| Ubyte(n as u8) },
        Fam { name: "byte", mk: |n| Byte(n as i8) },
        Fam { name: "float", mk: |n| Float(n as u32) },
        Fam { name: "double", mk: Double },
        Fam { name: "char", mk: char_of },
        Fam {
            name: "timestamp",
            mk: |n| {
                let (lo, hi) = crate::items::ts_range();
                let x = n as i64;
                Ts(if x < lo || x > hi { x >> 12 } else { x })
            },
        },
        Fam { name: "uuid", mk: uuid_of },
        Fam { name: "uuid of two halves", mk: |n| { let mut b = [0u8; 16]; b[..8].copy_from_slice(&n.to_be_bytes()); RV::Uuid(b) } },
        Fam { name: "binary", mk: |n| Bin(n.to_be_bytes().to_vec()) },
        Fam { name: "string", mk: |n| Str(hexed(n)) },
        Fam { name: "symbol", mk: |n| Sym(hexed(n)) },
        Fam { name: "long string", mk: |n| Str(hexed(n).repeat(20)) },
        Fam { name: "list", mk: |n| List(vec![Ulong(n), Ulong(n.swap_bytes())]) },
        Fam { name: "list, the other way round", mk: |n| List(vec![Ulong(n.swap_bytes()), Ulong(n)]) },
        Fam { name: "map", mk: |n| Map(vec![(Str("a".into()), Ulong(n)), (Str("b".into()), Ulong(n.swap_bytes()))]) },
        Fam { name: "map key", mk: |n| Map(vec![(Ulong(n), Null)]) },
        Fam { name: "described", mk: |n| RV::desc(n, Ulong(n.swap_bytes())) },
        Fam { name: "described by name", mk: |n| Desc(Box::new(Sym(hexed(n))), Box::new(Str(hexed(!n)))) },
    ]
}

/// decodes both encodings with everything that can hold the value
fn decode_as(ds: &[&Dec], w: &[u8], want: &RV) -> R {
    for d in ds {
        if let Some(f) = d.full {
            let (rest, got) = f(w).map_err(|e| format!("{:?} as {}: {:?} ({})", want, d.name, e, hex(w)))?;
            ensure!(rest == 0 && got.same(want), "{:?} decodes to {:?} as {} ({})", want, got, d.name, hex(w));
        }
    }
    Ok(())
}

fn decs_of(r: &RV) -> Vec<&'static Dec> {
    let names: &[&str] = match r {
        Ulong(_) => &["ulong", "variant", "message-id"],
        Long(_) => &["long", "variant"],
        Uint(_) => &["uint", "variant", "option of uint"],
        Int(_) => &["int", "variant"],
        Ushort(_) => &["ushort", "variant"],
        Short(_) => &["short", "variant"],
        Ubyte(_) => &["ubyte", "variant"],
        Byte(_) => &["byte", "variant"],
        Float(_) => &["float", "variant"],
        Double(_) => &["double", "variant"],
        Char(_) => &["char", "variant"],
        Ts(_) => &["timestamp", "variant"],
        RV::Uuid(_) => &["uuid", "variant", "message-id"],
        Bin(_) => &["binary", "variant", "message-id"],
        Str(_) => &["string (ByteStr)", "string (Str)", "variant", "message-id"],
        Sym(_) => &["symbol", "variant"],
        List(_) => &["list", "variant"],
        Map(_) => &["variant", "map any any"],
        _ => &["variant"],
    };
    names.iter().map(|n| crate::dectab::dec(n)).collect()
}

fn twin_pairs(deep: bool) -> Unit {
    unit("values that look alike, every pair", 0, move |c: &mut Ctx| {
        let fs = fams();
        let f = &fs[c.choose(fs.len())];
        let ns = twins();
        let (i, j) = (c.choose(ns.len()), c.choose(ns.len()));
        let (a, b) = ((f.mk)(ns[i]), (f.mk)(ns[j]));
        c.states(1);
        c.sample(|| format!("{:?} ; {:?}", a, b));
        c.say(|| format!("{:?} ; {:?}", a, b));
        let _ = deep;
        let ds = decs_of(&a);
        for d in &ds {
            let ds = [*d];
            decode_as(&ds, &rv::widest(&a), &a)?;
            decode_as(&ds, &rv::widest(&b), &b).map_err(|e| format!("{} after {:?}", e, a))?;
            decode_as(&ds, &rv::compact(&a), &a).map_err(|e| format!("{} after {:?}", e, b))?;
        }
        let (x, y) = (Variant::from_rv(&a), Variant::from_rv(&b));
        for (v, r) in [(&x, &a), (&y, &b), (&x, &a)] {
            let n = v.encoded_size();
            let mut o = BytesMut::with_capacity(n + 32);
            v.encode(&mut o);
            ensure!(n == o.len(), "{:?}: announced {} bytes, wrote {}", r, n, o.len());
            let got = rv::parse_all(&o).map_err(|e| format!("{:?}: {}", r, e))?;
            ensure!(got.same(r), "{:?} is encoded as {:?}", r, got);
        }
        c.traces(2);
        Ok(())
    })
}

// ------------------------------------------------------------------ long runs

/// Inputs that are refused somewhere inside; nobody asks how.
fn noise() -> &'static Vec<(String, Vec<u8>)> {
    static S: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
    S.get_or_init(|| {
        let bads: Vec<(&str, Vec<u8>)> = vec![
            ("nothing", vec![]),
            ("an unknown type code", vec![0x01]),
            ("half a string", vec![0xa1, 5, b'a']),
            ("a string that is not UTF-8", vec![0xa1, 2, 0xc3, 0x28]),
            ("a symbol that is not UTF-8", vec![0xa3, 1, 0xff]),
            ("no character", vec![0x73, 0, 0, 0xd8, 0]),
            ("no time", vec![0x83, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
            ("half a uuid", vec![0x98, 1, 2]),
            ("a list without its count", vec![0xc0, 0, 0]),
            ("a list larger than its input", vec![0xc0, 200, 1, 0x40]),
            ("a list with more elements than bytes", vec![0xc0, 2, 9, 0x40]),
            ("half a described value", vec![0, 0x53, 5]),
            ("a described value without a descriptor", vec![0, 0x40, 0x40]),
        ];
        let mut o = vec![];
        for (n, b) in &bads {
            o.push((n.to_string(), b.clone()));
            let wide = |code: u8, count: u32, inner: &[u8]| {
                let mut w = vec![code];
                w.extend_from_slice(&(4 + inner.len() as u32).to_be_bytes());
                w.extend_from_slice(&count.to_be_bytes());
                w.extend_from_slice(inner);
                w
            };
            let small = |code: u8, count: u8, inner: &[u8]| [&[code, 1 + inner.len() as u8, count], inner].concat();
            let l8 = small(0xc0, 1, b);
            o.push((format!("{} in a list", n), l8.clone()));
            o.push((format!("{} in a wide list", n), wide(0xd0, 1, b)));
            o.push((format!("{} behind others in a list", n), small(0xc0, 3, &[&[0x40, 0x41][..], b].concat())));
            o.push((format!("{} as a value of a map", n), small(0xc1, 2, &[&[0xa1, 1, b'k'][..], b].concat())));
            o.push((format!("{} as a value of a map of symbols", n), small(0xc1, 2, &[&[0xa3, 1, b'k'][..], b].concat())));
            o.push((format!("{} as a key of a map", n), small(0xc1, 2, b)));
            o.push((format!("{} three lists deep", n), small(0xc0, 1, &small(0xc0, 1, &l8))));
            o.push((format!("{} in a described value", n), [&[0, 0x53, 9][..], b].concat()));
            o.push((format!("{} in an array of symbols", n), small(0xe0, 1, &[&[0xa3][..], b].concat())));
            for code in [0x10u8, 0x11, 0x12, 0x14, 0x18, 0x1d, 0x28, 0x70, 0x73, 0x40, 0x41] {
                o.push((format!("{} as the first field of {:#x}", n, code), [&[0, 0x53, code][..], &l8].concat()));
            }
            for code in [0x72u8, 0x74, 0x75, 0x76, 0x77, 0x78] {
                o.push((format!("{} in section {:#x}", n, code), [&[0, 0x53, code][..], b].concat()));
                o.push((format!("a map with {} in section {:#x}", n, code), [&[0, 0x53, code][..], &small(0xc1, 2, &[&[0xa3, 1, b'k'][..], b].concat())].concat()));
            }
        }
        o
    })
}

/// one of everything, all its ways; at least one of each type
fn probes() -> &'static Vec<Op> {
    static S: OnceLock<Vec<Op>> = OnceLock::new();
    S.get_or_init(|| {
        let mut o = vec![];
        for x in [
            List(vec![Uint(5), Str("5".into()), List(vec![Sym("a".into())])]),
            Map(vec![(Sym("k".into()), Map(vec![(Str("l".into()), Ulong(9))]))]),
            RV::desc(500, RV::desc(5, Bin(vec![1, 2]))),
            Str("t".repeat(300)),
            Str("\u{e9}\u{1f4af}".into()),
            Sym("symbol".into()),
            Ts(1_311_704_463_521),
            Char(0x1f4af),
            RV::Uuid([7; 16]),
            Double(0x3ff0_0000_0000_0000),
        ] {
            o.push(item_op(move || vv(Variant::from_rv(&x))));
        }
        o.push(item_op(|| vv(crate::items::chain(60, 0))));
        o.push(item_op(|| v(vec![1u64, 2, 3])));
        o.push(item_op(|| vk(p::Symbols::from_rv(&Array(vec![Sym("a".into()), Sym("b".into())])), Kind::Ty(Ty::Syms))));
        o.push(item_op(|| vk(p::Fields::from_rv(&Map(vec![(Sym("k".into()), Uint(1))])), Kind::Ty(Ty::Fields))));
        for n in ["open", "attach", "transfer", "properties", "source", "error", "sasl-init", "modified"] {
            let co = spec::comp(n);
            let r = filled(co, &spec::full(co, 0));
            o.push(item_op(move || crate::items::comp_items(n, &r).swap_remove(0)));
        }
        o
    })
}

fn all_probes(after: &str) -> R {
    for o in probes() {
        for w in 0..o.ways {
            (o.f)(w).map_err(|e| format!("{} (after {})", e, after))?;
        }
    }
    for i in [0, 5, 9, 11] {
        let a = af(i);
        let mut b = BytesMut::new();
        let mut k = AmqpCodec::<AmqpFrame>::new();
        k.encode(a.frame.clone(), &mut b).map_err(|e| format!("{:?} (after {})", e, after))?;
        match k.decode(&mut b) {
            Ok(Some(f)) => same_frame(&a, &f).map_err(|e| format!("{} (after {})", e, after))?,
            x => return Err(format!("a frame is answered with {:?} (after {})", x, after)),
        }
    }
    Ok(())
}

fn long_runs(deep: bool) -> Vec<Unit> {
    let k = kinds(false);
    vec![
        unit("refused inputs again and again", 0, move |c: &mut Ctx| {
            let ns = noise();
            let (name, b) = &ns[c.choose(ns.len())];
            let times = if deep { 300_000 } else { 20_000 };
            // every decoder gets it; those that are quick at it get it often
            let groups: [&[&str]; 3] = [
                &["variant", "list", "map any any", "map symbol any", "map string any", "vec map", "multiple symbols", "message-id", "descriptor", "error condition"],
                &["open", "begin", "attach", "flow", "transfer", "disposition", "detach", "end", "close", "error", "header", "properties", "source", "target", "delivery state", "outcome", "sasl body"],
                &["performative", "section", "in message", "out message"],
            ];
            let g = c.choose(groups.len());
            c.states(1);
            c.say(|| format!("{} times {} to {:?}", times, hex(b), groups[g]));
            for n in groups[g] {
                let d = crate::dectab::dec(n);
                for _ in 0..times / groups[g].len() {
                    let _ = std::hint::black_box((d.raw)(b));
                }
            }
            all_probes(&format!("{} times {}: {}", times, name, hex(b)))
        }),
        unit("refused frames again and again", 0, move |c: &mut Ctx| {
            let ns = noise();
            let (name, b) = &ns[c.choose(ns.len())];
            let times = if deep { 70_000 } else { 5000 };
            c.states(1);
            c.say(|| format!("{} frames with {}", times, hex(b)));
            let f = put_frame(0, 1, &[], b);
            let mut k = AmqpCodec::<AmqpFrame>::new();
            for _ in 0..times {
                let mut o = BytesMut::from(&f[..]);
                let _ = std::hint::black_box(k.decode(&mut o));
            }
            all_probes(&format!("{} frames with {}", times, name))
        }),
        unit("one operation again and again", 0, move |c: &mut Ctx| {
            let i = c.choose(k.len());
            let o = &k[i];
            let w = c.choose(o.ways);
            let times = if i % 16 == 0 { 70_000 } else { 700 } * if deep { 10 } else { 1 };
            c.states(1);
            c.say(|| format!("{} times {} / way {}", times, o.name, w));
            for n in 0..times {
                (o.f)(w).map_err(|e| format!("{} (at the {}th repetition of way {})", e, n, w))?;
            }
            all_probes(&format!("{} times {} / way {}", times, o.name, w))
        }),
    ]
}

// ------------------------------------------------------------------ whole families

/// text types: decoder, constructor codes
const TEXTS: [(&str, u8, u8); 8] = [
    ("string (ByteStr)", 0xa1, 0xb1),
    ("string (Str)", 0xa1, 0xb1),
    ("symbol", 0xa3, 0xb3),
    ("variant", 0xa1, 0xb1),
    ("variant", 0xa3, 0xb3),
    ("message-id", 0xa1, 0xb1),
    ("error condition", 0xa3, 0xb3),
    ("descriptor", 0xa3, 0xb3),
];

fn text_families(deep: bool) -> Vec<Unit> {
    let go = |d: &Dec, w: &[u8], s: &[u8]| -> R {
        let ok = std::str::from_utf8(s).is_ok();
        match d.full {
            Some(f) => match f(w) {
                Ok((0, Str(x))) | Ok((0, Sym(x))) if ok && x.as_bytes() == s => Ok(()),
                Ok((_, x)) if d.name == "error condition" && ok => {
                    ensure!(x == Sym(String::from_utf8(s.to_vec()).unwrap()), "{} gives {:?}", hex(w), x);
                    Ok(())
                }
                Err(_) if !ok => Ok(()),
                x => Err(format!("{} as {} gives {:?}", hex(w), d.name, x)),
            },
            None => Ok(()),
        }
    };
    let wire = |code: u8, wide: bool, s: &[u8]| -> Vec<u8> {
        let mut w = vec![code];
        if wide {
            w.extend_from_slice(&(s.len() as u32).to_be_bytes());
        } else {
            w.push(s.len() as u8);
        }
        w.extend_from_slice(s);
        w
    };
    vec![
        unit("all texts of two bytes in one history", 0, move |c: &mut Ctx| {
            let (name, n8, n32) = TEXTS[c.choose(TEXTS.len())];
            let d = crate::dectab::dec(name);
            let wide = c.flip();
            let order = c.choose(4);
            c.states(1);
            c.say(|| format!("{} {} {}", name, wide, order));
            let all: Vec<[u8; 2]> = (0..65_536u32).map(|x| (x as u16).to_be_bytes()).collect();
            let valid = |s: &[u8; 2]| std::str::from_utf8(s).is_ok();
            let seq: Vec<[u8; 2]> = match order {
                0 => all.iter().filter(|s| !valid(s)).chain(all.iter().filter(|s| valid(s))).cloned().collect(),
                1 => all.iter().filter(|s| valid(s)).chain(all.iter().filter(|s| !valid(s))).cloned().collect(),
                2 => all.iter().rev().cloned().collect(),
                _ => all.iter().chain(all.iter()).cloned().collect(),
            };
            for s in &seq {
                go(d, &wire(if wide { n32 } else { n8 }, wide, s), s)?;
            }
            c.traces(seq.len() as u64);
            Ok(())
        }),
        unit("all texts over two letters in one history", 0, move |c: &mut Ctx| {
            let (name, n8, n32) = TEXTS[c.choose(TEXTS.len())];
            let d = crate::dectab::dec(name);
            let wide = c.flip();
            let back = c.flip();
            let max = if deep { 16 } else { 13 };
            let pad = [0usize, 20, 240, 260][c.choose(if wide { 4 } else { 3 })];
            c.states(1);
            c.say(|| format!("{} {} {} {}", name, wide, back, pad));
            let mut seq: Vec<Vec<u8>> = vec![];
            for n in 0..=max {
                for m in 0..(1u32 << n) {
                    let mut s: Vec<u8> = vec![b'x'; pad / 2];
                    s.extend((0..n).map(|i| if m >> i & 1 == 1 { b'b' } else { b'a' }));
                    s.extend(vec![b'x'; pad - pad / 2]);
                    seq.push(s);
                }
            }
            if back {
                seq.reverse();
            }
            for s in seq.iter().filter(|s| wide || s.len() < 256) {
                go(d, &wire(if wide { n32 } else { n8 }, wide, s), s)?;
            }
            c.traces(seq.len() as u64);
            Ok(())
        }),
        unit("all boundary values of a type in one history", 0, move |c: &mut Ctx| {
            let fs = fams();
            let f = &fs[c.choose(fs.len())];
            let order = c.choose(3);
            c.states(1);
            c.say(|| format!("{} {}", f.name, order));
            let mut ns: Vec<u64> = crate::items::u64s().clone();
            ns.extend(twins());
            if order == 1 {
                ns.reverse();
            }
            if order == 2 {
                // far apart ones next to each other
                let k = ns.len();
                ns = (0..k).map(|i| ns[i * 7919 % k]).collect();
            }
            for n in &ns {
                let r = (f.mk)(*n);
                let ds = decs_of(&r);
                decode_as(&ds, &rv::compact(&r), &r)?;
                let v = Variant::from_rv(&r);
                let mut o = BytesMut::with_capacity(1024);
                let n = v.encoded_size();
                v.encode(&mut o);
                ensure!(n == o.len(), "{:?}: announced {} bytes, wrote {}", r, n, o.len());
                let got = rv::parse_all(&o).map_err(|e| format!("{:?}: {}", r, e))?;
                ensure!(got.same(&r), "{:?} is encoded as {:?}", r, got);
            }
            c.traces(ns.len() as u64);
            Ok(())
        }),
        unit("everything in one history", 0, move |c: &mut Ctx| {
            let k = kinds(deep);
            let order = c.choose(4);
            let ways = c.choose(5);
            let stride = [1usize, 7, 31, 101][c.choose(4)];
            c.states(1);
            let mut ix: Vec<usize> = (0..k.len()).collect();
            match order {
                0 => {}
                1 => ix.reverse(),
                2 => ix.extend(0..k.len()),
                _ => ix = ix.iter().flat_map(|i| [*i, *i]).collect(),
            }
            let n = ix.len();
            let at: Vec<usize> = (0..stride).flat_map(|s| (s..n).step_by(stride)).map(|i| ix[i]).collect();
            let os: Vec<&Op> = at.iter().map(|i| &k[*i]).collect();
            let ws: Vec<usize> = os.iter().map(|o| ways % o.ways).collect();
            run(c, &os, &ws).map_err(|e| crate::explore::clip(&e, 600))
        }),
    ]
}

// ------------------------------------------------------------------ containers changed in place

/// A container with elements numbered by what they hold.
struct Cont<T> {
    name: &'static str,
    mk: fn() -> T,
    push: fn(&mut T, usize),
    set: fn(&mut T, usize, usize),
    pop: Option<fn(&mut T)>,
    rv: fn(&[usize]) -> RV,
    ok: fn(&RV, &[u8]) -> R,
}

fn key(i: usize) -> &'static str {
    ["k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9"][i]
}
fn long() -> &'static str {
    static S: OnceLock<String> = OnceLock::new();
    S.get_or_init(|| "l".repeat(300))
}
fn any(k: usize) -> RV {
    match k {
        0 => Null,
        1 => Bool(true),
        2 => Ulong(1 << 40),
        _ => Str(long().into()),
    }
}
fn num(k: usize) -> u64 {
    [0, 1, 300, 1 << 40][k]
}
fn sym(k: usize) -> &'static str {
    ["a", "b", "abcde", long()][k]
}
fn plain_ok(want: &RV, b: &[u8]) -> R {
    let got = rv::parse_all(b).map_err(|e| format!("{} ({})", e, hex(b)))?;
    ensure!(got.same(want), "it is encoded as {:?} instead of {:?}", got, want);
    Ok(())
}
fn ty_ok(ty: Ty, want: &RV, b: &[u8]) -> R {
    let got = rv::parse_all(b).map_err(|e| format!("{} ({})", e, hex(b)))?;
    let got = spec::norm(ty, &got)?;
    ensure!(got.same(want), "it is encoded as {:?} instead of {:?}", got, want);
    Ok(())
}
fn str_map(e: &[usize]) -> RV {
    Map(e.iter().enumerate().map(|(i, k)| (Str(key(i).into()), any(*k))).collect())
}
fn sym_map(e: &[usize]) -> RV {
    Map(e.iter().enumerate().map(|(i, k)| (Sym(key(i).into()), any(*k))).collect())
}
fn body_ok(want: &RV, b: &[u8]) -> R {
    // sections one after another: wrapped into a list by the caller's model
    let mut got = vec![];
    let mut r = b;
    while !r.is_empty() {
        let (x, rest) = rv::parse(r).map_err(|e| format!("{:?} ({})", e, hex(b)))?;
        got.push(x);
        r = rest;
    }
    ensure!(List(got.clone()).same(want), "it is encoded as {:?} instead of {:?}", got, want);
    Ok(())
}

fn contain<T: Encode + Clone + 'static>(deep: bool, k: Cont<T>) -> Unit {
    unit(format!("{} changed in place", k.name), 0, move |c: &mut Ctx| {
        let depth = if deep { 5 } else { 4 };
        let n0 = c.choose(5);
        let mut x = (k.mk)();
        let mut e: Vec<usize> = vec![];
        for i in 0..n0 {
            (k.push)(&mut x, i % 2);
            e.push(i % 2);
        }
        let mut kept: Option<(T, Vec<usize>)> = None;
        let look = |x: &T, e: &[usize], measure: bool| -> R {
            let mut o = BytesMut::with_capacity(16384);
            if measure {
                let s = x.encoded_size();
                x.encode(&mut o);
                ensure!(s == o.len(), "{} {:?}: announced {} bytes, wrote {} ({})", k.name, e, s, o.len(), hex(&o));
            } else {
                x.encode(&mut o);
            }
            (k.ok)(&(k.rv)(e), &o).map_err(|m| format!("{} {:?}: {}", k.name, e, m))
        };
        for _ in 0..depth {
            // sets of the first and the last, pushes, pop, measure, encode, keep a clone, go back to it, stop
            match c.choose(16) {
                s @ 0..=7 => {
                    let i = if s < 4 { 0 } else { e.len().saturating_sub(1) };
                    if e.is_empty() || (s >= 4 && i == 0) {
                        break;
                    }
                    (k.set)(&mut x, i, s % 4);
                    e[i] = s % 4;
                    c.say(|| format!("[{}] = {}", i, s % 4));
                }
                s @ 8..=9 => {
                    (k.push)(&mut x, (s - 8) * 3);
                    e.push((s - 8) * 3);
                    c.say(|| format!("push {}", (s - 8) * 3));
                }
                10 => match k.pop {
                    Some(f) if !e.is_empty() => {
                        f(&mut x);
                        e.pop();
                        c.say(|| "pop".into());
                    }
                    _ => break,
                },
                11 => {
                    let _ = x.encoded_size();
                    c.say(|| "measure".into());
                }
                12 => {
                    look(&x, &e, false)?;
                    c.say(|| "encode".into());
                }
                13 => {
                    kept = Some((x.clone(), e.clone()));
                    c.say(|| "keep a clone".into());
                }
                14 => {
                    if let Some((y, f)) = &mut kept {
                        std::mem::swap(&mut x, y);
                        std::mem::swap(&mut e, f);
                        c.say(|| "go on with the clone".into());
                    } else {
                        break;
                    }
                }
                _ => break,
            }
        }
        c.state(&(k.name, &e, kept.as_ref().map(|k| k.1.clone())));
        look(&x, &e, true)?;
        if let Some((y, f)) = &kept {
            look(y, f, true)?;
            look(&x, &e, false)?;
        }
        Ok(())
    })
}

fn containers(deep: bool) -> Vec<Unit> {
    let data_rv: fn(&[usize]) -> RV = |e| List(e.iter().map(|k| RV::desc(0x75, Bin(sym(*k).as_bytes().to_vec()))).collect());
    vec![
        contain::<Vec<u64>>(deep, Cont { name: "an array of numbers", mk: Vec::new, push: |x, k| x.push(num(k)), set: |x, i, k| x[i] = num(k), pop: Some(|x| { x.pop(); }), rv: |e| Array(e.iter().map(|k| Ulong(num(*k))).collect()), ok: plain_ok }),
        contain::<Vec<Bytes>>(deep, Cont { name: "an array of binaries", mk: Vec::new, push: |x, k| x.push(Bytes::from_static(sym(k).as_bytes())), set: |x, i, k| x[i] = Bytes::from_static(sym(k).as_bytes()), pop: Some(|x| { x.pop(); }), rv: |e| Array(e.iter().map(|k| Bin(sym(*k).as_bytes().to_vec())).collect()), ok: plain_ok }),
        contain::<p::Symbols>(deep, Cont { name: "multiple symbols", mk: Default::default, push: |x, k| x.push(t::Symbol::from_slice(sym(k))), set: |x, i, k| x[i] = t::Symbol::from_slice(sym(k)), pop: Some(|x| { x.pop(); }), rv: |e| Array(e.iter().map(|k| Sym(sym(*k).into())).collect()), ok: |w, b| ty_ok(Ty::Syms, w, b) }),
        contain::<t::List>(deep, Cont { name: "a list", mk: || t::List(vec![]), push: |x, k| x.0.push(Variant::from_rv(&any(k))), set: |x, i, k| x.0[i] = Variant::from_rv(&any(k)), pop: Some(|x| { x.0.pop(); }), rv: |e| List(e.iter().map(|k| any(*k)).collect()), ok: plain_ok }),
        contain::<Variant>(deep, Cont {
            name: "a list inside a list",
            mk: || Variant::List(t::List(vec![Variant::List(t::List(vec![])), Variant::Null])),
            push: |x, k| if let Variant::List(l) = x { if let Variant::List(m) = &mut l.0[0] { m.0.push(Variant::from_rv(&any(k))) } },
            set: |x, i, k| if let Variant::List(l) = x { if let Variant::List(m) = &mut l.0[0] { m.0[i] = Variant::from_rv(&any(k)) } },
            pop: Some(|x| if let Variant::List(l) = x { if let Variant::List(m) = &mut l.0[0] { m.0.pop(); } }),
            rv: |e| List(vec![List(e.iter().map(|k| any(*k)).collect()), Null]),
            ok: plain_ok,
        }),
        contain::<Variant>(deep, Cont {
            name: "a described map",
            mk: || Variant::Described((t::Descriptor::Ulong(9), Box::new(Variant::Map(t::VariantMap::new(Default::default()))))),
            push: |x, k| if let Variant::Described(d) = x { if let Variant::Map(m) = &mut *d.1 { let n = m.map.len(); m.map.insert(Variant::from(bstr(key(n))), Variant::from_rv(&any(k))); } },
            set: |x, i, k| if let Variant::Described(d) = x { if let Variant::Map(m) = &mut *d.1 { m.map.insert(Variant::from(bstr(key(i))), Variant::from_rv(&any(k))); } },
            pop: Some(|x| if let Variant::Described(d) = x { if let Variant::Map(m) = &mut *d.1 { let n = m.map.len(); m.map.remove(&Variant::from(key(n - 1))); } }),
            rv: |e| RV::desc(9, str_map(e)),
            ok: plain_ok,
        }),
        contain::<t::VecVariantMap>(deep, Cont { name: "application properties", mk: Default::default, push: |x, k| { let n = x.len(); x.push((t::Str::from_str(key(n)), Variant::from_rv(&any(k)))) }, set: |x, i, k| x[i].1 = Variant::from_rv(&any(k)), pop: Some(|x| { x.pop(); }), rv: str_map, ok: plain_ok }),
        contain::<p::StringVariantMap>(deep, Cont { name: "a map with string keys", mk: Default::default, push: |x, k| { let n = x.len(); x.insert(t::Str::from(key(n)), Variant::from_rv(&any(k))); }, set: |x, i, k| { x.insert(t::Str::from(key(i)), Variant::from_rv(&any(k))); }, pop: Some(|x| { let n = x.len(); x.remove(key(n - 1)); }), rv: str_map, ok: plain_ok }),
        contain::<p::Fields>(deep, Cont { name: "a map with symbolic keys", mk: Default::default, push: |x, k| { let n = x.len(); x.insert(t::Symbol::from(key(n)), Variant::from_rv(&any(k))); }, set: |x, i, k| { x.insert(t::Symbol::from(key(i)), Variant::from_rv(&any(k))); }, pop: Some(|x| { let n = x.len(); x.remove(key(n - 1)); }), rv: sym_map, ok: plain_ok }),
        contain::<p::FilterSet>(deep, Cont { name: "a filter set", mk: Default::default, push: |x, k| { let n = x.len(); x.insert(t::Symbol::from(key(n)), if k == 0 { None } else { Some(bstr(sym(k))) }); }, set: |x, i, k| { x.insert(t::Symbol::from(key(i)), if k == 0 { None } else { Some(bstr(sym(k))) }); }, pop: Some(|x| { let n = x.len(); x.remove(key(n - 1)); }), rv: |e| Map(e.iter().enumerate().map(|(i, k)| (Sym(key(i).into()), if *k == 0 { Null } else { Str(sym(*k).into()) })).collect()), ok: plain_ok }),
        contain::<MessageBody>(deep, Cont { name: "the data of a body", mk: Default::default, push: |x, k| x.data.push(Bytes::from_static(sym(k).as_bytes())), set: |x, i, k| x.data[i] = Bytes::from_static(sym(k).as_bytes()), pop: Some(|x| { x.data.pop(); }), rv: data_rv, ok: body_ok }),
        contain::<MessageBody>(deep, Cont { name: "the raw parts of a body", mk: Default::default, push: |x, k| x.messages.push(Bytes::from_static(sym(k).as_bytes()).into()), set: |x, i, k| x.messages[i] = Bytes::from_static(sym(k).as_bytes()).into(), pop: Some(|x| { x.messages.pop(); }), rv: data_rv, ok: body_ok }),
        contain::<MessageBody>(deep, Cont {
            name: "the messages of a body",
            mk: Default::default,
            push: |x, k| x.messages.push(if k % 2 == 0 { TransferBody::from(InMessage::with_body(Bytes::from_static(sym(k).as_bytes()))) } else { TransferBody::from(OutMessage::with_body(Bytes::from_static(sym(k).as_bytes()))) }),
            set: |x, i, k| x.messages[i] = if k % 2 == 0 { TransferBody::from(InMessage::with_body(Bytes::from_static(sym(k).as_bytes()))) } else { TransferBody::from(OutMessage::with_body(Bytes::from_static(sym(k).as_bytes()))) },
            pop: Some(|x| { x.messages.pop(); }),
            rv: |e| List(e.iter().map(|k| RV::desc(0x75, Bin(rv::compact(&RV::desc(0x75, Bin(sym(*k).as_bytes().to_vec())))))).collect()),
            ok: body_ok,
        }),
        contain::<MessageBody>(deep, Cont { name: "the sequences of a body", mk: Default::default, push: |x, k| x.sequence.push(t::List(vec![Variant::from_rv(&any(k))])), set: |x, i, k| x.sequence[i].0[0] = Variant::from_rv(&any(k)), pop: Some(|x| { x.sequence.pop(); }), rv: |e| List(e.iter().map(|k| RV::desc(0x76, List(vec![any(*k)]))).collect()), ok: body_ok }),
        contain::<p::Open>(deep, Cont {
            name: "the properties of an open",
            mk: || p::Open::from_rv(&filled(spec::comp("open"), &spec::minimal(spec::comp("open")))),
            push: |x, k| { let m = x.properties.get_or_insert_with(Default::default); let n = m.len(); m.insert(t::Symbol::from(key(n)), Variant::from_rv(&any(k))); },
            set: |x, i, k| { x.properties.as_mut().unwrap().insert(t::Symbol::from(key(i)), Variant::from_rv(&any(k))); },
            pop: None,
            rv: |e| {
                let co = spec::comp("open");
                let mut r = filled(co, &spec::minimal(co));
                if let Desc(_, l) = &mut r {
                    if let List(l) = &mut **l {
                        let i = co.fields.iter().position(|f| f.name == "properties").expect("harness: properties");
                        l[i] = if e.is_empty() { Null } else { sym_map(e) };
                    }
                }
                r
            },
            ok: |w, b| {
                let got = rv::parse_all(b).map_err(|e| format!("{} ({})", e, hex(b)))?;
                let got = spec::norm_comp(spec::comp("open"), &got)?;
                ensure!(got.same(w), "it is encoded as {:?} instead of {:?}", got, w);
                Ok(())
            },
        }),
    ]
}

// ------------------------------------------------------------------ clones that go their own ways

fn clones<M: messages::Api + 'static>(deep: bool) -> Unit {
    unit(format!("two {}s, clones of one another", M::NAME), 0, move |c: &mut Ctx| {
        const OPS: [usize; 8] = [0, 2, 4, 7, 8, 11, 14, 17];
        let depth = if deep { 5 } else { 4 };
        let start = c.choose(3);
        let mut x = messages::Msg::default();
        let mut m = M::default();
        for o in [&[][..], &[1, 7], &[2, 18]][start] {
            m = messages::apply(*o, m, &mut x)?;
        }
        if c.flip() {
            let _ = m.encoded_size();
        }
        let mut two = [(m.clone(), x.clone()), (m, x)];
        for _ in 0..depth {
            let k = c.choose(23);
            match k {
                0..=15 => {
                    let (m, mut x) = two[k / 8].clone();
                    // by value, not through the clone: put something else there meanwhile
                    let m = {
                        drop(m);
                        std::mem::take(&mut two[k / 8].0)
                    };
                    let m = messages::apply(OPS[k % 8], m, &mut x)?;
                    two[k / 8] = (m, x);
                }
                16 => two[1] = two[0].clone(),
                17 => two[0] = two[1].clone(),
                18 => {
                    let _ = two[0].0.encoded_size();
                }
                19 => {
                    let _ = two[1].0.encoded_size();
                }
                20 => two.swap(0, 1),
                21 => {
                    // inside another message
                    let (m, x) = two[0].clone();
                    let mut y = messages::Msg::default();
                    y.nested.push(messages::Part::Msg(x));
                    two[0] = (M::with_messages(vec![m.part()]), y);
                }
                _ => break,
            }
            c.say(|| format!("operation {}", k));
        }
        c.state(&(&two[0].1, &two[1].1));
        let sizes: Vec<usize> = two.iter().map(|t| t.0.encoded_size()).collect();
        for (i, (m, x)) in two.iter().enumerate() {
            let mut o = BytesMut::with_capacity(16384);
            let again = m.encoded_size();
            m.encode(&mut o);
            ensure!(sizes[i] == o.len() && again == o.len(), "message {}: announced {} and {} bytes, wrote {}", i, sizes[i], again, o.len());
            let got = messages::parse_msg(&o).map_err(|e| format!("message {}: {} ({})", i, e, hex(&o)))?;
            x.arrives_as(&got).map_err(|e| format!("message {}: {} ({})", i, e, hex(&o)))?;
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ large frames

struct Big {
    name: String,
    bytes: Vec<u8>,
    /// None: refused
    good: Option<Af>,
}

fn bigs() -> &'static Vec<Big> {
    thread_local! {
        // frames are not Sync: every worker has its own
        static S: std::cell::OnceCell<&'static Vec<Big>> = const { std::cell::OnceCell::new() };
    }
    S.with(|s| *s.get_or_init(|| {
        let mut o = vec![];
        for n in [8usize, 60, 300, 4095, 4096, 4097, 4100, 4104, 5000, 9000, 32_768, 32_776, 40_000, 70_000] {
            if n == 8 {
                let mut f = put_frame(0, 7, &[], &[]);
                o.push(Big { name: "an empty frame".into(), bytes: f.clone(), good: Some(empty(7)) });
                f[5] = 1;
                o.push(Big { name: "an empty frame of type 1".into(), bytes: f, good: None });
                continue;
            }
            let co = spec::comp("transfer");
            let tr = filled(co, &spec::minimal(co));
            let head = rv::compact(&tr);
            let fill: Vec<u8> = (0..n - 8 - head.len()).map(|i| (i % 251) as u8).collect();
            let a = build(n as u16, &tr, Some(TransferBody::Data(Bytes::from(fill.clone()))));
            let body = [&head[..], &fill].concat();
            let bytes = put_frame(0, n as u16, &[], &body);
            let mut bad = bytes.clone();
            bad[5] = 2;
            o.push(Big { name: format!("a transfer of {}", n), bytes, good: Some(a) });
            o.push(Big { name: format!("a transfer of {} and type 2", n), bytes: bad, good: None });
            // an open with a long name
            let co = spec::comp("open");
            let mut r = filled(co, &spec::minimal(co));
            let mut room = n - 8 - rv::compact(&r).len();
            loop {
                if let Desc(_, l) = &mut r {
                    if let List(l) = &mut **l {
                        l[0] = Str("n".repeat(room));
                    }
                }
                if 8 + rv::compact(&r).len() <= n || room == 0 {
                    break;
                }
                room -= 1;
            }
            let w = rv::compact(&r);
            let a = build(3, &r, None);
            o.push(Big { name: format!("an open of {}", 8 + w.len()), bytes: put_frame(0, 3, &[], &w), good: Some(a) });
            let mut bad = w.clone();
            let l = bad.len();
            bad[l / 2] = 0xff;
            if rv::parse_all(&bad).is_err() {
                o.push(Big { name: format!("an open of {} that is not UTF-8", 8 + l), bytes: put_frame(0, 3, &[], &bad), good: None });
            }
            let mut bad = w.clone();
            bad.push(0x40);
            o.push(Big { name: format!("an open of {} and one byte more", 8 + l), bytes: put_frame(0, 3, &[], &bad), good: None });
            let bad = &w[..l - 1];
            o.push(Big { name: format!("an open of {} without its last byte", 8 + l), bytes: put_frame(0, 3, &[], bad), good: None });
            let mut bad = w.clone();
            bad[2] = 0x09;
            o.push(Big { name: format!("{} bytes with an unknown descriptor", 8 + l), bytes: put_frame(0, 3, &[], &bad), good: None });
        }
        Box::leak(Box::new(o))
    }))
}

fn feed(k: &mut AmqpCodec<AmqpFrame>, b: &mut BytesMut, x: &Big) -> R {
    match (k.decode(b), &x.good) {
        (Ok(Some(f)), Some(a)) => same_frame(a, &f).map_err(|e| format!("{}: {}", x.name, e)),
        (Err(_), None) => Ok(()),
        (r, _) => Err(format!("{} is answered with {}", x.name, crate::explore::clip(&format!("{:?}", r), 300))),
    }
}

fn large_frames(deep: bool) -> Vec<Unit> {
    let seq = |c: &mut Ctx, xs: &[&Big], how: usize| -> R {
        let names: Vec<&str> = xs.iter().map(|x| &x.name[..]).collect();
        c.say(|| format!("{:?} / {}", names, how));
        let r: R = match how {
            0 => {
                // one connection, everything at once
                let mut b = BytesMut::new();
                for x in xs {
                    b.extend_from_slice(&x.bytes);
                }
                let mut k = AmqpCodec::new();
                xs.iter().try_for_each(|x| feed(&mut k, &mut b, x))
            }
            1 => {
                // one connection, its buffer grows and shrinks
                let mut b = BytesMut::new();
                let mut k = AmqpCodec::new();
                xs.iter().try_for_each(|x| {
                    let h = x.bytes.len() / 2;
                    b.extend_from_slice(&x.bytes[..h]);
                    match k.decode(&mut b) {
                        Ok(None) => {}
                        r => return Err(format!("half of {} is answered with {}", x.name, crate::explore::clip(&format!("{:?}", r), 300))),
                    }
                    b.extend_from_slice(&x.bytes[h..]);
                    feed(&mut k, &mut b, x)
                })
            }
            2 => xs.iter().try_for_each(|x| feed(&mut AmqpCodec::new(), &mut BytesMut::from(&x.bytes[..]), x)),
            _ => {
                // connections that have all received half of it
                let mut ks: Vec<(AmqpCodec<AmqpFrame>, BytesMut)> = xs.iter().map(|x| (AmqpCodec::new(), BytesMut::from(&x.bytes[..x.bytes.len() / 2]))).collect();
                for (k, b) in &mut ks {
                    if let r @ (Ok(Some(_)) | Err(_)) = k.decode(b) {
                        return Err(format!("half a frame is answered with {}", crate::explore::clip(&format!("{:?}", r), 300)));
                    }
                }
                xs.iter().zip(&mut ks).rev().try_for_each(|(x, (k, b))| {
                    b.extend_from_slice(&x.bytes[x.bytes.len() / 2..]);
                    feed(k, b, x)
                })
            }
        };
        r.map_err(|e| format!("{} (in {:?})", e, names))?;
        c.traces(xs.len() as u64 - 1);
        Ok(())
    };
    vec![
        unit("frames of all sizes, good and bad, every pair", 0, move |c: &mut Ctx| {
            let bs = bigs();
            let (i, j) = (c.choose(bs.len()), c.choose(bs.len()));
            let how = c.choose(4);
            c.states(1);
            seq(c, &[&bs[i], &bs[j]], how)
        }),
        unit("frames of all sizes, good and bad, triples", 0, move |c: &mut Ctx| {
            let bs: Vec<&Big> = bigs().iter().filter(|b| deep || [8, 60, 5000, 40_000].iter().any(|n| b.bytes.len() <= *n && b.bytes.len() + 2 > *n)).collect();
            let (i, j, k) = (c.choose(bs.len()), c.choose(bs.len()), c.choose(bs.len()));
            let how = if deep { c.choose(2) } else { c.choose(4) };
            c.states(1);
            seq(c, &[bs[i], bs[j], bs[k]], how)
        }),
    ]
}

// ------------------------------------------------------------------ threads

/// The thing goes to the other thread as a whole, and nothing of it stays behind.
struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}
impl<T> Moved<T> {
    fn open(self) -> T {
        self.0
    }
}

fn there<T: 'static>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| s.spawn(move || Moved(f())).join()).map(Moved::open).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        format!("a panic in the other thread: {}", m.unwrap_or_default())
    })
}

fn threads(deep: bool) -> Unit {
    let k = kinds(deep);
    let makers: Vec<usize> = (0..k.len()).filter(|i| k[*i].mk.is_some()).collect();
    unit("made in one thread and used in another", 0, move |c: &mut Ctx| {
        let o = &k[makers[c.choose(makers.len())]];
        let mk = o.mk.as_ref().unwrap().clone();
        let how = c.choose(5);
        c.states(1);
        c.say(|| format!("{} / {}", o.name, how));
        let want = mk().rv();
        let w = rv::compact(&want);
        let n = o.name.clone();
        let look = move |it: &crate::items::BoxItem| -> R {
            let s = it.size();
            let mut b = BytesMut::with_capacity(s + 4096);
            it.enc(&mut b);
            ensure!(s == b.len(), "{}: announced {} bytes, wrote {}", n, s, b.len());
            let p = rv::parse_all(&b).map_err(|e| format!("{}: {} ({})", n, e, hex(&b)))?;
            it.check(&p).map_err(|e| format!("{}: {} ({})", n, e, hex(&b)))
        };
        match how {
            0 => {
                let it = there(move || mk())?;
                look(&it)
            }
            1 => {
                let it = there(move || {
                    let it = mk();
                    it.size();
                    it
                })?;
                look(&it)
            }
            2 => {
                let it = Moved(mk());
                it.0.size();
                there(move || {
                    let it = it.open();
                    look(&it)
                })?
            }
            3 => {
                // the other thread has seen other things before
                let it = Moved(mk());
                there(move || {
                    for o in probes().iter().take(14) {
                        for w in 0..o.ways {
                            (o.f)(w)?;
                        }
                    }
                    let it = it.open();
                    look(&it)?;
                    look(&it)
                })?
            }
            _ => {
                // decoded there
                let (rest, got) = there(move || {
                    let it = mk();
                    it.dec(&w).map(|(r, x, _)| (r, x))
                })?
                .map_err(|e| format!("{}: refused in another thread: {:?}", o.name, e))?;
                ensure!(got.same(&want), "{}: decodes to {:?} in another thread ({} left)", o.name, got, rest as isize);
                Ok(())
            }
        }
    })
}

/// Contents that differ in one byte, or in the order of two, handled one after the other.
fn one_byte(deep: bool) -> Unit {
    unit("contents that differ in one byte, one after the other", 0, move |c: &mut Ctx| {
        let kind = c.choose(5);
        let mut ns: Vec<usize> = if kind == 0 { vec![16] } else { (1..=20).collect() };
        if kind != 0 {
            ns.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257].iter());
            if deep {
                ns.extend([511, 512, 513, 1023, 1024, 1025, 4097].iter());
            }
        }
        let n = *c.pick(&ns);
        let base: Vec<u8> = match c.choose(3) {
            0 => (0..n).map(|i| b'A' + (i % 53) as u8).collect(),
            1 => vec![b'z'; n],
            _ => (0..n).map(|i| if i + 1 < n { b'0' } else { b'1' }).collect(),
        };
        let mk = |b: &[u8]| -> RV {
            let t = || String::from_utf8(b.to_vec()).expect("text");
            match kind {
                0 => {
                    let mut u = [0; 16];
                    u.copy_from_slice(b);
                    RV::Uuid(u)
                }
                1 => Bin(b.to_vec()),
                2 => Str(t()),
                3 => Sym(t()),
                _ => RV::desc(5, List(vec![Str(t()), Bin(b.to_vec())])),
            }
        };
        // one byte changed, or two exchanged
        let i = *c.pick(&places(n));
        let mut w = base.clone();
        match c.choose(6) {
            0 => w[i] = b'#',
            1 => w[i] ^= 1,
            how => {
                let j = match how {
                    2 => i + 1,
                    3 => i + 2,
                    4 => i + 8,
                    _ => n - 1 - i,
                };
                if j >= n {
                    return Ok(());
                }
                w.swap(i, j);
            }
        }
        if w == base {
            return Ok(());
        }
        let (a, b) = (mk(&base), mk(&w));
        c.state(&(&a, &b));
        c.say(|| format!("{:?} ; {:?}", a, b));
        c.sample(|| format!("{:?} ; {:?}", a, b));
        let put = |r: &RV, x: &Variant| -> R {
            ensure!(x.encoded_size() == super::messages::enc_blind(x).len(), "{:?} announces {} bytes and writes {}", r, x.encoded_size(), super::messages::enc_blind(x).len());
            let p = rv::parse_all(&super::messages::enc_blind(x))?;
            ensure!(p.same(r), "{:?} is written as {:?}", r, p);
            Ok(())
        };
        let (x, y) = (Variant::from_rv(&a), Variant::from_rv(&b));
        put(&a, &x)?;
        put(&b, &y).map_err(|e| format!("{} after {:?}", e, a))?;
        put(&a, &x).map_err(|e| format!("{} after {:?}", e, b))?;
        let ds = decs_of(&a);
        for form in [rv::compact, rv::widest] {
            for d in &ds {
                let ds = [*d];
                decode_as(&ds, &form(&a), &a)?;
                decode_as(&ds, &form(&b), &b).map_err(|e| format!("{} after {:?}", e, a))?;
                decode_as(&ds, &form(&a), &a).map_err(|e| format!("{} after {:?}", e, b))?;
                c.traces(3);
            }
        }
        Ok(())
    })
}

pub fn units(deep: bool) -> Vec<Unit> {
    let _ = (tail, decs, Arc::new(0));
    let mut us = vec![twin_pairs(deep), one_byte(deep)];
    us.extend(long_runs(deep));
    us.extend(text_families(deep));
    us.extend(containers(deep));
    us.push(clones::<InMessage>(deep));
    us.push(clones::<OutMessage>(deep));
    us.extend(large_frames(deep));
    us.push(threads(deep));
    us
}
