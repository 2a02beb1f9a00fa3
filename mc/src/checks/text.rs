//! C14: equality, hashing and ordering of text and of polymorphic values.
use crate::conv::{bstr, ToRv};
use crate::explore::{unit, Ctx, Unit, R};
use crate::rv::{self, RV};
use crate::util::*;
use amqp_codec::types::{ByteStr, Descriptor, List, Multiple, StaticSymbol, Str, Symbol, Variant, VariantMap};
use amqp_codec::Decode;
use bytes::Bytes;
use hashbrown::HashMap;
use ordered_float::OrderedFloat;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::OnceLock;

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// every text of up to three of these characters, and longer ones with a common prefix
fn texts() -> &'static Vec<&'static str> {
    static S: OnceLock<Vec<&'static str>> = OnceLock::new();
    S.get_or_init(|| {
        let cs = ["a", "b", "A", "\0", "\u{e9}", "\u{ffff}", "\u{10000}"];
        let mut v: Vec<String> = vec![String::new()];
        let mut last = v.clone();
        for _ in 0..3 {
            last = last.iter().flat_map(|p| cs.iter().map(move |c| format!("{}{}", p, c))).collect();
            v.extend(last.clone());
        }
        for n in [7usize, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 300] {
            let s: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            v.push(s.clone());
            v.push(format!("{}!", &s[..n - 1]));
            v.push(format!("!{}", &s[1..]));
        }
        v.sort();
        v.dedup();
        v.into_iter().map(leak).collect()
    })
}

fn std_hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn map_hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = hashbrown::hash_map::DefaultHashBuilder::default().build_hasher();
    x.hash(&mut h);
    h.finish()
}

/// the ways a text can be held
const REPS: usize = 4;
fn strs(s: &'static str) -> Vec<Str> {
    // received inside a larger buffer
    let mut wire = vec![0xa1, 0];
    let mut w2 = rv::widest(&RV::Str(s.into()));
    std::mem::swap(&mut wire, &mut w2);
    wire.extend_from_slice(b"rest");
    vec![
        Str::Static(s),
        Str::ByteStr(bstr(s)),
        Str::from_str(s),
        Str::decode(&wire).expect("harness: text").1,
    ]
}
fn syms(s: &'static str) -> Vec<Symbol> {
    vec![
        Symbol::from(s),
        Symbol(Str::ByteStr(bstr(s))),
        Symbol::from_slice(s),
        Symbol::from(bstr(s)),
    ]
}

fn pair_of_texts(c: &mut Ctx) -> R {
    let ts = texts();
    let a = *c.pick(ts);
    c.say(|| format!("text {:?} against all others", a));
    let (ra, ya) = (strs(a), syms(a));
    let mut n = 0u64;
    for b in ts.iter().copied() {
        let (rb, yb) = (strs(b), syms(b));
        let eq = a == b;
        let ord = a.cmp(b);
        for (i, x) in ra.iter().enumerate() {
            ensure!((*x == *b) == eq, "text {:?} (form {}) == {:?} is {}", a, i, b, !eq);
            for (j, y) in rb.iter().enumerate() {
                n += 1;
                ensure!((x == y) == eq && (x != y) != eq, "{:?} == {:?} (forms {} and {}) is {}", x, y, i, j, !eq);
                ensure!(
                    x.cmp(y) == ord && x.partial_cmp(y) == Some(ord) && (x < y) == (ord == Ordering::Less) && (x >= y) == (ord != Ordering::Less),
                    "{:?} and {:?} (forms {} and {}) are ordered {:?} instead of {:?}",
                    x,
                    y,
                    i,
                    j,
                    x.cmp(y),
                    ord
                );
                if eq {
                    ensure!(
                        std_hash(x) == std_hash(y) && map_hash(x) == map_hash(y),
                        "equal texts {:?} and {:?} (forms {} and {}) hash differently",
                        x,
                        y,
                        i,
                        j
                    );
                }
            }
        }
        for (i, x) in ya.iter().enumerate() {
            ensure!((*x == *b) == eq, "symbol {:?} (form {}) == {:?} is {}", a, i, b, !eq);
            for (j, y) in yb.iter().enumerate() {
                n += 1;
                ensure!((x == y) == eq && (x != y) != eq, "symbols {:?} == {:?} (forms {} and {}) is {}", x, y, i, j, !eq);
                if eq {
                    ensure!(
                        std_hash(x) == std_hash(y) && map_hash(x) == map_hash(y),
                        "equal symbols {:?} and {:?} (forms {} and {}) hash differently",
                        x,
                        y,
                        i,
                        j
                    );
                }
            }
        }
        // polymorphic values compared with text
        for x in [Variant::String(ra[1].clone()), Variant::String(ra[0].clone()), Variant::Symbol(ya[0].clone()), Variant::Symbol(ya[2].clone())] {
            n += 1;
            ensure!((x == *b) == eq, "{:?} == {:?} is {}", x, b, !eq);
        }
        ensure!((StaticSymbol(a) == StaticSymbol(b)) == eq, "static symbols {:?} == {:?} is {}", a, b, !eq);
    }
    // the text alone is hashed: a lookup by text finds the entry
    for x in &ra {
        ensure!(std_hash(x) == std_hash(a) && map_hash(x) == map_hash(a), "{:?} hashes differently from its text", x);
        let t: &str = std::borrow::Borrow::borrow(x);
        ensure!(t == a && x.as_str() == a && x.as_bytes() == a.as_bytes() && x.len() == a.len(), "{:?} holds {:?}", x, t);
        let s: ByteStr = x.as_bytes_str();
        let s: &str = &s;
        ensure!(s == a, "{:?} as bytes is {:?}", x, s);
    }
    for x in &ya {
        ensure!(std_hash(x) == std_hash(a) && map_hash(x) == map_hash(a), "{:?} hashes differently from its text", x);
        let t: &str = std::borrow::Borrow::borrow(x);
        ensure!(t == a && x.as_str() == a && x.as_bytes() == a.as_bytes() && x.len() == a.len(), "{:?} holds {:?}", x, t);
    }
    c.traces(n);
    c.states(n);
    c.outcome_n("pairs of texts", n);
    Ok(())
}

/// maps of up to three entries, every lookup in every form
fn lookups(c: &mut Ctx) -> R {
    let keys: Vec<&'static str> = vec!["", "a", "b", "ab", "\0", "\u{e9}", static_str(40)];
    let n = c.choose(4);
    let mut ks: Vec<(usize, usize)> = vec![];
    for _ in 0..n {
        let k = c.choose(keys.len());
        let f = c.choose(REPS);
        ks.push((k, f));
    }
    c.say(|| format!("entries {:?}", ks));
    c.state(&ks);
    let mut m: HashMap<Symbol, usize> = HashMap::default();
    let mut p: HashMap<Str, usize> = HashMap::default();
    let mut s: std::collections::HashMap<Str, usize> = Default::default();
    let mut b: std::collections::BTreeMap<Str, usize> = Default::default();
    let mut v: HashMap<Variant, usize> = HashMap::default();
    let mut want: Vec<Option<usize>> = vec![None; keys.len()];
    for (i, (k, f)) in ks.iter().enumerate() {
        m.insert(syms(keys[*k])[*f].clone(), i);
        p.insert(strs(keys[*k])[*f].clone(), i);
        s.insert(strs(keys[*k])[*f].clone(), i);
        b.insert(strs(keys[*k])[*f].clone(), i);
        v.insert(Variant::String(strs(keys[*k])[*f].clone()), i);
        v.insert(Variant::Symbol(syms(keys[*k])[*f].clone()), i + 100);
        want[*k] = Some(i);
    }
    let cnt = want.iter().filter(|w| w.is_some()).count();
    ensure!(m.len() == cnt && p.len() == cnt && s.len() == cnt && b.len() == cnt && v.len() == 2 * cnt, "the same text in two forms makes two entries");
    for (k, w) in keys.iter().zip(&want) {
        let w = *w;
        for f in 0..REPS {
            let (st, sy) = (&strs(k)[f], &syms(k)[f]);
            ensure!(m.get(sy).copied() == w, "lookup of symbol {:?} finds {:?} instead of {:?}", sy, m.get(sy), w);
            ensure!(p.get(st).copied() == w, "lookup of {:?} finds {:?} instead of {:?}", st, p.get(st), w);
            ensure!(s.get(st).copied() == w, "lookup of {:?} finds {:?} instead of {:?}", st, s.get(st), w);
            ensure!(b.get(st).copied() == w, "ordered lookup of {:?} finds {:?} instead of {:?}", st, b.get(st), w);
            ensure!(v.get(&Variant::String(st.clone())).copied() == w, "lookup of polymorphic {:?} fails", st);
            ensure!(v.get(&Variant::Symbol(sy.clone())).copied() == w.map(|x| x + 100), "lookup of polymorphic symbol {:?} fails", sy);
        }
        let t: &str = k;
        ensure!(m.get(t).copied() == w, "lookup of symbol by text {:?} finds {:?} instead of {:?}", t, m.get(t), w);
        ensure!(p.get(t).copied() == w, "lookup by text {:?} finds {:?} instead of {:?}", t, p.get(t), w);
        ensure!(s.get(t).copied() == w, "lookup by text {:?} finds {:?} instead of {:?}", t, s.get(t), w);
        ensure!(b.get(t).copied() == w, "ordered lookup by text {:?} finds {:?} instead of {:?}", t, b.get(t), w);
    }
    c.traces(keys.len() as u64 * (REPS as u64 + 1));
    c.outcome("map of texts");
    Ok(())
}

fn vals(deep: bool) -> Vec<Variant> {
    let st = |s: &'static str| Variant::String(Str::Static(s));
    let sb = |s: &'static str| Variant::String(Str::ByteStr(bstr(s)));
    let ys = |s: &'static str| Variant::Symbol(Symbol::from(s));
    let yb = |s: &'static str| Variant::Symbol(Symbol::from_slice(s));
    let mut v = vec![Variant::Null, Variant::Boolean(true), Variant::Boolean(false)];
    for x in [0u64, 1, 255] {
        v.push(Variant::Ubyte(x as u8));
        v.push(Variant::Ushort(x as u16));
        v.push(Variant::Uint(x as u32));
        v.push(Variant::Ulong(x));
        v.push(Variant::Byte(x as i8));
        v.push(Variant::Short(x as i16));
        v.push(Variant::Int(x as i32));
        v.push(Variant::Long(x as i64));
    }
    for x in [0u32, 0x8000_0000, 0x3f80_0000, 0x7fc0_0000, 0xffc0_0000, 0x7f80_0001, 0x7f80_0000, 0xff80_0000, 1] {
        v.push(Variant::Float(OrderedFloat(f32::from_bits(x))));
    }
    for x in [0u64, 1 << 63, 0x3ff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0xfff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 0x7ff0_0000_0000_0000, 1] {
        v.push(Variant::Double(OrderedFloat(f64::from_bits(x))));
    }
    v.push(Variant::Char('a'));
    v.push(Variant::Char('\u{10ffff}'));
    v.push(Variant::Timestamp(crate::conv::ts(0)));
    v.push(Variant::Timestamp(crate::conv::ts(-1)));
    v.push(Variant::Uuid(uuid::Uuid::from_bytes([0; 16])));
    v.push(Variant::Uuid(uuid::Uuid::from_bytes([1; 16])));
    v.push(Variant::Binary(Bytes::new()));
    v.push(Variant::Binary(Bytes::from_static(b"a")));
    v.push(Variant::Binary(Bytes::from(b"a".to_vec())));
    v.push(Variant::Binary(Bytes::from(vec![0; 100])));
    for s in ["", "a", "b", "\0"] {
        v.push(st(s));
        v.push(sb(s));
        v.push(ys(s));
        v.push(yb(s));
        v.push(Variant::StaticSymbol(StaticSymbol(s)));
    }
    // compounds of these
    let base: Vec<Variant> = vec![
        Variant::Null,
        Variant::Uint(1),
        st("a"),
        sb("a"),
        ys("a"),
        yb("a"),
        sb("b"),
        Variant::Float(OrderedFloat(0.0)),
        Variant::Float(OrderedFloat(-0.0)),
        Variant::Double(OrderedFloat(f64::NAN)),
        Variant::Double(OrderedFloat(-f64::NAN)),
    ];
    let map = |e: Vec<(Variant, Variant)>| {
        let mut m = HashMap::default();
        for (k, x) in e {
            m.insert(k, x);
        }
        Variant::Map(VariantMap::new(m))
    };
    let big = |e: Vec<(Variant, Variant)>| {
        // another capacity, another iteration order
        let mut m = HashMap::with_capacity_and_hasher(64, Default::default());
        for (k, x) in e.into_iter().rev() {
            m.insert(k, x);
        }
        Variant::Map(VariantMap::new(m))
    };
    v.push(Variant::List(List(vec![])));
    v.push(map(vec![]));
    v.push(big(vec![]));
    let mut comp = vec![];
    for x in &base {
        comp.push(Variant::List(List(vec![x.clone()])));
        comp.push(map(vec![(x.clone(), Variant::Null)]));
        comp.push(map(vec![(Variant::Null, x.clone())]));
        comp.push(Variant::Described((Descriptor::Ulong(1), Box::new(x.clone()))));
    }
    for (i, x) in base.iter().enumerate() {
        for (j, y) in base.iter().enumerate() {
            if i >= (if deep { 11 } else { 6 }) || j >= (if deep { 11 } else { 6 }) {
                continue;
            }
            comp.push(Variant::List(List(vec![x.clone(), y.clone()])));
            comp.push(map(vec![(x.clone(), y.clone()), (Variant::Uint(7), Variant::Uint(8))]));
            comp.push(big(vec![(x.clone(), y.clone()), (Variant::Uint(7), Variant::Uint(8))]));
            // the values of two keys exchanged
            comp.push(map(vec![(x.clone(), Variant::Uint(8)), (Variant::Uint(7), y.clone())]));
        }
    }
    for d in [Descriptor::Symbol(Symbol::from("a")), Descriptor::Symbol(Symbol::from_slice("a")), Descriptor::Symbol(Symbol::from("b")), Descriptor::Ulong(0), Descriptor::Ulong(1)] {
        comp.push(Variant::Described((d.clone(), Box::new(Variant::Null))));
        comp.push(Variant::Described((d, Box::new(st("a")))));
    }
    // maps in maps, as key and as value
    let inner: Vec<Variant> = vec![
        map(vec![(st("a"), Variant::Uint(1)), (st("b"), Variant::Uint(2))]),
        big(vec![(sb("a"), Variant::Uint(1)), (sb("b"), Variant::Uint(2))]),
        map(vec![(st("a"), Variant::Uint(2)), (st("b"), Variant::Uint(1))]),
        map(vec![]),
    ];
    for x in &inner {
        comp.push(x.clone());
        comp.push(map(vec![(x.clone(), Variant::Null)]));
        comp.push(map(vec![(Variant::Null, x.clone())]));
        comp.push(Variant::List(List(vec![x.clone(), x.clone()])));
        comp.push(map(vec![(map(vec![(x.clone(), x.clone())]), Variant::List(List(vec![x.clone()])))]));
        comp.push(Variant::Described((Descriptor::Ulong(1), Box::new(x.clone()))));
    }
    v.extend(comp);
    v
}

/// Content with the equalities floating point has.
fn key(v: &Variant) -> RV {
    fn fix(r: RV) -> RV {
        match r {
            RV::Float(x) if f32::from_bits(x).is_nan() => RV::Float(0x7fc0_0000),
            RV::Float(0x8000_0000) => RV::Float(0),
            RV::Double(x) if f64::from_bits(x).is_nan() => RV::Double(0x7ff8_0000_0000_0000),
            RV::Double(0x8000_0000_0000_0000) => RV::Double(0),
            RV::List(l) => RV::List(l.into_iter().map(fix).collect()),
            RV::Map(m) => RV::Map(m.into_iter().map(|(a, b)| (fix(a), fix(b))).collect()),
            RV::Desc(a, b) => RV::Desc(a, Box::new(fix(*b))),
            x => x,
        }
    }
    fix(v.rv()).canon()
}

struct Known {
    v: Vec<Variant>,
    keys: Vec<RV>,
    hashes: Vec<(u64, u64)>,
    /// a static symbol is somewhere inside: whether it equals a symbol is not settled
    free: Vec<bool>,
}
fn known(deep: bool) -> &'static Known {
    static S: [OnceLock<Known>; 2] = [OnceLock::new(), OnceLock::new()];
    S[usize::from(deep)].get_or_init(|| {
        let v = vals(deep);
        Known {
            keys: v.iter().map(key).collect(),
            hashes: v.iter().map(|x| (std_hash(x), map_hash(x))).collect(),
            free: v.iter().map(|x| matches!(x, Variant::StaticSymbol(_))).collect(),
            v,
        }
    })
}

/// Texts that lie in one buffer: the same place with different lengths, different places with the
/// same text, overlapping pieces.
fn shared_buffers(c: &mut Ctx) -> R {
    let whole: &'static str = "aabaab\u{e9}\0aabaab\u{e9}aaaaaaaaaaaaaaaaaaaaaaaab";
    let still = Bytes::from_static(whole.as_bytes());
    let heap = Bytes::from(whole.as_bytes().to_vec());
    let cuts: Vec<usize> = (0..=whole.len()).filter(|i| whole.is_char_boundary(*i)).collect();
    let ai = c.choose(cuts.len());
    let aj = ai + c.choose(cuts.len() - ai);
    let forms = |i: usize, j: usize| -> Vec<Str> {
        let t: &'static str = &whole[i..j];
        let of = |b: &Bytes| Str::ByteStr(string::TryFrom::try_from(b.slice(i, j)).expect("harness: text"));
        vec![Str::Static(t), of(&still), of(&heap), Str::from_str(t)]
    };
    let (i, j) = (cuts[ai], cuts[aj]);
    let a = &whole[i..j];
    c.say(|| format!("{:?} at {}..{}", a, i, j));
    c.state(&(i, j));
    let fa = forms(i, j);
    let mut n = 0u64;
    for bi in 0..cuts.len() {
        for bj in bi..cuts.len() {
            let (k, l) = (cuts[bi], cuts[bj]);
            let b = &whole[k..l];
            let eq = a == b;
            let ord = a.cmp(b);
            // every form against two of the other's
            for (u, x) in fa.iter().enumerate() {
                let fb = forms(k, l);
                for y in [&fb[u], &fb[(u + 1 + (bi + bj) % 3) % 4]].iter() {
                    n += 1;
                    let y: &Str = y;
                    ensure!((x == y) == eq && (x != y) != eq, "{:?} == {:?} ({}..{} and {}..{} of one buffer) is {}", x, y, i, j, k, l, !eq);
                    ensure!(x.cmp(y) == ord, "{:?} and {:?} ({}..{} and {}..{} of one buffer) are ordered {:?}", x, y, i, j, k, l, x.cmp(y));
                    ensure!((*x == *b) == eq, "{:?} == {:?} ({}..{} and {}..{} of one buffer) is {}", x, b, i, j, k, l, !eq);
                    ensure!(
                        (Symbol(x.clone()) == Symbol(y.clone())) == eq && (Symbol(x.clone()) == *b) == eq,
                        "symbols {:?} == {:?} ({}..{} and {}..{} of one buffer) is {}",
                        x,
                        y,
                        i,
                        j,
                        k,
                        l,
                        !eq
                    );
                    ensure!(
                        (Variant::String(x.clone()) == Variant::String(y.clone())) == eq,
                        "polymorphic {:?} == {:?} ({}..{} and {}..{} of one buffer) is {}",
                        x,
                        y,
                        i,
                        j,
                        k,
                        l,
                        !eq
                    );
                    ensure!(!eq || (std_hash(x) == std_hash(y) && map_hash(x) == map_hash(y)), "{:?} and {:?} hash differently", x, y);
                }
            }
            let (x, y) = (Variant::Binary(heap.slice(i, j)), Variant::Binary(heap.slice(k, l)));
            ensure!((x == y) == eq, "{:?} == {:?} ({}..{} and {}..{} of one buffer) is {}", x, y, i, j, k, l, !eq);
        }
    }
    c.traces(n);
    c.states(n);
    c.outcome_n("pairs of texts", n);
    Ok(())
}

/// Values that differ in exactly one place: every length, every place.
fn one_place(c: &mut Ctx, deep: bool) -> R {
    let mut ns: Vec<usize> = (0..=40).collect();
    ns.extend([63, 64, 65, 127, 128, 129, 255, 256, 257].iter());
    if deep {
        ns.extend(130..255);
        ns.extend([511, 512, 513, 1000, 1023, 1024, 1025].iter());
    }
    let n = *c.pick(&ns);
    let kind = c.choose(8);
    c.say(|| format!("length {}, kind {}", n, kind));
    c.state(&(n, kind));
    if kind == 4 && n > 130 {
        // nesting deeper than this is the subject of other properties
        return Ok(());
    }
    // `at`: the place that differs
    let make = |at: Option<usize>, other: bool| -> Variant {
        let val = |i: usize| -> u32 {
            if at == Some(i) {
                1000
            } else {
                (i % 7) as u32
            }
        };
        let text = || -> String { (0..n).map(|i| if at == Some(i) { '#' } else { (b'a' + (i % 26) as u8) as char }).collect() };
        match kind {
            0 => Variant::List(List((0..n).map(|i| Variant::Uint(val(i))).collect())),
            1 | 2 => {
                let mut m = if other { HashMap::with_capacity_and_hasher(3 * n + 1, Default::default()) } else { HashMap::default() };
                let mut order: Vec<usize> = (0..n).collect();
                if other {
                    order.reverse();
                }
                for i in order {
                    if kind == 1 {
                        m.insert(Variant::Uint(i as u32), Variant::Uint(val(i)));
                    } else {
                        m.insert(Variant::Uint(if at == Some(i) { 5000 } else { i as u32 }), Variant::Uint(1));
                    }
                }
                Variant::Map(VariantMap::new(m))
            }
            3 => Variant::Binary(Bytes::from(text().into_bytes())),
            4 => {
                // at one depth something else stands beside
                let mut v = Variant::Null;
                for i in 0..n {
                    v = match i % 3 {
                        0 => Variant::List(List(vec![Variant::Uint(val(i)), v])),
                        1 => Variant::Described((Descriptor::Ulong(val(i) as u64), Box::new(v))),
                        _ => Variant::Map(VariantMap::new(Some((Variant::Uint(val(i)), v)).into_iter().collect())),
                    };
                }
                v
            }
            5 => Variant::String(if other { Str::Static(leaked(&text())) } else { Str::from_str(&text()) }),
            6 => Variant::Symbol(if other { Symbol::from(leaked(&text())) } else { Symbol::from_slice(&text()) }),
            _ => Variant::List(List(
                (0..n)
                    .map(|i| if i % 2 == 0 { Variant::from(bstr(&format!("{}", val(i)))) } else { Variant::Ulong(val(i) as u64) })
                    .collect(),
            )),
        }
    };
    let (a, b) = (make(None, false), make(None, true));
    ensure!(a == b && b == a, "two equal values of length {} (kind {}) are not equal", n, kind);
    ensure!(std_hash(&a) == std_hash(&b) && map_hash(&a) == map_hash(&b), "two equal values of length {} (kind {}) hash differently", n, kind);
    let mut seen: HashMap<Variant, usize> = HashMap::default();
    seen.insert(a.clone(), n);
    for at in 0..n {
        let d = make(Some(at), at % 2 == 0);
        ensure!(a != d && d != b, "values of length {} (kind {}) that differ at {} are equal", n, kind, at);
        ensure!(seen.insert(d.clone(), at).is_none(), "of the values of length {} (kind {}) the one differing at {} is found among the others", n, kind, at);
        if kind == 5 {
            let (x, y) = (a.as_str().unwrap(), d.as_str().unwrap());
            if let (Variant::String(p), Variant::String(q)) = (&a, &d) {
                ensure!(p.cmp(q) == x.cmp(y) && q.cmp(p) == y.cmp(x), "texts of length {} that differ at {} are ordered {:?}", n, at, p.cmp(q));
            }
        }
    }
    for at in 0..n {
        ensure!(seen.get(&make(Some(at), at % 2 == 1)) == Some(&at), "of the values of length {} (kind {}) the one differing at {} is not found", n, kind, at);
    }
    ensure!(seen.get(&b) == Some(&n), "the value of length {} (kind {}) is not found", n, kind);
    c.traces(4 * n as u64 + 2);
    c.states(n as u64);
    c.outcome_n("pairs of values", 2 * n as u64 + 1);
    Ok(())
}

/// Long texts and binaries that differ in one byte, or by one: in every place where something may
/// be cut.
fn long_texts(c: &mut Ctx) -> R {
    let ns: Vec<usize> = lengths(true).into_iter().filter(|n| *n > 257).collect();
    let n = *c.pick(&ns);
    let kind = c.choose(5);
    c.say(|| format!("length {}, kind {}", n, kind));
    c.states(1);
    let make = |b: &[u8], other: bool| -> Variant {
        let t = std::str::from_utf8(b).unwrap();
        match (kind, other) {
            (0, false) => Variant::Binary(Bytes::from(b)),
            (0, true) => Variant::Binary(Bytes::from_static(leaked(std::str::from_utf8(b).unwrap()).as_bytes())),
            (1, false) => Variant::String(Str::from_str(t)),
            (1, true) => Variant::String(Str::Static(leaked(t))),
            (2, false) => Variant::Symbol(Symbol::from_slice(t)),
            (2, true) => Variant::Symbol(Symbol::from(leaked(t))),
            (3, false) => Variant::from(bstr(t)),
            (3, true) => Variant::String(Str::from_str(t)),
            (_, false) => Variant::Described((Descriptor::Symbol(Symbol::from_slice(t)), Box::new(Variant::Null))),
            (_, true) => Variant::Described((Descriptor::Symbol(Symbol::from(leaked(t))), Box::new(Variant::Null))),
        }
    };
    let base: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    let (a, b) = (make(&base, false), make(&base, true));
    ensure!(a == b && b == a, "two equal values of length {} (kind {}) are not equal", n, kind);
    ensure!(std_hash(&a) == std_hash(&b) && map_hash(&a) == map_hash(&b), "two equal values of length {} (kind {}) hash differently", n, kind);
    let mut seen: HashMap<Variant, u32> = HashMap::default();
    seen.insert(a.clone(), 0);
    let mut k = 0;
    let mut look = |w: &[u8]| -> R {
        k += 1;
        let d = make(w, k % 7 == 0);
        let at = || w.iter().zip(&base).position(|(x, y)| x != y);
        ensure!(a != d && d != b && b != d, "values of lengths {} and {} (kind {}) that differ at {:?} are equal", n, w.len(), kind, at());
        ensure!(seen.insert(d.clone(), k).is_none(), "of the values of length {} (kind {}) the one that differs at {:?} is found among the others", n, kind, at());
        if let (Variant::String(p), Variant::String(q), Variant::String(r)) = (&a, &d, &b) {
            let (x, y) = (&base[..], w);
            ensure!(p.cmp(q) == x.cmp(y) && q.cmp(p) == y.cmp(x) && r.cmp(q) == x.cmp(y), "texts of length {} that differ at {:?} are ordered {:?}", n, at(), p.cmp(q));
            ensure!(p.as_str() != q.as_str() && *p != *q.as_str() && *r != *q.as_str(), "texts of length {} that differ at {:?} are equal", n, at());
        }
        if let (Variant::Symbol(p), Variant::Symbol(q)) = (&a, &d) {
            ensure!(*p != *q.as_str(), "symbols of length {} that differ at {:?} are equal", n, at());
        }
        Ok(())
    };
    let mut w = base.clone();
    for i in places(n) {
        w[i] = b'#';
        look(&w)?;
        w[i] = base[i];
    }
    look(&base[..n - 1])?;
    look(&base[1..])?;
    look(&[&base[..], b"a"].concat())?;
    look(&[b"#", &base[..]].concat())?;
    ensure!(seen.get(&b) == Some(&0), "the value of length {} (kind {}) is not found", n, kind);
    let k = seen.len() as u64;
    c.traces(k);
    c.outcome_n("pairs of values", 2 * k);
    Ok(())
}

/// Scalars of every type at every boundary and every number the sources name: equal exactly when
/// they are the same number in the same type.
fn scalars(c: &mut Ctx) -> R {
    static S: OnceLock<Vec<u64>> = OnceLock::new();
    let nums = S.get_or_init(|| {
        let mut v: Vec<u64> = (0..=16).collect();
        for b in 0..64 {
            for d in [-1i64, 0, 1].iter() {
                v.push((1u64 << b).wrapping_add(*d as u64));
                v.push((1u64 << b).wrapping_neg().wrapping_add(*d as u64));
            }
        }
        v.extend(dict().nums.iter());
        v.sort_unstable();
        v.dedup();
        v
    });
    let of = |x: u64| -> Vec<Variant> {
        let mut id = [0u8; 16];
        id[3] = (x >> 8) as u8;
        id[15] = x as u8;
        let mut v = vec![
            Variant::Ubyte(x as u8),
            Variant::Ushort(x as u16),
            Variant::Uint(x as u32),
            Variant::Ulong(x),
            Variant::Byte(x as i8),
            Variant::Short(x as i16),
            Variant::Int(x as i32),
            Variant::Long(x as i64),
            Variant::Float(OrderedFloat(f32::from_bits(x as u32))),
            Variant::Double(OrderedFloat(f64::from_bits(x))),
            Variant::Uuid(uuid::Uuid::from_bytes(id)),
        ];
        if let Some(t) = std::char::from_u32(x as u32) {
            v.push(Variant::Char(t));
        }
        if (-8_000_000_000_000_000..8_000_000_000_000_000).contains(&(x as i64)) {
            v.push(Variant::Timestamp(crate::conv::ts(x as i64)));
        }
        v
    };
    let x = *c.pick(nums);
    c.say(|| format!("number {:#x}", x));
    c.state(&x);
    let xs = of(x);
    let kx: Vec<RV> = xs.iter().map(key).collect();
    let mut n = 0;
    for (i, a) in xs.iter().enumerate() {
        for (j, b) in xs.iter().enumerate() {
            ensure!((a == b) == (i == j), "{:?} == {:?} is {}", a, b, i != j);
        }
    }
    for y in nums.iter() {
        for b in of(*y).iter() {
            let kb = key(b);
            for (a, ka) in xs.iter().zip(&kx) {
                if std::mem::discriminant(a) != std::mem::discriminant(b) {
                    continue;
                }
                n += 1;
                let e = *ka == kb;
                ensure!((a == b) == e && (b == a) == e, "{:?} == {:?} is {}", a, b, !e);
                ensure!(!e || (std_hash(a) == std_hash(b) && map_hash(a) == map_hash(b)), "{:?} and {:?} are equal but hash differently", a, b);
            }
        }
    }
    c.traces(n);
    c.states(n);
    c.outcome_n("pairs of values", n);
    Ok(())
}

pub fn units(deep: bool) -> Vec<Unit> {
    vec![
        unit("pairs of texts in all forms", 0, pair_of_texts),
        unit("texts that share a buffer", 0, shared_buffers),
        unit("maps keyed by text", 0, lookups),
        unit("values differing in one place", 0, move |c| one_place(c, deep)),
        unit("long values differing in one place", 0, long_texts),
        unit("pairs of numbers of all types", 0, scalars),
        unit("pairs and triples of polymorphic values", 0, move |c| {
            let k = known(deep);
            let n = k.v.len();
            let i = c.choose(n);
            let a = &k.v[i];
            c.say(|| format!("value {:?}", a));
            ensure!((std_hash(a), map_hash(a)) == k.hashes[i], "hashing {:?} twice gives two results", a);
            let mut eqs = vec![];
            let mut cnt = 0u64;
            for j in 0..n {
                let b = &k.v[j];
                let e = a == b;
                cnt += 2;
                ensure!((b == a) == e && (a != b) != e, "{:?} == {:?} is not symmetric", a, b);
                if !(k.free[i] ^ k.free[j]) {
                    let w = k.keys[i] == k.keys[j];
                    ensure!(e == w, "{:?} == {:?} is {}", a, b, e);
                }
                if e {
                    ensure!(k.hashes[i] == k.hashes[j], "{:?} and {:?} are equal but hash differently", a, b);
                    eqs.push(j);
                }
            }
            ensure!(eqs.contains(&i), "{:?} is not equal to itself", a);
            // transitivity: everything equal to `a` is equal to each other, and to nothing else
            for x in &eqs {
                for j in 0..n {
                    cnt += 1;
                    ensure!((k.v[*x] == k.v[j]) == eqs.contains(&j), "{:?} == {:?}, but they differ on {:?}", a, k.v[*x], k.v[j]);
                }
            }
            let cl = a.clone();
            ensure!(&cl == a && std_hash(&cl) == k.hashes[i].0, "{:?} differs from its clone", a);
            c.traces(cnt);
            c.states(n as u64);
            c.outcome_n("pairs of values", n as u64);
            Ok(())
        }),
        unit("polymorphic values as keys of a map", 0, move |c| {
            let k = known(deep);
            let n = k.v.len();
            let i = c.choose(n);
            let step = if deep { 1 } else { 5 };
            let mut cnt = 0;
            for j in (i % step..n).step_by(step) {
                let mut m: HashMap<Variant, usize> = HashMap::default();
                m.insert(k.v[i].clone(), 1);
                m.insert(k.v[j].clone(), 2);
                let e = k.v[i] == k.v[j];
                ensure!(m.len() == if e { 1 } else { 2 }, "{:?} and {:?} make {} entries", k.v[i], k.v[j], m.len());
                ensure!(m.get(&k.v[j]) == Some(&2) && m.get(&k.v[i]) == Some(if e { &2 } else { &1 }), "lookup of {:?} or {:?} fails", k.v[i], k.v[j]);
                let x = VariantMap::new(m.iter().map(|(a, b)| (a.clone(), Variant::Uint(*b as u32))).collect());
                let y = VariantMap::new(m.into_iter().collect::<Vec<_>>().into_iter().rev().map(|(a, b)| (a, Variant::Uint(b as u32))).collect());
                ensure!(x == y && std_hash(&x) == std_hash(&y), "maps with the same entries differ: {:?} {:?}", x, y);
                cnt += 1;
            }
            c.traces(4 * cnt);
            c.states(cnt);
            Ok(())
        }),
        unit("lists of symbols and descriptors", 0, |c| {
            let ts = ["", "a", "b", "ab"];
            let n = c.choose(3);
            let m = c.choose(3);
            let pick = |c: &mut Ctx, n: usize| -> Vec<(usize, usize)> { (0..n).map(|_| (c.choose(4), c.choose(2) * 2)).collect() };
            let (a, b) = (pick(c, n), pick(c, m));
            c.state(&(&a, &b));
            let mk = |x: &[(usize, usize)]| Multiple(x.iter().map(|(t, f)| syms(ts[*t])[*f].clone()).collect::<Vec<_>>());
            let e = a.iter().map(|x| x.0).eq(b.iter().map(|x| x.0));
            let (x, y) = (mk(&a), mk(&b));
            ensure!((x == y) == e, "{:?} == {:?} is {}", x, y, !e);
            ensure!(!e || std_hash(&x) == std_hash(&y), "{:?} and {:?} hash differently", x, y);
            if n == 1 && m == 1 {
                let (x, y) = (Descriptor::Symbol(x[0].clone()), Descriptor::Symbol(y[0].clone()));
                ensure!((x == y) == e && (!e || std_hash(&x) == std_hash(&y)), "descriptors {:?} and {:?}", x, y);
            }
            Ok(())
        }),
    ]
}
