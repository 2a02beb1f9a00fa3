//! Families of library values: each family is a choice tree whose leaves are concrete values; every
//! check that quantifies over values walks the same families with its own oracle.
use crate::conv::*;
use crate::explore::Ctx;
use crate::rv::{RV, RV::*};
use crate::spec::{self, Ty};
use crate::util::{dict, leaked, static_str};
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::types::{ByteStr, Descriptor, Multiple, StaticSymbol, Str, Symbol, Variant, VecVariantMap};
use amqp_codec::{AmqpParseError, Decode, Encode};
use bytes::{Bytes, BytesMut};
use chrono::{DateTime, Utc};
use hashbrown::HashMap;
use std::fmt::Debug;
use std::sync::{Arc, OnceLock};

/// How the encoding of an item is to be read back by the reference parser.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Plain,
    Ty(Ty),
    Comp(&'static str),
    Section,
    /// a transfer carries bytes after the performative; an empty performative has no bytes at all
    Frame,
}

/// length of the remainder; never plausible when it is not the tail of the input
pub fn tail(whole: &[u8], rest: &[u8]) -> usize {
    if rest.len() <= whole.len() && rest == &whole[whole.len() - rest.len()..] {
        rest.len()
    } else {
        usize::MAX
    }
}

pub trait Item {
    fn ty(&self) -> String;
    fn show(&self) -> String;
    fn size(&self) -> usize;
    fn enc(&self, b: &mut BytesMut);
    fn rv(&self) -> RV;
    fn kind(&self) -> Kind;
    /// decode as the same type: bytes left over, content, equal by the library's own equality
    fn dec(&self, b: &[u8]) -> Result<(usize, RV, bool), AmqpParseError>;
    /// decode only
    fn can_decode(&self) -> bool {
        true
    }

    fn bytes(&self) -> BytesMut {
        let mut b = BytesMut::with_capacity(self.size() + 64);
        self.enc(&mut b);
        b
    }
    /// is `parsed`, obtained by the reference parser from the encoding, the content of this item?
    fn check(&self, parsed: &RV) -> Result<(), String> {
        let want = self.rv();
        let got = match self.kind() {
            Kind::Plain => parsed.clone(),
            Kind::Ty(t) => match parsed {
                Null => Null,
                x => spec::norm(t, x)?,
            },
            Kind::Comp(n) => match parsed {
                Null => Null,
                x => spec::norm_comp(spec::comp(n), x)?,
            },
            Kind::Section => norm_section(parsed)?,
            Kind::Frame => match parsed {
                Desc(d, _) => {
                    let n = spec::comps().iter().find(|c| Ulong(c.code) == **d);
                    match n {
                        Some(c) => spec::norm_comp(c, parsed)?,
                        None => return Err(format!("unknown performative {:?}", d)),
                    }
                }
                x => return Err(format!("{:?} is not a performative", x)),
            },
        };
        if got.same(&want) {
            Ok(())
        } else {
            Err(format!("the encoding carries {:?} instead of {:?}", got, want))
        }
    }
}

pub struct V<T> {
    pub v: T,
    pub kind: Kind,
    /// false when the decoded value is a different representation of the same content
    pub eq: bool,
}

impl<T: Encode + Decode + ToRv + PartialEq + Debug> Item for V<T> {
    fn ty(&self) -> String {
        std::any::type_name::<T>()
            .replace("amqp_codec::", "")
            .replace("protocol::definitions::", "")
    }
    fn show(&self) -> String {
        format!("{:?}", self.v)
    }
    fn size(&self) -> usize {
        self.v.encoded_size()
    }
    fn enc(&self, b: &mut BytesMut) {
        self.v.encode(b)
    }
    fn rv(&self) -> RV {
        self.v.rv()
    }
    fn kind(&self) -> Kind {
        self.kind
    }
    fn dec(&self, b: &[u8]) -> Result<(usize, RV, bool), AmqpParseError> {
        let (r, x) = T::decode(b)?;
        let eq = !self.eq || (x == self.v && self.v == x);
        Ok((tail(b, r), x.rv(), eq))
    }
}

/// borrowed text can only be encoded
struct Borrowed(&'static str);
impl Item for Borrowed {
    fn ty(&self) -> String {
        "str".into()
    }
    fn show(&self) -> String {
        format!("{:?}", self.0)
    }
    fn size(&self) -> usize {
        self.0.encoded_size()
    }
    fn enc(&self, b: &mut BytesMut) {
        self.0.encode(b)
    }
    fn rv(&self) -> RV {
        RV::Str(self.0.into())
    }
    fn kind(&self) -> Kind {
        Kind::Plain
    }
    fn dec(&self, b: &[u8]) -> Result<(usize, RV, bool), AmqpParseError> {
        let (r, x) = ByteStr::decode(b)?;
        Ok((tail(b, r), x.rv(), true))
    }
}

pub type BoxItem = Box<dyn Item>;
pub fn v<T: Encode + Decode + ToRv + PartialEq + Debug + 'static>(x: T) -> BoxItem {
    Box::new(V { v: x, kind: Kind::Plain, eq: true })
}
pub fn vk<T: Encode + Decode + ToRv + PartialEq + Debug + 'static>(x: T, k: Kind) -> BoxItem {
    Box::new(V { v: x, kind: k, eq: true })
}

pub type Gen = Arc<dyn Fn(&mut Ctx) -> BoxItem + Send + Sync>;
#[derive(Clone)]
pub struct Family {
    pub name: &'static str,
    pub bound: usize,
    pub gen: Gen,
    /// all strict prefixes of the encoding are themselves incomplete
    pub delimited: bool,
}
fn fam(
    name: &'static str,
    bound: usize,
    gen: impl Fn(&mut Ctx) -> BoxItem + Send + Sync + 'static,
) -> Family {
    Family {
        name,
        bound,
        gen: Arc::new(gen),
        delimited: true,
    }
}

// ------------------------------------------------------------------ scalar value sets

pub fn u64s() -> &'static Vec<u64> {
    static S: OnceLock<Vec<u64>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<u64> = (0..1100).collect();
        for k in 0..64u32 {
            for d in -3i64..=3 {
                v.push((1u64 << k).wrapping_add(d as u64));
            }
        }
        // one byte set, everywhere; sign bits
        for k in 0..8 {
            for b in [1u64, 0x7f, 0x80, 0xfe, 0xff] {
                v.push(b << (8 * k));
                v.push(!(b << (8 * k)));
            }
        }
        v.push(0x0102_0304_0506_0708);
        for n in &dict().nums {
            v.extend([n.wrapping_sub(1), *n, n.wrapping_add(1), n.wrapping_neg()]);
        }
        v.sort_unstable();
        v.dedup();
        v
    })
}
pub fn u32s() -> &'static Vec<u32> {
    static S: OnceLock<Vec<u32>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<u32> = u64s().iter().map(|x| *x as u32).collect();
        v.extend(u64s().iter().map(|x| (*x >> 32) as u32));
        v.extend(0..70_000u32);
        v.sort_unstable();
        v.dedup();
        v
    })
}
pub fn f32s() -> &'static Vec<u32> {
    static S: OnceLock<Vec<u32>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        for s in 0..2u32 {
            for e in 0..256u32 {
                for m in [0u32, 1, 2, 0x40_0000, 0x7f_ffff, 0x2a_aaaa] {
                    v.push(s << 31 | e << 23 | m);
                }
            }
        }
        v
    })
}
pub fn f64s() -> &'static Vec<u64> {
    static S: OnceLock<Vec<u64>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        for s in 0..2u64 {
            for e in 0..2048u64 {
                for m in [0u64, 1, 0x8_0000_0000_0000, 0xf_ffff_ffff_ffff] {
                    v.push(s << 63 | e << 52 | m);
                }
            }
        }
        v
    })
}
pub fn ts_range() -> (i64, i64) {
    (
        DateTime::<Utc>::MIN_UTC.timestamp_millis(),
        DateTime::<Utc>::MAX_UTC.timestamp_millis(),
    )
}
pub fn tss() -> &'static Vec<i64> {
    static S: OnceLock<Vec<i64>> = OnceLock::new();
    S.get_or_init(|| {
        let (lo, hi) = ts_range();
        let mut v: Vec<i64> = (-5000..5000).collect();
        for x in u64s() {
            v.push(*x as i64);
        }
        for d in 0..3000 {
            v.push(lo + d);
            v.push(hi - d);
        }
        for s in [86_400_000i64, 31_536_000_000, 1_311_704_463_521, 4_294_967_296_000, 253_402_300_800_000] {
            for d in -1001..=1001 {
                v.push(s + d);
                v.push(-s + d);
            }
        }
        v.retain(|x| *x >= lo && *x <= hi);
        v.sort_unstable();
        v.dedup();
        v
    })
}

/// sizes the sources name, and their neighbours
pub fn named_sizes(lo: usize, hi: usize) -> Vec<usize> {
    let mut v: Vec<usize> = dict()
        .nums
        .iter()
        .filter(|n| **n > lo as u64 && **n <= hi as u64)
        .flat_map(|n| [*n as usize - 1, *n as usize, *n as usize + 1])
        .collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// Texts the sources name, and one that is nearly the same for each; symbols are ASCII.
pub fn named_texts(ascii: bool) -> &'static Vec<String> {
    static S: OnceLock<[Vec<String>; 2]> = OnceLock::new();
    &S.get_or_init(|| {
        let mut all: Vec<String> = dict().strs.clone();
        all.sort();
        all.dedup();
        let a = all.iter().filter(|s| s.is_ascii()).cloned().collect();
        [all, a]
    })[ascii as usize]
}

/// Values of a field that the sources name.
pub fn named(ty: Ty) -> Vec<RV> {
    let nums = || {
        let mut v: Vec<u64> = dict().nums.iter().flat_map(|n| [n.wrapping_sub(1), *n, n.wrapping_add(1)]).collect();
        v.sort_unstable();
        v.dedup();
        v.into_iter()
    };
    let syms = || named_texts(true).iter().cloned();
    let strs = || named_texts(false).iter().cloned();
    let mut v: Vec<RV> = match ty {
        Ty::Ubyte => (0..=255).map(Ubyte).collect(),
        Ty::Ushort => nums().map(|n| Ushort(n as u16)).collect(),
        Ty::Uint => nums().map(|n| Uint(n as u32)).collect(),
        Ty::Ulong => nums().map(Ulong).collect(),
        Ty::Ts => {
            let (lo, hi) = ts_range();
            nums().map(|n| n as i64).filter(|n| *n >= lo && *n <= hi).map(Ts).collect()
        }
        Ty::Str => strs().map(RV::Str).collect(),
        Ty::Sym | Ty::ErrCond | Ty::DistMode => syms().map(Sym).collect(),
        Ty::Bin => strs().map(|s| Bin(s.into_bytes())).collect(),
        Ty::MsgId => strs()
            .flat_map(|s| [RV::Str(s.clone()), Bin(s.into_bytes())])
            .chain(nums().map(Ulong))
            .collect(),
        Ty::Fields => syms()
            .flat_map(|s| {
                [
                    Map(vec![(Sym(s.clone()), Null)]),
                    Map(vec![(Sym("k".into()), Sym(s.clone()))]),
                    Map(vec![(Sym("k".into()), RV::Str(s))]),
                ]
            })
            .chain(nums().map(|n| Map(vec![(Sym("k".into()), Ulong(n))])))
            .collect(),
        Ty::StrMap => strs()
            .flat_map(|s| [Map(vec![(RV::Str(s.clone()), Bool(true))]), Map(vec![(RV::Str("k".into()), RV::Str(s))])])
            .collect(),
        Ty::Filter => syms().map(|s| Map(vec![(Sym(s.clone()), RV::Str(s))])).collect(),
        Ty::Syms => syms().flat_map(|s| [Array(vec![Sym(s.clone())]), Array(vec![Sym("x".into()), Sym(s)])]).collect(),
        _ => vec![],
    };
    v.dedup();
    v
}

/// lengths at which a one-byte size can overflow, and everything below
fn lens(deep: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=600).collect();
    v.extend([1000, 4096, 65534, 65535, 65536, 65537]);
    v.extend(named_sizes(600, 70_000));
    if deep {
        v.extend(600..2000);
        v.extend([70_000, 1 << 17, (1 << 20) - 8]);
    }
    v
}

/// numbers of elements beyond those every size family goes through
fn many(deep: bool) -> Vec<usize> {
    let mut v = vec![];
    for k in 8..=(if deep { 16 } else { 13 }) {
        v.extend([(1usize << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend([65_535, 65_536]);
    v.extend(named_sizes(100, if deep { 40_000 } else { 9_000 }));
    v.sort_unstable();
    v.dedup();
    v
}

fn opt_or_variant<T>(c: &mut Ctx, x: T, var: impl Fn(T) -> Variant) -> BoxItem
where
    T: Encode + Decode + ToRv + PartialEq + Debug + Clone + 'static,
    Option<T>: Encode + Decode + ToRv,
{
    match c.choose(3) {
        0 => v(x),
        1 => v(var(x)),
        _ => v(Some(x)),
    }
}

/// texts of exactly n bytes: plain, and made of 2-, 3- and 4-byte characters
pub fn text(n: usize, style: usize) -> String {
    let (ch, w) = [('a', 1), ('é', 2), ('€', 3), ('\u{1F4AF}', 4)][style];
    if style == 0 {
        return static_str(n).to_string();
    }
    let mut s: String = std::iter::repeat(ch).take(n / w).collect();
    while s.len() < n {
        s.push('x');
    }
    s
}

pub fn mb_lens() -> &'static Vec<usize> {
    static S: OnceLock<Vec<usize>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<usize> = (0..=272).chain([510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]).collect();
        v.extend(named_sizes(272, 5000));
        v.sort_unstable();
        v.dedup();
        v
    })
}

// ------------------------------------------------------------------ trees

/// A value nested `d` levels deep. `style` picks the container of each level.
pub fn chain(d: usize, style: usize) -> Variant {
    let mut x = Variant::Ubyte(7);
    for i in 0..d {
        let kind = match style {
            0..=3 => style,
            4 => i % 4,
            5 => (i / 2) % 3,
            _ => 4,
        };
        x = match kind {
            0 => Variant::List(t::List(vec![x])),
            1 => Variant::Map(t::VariantMap::new(std::iter::once((Variant::Boolean(i % 2 == 0), x)).collect())),
            2 => Variant::Described((Descriptor::Ulong(i as u64 % 300), Box::new(x))),
            3 => Variant::Map(t::VariantMap::new(std::iter::once((x, Variant::Null)).collect())),
            // with something before and behind it
            _ => Variant::List(t::List(vec![Variant::Uint(i as u32), x, Variant::Boolean(true)])),
        };
    }
    x
}

fn leaves() -> &'static Vec<Variant> {
    static S: OnceLock<Vec<Variant>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<Variant> = vec![
            Variant::Null,
            Variant::Boolean(true),
            Variant::Boolean(false),
            Variant::Ubyte(0),
            Variant::Ushort(0x4041),
            Variant::Uint(0),
            Variant::Uint(0x52),
            Variant::Ulong(0x1_0000_0000),
            Variant::Byte(-1),
            Variant::Int(-129),
            Variant::Long(-128),
            Variant::Double(ordered_float::OrderedFloat(f64::NAN)),
            Variant::Char('\u{10ffff}'),
            Variant::Timestamp(ts(-1)),
            Variant::Uuid(uuid::Uuid::from_bytes([0x53; 16])),
            Variant::Binary(Bytes::from_static(b"\x00\xff")),
            Variant::String(Str::from("")),
            Variant::String(Str::from("a")),
            Variant::Symbol(Symbol::from("a")),
        ];
        v.push(Variant::StaticSymbol(StaticSymbol("a")));
        v
    })
}
fn descs() -> Vec<Descriptor> {
    vec![
        Descriptor::Ulong(0),
        Descriptor::Ulong(255),
        Descriptor::Ulong(256),
        Descriptor::Symbol(Symbol::from("")),
        Descriptor::Symbol(Symbol::from("d:e")),
    ]
}

/// Every tree with exactly `n` nodes. Returns None for shapes with a repeated map key.
pub fn tree(c: &mut Ctx, n: usize, leaf: &[Variant], dsc: &[Descriptor]) -> Option<Variant> {
    if n == 1 {
        let i = c.choose(leaf.len() + 2);
        return Some(if i < leaf.len() {
            leaf[i].clone()
        } else if i == leaf.len() {
            Variant::List(t::List(vec![]))
        } else {
            Variant::Map(t::VariantMap::new(Default::default()))
        });
    }
    // a map needs two more nodes
    match c.choose(if n >= 3 { 3 } else { 2 }) {
        0 => {
            let mut out = vec![];
            let mut left = n - 1;
            while left > 0 {
                let k = c.choose(left) + 1;
                out.push(tree(c, k, leaf, dsc)?);
                left -= k;
            }
            Some(Variant::List(t::List(out)))
        }
        1 => {
            let d = c.pick(dsc).clone();
            let x = tree(c, n - 1, leaf, dsc)?;
            Some(Variant::Described((d, Box::new(x))))
        }
        _ => {
            let mut m = HashMap::new();
            let mut left = n - 1;
            while left >= 2 {
                // sizes of key and value; what is left over must be fit for further entries
                let k = c.choose(left - 1) + 1;
                let w = c.choose(left - k) + 1;
                if left - k - w == 1 {
                    return None;
                }
                let key = tree(c, k, leaf, dsc)?;
                let val = tree(c, w, leaf, dsc)?;
                if m.insert(key, val).is_some() {
                    return None;
                }
                left -= k + w;
            }
            Some(Variant::Map(t::VariantMap::new(m)))
        }
    }
}

fn has_static(x: &Variant) -> bool {
    match x {
        Variant::StaticSymbol(_) => true,
        Variant::List(l) => l.iter().any(has_static),
        Variant::Map(m) => m.map.iter().any(|(a, b)| has_static(a) || has_static(b)),
        Variant::Described((_, b)) => has_static(b),
        _ => false,
    }
}
pub fn vv(x: Variant) -> BoxItem {
    let eq = !has_static(&x);
    Box::new(V { v: x, kind: Kind::Plain, eq })
}

// ------------------------------------------------------------------ composites

/// A value of the composite: a base (everything absent or everything present) with some fields
/// changed, each change costing one deviation. `nested` levels of composites are varied inside.
pub fn comp_value(c: &mut Ctx, co: &spec::Comp, deep: bool, nested: usize) -> RV {
    let base = if c.flip() { spec::full(co, 0) } else { spec::minimal(co) };
    let base = fields_of(&base);
    let mut out = vec![];
    for (i, f) in co.fields.iter().enumerate() {
        out.push(field_value(c, f, &base[i], deep, nested));
    }
    RV::desc(co.code, List(out))
}

fn fields_of(r: &RV) -> Vec<RV> {
    match r {
        Desc(_, l) => match l.as_ref() {
            List(l) => l.clone(),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}

fn field_value(c: &mut Ctx, f: &spec::Field, base: &RV, deep: bool, nested: usize) -> RV {
    let mut alts = vec![base.clone()];
    if !f.mandatory && f.default.is_none() && *base != Null {
        alts.push(Null);
    }
    let d = spec::dist(f.ty, 3);
    for x in std::iter::once(d).chain(spec::dom(f.ty, deep)) {
        if !alts.contains(&x) {
            alts.push(x);
        }
    }
    let mem = if nested > 0 { spec::members(f.ty) } else { vec![] };
    let k = c.dev(alts.len() + mem.len());
    if k < alts.len() {
        alts[k].clone()
    } else {
        // vary the fields of a nested composite as well
        comp_value(c, spec::comp(mem[k - alts.len()]), deep, nested - 1)
    }
}

/// The library value's content: defaults filled in.
pub fn filled(co: &spec::Comp, r: &RV) -> RV {
    fn fill(ty: Ty, r: &RV) -> RV {
        match (ty, r) {
            (_, Null) => Null,
            (Ty::Comp(_), _) | (Ty::State, _) | (Ty::Outcome, _) => {
                for m in spec::members(ty) {
                    if let Desc(d, _) = r {
                        if **d == Ulong(spec::comp(m).code) {
                            return filled(spec::comp(m), r);
                        }
                    }
                }
                panic!("harness: {:?} in {:?}", r, ty)
            }
            _ => r.clone(),
        }
    }
    RV::desc(
        co.code,
        List(
            fields_of(r)
                .iter()
                .zip(&co.fields)
                .map(|(x, f)| match x {
                    Null => f.default.clone().unwrap_or(Null),
                    x => fill(f.ty, x),
                })
                .collect(),
        ),
    )
}

/// Wrap a composite's content as an item of each library type that can hold it.
pub fn comp_items(name: &'static str, r: &RV) -> Vec<BoxItem> {
    let k = Kind::Comp(name);
    macro_rules! one {
        ($t:ident) => {
            vk(<p::$t as FromRv>::from_rv(r), k)
        };
    }
    let mut out = vec![match name {
        "open" => one!(Open),
        "begin" => one!(Begin),
        "attach" => one!(Attach),
        "flow" => one!(Flow),
        "transfer" => one!(Transfer),
        "disposition" => one!(Disposition),
        "detach" => one!(Detach),
        "end" => one!(End),
        "close" => one!(Close),
        "error" => one!(Error),
        "received" => one!(Received),
        "accepted" => one!(Accepted),
        "rejected" => one!(Rejected),
        "released" => one!(Released),
        "modified" => one!(Modified),
        "source" => one!(Source),
        "target" => one!(Target),
        "sasl-mechanisms" => one!(SaslMechanisms),
        "sasl-init" => one!(SaslInit),
        "sasl-challenge" => one!(SaslChallenge),
        "sasl-response" => one!(SaslResponse),
        "sasl-outcome" => one!(SaslOutcome),
        "header" => one!(Header),
        "properties" => one!(Properties),
        x => panic!("harness: composite {}", x),
    }];
    if spec::FRAMES.contains(&name) {
        out.push(vk(p::Frame::from_rv(r), Kind::Frame));
    }
    if spec::SASL.contains(&name) {
        out.push(vk(p::SaslFrameBody::from_rv(r), k));
    }
    if spec::STATES.contains(&name) {
        out.push(vk(p::DeliveryState::from_rv(r), k));
        out.push(vk(Some(p::DeliveryState::from_rv(r)), k));
    }
    if spec::OUTCOMES.contains(&name) {
        out.push(vk(p::Outcome::from_rv(r), k));
    }
    if name == "header" || name == "properties" {
        out.push(vk(p::Section::from_rv(r), Kind::Section));
    }
    out
}

pub fn restricted(ty: Ty, r: &RV) -> BoxItem {
    let k = Kind::Ty(ty);
    match ty {
        Ty::Role => vk(p::Role::from_rv(r), k),
        Ty::SndMode => vk(p::SenderSettleMode::from_rv(r), k),
        Ty::RcvMode => vk(p::ReceiverSettleMode::from_rv(r), k),
        Ty::SaslCode => vk(p::SaslCode::from_rv(r), k),
        Ty::Durability => vk(p::TerminusDurability::from_rv(r), k),
        Ty::Expiry => vk(p::TerminusExpiryPolicy::from_rv(r), k),
        Ty::ErrCond => vk(p::ErrorCondition::from_rv(r), k),
        Ty::DistMode => vk(p::DistributionMode::from_rv(r), k),
        Ty::MsgId => vk(p::MessageId::from_rv(r), k),
        Ty::Fields => vk(p::Fields::from_rv(r), k),
        Ty::StrMap => vk(p::StringVariantMap::from_rv(r), k),
        Ty::Map => vk(p::Map::from_rv(r), k),
        Ty::Filter => vk(p::FilterSet::from_rv(r), k),
        Ty::Syms => vk(p::Symbols::from_rv(r), k),
        Ty::List => vk(t::List::from_rv(r), k),
        Ty::Any => vv(Variant::from_rv(r)),
        x => panic!("harness: restricted {:?}", x),
    }
}

pub const RESTRICTED: [Ty; 16] = [
    Ty::Role,
    Ty::SndMode,
    Ty::RcvMode,
    Ty::SaslCode,
    Ty::Durability,
    Ty::Expiry,
    Ty::ErrCond,
    Ty::DistMode,
    Ty::MsgId,
    Ty::Fields,
    Ty::StrMap,
    Ty::Map,
    Ty::Filter,
    Ty::Syms,
    Ty::List,
    Ty::Any,
];

// ------------------------------------------------------------------ the families

/// For every field of the composite a few values, the most telling first; as many as keep the
/// number of combinations at or below `cap`. `wire`: what a peer may send (null for a default).
pub fn few(co: &spec::Comp, cap: u64, wire: bool) -> Vec<Vec<RV>> {
    let mut al: Vec<Vec<RV>> = co
        .fields
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let d = spec::dom(f.ty, false);
            let mut v: Vec<RV> = vec![];
            let first = match (&f.default, f.mandatory) {
                (Some(d), _) if !wire => d.clone(),
                (_, true) => spec::dist(f.ty, i),
                _ => Null,
            };
            let mut add = |x: RV| {
                if !v.contains(&x) {
                    v.push(x)
                }
            };
            add(first);
            // another kind of content next, then the smallest, then the rest from the largest
            add(spec::dist(f.ty, i));
            add(d[0].clone());
            if let Some(x) = &f.default {
                add(x.clone());
            }
            for x in d.iter().rev() {
                add(x.clone());
            }
            v
        })
        .collect();
    loop {
        let n: u64 = al.iter().fold(1u64, |a, v| a.saturating_mul(v.len() as u64));
        if n <= cap {
            return al;
        }
        let m = al.iter().map(|v| v.len()).max().unwrap();
        // the later of the longest ones
        let i = (0..al.len()).rev().find(|i| al[*i].len() == m).unwrap();
        al[i].pop();
        if m <= 2 {
            return al;
        }
    }
}

/// Composites in all combinations of a few values for each field.
pub fn combos(cap: u64) -> Vec<Family> {
    spec::comps()
        .iter()
        .filter(|co| co.fields.len() > 2)
        .map(|co| {
            let al = few(co, cap, false);
            let name: &'static str = Box::leak(format!("combinations/{}", co.name).into_boxed_str());
            fam(name, 0, move |c| {
                let l = al.iter().map(|v| v[c.choose(v.len())].clone()).collect();
                let mut its = comp_items(co.name, &filled(co, &RV::desc(co.code, List(l))));
                let k = c.choose(its.len().min(2));
                its.swap_remove(k)
            })
        })
        .collect()
}

// ------------------------------------------------------------------ contents

pub const STYLES: usize = 18;

/// n bytes of one kind; all but the last two are text, all but the last three ASCII text
pub fn content(n: usize, style: usize) -> Vec<u8> {
    let mut b = vec![b'a'; n];
    let last = n.saturating_sub(1);
    let mut put = |i: usize, x: u8| {
        if i < n {
            b[i] = x
        }
    };
    match style {
        0 => (0..n).for_each(|i| put(i, 0)),
        1 => (0..n).for_each(|i| put(i, b' ')),
        2 => (0..n).for_each(|i| put(i, b'0')),
        3 => (0..n).for_each(|i| put(i, b'A')),
        4 => put(0, b' '),
        5 => put(last, b' '),
        6 => put(last, 0),
        7 => put(n / 2, 0),
        8 => put(last, b'\n'),
        9 => {
            put(last.saturating_sub(1), b'\r');
            put(last, b'\n')
        }
        // something, then nothing but zeros
        10 => (n / 2..n).for_each(|i| put(i, 0)),
        11 => (32..n).for_each(|i| put(i, 0)),
        12 => (0..n).for_each(|i| put(i, b"0123456789abcdef"[i % 16])),
        13 => (0..n).for_each(|i| put(i, b"amqp://x.y:1/z?q=%20&r;s,t*\"\\\'$#-"[i % 33])),
        14 => put(0, 0),
        // from here on only text, then only binary
        15 => {
            for i in 0..n / 2 {
                put(2 * i, 0xc3);
                put(2 * i + 1, 0xa9);
            }
        }
        16 => (0..n).for_each(|i| put(i, 0xff)),
        _ => (0..n).for_each(|i| put(i, (i * 7 + i / 256) as u8)),
    }
    b
}
pub fn content_lens() -> &'static Vec<usize> {
    static S: OnceLock<Vec<usize>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<usize> = (0..=70).chain([99, 100, 101, 127, 128, 129, 253, 254, 255, 256, 257, 300, 511, 512, 513]).collect();
        v.extend(named_sizes(70, 2000));
        v.sort_unstable();
        v.dedup();
        v
    })
}

/// the values of a type that hold this content in each of the places it has for one
pub fn holding(ty: Ty, n: usize, style: usize) -> Vec<RV> {
    let b = content(n, style);
    let text = || String::from_utf8(b.clone()).expect("harness");
    let st = || Str(text());
    let sy = || Sym(text());
    let bin = || Bin(b.clone());
    let (ascii, utf) = (style < 15, style < 16);
    let mut v = vec![];
    match ty {
        Ty::Str if utf => v.push(st()),
        Ty::Sym | Ty::ErrCond | Ty::DistMode if ascii => v.push(sy()),
        Ty::Bin => v.push(bin()),
        Ty::MsgId => {
            v.push(bin());
            if utf {
                v.push(st());
            }
        }
        Ty::Syms if ascii => {
            v.push(Array(vec![sy()]));
            v.push(Array(vec![Sym("first".into()), sy(), Sym("last".into())]));
        }
        Ty::Fields => {
            if ascii {
                v.push(Map(vec![(sy(), Uint(1))]));
                v.push(Map(vec![(Sym("k".into()), sy()), (Sym("l".into()), Null)]));
            }
            if utf {
                v.push(Map(vec![(Sym("k".into()), st())]));
            }
            v.push(Map(vec![(Sym("k".into()), List(vec![bin()]))]));
        }
        Ty::StrMap | Ty::Map => {
            if utf {
                v.push(Map(vec![(st(), Uint(1))]));
                v.push(Map(vec![(Str("k".into()), st())]));
            }
            v.push(Map(vec![(Str("k".into()), bin())]));
        }
        Ty::Filter if ascii => {
            v.push(Map(vec![(sy(), st())]));
            v.push(Map(vec![(Sym("f".into()), st()), (sy(), Null)]));
        }
        Ty::Any => {
            v.push(bin());
            if utf {
                v.push(st());
                v.push(RV::desc(1, st()));
            }
            if ascii {
                v.push(sy());
                v.push(Desc(Box::new(sy()), Box::new(Uint(1))));
            }
        }
        Ty::List => v.push(List(vec![bin(), Null])),
        _ => {}
    }
    v
}

/// one composite of these, one of its fields with such content
pub fn holding_comp(c: &mut Ctx, names: &[&'static str]) -> (&'static spec::Comp, RV) {
    let co = spec::comp(c.pick(names));
    let base = if c.flip() { spec::full(co, 0) } else { spec::minimal(co) };
    let some: Vec<usize> = (0..co.fields.len()).filter(|i| (0..STYLES).any(|s| !holding(co.fields[*i].ty, 3, s).is_empty())).collect();
    if some.is_empty() {
        return (co, base);
    }
    let i = *c.pick(&some);
    let style = c.choose(STYLES);
    let n = *c.pick(content_lens());
    let h = holding(co.fields[i].ty, n, style);
    if h.is_empty() {
        return (co, base);
    }
    let x = c.pick(&h).clone();
    match base {
        Desc(d, l) => match *l {
            List(mut l) => {
                l[i] = x;
                (co, Desc(d, Box::new(List(l))))
            }
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}

/// Lengths at which a length, a size or a count needs another byte, and those of common buffers.
pub const LONG: [usize; 24] = [
    250, 255, 256, 257, 1000, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16_384, 32_767, 32_768, 40_000, 65_500, 65_534, 65_535, 65_536, 65_537, 70_000, 131_073, 140_000,
];

/// one composite of these, one of its fields as long as this
pub fn long_comp(c: &mut Ctx, names: &[&'static str]) -> (&'static spec::Comp, RV) {
    let co = spec::comp(c.pick(names));
    let base = match c.choose(3) {
        0 => spec::full(co, 0),
        1 => spec::full(co, 1),
        _ => spec::minimal(co),
    };
    let long: Vec<usize> = (0..co.fields.len()).filter(|i| co.fields[*i].ty != Ty::DistMode && !holding(co.fields[*i].ty, 3, 12).is_empty()).collect();
    if long.is_empty() {
        return (co, base);
    }
    let i = *c.pick(&long);
    let h = holding(co.fields[i].ty, *c.pick(&LONG), 12);
    let x = c.pick(&h).clone();
    match base {
        Desc(d, l) => match *l {
            List(mut l) => {
                l[i] = x;
                (co, Desc(d, Box::new(List(l))))
            }
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}

/// Compounds of a few entries of which one or all are long.
fn long_entries() -> Family {
    static S: OnceLock<Vec<usize>> = OnceLock::new();
    let lens = S.get_or_init(|| {
        let mut v: Vec<usize> = (0..=6).chain(24..=28).chain(120..=136).chain(245..=270).chain([300, 511, 512, 513, 1024]).collect();
        v.extend(named_sizes(5, 2000));
        v.sort_unstable();
        v.dedup();
        v
    });
    fam("size/compounds of long entries", 0, move |c| {
        let kind = c.choose(10);
        let n = 1 + c.choose(6);
        let len = *c.pick(lens);
        let mode = c.choose(if kind < 6 { 5 } else { 3 });
        let at = [0, n - 1][c.choose(if n > 1 { 2 } else { 1 })];
        // every key is different
        let text = |i: usize, n: usize| -> String {
            let mut s: String = static_str(n).into();
            if n > 0 {
                s.replace_range(0..1, &"uvwxyz"[i..i + 1]);
            }
            s
        };
        let key = |i: usize| match mode {
            0 | 4 if i == at => text(i, len),
            1 => text(i, len.max(1)),
            _ => text(i, 2),
        };
        let val = |i: usize| match mode {
            2 | 4 if i == at => text(i, len),
            3 => text(i, len),
            _ => text(i, 1),
        };
        let map = |k: &dyn Fn(String) -> RV, w: &dyn Fn(String) -> RV| Map((0..n).map(|i| (k(key(i)), w(val(i)))).collect());
        match kind {
            0 => restricted(Ty::Fields, &map(&Sym, &Sym)),
            1 => restricted(Ty::StrMap, &map(&Str, &|s| Bin(s.into_bytes()))),
            2 => restricted(Ty::Filter, &map(&Sym, &Str)),
            3 => restricted(Ty::Map, &map(&Str, &Str)),
            4 => vk(VecVariantMap::from_rv(&map(&Str, &Str)), Kind::Ty(Ty::StrMap)),
            5 => vv(Variant::from_rv(&map(&|s| Bin(s.into_bytes()), &Sym))),
            6 => restricted(Ty::Syms, &Array((0..n).map(|i| Sym(key(i))).collect())),
            7 => restricted(Ty::List, &List((0..n).map(|i| Str(key(i))).collect())),
            8 => v((0..n).map(|i| Bytes::from(key(i).into_bytes())).collect::<Vec<_>>()),
            _ => v((0..n).map(|i| bstr(&key(i))).collect::<Vec<_>>()),
        }
    })
}

pub fn families(deep: bool) -> Vec<Family> {
    let mut f = vec![];
    f.push(fam("scalar/8 and 16 bit", 0, |c| match c.choose(5) {
        0 => {
            let x = c.choose(256) as u8;
            opt_or_variant(c, x, Variant::Ubyte)
        }
        1 => {
            let x = c.choose(256) as u8 as i8;
            opt_or_variant(c, x, Variant::Byte)
        }
        2 => {
            let x = c.choose(65536) as u16;
            opt_or_variant(c, x, Variant::Ushort)
        }
        3 => {
            let x = c.choose(65536) as u16 as i16;
            opt_or_variant(c, x, Variant::Short)
        }
        _ => match c.choose(3) {
            0 => v(None::<bool>),
            1 => opt_or_variant(c, false, Variant::Boolean),
            _ => opt_or_variant(c, true, Variant::Boolean),
        },
    }));
    f.push(fam("scalar/32 bit", 0, |c| {
        let x = *c.pick(u32s());
        match c.choose(2) {
            0 => opt_or_variant(c, x, Variant::Uint),
            _ => opt_or_variant(c, x as i32, Variant::Int),
        }
    }));
    f.push(fam("scalar/64 bit", 0, |c| {
        let x = *c.pick(u64s());
        match c.choose(3) {
            0 => opt_or_variant(c, x, Variant::Ulong),
            1 => opt_or_variant(c, x as i64, Variant::Long),
            _ => v(Variant::Described((Descriptor::Ulong(x), Box::new(Variant::Null)))),
        }
    }));
    f.push(fam("scalar/float", 0, |c| match c.choose(2) {
        0 => {
            let x = f32::from_bits(*c.pick(f32s()));
            nan32(c, x)
        }
        _ => {
            let x = f64::from_bits(*c.pick(f64s()));
            nan64(c, x)
        }
    }));
    f.push(fam("scalar/char", 0, |c| {
        // every Unicode scalar value
        let hi = c.choose(0x1100);
        let lo = c.choose(256);
        let x = (hi * 256 + lo) as u32;
        match char::from_u32(x) {
            Some(ch) => {
                if x % 7 == 0 {
                    v(Variant::Char(ch))
                } else {
                    v(ch)
                }
            }
            None => v('\u{fffd}'),
        }
    }));
    f.push(fam("scalar/timestamp", 0, |c| {
        let x = ts(*c.pick(tss()));
        opt_or_variant(c, x, Variant::Timestamp)
    }));
    f.push(fam("scalar/uuid", 0, |c| {
        let pos = c.choose(16);
        let val = c.choose(256) as u8;
        let bg = [0u8, 0xff, 0x98][c.choose(3)];
        let mut b = [bg; 16];
        b[pos] = val;
        if bg == 0x98 {
            for (i, x) in b.iter_mut().enumerate() {
                *x = x.wrapping_add(i as u8);
            }
        }
        opt_or_variant(c, uuid::Uuid::from_bytes(b), Variant::Uuid)
    }));
    let ls = lens(deep);
    f.push(fam("length/text and binary", 0, move |c| {
        let n = *c.pick(&ls);
        match c.choose(14) {
            0 => v(Bytes::from(vec![n as u8; n])),
            1 => v(Variant::Binary(Bytes::from(vec![0xffu8; n]))),
            2 => v(bstr(static_str(n))),
            3 => v(Str::from(static_str(n))),
            4 => v(Str::ByteStr(bstr(static_str(n)))),
            5 => v(Variant::String(Str::from(static_str(n)))),
            6 => v(Symbol::from(static_str(n))),
            7 => v(Symbol(Str::ByteStr(bstr(static_str(n))))),
            8 => v(Variant::Symbol(Symbol::from_slice(static_str(n)))),
            9 => vv(Variant::StaticSymbol(StaticSymbol(static_str(n)))),
            10 => Box::new(Borrowed(static_str(n))),
            11 => v(Variant::Described((
                Descriptor::Symbol(Symbol::from(static_str(n))),
                Box::new(Variant::Ubyte(1)),
            ))),
            12 => v(Variant::String(Str::from_str(static_str(n)))),
            _ => v(Some(bstr(static_str(n)))),
        }
    }));
    f.push(fam("text/every character", 0, move |c| {
        let u = c.choose(0x110) * 4096 + c.choose(4096);
        let ch = match char::from_u32(u as u32) {
            Some(ch) => ch,
            None => 'x',
        };
        let s = ch.to_string();
        match if deep { c.choose(4) } else { u % 4 } {
            0 => v(bstr(&s)),
            1 => v(Variant::String(Str::from_str(&s))),
            2 => v(Str::from_str(&s)),
            _ => v(p::MessageId::String(bstr(&format!("{}{}", s, s)))),
        }
    }));
    f.push(fam("text/every two bytes", 0, |c| {
        let (a, b) = (c.choose(256) as u8, c.choose(256) as u8);
        if a > 127 || b > 127 {
            return v(Bytes::from(vec![a, b]));
        }
        let s = format!("{}{}", a as char, b as char);
        match c.choose(7) {
            0 => v(bstr(&s)),
            1 => v(Variant::String(Str::from_str(&s))),
            2 => v(Str::from_str(&s)),
            3 => v(Symbol::from_slice(&s)),
            4 => v(Variant::Symbol(Symbol::from_slice(&s))),
            5 => v(Variant::Binary(Bytes::from(vec![a, b]))),
            _ => v(Bytes::from(vec![a, b])),
        }
    }));
    // one unusual byte at the start, inside, or at the end of a text or binary
    f.push(fam("text/one unusual byte", 0, |c| {
        let x = c.choose(256) as u8;
        let n = [1usize, 2, 3, 8, 40, 255, 256, 300][c.choose(8)];
        let mut b = static_str(n).as_bytes().to_vec();
        match c.choose(4) {
            0 => b[0] = x,
            1 => b[n / 2] = x,
            2 => b[n - 1] = x,
            _ => b.iter_mut().for_each(|y| *y = x),
        }
        let k = c.choose(8);
        match std::str::from_utf8(&b) {
            Ok(s) if k < 6 => match k {
                0 => v(bstr(s)),
                1 => v(Variant::String(Str::from_str(s))),
                2 => v(Str::from_str(s)),
                3 => v(Symbol::from_slice(s)),
                4 => v(Variant::Symbol(Symbol::from_slice(s))),
                _ => v(Variant::Described((Descriptor::Symbol(Symbol::from_slice(s)), Box::new(Variant::Null)))),
            },
            _ if k == 6 => v(Variant::Binary(Bytes::from(b))),
            _ => v(Bytes::from(b)),
        }
    }));
    f.push(long_entries());
    f.push(fam("text/composites with texts and binaries of many contents", 0, |c| {
        static S: OnceLock<Vec<&'static str>> = OnceLock::new();
        let names = S.get_or_init(|| spec::comps().iter().map(|co| co.name).collect());
        let (co, r) = holding_comp(c, names);
        comp_items(co.name, &filled(co, &r)).swap_remove(0)
    }));
    f.push(fam("size/composites with a long value in any field", 0, |c| {
        static S: OnceLock<Vec<&'static str>> = OnceLock::new();
        let names = S.get_or_init(|| spec::comps().iter().map(|co| co.name).collect());
        let (co, r) = long_comp(c, names);
        let mut its = comp_items(co.name, &filled(co, &r));
        let i = c.choose(its.len());
        its.swap_remove(i)
    }));
    f.push(fam("text/values with texts and binaries of many contents", 0, |c| {
        const TYS: [Ty; 10] = [Ty::ErrCond, Ty::DistMode, Ty::MsgId, Ty::Fields, Ty::StrMap, Ty::Map, Ty::Filter, Ty::Syms, Ty::List, Ty::Any];
        let ty = *c.pick(&TYS);
        let style = c.choose(STYLES);
        let n = *c.pick(content_lens());
        let h = holding(ty, n, style);
        if h.is_empty() {
            return v(Bytes::from(content(n, style)));
        }
        let r = c.pick(&h).clone();
        restricted(ty, &r)
    }));
    f.push(fam("text/owned and static texts and symbols of many contents", 0, |c| {
        let style = c.choose(STYLES);
        let n = *c.pick(content_lens());
        let b = content(n, style);
        let s = match std::str::from_utf8(&b) {
            Ok(s) => leaked(s),
            Err(_) => return v(Variant::Binary(Bytes::from(b))),
        };
        let d = |d: Symbol, x: Variant| Variant::Described((Descriptor::Symbol(d), Box::new(x)));
        // symbols are ASCII
        let k = c.choose(22);
        if !s.is_ascii() && matches!(k, 6..=12 | 15 | 16 | 18..=21) {
            return v(Variant::from(s));
        }
        let key = |k: Variant| Variant::Map(t::VariantMap::new(std::iter::once((k, Variant::Null)).collect()));
        match k {
            0 => v(bstr(s)),
            1 => v(Str::from(s)),
            2 => v(Str::from_str(s)),
            3 => Box::new(Borrowed(s)),
            4 => v(Variant::String(Str::from(s))),
            5 => v(Variant::String(Str::from_str(s))),
            6 => v(Symbol::from(s)),
            7 => v(Symbol::from_slice(s)),
            8 => v(Variant::Symbol(Symbol::from(s))),
            9 => v(Variant::Symbol(Symbol::from_slice(s))),
            10 => vv(Variant::StaticSymbol(StaticSymbol(s))),
            11 => v(d(Symbol::from(s), Variant::Null)),
            12 => v(d(Symbol::from_slice(s), Variant::Ubyte(0))),
            13 => v(d(Symbol::from("d"), Variant::from(s))),
            14 => v(key(Variant::from(s))),
            15 => v(key(Variant::Symbol(Symbol::from(s)))),
            16 => vv(key(Variant::StaticSymbol(StaticSymbol(s)))),
            17 => vk(VecVariantMap(vec![(Str::from(s), Variant::from(s)), (Str::from_str("other"), Variant::Null)]), Kind::Ty(Ty::StrMap)),
            18 => vk(Multiple(vec![Symbol::from(s)]), Kind::Ty(Ty::Syms)),
            19 => vk(Multiple(vec![Symbol::from(s), Symbol::from_slice(s)]), Kind::Ty(Ty::Syms)),
            20 => vv(Variant::List(t::List(vec![Variant::StaticSymbol(StaticSymbol(s)), Variant::Null]))),
            _ => v(Some(Symbol::from(s))),
        }
    }));
    f.push(fam("described/every descriptor with every kind of value", 0, |c| {
        let names = ["", "a", "amqp:data:binary", "amqp:open:list", "x:y"];
        let codes = [0u64, 1, 16, 112, 255, 256, u64::from(u32::MAX), 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX];
        let d = match c.choose(3) {
            0 => Descriptor::Ulong(*c.pick(&codes)),
            1 => Descriptor::Symbol(Symbol::from(*c.pick(&names))),
            _ => Descriptor::Symbol(Symbol::from_slice(c.pick(&names))),
        };
        let all = leaves();
        let k = c.choose(all.len() + 4);
        let x = match all.get(k) {
            Some(x) => x.clone(),
            None => match k - all.len() {
                0 => Variant::List(t::List(vec![])),
                1 => Variant::List(t::List(vec![Variant::Null])),
                2 => Variant::Map(t::VariantMap::new(HashMap::new())),
                _ => Variant::Binary(Bytes::new()),
            },
        };
        let inner = Variant::Described((d.clone(), Box::new(x)));
        let x = match c.choose(4) {
            0 => inner,
            1 => Variant::Described((Descriptor::Ulong(7), Box::new(inner))),
            2 => Variant::Described((d, Box::new(inner))),
            _ => Variant::List(t::List(vec![inner, Variant::Ubyte(1)])),
        };
        vv(x)
    }));
    // sizes that do not fit into three bytes
    f.push(fam("size/beyond three bytes", 0, |c| {
        let n = [(1usize << 24) - 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1][c.choose(4)];
        let text = || "q".repeat(n);
        let bin = || Bytes::from(vec![0xa5u8; n]);
        match c.choose(13) {
            0 => v(bin()),
            1 => v(bstr(&text())),
            2 => v(Symbol::from_slice(&text())),
            3 => v(Variant::Binary(bin())),
            4 => v(Variant::String(Str::from_str(&text()))),
            5 => v(t::List(vec![Variant::Null, Variant::Binary(bin()), Variant::Uint(9)])),
            6 => v(Variant::List(t::List(vec![Variant::Binary(bin())]))),
            7 => v(std::iter::once((Variant::Uint(3), Variant::Binary(bin()))).collect::<HashMap<_, _>>()),
            8 => vk(VecVariantMap(vec![(Str::from("k"), Variant::Binary(bin()))]), Kind::Ty(Ty::StrMap)),
            9 => v(vec![bin(), Bytes::from_static(b"z")]),
            10 => v(Variant::Described((Descriptor::Ulong(3), Box::new(Variant::Binary(bin()))))),
            11 => vk(p::Section::Data(bin()), Kind::Section),
            _ => {
                let co = spec::comp("sasl-init");
                let r = RV::desc(co.code, List(vec![Sym("x".into()), Bin(vec![3; n]), Null]));
                comp_items(co.name, &r).swap_remove(0)
            }
        }
    }));
    f.push(fam("length/multi-byte text", 0, |c| {
        let ls = mb_lens();
        let n = *c.pick(ls);
        let s = text(n, 1 + c.choose(3));
        // characters straddle every position
        let s = match c.choose(2) {
            0 => s,
            _ => format!("x{}", s),
        };
        let st = leaked(&s);
        let pair = |k: Str, x: &'static str| std::iter::once((k, Variant::from(x))).collect::<HashMap<Str, Variant>>();
        match c.choose(13) {
            0 => v(bstr(&s)),
            1 => v(Str::from_str(&s)),
            2 => v(Variant::String(Str::from_str(&s))),
            3 => v(Str::from(st)),
            4 => v(Variant::from(st)),
            5 => Box::new(Borrowed(st)),
            6 => v(t::List(vec![Variant::from(st), Variant::String(Str::from_str(&s))])),
            7 => vk(pair(Str::from(st), st), Kind::Ty(Ty::StrMap)),
            8 => vk(VecVariantMap(vec![(Str::from(st), Variant::from(st))]), Kind::Ty(Ty::StrMap)),
            9 => vk(p::Section::ApplicationProperties(pair(Str::from(st), st)), Kind::Section),
            10 => v(Some(Str::from(st))),
            11 => vk(std::iter::once((Symbol::from("k"), Variant::from(st))).collect::<HashMap<Symbol, Variant>>(), Kind::Ty(Ty::Fields)),
            _ => v(Variant::Described((Descriptor::Ulong(3), Box::new(Variant::from(st))))),
        }
    }));
    f.push(fam("named/texts", 0, |c| {
        let all = named_texts(false);
        let s = leaked(c.pick(all));
        let k = c.choose(16);
        if s.is_ascii() {
            match k {
                0 => return v(Symbol::from(s)),
                1 => return v(Symbol::from_slice(s)),
                2 => return vv(Variant::StaticSymbol(StaticSymbol(s))),
                3 => return v(Variant::Described((Descriptor::Symbol(Symbol::from(s)), Box::new(Variant::Null)))),
                4 => return vk(std::iter::once((Symbol::from(s), Variant::from(s))).collect::<HashMap<Symbol, Variant>>(), Kind::Ty(Ty::Fields)),
                5 => return v(vec![Symbol::from(s), Symbol::from("")]),
                6 => return vk(Multiple(vec![Symbol::from(s)]), Kind::Ty(Ty::Syms)),
                7 => return vk(std::iter::once((Symbol::from(s), Some(bstr(s)))).collect::<p::FilterSet>(), Kind::Ty(Ty::Filter)),
                _ => (),
            }
        }
        match k {
            0 | 8 => v(bstr(s)),
            1 | 9 => v(Str::from(s)),
            2 | 10 => v(Str::from_str(s)),
            3 | 11 => v(Variant::from(s)),
            4 | 12 => vk(std::iter::once((Str::from(s), Variant::from(s))).collect::<HashMap<Str, Variant>>(), Kind::Ty(Ty::StrMap)),
            5 | 13 => vk(VecVariantMap(vec![(Str::from_str(s), Variant::Binary(Bytes::from(s)))]), Kind::Ty(Ty::StrMap)),
            6 | 14 => v(Bytes::from(s)),
            _ => v(t::List(vec![Variant::from(s), Variant::Null])),
        }
    }));
    f.push(fam("named/fields of composites", 0, |c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        let base = if c.flip() { spec::full(co, 0) } else { spec::minimal(co) };
        let mut fs = fields_of(&filled(co, &base));
        if !fs.is_empty() {
            let i = c.choose(fs.len());
            let d = named(co.fields[i].ty);
            if !d.is_empty() {
                fs[i] = c.pick(&d).clone();
            }
        }
        let mut its = comp_items(co.name, &RV::desc(co.code, List(fs)));
        let k = c.choose(its.len());
        its.swap_remove(k)
    }));
    // compounds whose contents run through every size around the one-byte limit
    let top = if deep { 700 } else { 300 };
    f.push(fam("size/list", 0, move |c| {
        let n = c.choose(top);
        let shape = c.choose(6);
        let item = match shape {
            // one element of n bytes of text (plus 2 or 5)
            0 => t::List(vec![Variant::String(Str::from(static_str(n)))]),
            // n one-byte elements
            1 => t::List(vec![Variant::Null; n]),
            2 => t::List(vec![Variant::Uint(7); n]),
            3 => t::List(vec![Variant::Null, Variant::Binary(Bytes::from(vec![1u8; n])), Variant::Boolean(true)]),
            4 => t::List(vec![Variant::List(t::List(vec![Variant::Null; n]))]),
            _ => t::List(vec![
                Variant::Described((Descriptor::Ulong(n as u64), Box::new(Variant::Symbol(Symbol::from(static_str(n)))))),
                Variant::Ulong(1 << 40),
            ]),
        };
        match c.choose(3) {
            0 => v(item),
            1 => v(Variant::List(item)),
            _ => vk(p::Section::AmqpSequence(item), Kind::Section),
        }
    }));
    f.push(fam("size/map", 0, move |c| {
        let n = c.choose(top);
        let shape = c.choose(7);
        let sy = |s: &'static str| Symbol::from(s);
        match shape {
            0 => {
                let m: HashMap<Symbol, Variant> =
                    std::iter::once((sy("k"), Variant::Binary(Bytes::from(vec![2u8; n])))).collect();
                match c.choose(2) {
                    0 => vk(m, Kind::Ty(Ty::Fields)),
                    _ => vk(p::Section::Footer(m), Kind::Section),
                }
            }
            1 => {
                let m: HashMap<Symbol, Variant> =
                    (0..n).map(|i| (Symbol::from_slice(&format!("{}", i)), Variant::Null)).collect();
                vk(m, Kind::Ty(Ty::Fields))
            }
            2 => {
                let m: HashMap<Variant, Variant> =
                    (0..n).map(|i| (Variant::Ushort(i as u16), Variant::Uint(i as u32))).collect();
                match c.choose(2) {
                    0 => v(m),
                    _ => v(Variant::Map(t::VariantMap::new(m))),
                }
            }
            3 => {
                let m: HashMap<Str, Variant> =
                    std::iter::once((Str::from(static_str(n)), Variant::Boolean(false))).collect();
                match c.choose(2) {
                    0 => vk(m, Kind::Ty(Ty::StrMap)),
                    _ => vk(p::Section::ApplicationProperties(m), Kind::Section),
                }
            }
            4 => vk(
                VecVariantMap(vec![(Str::from(static_str(n)), Variant::Null)]),
                Kind::Ty(Ty::StrMap),
            ),
            5 => vk(
                VecVariantMap(
                    (0..n)
                        .map(|i| (Str::from_str(&format!("{}", i)), Variant::Ubyte(i as u8)))
                        .collect(),
                ),
                Kind::Ty(Ty::StrMap),
            ),
            _ => {
                let m: p::FilterSet = (0..n.min(90))
                    .map(|i| {
                        (
                            Symbol::from_slice(&format!("{}", i)),
                            if i % 2 == 0 { None } else { Some(bstr("q")) },
                        )
                    })
                    .collect();
                vk(m, Kind::Ty(Ty::Filter))
            }
        }
    }));
    f.push(fam("size/array", 0, move |c| {
        let n = c.choose(top);
        match c.choose(18) {
            0 => v(vec![true; n]),
            1 => v((0..n).map(|i| i as u8).collect::<Vec<u8>>()),
            2 => v((0..n).map(|i| i as u16).collect::<Vec<u16>>()),
            3 => v((0..n).map(|i| i as u32).collect::<Vec<u32>>()),
            4 => v((0..n).map(|i| (i as u64) << 33).collect::<Vec<u64>>()),
            5 => v((0..n).map(|i| i as i8).collect::<Vec<i8>>()),
            6 => v((0..n).map(|i| -(i as i16)).collect::<Vec<i16>>()),
            7 => v((0..n).map(|i| -(i as i32)).collect::<Vec<i32>>()),
            8 => v((0..n).map(|i| -(i as i64)).collect::<Vec<i64>>()),
            9 => v((0..n).map(|i| i as f32).collect::<Vec<f32>>()),
            10 => v((0..n).map(|i| -(i as f64)).collect::<Vec<f64>>()),
            11 => v((0..n).map(|i| char::from_u32(i as u32 + 0x20ac).unwrap()).collect::<Vec<char>>()),
            12 => v((0..n).map(|i| ts(i as i64 - 5)).collect::<Vec<DateTime<Utc>>>()),
            13 => v((0..n).map(|i| uuid::Uuid::from_bytes([i as u8; 16])).collect::<Vec<uuid::Uuid>>()),
            14 => v(vec![Bytes::from(vec![3u8; n]), Bytes::new()]),
            15 => v(vec![bstr(static_str(n))]),
            16 => v(vec![Symbol::from(static_str(n)), Symbol::from("")]),
            _ => v((0..n).map(|i| Symbol::from_slice(&format!("{}", i))).collect::<Vec<Symbol>>()),
        }
    }));
    f.push(fam("size/array of maps", 0, move |c| {
        let n = c.choose(if deep { 300 } else { 130 });
        // the sizes of the maps: none, one entry, growing, alternating with empty ones
        let style = c.choose(4);
        let entries = |i: usize| match style {
            0 => 0,
            1 => 1,
            2 => i % 5,
            _ => (i % 2) * 3,
        };
        match c.choose(4) {
            0 => v((0..n)
                .map(|i| (0..entries(i)).map(|j| (Symbol::from_slice(&format!("{}", j)), Variant::Uint(j as u32))).collect())
                .collect::<Vec<HashMap<Symbol, Variant>>>()),
            1 => v((0..n)
                .map(|i| (0..entries(i)).map(|j| (Str::from_str(&format!("{}", j)), Variant::Null)).collect())
                .collect::<Vec<HashMap<Str, Variant>>>()),
            2 => v((0..n)
                .map(|i| (0..entries(i)).map(|j| (Variant::Ubyte(j as u8), Variant::Binary(Bytes::from(vec![1u8; n])))).collect())
                .collect::<Vec<HashMap<Variant, Variant>>>()),
            _ => v((0..n)
                .map(|i| (0..entries(i)).map(|j| (j as u64 * 200, j as i64 - 1)).collect())
                .collect::<Vec<HashMap<u64, i64>>>()),
        }
    }));
    f.push(fam("nesting/chains", 0, move |c| {
        const FAR: [usize; 13] = [200, 250, 254, 255, 256, 257, 300, 400, 500, 511, 512, 513, 700];
        let near = if deep { 450 } else { 150 };
        let k = c.choose(near + FAR.len());
        let d = if k < near { k + 1 } else { FAR[k - near] };
        let x = chain(d, c.choose(7));
        match c.choose(8) {
            0 => v(x),
            1 => v(t::List(vec![x])),
            2 => v(Variant::List(t::List(vec![x.clone(), x]))),
            3 => vk(std::iter::once((Symbol::from("k"), x)).collect::<HashMap<Symbol, Variant>>(), Kind::Ty(Ty::Fields)),
            4 => vk(VecVariantMap(vec![(Str::from("k"), x)]), Kind::Ty(Ty::StrMap)),
            5 => vk(p::Section::AmqpValue(x), Kind::Section),
            6 => vk(p::Section::Footer(std::iter::once((Symbol::from("k"), x)).collect()), Kind::Section),
            _ => v(Some(x)),
        }
    }));
    // containers of many small things
    let ns = many(deep);
    f.push(fam("count/many", 0, move |c| {
        let n = *c.pick(&ns);
        match c.choose(8) {
            0 => v(t::List((0..n).map(|i| Variant::Boolean(i % 3 == 0)).collect())),
            1 => v(vec![true; n]),
            2 => v((0..n).map(|i| i as u8).collect::<Vec<u8>>()),
            3 => v((0..n).map(|i| (Variant::Uint(i as u32), Variant::Null)).collect::<HashMap<_, _>>()),
            4 => v(Multiple((0..n).map(|_| Symbol::from("")).collect())),
            5 => v((0..n).map(|i| i as u16).collect::<Vec<u16>>()),
            6 => v(vec![bstr(""); n]),
            _ => vk(
                VecVariantMap((0..n).map(|i| (Str::from_str(&format!("{}", i)), Variant::Uint(i as u32))).collect()),
                Kind::Ty(Ty::StrMap),
            ),
        }
    }));
    f.push(fam("size/multiple", 0, move |c| {
        let n = c.choose(top);
        let m = match c.choose(4) {
            0 => Multiple(vec![Symbol::from(static_str(n))]),
            1 => Multiple(vec![Symbol::from(static_str(n)), Symbol::from("b")]),
            2 => Multiple((0..n).map(|_| Symbol::from("")).collect()),
            _ => Multiple((0..n).map(|i| Symbol::from_slice(&format!("{}", i))).collect()),
        };
        match c.choose(2) {
            0 => vk(m, Kind::Ty(Ty::Syms)),
            _ => vk(Some(m), Kind::Ty(Ty::Syms)),
        }
    }));
    if deep {
        f.push(fam("size/large compounds", 0, |c| {
            let n = *c.pick(&[65_533usize, 65_534, 65_535, 65_536, 65_537, 70_000]);
            match c.choose(5) {
                0 => v(t::List(vec![Variant::Null; n])),
                1 => v(vec![true; n]),
                2 => v(t::List(vec![Variant::Binary(Bytes::from(vec![1u8; n]))])),
                3 => v((0..n).map(|i| (Variant::Uint(i as u32), Variant::Null)).collect::<HashMap<_, _>>()),
                _ => v(vec![Symbol::from(static_str(n)), Symbol::from("")]),
            }
        }));
    }
    for n in 1..=(if deep { 5 } else { 4 }) {
        let name = ["", "tree/1 node", "tree/2 nodes", "tree/3 nodes", "tree/4 nodes", "tree/5 nodes"][n];
        f.push(fam(name, 0, move |c| {
            let all = leaves();
            let ds = descs();
            // larger trees use fewer leaves and descriptors
            let x = match n {
                1..=3 => tree(c, n, all, &ds),
                4 => tree(c, n, &[all[0].clone(), all[6].clone(), all[9].clone(), all[15].clone(), all[17].clone(), all[18].clone(), all[19].clone()], &ds[2..4]),
                _ => tree(c, n, &[all[0].clone(), all[5].clone(), all[17].clone(), all[18].clone()], &ds[4..]),
            };
            vv(x.unwrap_or(Variant::Null))
        }));
    }
    f.push(fam("restricted types", 0, |c| {
        let ty = *c.pick(&RESTRICTED);
        let d = spec::dom(ty, true);
        let x = c.pick(&d).clone();
        restricted(ty, &x)
    }));
    f.push(fam("sections of restricted types", 0, |c| {
        let (_, code, ty, _) = spec::RSECTIONS[c.choose(7)];
        let d = spec::dom(ty, true);
        let x = c.pick(&d).clone();
        vk(p::Section::from_rv(&RV::desc(code, x)), Kind::Section)
    }));
    f.push(fam("composites", if deep { 3 } else { 2 }, move |c| {
        let i = c.choose(spec::comps().len());
        let co = &spec::comps()[i];
        let r = comp_value(c, co, deep, 1);
        let mut its = comp_items(co.name, &filled(co, &r));
        let k = c.choose(its.len());
        its.swap_remove(k)
    }));
    // fields all small except one, so that the composite's size passes through the limit byte by byte
    f.push(fam("composites/size boundary", 0, |c| {
        let i = c.choose(spec::comps().len());
        let co = &spec::comps()[i];
        let which: Vec<usize> = (0..co.fields.len())
            .filter(|i| matches!(co.fields[*i].ty, Ty::Str | Ty::Sym | Ty::Bin | Ty::Fields | Ty::Syms | Ty::MsgId | Ty::ErrCond))
            .collect();
        let base = if c.flip() { spec::full(co, 0) } else { spec::minimal(co) };
        let mut f = fields_of(&filled(co, &base));
        if !which.is_empty() {
            let w = *c.pick(&which);
            let n = c.choose(270);
            f[w] = match co.fields[w].ty {
                Ty::Str => RV::Str(static_str(n).into()),
                Ty::Sym | Ty::ErrCond => Sym(static_str(n).into()),
                Ty::Bin | Ty::MsgId => Bin(vec![5; n]),
                Ty::Syms => Array(vec![Sym(static_str(n).into()), Sym("t".into())]),
                _ => Map(vec![(Sym("m".into()), Bin(vec![6; n]))]),
            };
        }
        let mut its = comp_items(co.name, &RV::desc(co.code, List(f)));
        its.swap_remove(0)
    }));
    f
}

fn nan32(c: &mut Ctx, x: f32) -> BoxItem {
    let eq = !x.is_nan();
    match c.choose(3) {
        0 => Box::new(V { v: x, kind: Kind::Plain, eq }),
        1 => v(Variant::Float(ordered_float::OrderedFloat(x))),
        _ => Box::new(V { v: Some(x), kind: Kind::Plain, eq }),
    }
}
fn nan64(c: &mut Ctx, x: f64) -> BoxItem {
    let eq = !x.is_nan();
    match c.choose(3) {
        0 => Box::new(V { v: x, kind: Kind::Plain, eq }),
        1 => v(Variant::Double(ordered_float::OrderedFloat(x))),
        _ => Box::new(V { v: Some(x), kind: Kind::Plain, eq }),
    }
}
