//! C23: things that are alike except in one place, every pair of them one after the other.
use super::history::{item_op, run, Op};
use super::messages::{self, Api, Msg};
use crate::explore::{unit, Ctx, Unit, R};
use crate::items::{comp_items, filled, restricted, BoxItem, RESTRICTED};
use crate::rv::{RV, RV::*};
use crate::spec::{self, Ty};
use crate::util::*;
use amqp_codec::{InMessage, OutMessage};

fn sy(s: &str) -> RV {
    Sym(s.into())
}
fn st(s: &str) -> RV {
    Str(s.into())
}

/// maps with the same keys and other values, the same values under other keys, one entry more
fn maps(k: fn(&str) -> RV, texts: bool) -> Vec<RV> {
    let v = |n: u32| if texts { st(["one", "two", "six"][n as usize]) } else { Uint(n + 1) };
    let m = |e: &[(&str, RV)]| Map(e.iter().map(|(n, x)| (k(n), x.clone())).collect());
    let mut out = vec![
        m(&[("a", v(0))]),
        m(&[("a", v(1))]),
        m(&[("b", v(0))]),
        m(&[("A", v(0))]),
        m(&[("a", v(0)), ("b", v(1))]),
        m(&[("a", v(1)), ("b", v(0))]),
        m(&[("a", v(0)), ("b", v(2))]),
        m(&[("a", v(0)), ("c", v(1))]),
        m(&[("ab", v(0))]),
        m(&[("ba", v(0))]),
        m(&[("a", Null)]),
    ];
    if !texts {
        out.push(m(&[("a", m(&[("b", v(0))]))]));
        out.push(m(&[("a", m(&[("b", v(1))]))]));
        out.push(m(&[("a", List(vec![v(0), v(1)]))]));
        out.push(m(&[("a", List(vec![v(1), v(0)]))]));
        out.push(m(&[("a", st("x"))]));
        out.push(m(&[("a", sy("x"))]));
        out.push(m(&[("a", Bin(b"x".to_vec()))]));
    }
    out
}

/// Values of a type, among them many that are alike.
pub(super) fn near(ty: Ty, deep: bool) -> Vec<RV> {
    let mut v = spec::dom(ty, deep);
    v.push(spec::dist(ty, 0));
    v.push(spec::dist(ty, 2));
    let texts = ["ab", "ba", "ax", "Ab", "abc", "a\u{e9}", "\u{e9}a"];
    match ty {
        Ty::Str => v.extend(texts.iter().map(|s| st(s))),
        Ty::Sym | Ty::ErrCond | Ty::DistMode => v.extend(texts[..5].iter().map(|s| sy(s))),
        Ty::Bin => v.extend(texts.iter().map(|s| Bin(s.as_bytes().to_vec()))),
        Ty::MsgId => {
            v.extend(texts.iter().map(|s| st(s)));
            v.extend(texts.iter().map(|s| Bin(s.as_bytes().to_vec())));
            v.extend([1, 2, 257, 513].iter().map(|n| Ulong(*n)));
            v.push(RV::Uuid(*b"abababababababab"));
            v.push(RV::Uuid(*b"babababababababa"));
        }
        Ty::Uint => v.extend([2, 257, 65536, 65537, 0x100_0000].iter().map(|n| Uint(*n))),
        Ty::Ushort => v.extend([1, 257, 0x100, 0x0201].iter().map(|n| Ushort(*n))),
        Ty::Ulong => v.extend([2, 257, 65537, 0x1_0000_0001].iter().map(|n| Ulong(*n))),
        Ty::Ubyte => v.extend([1, 5, 128].iter().map(|n| Ubyte(*n))),
        Ty::Ts => v.extend([1, 1000, 1001, 2000, -2, -999].iter().map(|n| Ts(*n))),
        Ty::Fields => v.extend(maps(sy, false)),
        Ty::StrMap => v.extend(maps(st, false)),
        Ty::Map => {
            v.extend(maps(st, false));
            v.extend(maps(sy, false));
        }
        Ty::Filter => v.extend(maps(sy, true)),
        Ty::Syms => {
            let a = |t: &[&str]| Array(t.iter().map(|s| sy(s)).collect());
            v.extend([a(&["a"]), a(&["b"]), a(&["a", "b"]), a(&["b", "a"]), a(&["ab"]), a(&["a", "b", "c"]), a(&["a", "c", "b"])]);
        }
        Ty::List => v.extend([List(vec![Int(1)]), List(vec![Int(2)]), List(vec![Int(1), Int(2)]), List(vec![Int(2), Int(1)])]),
        Ty::Any => {
            v.extend(texts.iter().map(|s| st(s)));
            v.extend(texts[..5].iter().map(|s| sy(s)));
            v.extend(texts.iter().map(|s| Bin(s.as_bytes().to_vec())));
            v.extend(maps(sy, false));
            for d in [1u64, 2, 257] {
                v.push(Desc(Box::new(Ulong(d)), Box::new(Uint(1))));
                v.push(Desc(Box::new(Ulong(d)), Box::new(Uint(2))));
            }
            v.push(Desc(Box::new(sy("ab")), Box::new(Uint(1))));
            v.push(Desc(Box::new(sy("ba")), Box::new(Uint(1))));
        }
        Ty::State | Ty::Outcome => {
            for m in spec::members(ty) {
                v.push(spec::full(spec::comp(m), 2));
            }
        }
        Ty::Comp(c) => v.push(spec::full(spec::comp(c), 2)),
        _ => {}
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// a library type that holds composites or values of a restricted type
#[derive(Clone, Copy)]
pub(super) enum Holder {
    Comp(&'static spec::Comp, usize),
    Ty(Ty),
}

impl Holder {
    pub(super) fn hold(self, r: &RV) -> BoxItem {
        match self {
            Holder::Comp(co, k) => comp_items(co.name, &filled(co, r)).swap_remove(k),
            Holder::Ty(ty) => restricted(ty, r),
        }
    }
}

fn a_b_a(c: &mut Ctx, h: Holder, a: RV, b: RV) -> R {
    let way = c.choose(4);
    // the items are made anew for every step
    let op = |r: RV| -> Op { item_op(move || h.hold(&r)) };
    let (x, y) = (op(a), op(b));
    c.states(1);
    c.sample(|| format!("{} ; {}", x.name, y.name));
    run(c, &[&x, &y, &x, &y], &[way, way, way, [2, 3, 0, 1][way]])
}

fn composites(deep: bool) -> Unit {
    unit("composites alike but for one field, every pair", 0, move |c: &mut Ctx| {
        let all = spec::comps();
        let co = &all[c.choose(all.len())];
        if co.fields.is_empty() {
            return Ok(());
        }
        let i = c.choose(co.fields.len());
        let f = &co.fields[i];
        let mut vs = near(f.ty, deep);
        if !f.mandatory {
            vs.push(Null);
        }
        // the other fields all there, or only those that must be
        let base = if c.flip() { spec::full(co, 0) } else { spec::minimal(co) };
        let (a, b) = (c.choose(vs.len()), c.choose(vs.len()));
        let n = comp_items(co.name, &filled(co, &base)).len();
        let h = Holder::Comp(co, c.choose(n));
        let with = |x: &RV| match &base {
            Desc(d, l) => match &**l {
                List(l) => {
                    let mut l = l.clone();
                    l[i] = x.clone();
                    Desc(d.clone(), Box::new(List(l)))
                }
                _ => unreachable!(),
            },
            _ => unreachable!(),
        };
        a_b_a(c, h, with(&vs[a]), with(&vs[b]))
    })
}

fn types(deep: bool) -> Unit {
    unit("values of one type that are alike, every pair", 0, move |c: &mut Ctx| {
        let ty = *c.pick(&RESTRICTED);
        let vs = near(ty, deep);
        let (a, b) = (c.choose(vs.len()), c.choose(vs.len()));
        a_b_a(c, Holder::Ty(ty), vs[a].clone(), vs[b].clone())
    })
}

/// Messages that are alike but for one section.
fn sections<M: Api>(deep: bool) -> Unit {
    unit(format!("{}s alike but for one section, every pair", M::NAME), 0, move |c: &mut Ctx| {
        let mut base = Msg::default();
        if c.flip() {
            base.header = Some(filled(spec::comp("header"), &spec::full(spec::comp("header"), 0)));
            base.da = Some(Map(vec![(sy("d"), Uint(1))]));
            base.ma = Some(Map(vec![(sy("m"), Uint(1))]));
            base.props = Some(spec::full(spec::comp("properties"), 0));
            base.app = Some(vec![("p".into(), Uint(1))]);
            base.footer = Some(Map(vec![(sy("f"), Uint(1))]));
        }
        let body = c.choose(3);
        match body {
            0 => base.data = vec![b"ab".to_vec()],
            1 => base.seq = vec![List(vec![Uint(1)])],
            _ => base.val = Some(st("ab")),
        }
        let comp = |name: &'static str| -> Vec<RV> {
            let co = spec::comp(name);
            let full = spec::full(co, 0);
            let mut out = vec![filled(co, &full), filled(co, &spec::minimal(co))];
            for (i, f) in co.fields.iter().enumerate() {
                let v = near(f.ty, false);
                for x in v.iter().take(if deep { 6 } else { 2 }) {
                    if let Desc(d, l) = &full {
                        if let List(l) = &**l {
                            let mut l = l.clone();
                            l[i] = x.clone();
                            out.push(filled(co, &Desc(d.clone(), Box::new(List(l)))));
                        }
                    }
                }
            }
            out
        };
        let app = |r: &RV| -> Vec<(String, RV)> {
            match r {
                Map(e) => e
                    .iter()
                    .map(|(k, v)| match k {
                        Str(k) => (k.clone(), v.clone()),
                        _ => unreachable!(),
                    })
                    .collect(),
                _ => unreachable!(),
            }
        };
        let which = c.choose(9);
        let vs: Vec<RV> = match which {
            0 => comp("header"),
            1 | 2 | 5 => near(Ty::Fields, deep),
            3 => comp("properties"),
            4 => near(Ty::StrMap, deep),
            6 => near(Ty::Bin, deep),
            7 => near(Ty::List, deep),
            _ => near(Ty::Any, deep),
        };
        let (a, b) = (c.choose(vs.len()), c.choose(vs.len()));
        let with = |r: &RV| -> Msg {
            let mut m = base.clone();
            let r = r.clone();
            if which >= 6 && which < 9 {
                m.data.clear();
                m.seq.clear();
                m.val = None;
            }
            match which {
                0 => m.header = Some(r),
                1 => m.da = Some(r),
                2 => m.ma = Some(r),
                3 => m.props = Some(r),
                4 => m.app = Some(app(&r)),
                5 => m.footer = Some(r),
                6 => {
                    if let Bin(d) = r {
                        m.data = vec![d];
                    }
                }
                7 => m.seq = vec![r],
                _ => m.val = Some(r),
            }
            m
        };
        let (x, y) = (with(&vs[a]), with(&vs[b]));
        c.states(1);
        c.sample(|| format!("{:?} ; {:?}", x, y));
        c.say(|| format!("{:?} ; {:?}", x, y));
        let (bx, by) = (messages::write(&x), messages::write(&y));
        let received = |b: &[u8], want: &Msg| -> Result<M, String> {
            let (rest, m) = M::decode(b).map_err(|e| format!("{:?} does not decode: {:?} ({})", want, e, hex(b)))?;
            ensure!(rest.is_empty(), "{} bytes left", rest.len());
            Ok(m)
        };
        let step = |b: &[u8], m: &Msg, after: &str| -> R {
            let got = received(b, m)?;
            messages::reads_back(&got, m).map_err(|e| format!("{} from {} after {}: {}", M::NAME, hex(b), after, e))
        };
        step(&bx, &x, "nothing")?;
        step(&by, &y, &hex(&bx))?;
        step(&bx, &x, &hex(&by))?;
        // both held at once
        let (m, n) = (received(&bx, &x)?, received(&by, &y)?);
        messages::reads_back(&m, &x).map_err(|e| format!("{} next to {}: {}", hex(&bx), hex(&by), e))?;
        messages::reads_back(&n, &y).map_err(|e| format!("{} next to {}: {}", hex(&by), hex(&bx), e))?;
        c.traces(4);
        Ok(())
    })
}

pub fn units(deep: bool) -> Vec<Unit> {
    vec![composites(deep), types(deep), sections::<InMessage>(deep), sections::<OutMessage>(deep)]
}
