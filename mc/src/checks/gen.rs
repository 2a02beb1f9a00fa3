//! C22: the definitions the generator writes behave like the ones that are checked in.
//!
//! The same executions are run against the library as it is and against a copy with regenerated
//! definitions; whatever an execution shows is compared.
use super::c01::seeds;
use super::frames::{put_frame, read_all};
use super::strict::masked;
use super::values::{readers, targets};
use crate::conv::ToRv;
use crate::dectab::{dec, decs, zero_width, Dec, Want};
use crate::explore::{clip, harness_location, last_panic, unit, Ctx, Unit, R};
use crate::items::{comp_items, comp_value, filled, named, named_texts, restricted, BoxItem, RESTRICTED};
use crate::rv::{self, RV, RV::*};
use crate::spec;
use crate::util::*;
use amqp_codec::{AmqpFrame, Decode, InMessage, SaslFrame};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// run library code; a panic is something to observe like anything else
fn lib(f: impl FnOnce() -> String) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(e) => {
            let (m, at) = last_panic();
            if harness_location(&at) {
                std::panic::resume_unwind(e);
            }
            format!("panic: {}", m)
        }
    }
}

fn see(c: &mut Ctx, unit: &str, text: String) -> R {
    c.observe(unit, &text).map_err(|t| {
        let mut other = String::new();
        if let Ok(bin) = std::env::var("MC_GEN") {
            let (b, p) = c.path();
            let list: Vec<String> = p.iter().map(|x| x.to_string()).collect();
            if let Ok(o) = std::process::Command::new(bin).args(["observed", unit, &b.to_string(), &list.join(",")]).output() {
                other = String::from_utf8_lossy(&o.stdout).trim().to_string();
            }
        }
        // where they part
        let at = t.bytes().zip(other.bytes()).take_while(|(a, b)| a == b).count();
        let mut from = at.saturating_sub(60);
        while !t.is_char_boundary(from) || !other.is_char_boundary(from) {
            from -= 1;
        }
        format!("checked in: {} -- regenerated: {}", clip(&t[from..], 500), clip(&other[from..], 500))
    })
}

fn show(r: Result<(usize, RV), amqp_codec::AmqpParseError>) -> String {
    match r {
        Ok((rest, x)) => format!("{} left, {:?}", rest as isize, x),
        Err(e) => format!("{:?}", e),
    }
}
fn run(d: &Dec, b: &[u8]) -> String {
    lib(|| match d.full {
        Some(f) => show(f(b)),
        None => format!("{:?}", (d.raw)(b)),
    })
}

fn item(it: &BoxItem) -> String {
    lib(|| {
        let b = it.bytes();
        let back = it.dec(&b).map(|(r, v, e)| (r as isize, format!("{:?}", v), e));
        format!("{} {} size {} bytes {} back {:?}", it.ty(), it.show(), it.size(), hexall(&b), back)
    })
}
fn hexall(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

/// decoders whose code is generated, or that hand over to generated code
fn generated() -> Vec<&'static Dec> {
    decs()
        .iter()
        .filter(|d| match d.want {
            Want::Comp(_) | Want::Members(_) | Want::Section => true,
            Want::Ty(_) | Want::Opt(_) => true,
            Want::Other => true,
            _ => false,
        })
        .collect()
}

pub fn units(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    let mut add = |name: &'static str, bound: usize, f: Box<dyn Fn(&mut Ctx) -> Result<String, String> + Send + Sync>| {
        us.push(unit(name, bound, move |c| {
            let t = f(c)?;
            c.sample(|| clip(&t, 300));
            c.state(&t);
            see(c, name, t)
        }));
    };
    add("composite values: shown, measured, written, read back, asked for each field", if deep { 3 } else { 2 }, Box::new(move |c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        let r = filled(co, &comp_value(c, co, deep, 1));
        let mut its = comp_items(co.name, &r);
        let k = c.choose(its.len());
        let t = item(&its.swap_remove(k));
        c.outcome(co.name);
        Ok(t + &lib(|| format!(" fields {:?}", read_all(co.name, &r))))
    }));
    add("composite values the sources name", 0, Box::new(|c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        let mut r = filled(co, &if c.flip() { spec::full(co, 0) } else { spec::minimal(co) });
        if let (Desc(_, l), false) = (&mut r, co.fields.is_empty()) {
            if let List(l) = l.as_mut() {
                let i = c.choose(co.fields.len());
                let d = named(co.fields[i].ty);
                if !d.is_empty() {
                    l[i] = c.pick(&d).clone();
                }
            }
        }
        let mut its = comp_items(co.name, &r);
        let k = c.choose(its.len());
        let b = rv::compact(&r);
        let mut t = item(&its.swap_remove(k));
        for d in readers(co.name) {
            t += &run(dec(d), &b);
        }
        Ok(t + &lib(|| format!(" fields {:?}", read_all(co.name, &r))))
    }));
    add("restricted values", 0, Box::new(|c| {
        let ty = *c.pick(&RESTRICTED);
        let d = spec::dom(ty, true);
        let x = c.pick(&d).clone();
        Ok(item(&restricted(ty, &x)))
    }));
    add("sections", 0, Box::new(|c| {
        let (_, code, ty, _) = spec::RSECTIONS[c.choose(7)];
        let d = spec::dom(ty, true);
        let x = c.pick(&d).clone();
        let b = rv::compact(&RV::desc(code, x));
        let mut s = String::new();
        for d in ["section", "in message", "out message"] {
            s += &run(dec(d), &b);
        }
        Ok(s + &lib(|| format!("{:?}", InMessage::decode(&b).map(|(_, m)| (m.body().data().map(|x| x.to_vec()), m.body().value().map(|v| v.rv()))))))
    }));
    add("every set of absent fields, every length of the field list", 0, Box::new(|c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        let len = c.choose(co.fields.len() + 3);
        let salt = c.choose(2);
        let bits = len.min(co.fields.len());
        // low bits here, high bits below
        let high = (bits / 2..bits).fold(0usize, |a, i| a | (c.choose(2) << i));
        let ds = readers(co.name);
        let mut s = String::new();
        for low in 0..1usize << (bits / 2) {
            let mut r = masked(co, bits, high | low, salt);
            if let Desc(_, l) = &mut r {
                if let List(l) = l.as_mut() {
                    l.resize(len, Uint(7));
                }
            }
            for b in [rv::compact(&r), rv::widest(&r)] {
                for d in &ds {
                    s += &run(dec(d), &b);
                }
                c.traces(ds.len() as u64);
            }
        }
        Ok(s)
    }));
    add("each field at each value, and at values of each other type", 0, Box::new(|c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        if co.fields.is_empty() {
            return Ok(String::new());
        }
        let i = c.choose(co.fields.len());
        let mut xs = spec::dom(co.fields[i].ty, true);
        xs.extend([
            Null, Bool(true), Bool(false), Ubyte(1), Ubyte(200), Ushort(1), Uint(0), Uint(1), Uint(300), Ulong(0), Ulong(1), Ulong(300), Byte(1), Short(1), Int(1), Long(1),
            Float(0), Double(0), Char(65), Ts(0), RV::Uuid([1; 16]), Bin(vec![]), Bin(vec![1]), Str("".into()), Str("copy".into()), Sym("copy".into()), Sym("zz".into()),
            Sym("amqp:not-found".into()), List(vec![]), Map(vec![]), Array(vec![Sym("a".into())]), Array(vec![Ubyte(1)]),
        ]);
        for co in spec::comps() {
            xs.push(spec::minimal(co));
            xs.push(spec::full(co, 0));
        }
        let x = c.pick(&xs).clone();
        let mut s = String::new();
        for base in [spec::minimal(co), spec::full(co, 0)] {
            let mut r = base;
            if let Desc(_, l) = &mut r {
                if let List(l) = l.as_mut() {
                    l[i] = x.clone();
                }
            }
            for b in [rv::compact(&r), rv::widest(&r)] {
                for d in readers(co.name) {
                    s += &run(dec(d), &b);
                }
            }
        }
        c.traces(4);
        Ok(s)
    }));
    for (name, bound, tg) in targets(deep) {
        if name != "composites" && name != "message sections" {
            continue;
        }
        let name: &'static str = leaked(&format!("permitted encodings: {}", name));
        add(name, bound, Box::new(move |c| {
            let t = tg(c);
            let mut b = vec![];
            rv::emit(&t.content, &mut rv::Dev(c), &mut b);
            Ok(run(dec(t.dec), &b))
        }));
    }
    add("valid encodings with one byte changed, cut or added", 0, Box::new(|c| {
        // bare arrays whose elements may have no width are not generated, and allocate by the count
        let v: Vec<&(&'static Dec, Vec<u8>)> = seeds().iter().filter(|s| !zero_width(s.0)).collect();
        let (d, b) = v[c.choose(v.len())];
        let pos = c.choose(b.len() + 1);
        let mut s = String::new();
        let mut w = b.clone();
        if pos < b.len() {
            for x in 0..=255u8 {
                w[pos] = x;
                s += &run(d, &w);
            }
            s += &run(d, &b[..pos]);
            c.traces(256);
        } else {
            for x in 0..=255u8 {
                w.push(x);
                s += &run(d, &w);
                w.pop();
            }
            c.traces(255);
        }
        Ok(s)
    }));
    add("first bytes", 0, Box::new(|c| {
        let g = generated();
        let d = g[c.choose(g.len())];
        let a = c.choose(256) as u8;
        let mut s = String::new();
        for b in 0..=255u8 {
            for t in [&b""[..], b"\x45", b"\x00\x45", b"\x53\x24\x45", b"\x01\x40", b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"] {
                let mut w = vec![a, b];
                w.extend_from_slice(t);
                s += &run(d, &w);
            }
        }
        c.traces(256 * 6 - 1);
        Ok(s)
    }));
    add("descriptors", 0, Box::new(|c| {
        let g = generated();
        let d = g[c.choose(g.len())];
        let form = c.choose(3);
        let mut heads: Vec<Vec<u8>> = vec![];
        match form {
            0 => heads.extend((0..=255u8).map(|x| vec![0, 0x53, x])),
            1 => {
                for (code, _) in spec::all_descriptors() {
                    for hi in 0..64 {
                        let mut h = vec![0, 0x80];
                        h.extend_from_slice(&(code ^ 1u64 << hi).to_be_bytes());
                        heads.push(h);
                    }
                    let mut h = vec![0, 0x80];
                    h.extend_from_slice(&code.to_be_bytes());
                    heads.push(h);
                }
                heads.push(vec![0, 0x44]);
                for n in &dict().nums {
                    let mut h = vec![0, 0x80];
                    h.extend_from_slice(&n.to_be_bytes());
                    heads.push(h);
                }
            }
            _ => {
                for (_, s) in spec::all_descriptors() {
                    let mut alts: Vec<Vec<u8>> = (0..=s.len()).map(|n| s.as_bytes()[..n].to_vec()).collect();
                    for i in 0..s.len() {
                        let mut x = s.clone().into_bytes();
                        x[i] ^= 0x20;
                        alts.push(x);
                    }
                    alts.push(format!("{}x", s).into_bytes());
                    for x in alts {
                        let mut h = vec![0, 0xa3, x.len() as u8];
                        h.extend_from_slice(&x);
                        heads.push(h);
                    }
                }
                for s in named_texts(true).iter().filter(|s| s.len() < 256) {
                    let mut h = vec![0, 0xa3, s.len() as u8];
                    h.extend_from_slice(s.as_bytes());
                    heads.push(h);
                }
            }
        }
        let mut s = String::new();
        for h in &heads {
            for t in [&b"\x45"[..], b"\xc0\x03\x01\xa1\x00", b"\xc1\x01\x00", b"\xa0\x00", b"\x40"] {
                let mut w = h.clone();
                w.extend_from_slice(t);
                s += &run(d, &w);
            }
        }
        c.traces(heads.len() as u64 * 5 - 1);
        Ok(s)
    }));
    add("texts of enumerations", 0, Box::new(|c| {
        let g = generated();
        let d = g[c.choose(g.len())];
        let mut all: Vec<&str> = spec::ERRORS.to_vec();
        all.extend(spec::EXPIRY);
        all.extend(["move", "copy"]);
        all.extend(named_texts(true).iter().map(|s| s.as_str()));
        let n = all.len() - named_texts(true).len();
        let k = c.choose(all.len());
        let t = all[k];
        let mut alts: Vec<String> = (0..=t.len()).map(|n| t[..n].to_string()).collect();
        if k >= n {
            alts = vec![t.to_string()];
        }
        for i in 0..if k < n { t.len() } else { 0 } {
            for x in ["-", ":", "a", "A", ""] {
                alts.push(format!("{}{}{}", &t[..i], x, &t[i + 1..]));
            }
        }
        alts.push(format!("{}x", t));
        let mut s = String::new();
        for a in &alts {
            for x in [Sym(a.clone()), Str(a.clone())] {
                for b in [rv::compact(&x), rv::widest(&x)] {
                    s += &run(d, &b);
                }
            }
        }
        c.traces(alts.len() as u64 * 4 - 1);
        Ok(s)
    }));
    add("small numbers", 0, Box::new(|c| {
        let g = generated();
        let d = g[c.choose(g.len())];
        let mut s = String::new();
        for code in [0x50u8, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56] {
            for x in 0..=255u8 {
                s += &run(d, &[code, x]);
                s += &run(d, &[code | 0x20, 0, x]);
                s += &run(d, &[0x70, 0, 0, 0, x]);
            }
        }
        c.traces(7 * 256 * 3 - 1);
        Ok(s)
    }));
    add("frames and messages of every composite", 0, Box::new(|c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        let r = match c.choose(3) {
            0 => spec::minimal(co),
            1 => spec::full(co, 0),
            _ => spec::full(co, 1),
        };
        let mut body = if c.flip() { rv::widest(&r) } else { rv::compact(&r) };
        if c.flip() {
            body.extend_from_slice(b"\x00\x53\x75\xa0\x01x");
        }
        let a = put_frame(0, 77, &[], &body);
        let z = put_frame(1, 0, &[], &body);
        Ok(lib(|| {
            format!(
                "{:?} {:?} {:?}",
                AmqpFrame::decode(&a[4..]).map(|(_, f)| (f.channel_id(), f.performative().name(), format!("{:?}", f))),
                SaslFrame::decode(&z[4..]).map(|(_, f)| format!("{:?}", f)),
                InMessage::decode(&body).map(|(_, m)| format!("{:?}", m))
            )
        }))
    }));
    us
}
