//! C23: what is encoded, measured or decoded depends on that item alone.
//!
//! Sequences of complete operations on objects that have nothing to do with each other; every
//! operation is judged by the model, whatever came before it.
use super::frames::{build, empty, on_wire, put_frame, same_frame, sasl_on_wire, Af};
use super::messages;
use crate::conv::{bstr, FromRv, ToRv};
use crate::explore::{unit, Ctx, Unit, R};
use crate::items::{comp_items, filled, restricted, v, vv, BoxItem, Kind};
use crate::rv::{self, RV, RV::*};
use crate::spec::{self, Ty};
use crate::util::*;
use amqp_codec::protocol::{self as p, Frame, TransferBody};
use amqp_codec::types::{self as t, Variant};
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, OutMessage, ProtocolIdCodec, SaslFrame};
use bytes::{Bytes, BytesMut};
use std::sync::{Arc, OnceLock};
use tokio_codec::{Decoder, Encoder};

/// What can be done with one subject; each way is judged by itself.
pub(super) struct Op {
    pub name: String,
    pub ways: usize,
    pub f: Box<dyn Fn(usize) -> R + Send + Sync>,
    /// makes the item anew
    pub mk: Option<Arc<dyn Fn() -> BoxItem + Send + Sync>>,
}

/// measure, encode, decode its compact and its widest encoding, be refused a truncated one
pub(super) fn item_op(mk: impl Fn() -> BoxItem + Send + Sync + 'static) -> Op {
    let mk: Arc<dyn Fn() -> BoxItem + Send + Sync> = Arc::new(mk);
    let again = mk.clone();
    let it = mk();
    let want = it.rv();
    let name = format!("{} {}", it.ty(), crate::explore::clip(&it.show(), 120));
    let transfer = matches!(it.kind(), Kind::Comp("transfer")) || matches!((it.kind(), &want), (Kind::Frame, Desc(d, _)) if **d == Ulong(20));
    let (a, b) = (rv::compact(&want), rv::widest(&want));
    let n2 = name.clone();
    Op {
        name,
        mk: Some(again),
        ways: 5,
        f: Box::new(move |way| {
            let dec = |w: &[u8], how: &str| -> R {
                let it = mk();
                let (rest, got, _) = it.dec(w).map_err(|e| format!("{}: its {} encoding is answered with {:?} ({})", n2, how, e, hex(w)))?;
                ensure!(rest == 0 || transfer, "{}: {} bytes left of its {} encoding ({})", n2, rest as isize, how, hex(w));
                ensure!(got.same(&want), "{}: its {} encoding decodes to {:?} ({})", n2, how, got, hex(w));
                Ok(())
            };
            match way {
                0 => {
                    let it = mk();
                    let n = it.size();
                    let mut o = BytesMut::with_capacity(n + 64);
                    it.enc(&mut o);
                    ensure!(n == o.len(), "{}: announced {} bytes, wrote {} ({})", n2, n, o.len(), hex(&o));
                    let p = rv::parse_all(&o).map_err(|e| format!("{}: {} ({})", n2, e, hex(&o)))?;
                    it.check(&p).map_err(|e| format!("{}: {} ({})", n2, e, hex(&o)))
                }
                1 => {
                    // unmeasured
                    let it = mk();
                    let mut o = BytesMut::with_capacity(a.len() * 4 + 4096);
                    it.enc(&mut o);
                    let p = rv::parse_all(&o).map_err(|e| format!("{}: {} ({})", n2, e, hex(&o)))?;
                    it.check(&p).map_err(|e| format!("{}: {} ({})", n2, e, hex(&o)))
                }
                2 => dec(&a, "compact"),
                3 => dec(&b, "widest"),
                _ => {
                    let it = mk();
                    let cut = &a[..a.len() - 1];
                    if cut.is_empty() && it.kind() == Kind::Frame {
                        return Ok(());
                    }
                    match it.dec(cut) {
                        Err(ref e) if is_incomplete(e) => Ok(()),
                        x => Err(format!("{}: without its last byte it is answered with {:?} ({})", n2, x, hex(cut))),
                    }
                }
            }
        }),
    }
}

fn frame_op(mk: impl Fn() -> Af + Send + Sync + 'static, bad: Vec<u8>) -> Op {
    let name = crate::explore::clip(&format!("{:?}", mk().frame), 160);
    let n2 = name.clone();
    let a = mk();
    let mut body = a.perf.as_ref().map(rv::compact).unwrap_or_default();
    body.extend_from_slice(&a.payload);
    let bytes = put_frame(0, a.chan, &[], &body);
    Op {
        name,
        mk: None,
        ways: 4,
        f: Box::new(move |way| {
            let a = mk();
            let mut o = BytesMut::new();
            let mut k = AmqpCodec::<AmqpFrame>::new();
            match way {
                0 => {
                    let n = a.frame.encoded_size();
                    k.encode(a.frame.clone(), &mut o).map_err(|e| format!("{}: {:?}", n2, e))?;
                    ensure!(n == o.len(), "{}: announced {} bytes, wrote {} ({})", n2, n, o.len(), hex(&o));
                    on_wire(&a, &o)
                }
                1 => {
                    k.encode(a.frame.clone(), &mut o).map_err(|e| format!("{}: {:?}", n2, e))?;
                    on_wire(&a, &o)
                }
                2 => {
                    // in two chunks
                    o.extend_from_slice(&bytes[..5]);
                    match k.decode(&mut o) {
                        Ok(None) => {}
                        x => return Err(format!("{}: five bytes of it are answered with {:?}", n2, x)),
                    }
                    o.extend_from_slice(&bytes[5..]);
                    match k.decode(&mut o) {
                        Ok(Some(f)) => {
                            ensure!(o.is_empty(), "{}: {} bytes left", n2, o.len());
                            same_frame(&a, &f)
                        }
                        x => Err(format!("{}: answered with {:?} ({})", n2, x, hex(&bytes))),
                    }
                }
                _ => {
                    o.extend_from_slice(&bad);
                    match k.decode(&mut o) {
                        Err(_) => Ok(()),
                        x => Err(format!("the malformed frame {} is answered with {:?}", hex(&bad), x)),
                    }
                }
            }
        }),
    }
}

fn sasl_op(r: RV) -> Op {
    let name = format!("SASL {:?}", r);
    let n2 = name.clone();
    let bytes = put_frame(1, 0, &[], &rv::compact(&r));
    let mut bad = bytes.clone();
    bad[5] = 0;
    Op {
        name,
        mk: None,
        ways: 3,
        f: Box::new(move |way| {
            let mut o = BytesMut::new();
            let mut k = AmqpCodec::<SaslFrame>::new();
            match way {
                0 => {
                    let f = SaslFrame::new(p::SaslFrameBody::from_rv(&r));
                    k.encode(f, &mut o).map_err(|e| format!("{}: {:?}", n2, e))?;
                    sasl_on_wire(&r, &o)
                }
                1 => {
                    o.extend_from_slice(&bytes);
                    match k.decode(&mut o) {
                        Ok(Some(f)) => {
                            ensure!(f.body.rv().same(&r), "{} decodes to {:?}", n2, f);
                            Ok(())
                        }
                        x => Err(format!("{}: answered with {:?}", n2, x)),
                    }
                }
                _ => {
                    o.extend_from_slice(&bad);
                    match k.decode(&mut o) {
                        Err(_) => Ok(()),
                        x => Err(format!("a SASL frame of type 0 is answered with {:?}", x)),
                    }
                }
            }
        }),
    }
}

fn header_op(id: p::ProtocolId, n: u8) -> Op {
    Op {
        name: format!("protocol header {}", n),
        mk: None,
        ways: 3,
        f: Box::new(move |way| {
            let w = [b'A', b'M', b'Q', b'P', n, 1, 0, 0];
            let mut o = BytesMut::new();
            match way {
                0 => {
                    ProtocolIdCodec.encode(id, &mut o).map_err(|e| format!("{:?}", e))?;
                    ensure!(o[..] == w, "{:?} is written as {}", id, hex(&o));
                    Ok(())
                }
                1 => {
                    o.extend_from_slice(&w);
                    match ProtocolIdCodec.decode(&mut o) {
                        Ok(Some(x)) if x == id && o.is_empty() => Ok(()),
                        x => Err(format!("header {} is answered with {:?}", n, x)),
                    }
                }
                _ => {
                    o.extend_from_slice(&w);
                    o[6] = 1;
                    match ProtocolIdCodec.decode(&mut o) {
                        Err(_) => Ok(()),
                        x => Err(format!("version 1.1.0 is answered with {:?}", x)),
                    }
                }
            }
        }),
    }
}

fn msg_op<M: messages::Api + 'static>(hist: &'static [usize]) -> Op {
    let mk = move || -> Result<(M, messages::Msg), String> {
        let mut x = messages::Msg::default();
        let mut m = M::default();
        for o in hist {
            m = messages::apply(*o, m, &mut x)?;
        }
        Ok((m, x))
    };
    let n2 = format!("{} after operations {:?}", M::NAME, hist);
    Op {
        name: n2.clone(),
        mk: None,
        ways: 3,
        f: Box::new(move |way| {
            let (m, x) = mk()?;
            match way {
                0 => {
                    let n = m.encoded_size();
                    let mut o = BytesMut::with_capacity(n + 64);
                    m.encode(&mut o);
                    ensure!(n == o.len(), "{}: announced {} bytes, wrote {} ({})", n2, n, o.len(), hex(&o));
                    x.arrives_as(&messages::parse_msg(&o).map_err(|e| format!("{}: {} ({})", n2, e, hex(&o)))?).map_err(|e| format!("{}: {} ({})", n2, e, hex(&o)))
                }
                1 => {
                    let mut o = BytesMut::with_capacity(8192);
                    m.encode(&mut o);
                    x.arrives_as(&messages::parse_msg(&o).map_err(|e| format!("{}: {} ({})", n2, e, hex(&o)))?).map_err(|e| format!("{}: {} ({})", n2, e, hex(&o)))
                }
                _ => {
                    let w = messages::write(&x);
                    if w.is_empty() || !x.nested.is_empty() {
                        return Ok(());
                    }
                    let (rest, y) = M::decode(&w).map_err(|e| format!("{}: its encoding is answered with {:?} ({})", n2, e, hex(&w)))?;
                    ensure!(rest.is_empty(), "{}: {} bytes left", n2, rest.len());
                    let mut o = BytesMut::with_capacity(8192);
                    y.encode(&mut o);
                    x.arrives_as(&messages::parse_msg(&o).map_err(|e| format!("{}: {} ({})", n2, e, hex(&o)))?).map_err(|e| format!("{} received: {} ({})", n2, e, hex(&o)))
                }
            }
        }),
    }
}

// ------------------------------------------------------------------ the alphabets

/// Texts of which many agree in length, first and last characters.
pub(super) fn alike(deep: bool) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into()];
    for n in 1..=(if deep { 5 } else { 4 }) {
        for m in 0..(1u32 << n) {
            v.push((0..n).map(|i| if m >> i & 1 == 1 { 'b' } else { 'a' }).collect());
        }
    }
    for n in [8usize, 12, 32, 40, 127, 128, 300] {
        let base = vec![b'x'; n];
        for at in [n, 0, n / 2, n - 1] {
            let mut b = base.clone();
            if at < n {
                b[at] = b'y';
            }
            v.push(String::from_utf8(b).unwrap());
        }
    }
    for s in ["PLAIN", "plain", "amqp:open:list", "amqp:end:list", "amqp:link:detach-forced", "amqp:link:detached-forced", "\u{e9}", "e\u{301}", "e"] {
        v.push(s.into());
    }
    v
}

pub(super) fn text_ops(deep: bool) -> &'static Vec<Op> {
    static S: [OnceLock<Vec<Op>>; 2] = [OnceLock::new(), OnceLock::new()];
    S[deep as usize].get_or_init(|| {
        let mut o = vec![];
        for s in alike(deep) {
            let s: &'static str = leaked(&s);
            o.push(item_op(move || v(bstr(s))));
            o.push(item_op(move || vv(Variant::String(t::Str::from_str(s)))));
            o.push(item_op(move || v(Bytes::from_static(s.as_bytes()))));
            if s.is_ascii() {
                o.push(item_op(move || v(t::Symbol::from_rv(&Sym(s.into())))));
                o.push(item_op(move || vv(Variant::from_rv(&Sym(s.into())))));
            }
            if s.len() < 20 && (deep || s.len() != 3) {
                o.push(item_op(move || restricted(Ty::MsgId, &Str(s.into()))));
                if s.is_ascii() {
                    o.push(item_op(move || restricted(Ty::ErrCond, &Sym(s.into()))));
                    o.push(item_op(move || restricted(Ty::Fields, &Map(vec![(Sym(s.into()), Str(s.into()))]))));
                }
            }
        }
        o
    })
}

/// every type of value, composite, frame and message; in pairs that differ little
pub(super) fn kinds(deep: bool) -> &'static Vec<Op> {
    static S: [OnceLock<Vec<Op>>; 2] = [OnceLock::new(), OnceLock::new()];
    S[deep as usize].get_or_init(|| {
        let mut o = vec![];
        // values
        for x in leaves() {
            o.push(item_op(move || vv(Variant::from_rv(&x))));
        }
        for n in [0u64, 1, 255, 256, 65_535, 1 << 32, u64::MAX] {
            o.push(item_op(move || v(n)));
            o.push(item_op(move || v(n as i64)));
            o.push(item_op(move || v(n as u32)));
            o.push(item_op(move || v(n as i32)));
            o.push(item_op(move || v(n as u16)));
            o.push(item_op(move || v(n as u8)));
            o.push(item_op(move || v(Some(n as u32))));
            o.push(item_op(move || v(vec![n, 1])));
            o.push(item_op(move || v(vec![n as u32])));
            o.push(item_op(move || v(vec![n as u16, 2])));
        }
        for ty in crate::items::RESTRICTED {
            for x in spec::dom(ty, deep) {
                if matches!(ty, Ty::Any) {
                    continue;
                }
                o.push(item_op(move || restricted(ty, &x)));
            }
        }
        // composites, in all types that can hold them
        for co in spec::comps() {
            let mut rs = vec![spec::minimal(co), spec::full(co, 0), spec::full(co, 1)];
            rs.dedup();
            for r in rs {
                let r = filled(co, &r);
                let n = comp_items(co.name, &r).len();
                for i in 0..n {
                    if i > 0 && !deep && i + 1 < n {
                        continue;
                    }
                    let r = r.clone();
                    let name = co.name;
                    o.push(item_op(move || comp_items(name, &r).swap_remove(i)));
                }
            }
        }
        o.extend(frame_ops());
        for r in [
            spec::full(spec::comp("sasl-mechanisms"), 0),
            spec::full(spec::comp("sasl-init"), 0),
            spec::full(spec::comp("sasl-init"), 1),
            spec::full(spec::comp("sasl-challenge"), 0),
            spec::full(spec::comp("sasl-outcome"), 0),
        ] {
            o.push(sasl_op(r));
        }
        o.push(header_op(p::ProtocolId::Amqp, 0));
        o.push(header_op(p::ProtocolId::AmqpTls, 2));
        o.push(header_op(p::ProtocolId::AmqpSasl, 3));
        o.extend(msg_ops());
        o
    })
}

fn msg_ops() -> Vec<Op> {
    const H: [&[usize]; 10] = [&[], &[0], &[1, 2], &[2], &[3], &[7], &[8], &[10], &[14], &[4, 7, 20]];
    let mut o: Vec<Op> = vec![];
    for h in H {
        o.push(msg_op::<InMessage>(h));
        o.push(msg_op::<OutMessage>(h));
    }
    o
}

pub(super) fn leaves() -> Vec<RV> {
    let s = |x: &str| Str(x.into());
    let y = |x: &str| Sym(x.into());
    vec![
        Null,
        Bool(true),
        Bool(false),
        Ubyte(5),
        Ushort(5),
        Uint(0),
        Uint(5),
        Uint(500),
        Ulong(0),
        Ulong(5),
        Ulong(500),
        Byte(-5),
        Short(-5),
        Int(-5),
        Int(500),
        Long(-5),
        Long(500),
        Float(0x3f80_0000),
        Double(0x3ff0_0000_0000_0000),
        Char(0x41),
        Char(0x1f4af),
        Ts(5),
        Ts(-5),
        RV::Uuid([5; 16]),
        Bin(vec![5]),
        Bin(vec![5; 256]),
        s("5"),
        s("longer text, quite a bit longer than the others"),
        y("5"),
        List(vec![]),
        List(vec![Null]),
        List(vec![Uint(5), s("5")]),
        List(vec![List(vec![Uint(5)])]),
        List(vec![Uint(7); 300]),
        Map(vec![]),
        Map(vec![(y("5"), Uint(5))]),
        Map(vec![(s("5"), Uint(5))]),
        Map(vec![(s("5"), List(vec![Null]))]),
        RV::desc(5, Null),
        RV::desc(500, List(vec![s("5")])),
        Desc(Box::new(y("5")), Box::new(Uint(5))),
    ]
}

/// a transfer whose payload is a message
fn carrying(n: u8, out: bool) -> Af {
    let co = spec::comp("transfer");
    let r = filled(co, &spec::minimal(co));
    let data: Vec<u8> = vec![n; 3 + n as usize % 3];
    let mut x = messages::Msg::default();
    x.data = vec![data.clone()];
    let b = if out { TransferBody::MessageOut(OutMessage::with_body(Bytes::from(data))) } else { TransferBody::MessageIn(InMessage::with_body(Bytes::from(data))) };
    let mut f = Frame::from_rv(&r);
    if let Frame::Transfer(ref mut t) = f {
        t.body = Some(b);
    }
    Af { frame: AmqpFrame::new(n.into(), f), chan: n.into(), perf: Some(r), payload: messages::write(&x), exact: false }
}

pub(super) fn af(i: usize) -> Af {
    let full = |n: &'static str, salt: usize| filled(spec::comp(n), &spec::full(spec::comp(n), salt));
    let min = |n: &'static str| filled(spec::comp(n), &spec::minimal(spec::comp(n)));
    let data = |x: &'static [u8]| Some(TransferBody::Data(Bytes::from_static(x)));
    match i {
        0 => empty(1),
        1 => build(1, &min("end"), None),
        2 => build(1, &min("transfer"), data(b"abcde")),
        3 => build(1, &min("transfer"), data(b"abcdf")),
        4 => build(1, &min("transfer"), None),
        5 => carrying(3, false),
        6 => carrying(4, false),
        7 => carrying(6, true),
        8 => carrying(9, true),
        9 => build(2, &full("transfer", 0), data(b"a longer payload than the others have")),
        10 => build(1, &min("open"), None),
        11 => build(1, &full("open", 0), None),
        12 => build(0xffff, &full("open", 1), None),
        13 => build(1, &full("attach", 0), None),
        14 => build(1, &min("attach"), None),
        15 => build(1, &full("flow", 0), None),
        16 => build(1, &full("disposition", 0), None),
        17 => build(1, &full("close", 0), None),
        18 => build(1, &full("detach", 0), None),
        19 => build(1, &min("transfer"), data(large())),
        _ => build(1, &full("begin", 0), None),
    }
}
pub(super) const AFS: usize = 21;

/// more than any buffer the codec has at hand
fn large() -> &'static [u8] {
    static S: OnceLock<Vec<u8>> = OnceLock::new();
    S.get_or_init(|| (0..9000usize).map(|i| (i % 251) as u8).collect())
}

fn frame_ops() -> Vec<Op> {
    let bads: Vec<Vec<u8>> = vec![
        put_frame(1, 0, &[], &[]),
        put_frame(0, 0, &[], &[0x40]),
        put_frame(0, 0, &[], b"\x00\xa3\x03foo\x45"),
        put_frame(0, 0, &[], &[0, 0x53, 0x10, 0x45]),
        put_frame(0, 0, &[], &[0, 0x53, 0x17, 0x45, 0x40]),
        put_frame(0, 0, &[], &[0, 0x53, 0x10, 0xc0, 9, 1, 0xa1, 1, 0x61]),
        vec![0, 0, 0, 7, 2, 0, 0, 0],
    ];
    (0..AFS).map(|i| frame_op(move || af(i), bads[i % bads.len()].clone())).collect()
}

// ------------------------------------------------------------------ sequences

pub(super) fn run(c: &mut Ctx, ops: &[&Op], ways: &[usize]) -> R {
    c.say(|| ops.iter().zip(ways).map(|(o, w)| format!("{} / way {}", o.name, w)).collect::<Vec<_>>().join(" ; "));
    for (i, (o, w)) in ops.iter().zip(ways).enumerate() {
        (o.f)(*w).map_err(|e| {
            let before: Vec<String> = ops[..i].iter().zip(ways).map(|(o, w)| format!("{} / way {}", o.name, w)).collect();
            format!("{} (after {})", e, if before.is_empty() { "nothing".to_string() } else { before.join(" ; ") })
        })?;
    }
    c.traces(ops.len() as u64 - 1);
    Ok(())
}

/// all sequences of `k` operations, each in each of its ways
fn sequences(name: &str, k: usize, ops: Arc<Vec<&'static Op>>) -> Unit {
    unit(name, 0, move |c: &mut Ctx| {
        let mut os = vec![];
        let mut ws = vec![];
        for _ in 0..k {
            let o = ops[c.choose(ops.len())];
            os.push(o);
            ws.push(c.choose(o.ways));
        }
        c.states(1);
        c.sample(|| os.iter().map(|o| o.name.clone()).collect::<Vec<_>>().join(" ; "));
        run(c, &os, &ws)
    })
}

/// `n` of the operations, spread evenly
pub(super) fn some(all: &'static [Op], n: usize) -> Arc<Vec<&'static Op>> {
    let n = n.min(all.len());
    Arc::new((0..n).map(|i| &all[i * all.len() / n]).collect())
}

// ------------------------------------------------------------------ values replaced in place

/// Two places hold values; values are replaced, moved, measured, encoded, cloned from one to the
/// other. What a place gives is what is in it.
fn cells<T: Encode + Clone + 'static>(
    name: &'static str,
    n: usize,
    depth: usize,
    mk: fn(usize) -> T,
    ok: fn(usize, &[u8]) -> R,
) -> Unit {
    unit(format!("places that hold {}", name), 0, move |c: &mut Ctx| {
        let mut at: Vec<T> = vec![mk(0), mk(1)];
        let mut is = [0usize, 1];
        let look = |x: &T, i: usize, measure: bool| -> R {
            let mut o = BytesMut::with_capacity(16384);
            if measure {
                let s = x.encoded_size();
                x.encode(&mut o);
                ensure!(s == o.len(), "{} {}: announced {} bytes, wrote {} ({})", name, i, s, o.len(), hex(&o));
            } else {
                x.encode(&mut o);
            }
            ok(i, &o).map_err(|e| format!("{} {}: {}", name, i, e))
        };
        for _ in 0..depth {
            let k = c.choose(2 * n + 8);
            if k < 2 * n {
                let (s, i) = (k / n, k % n);
                c.say(|| format!("place {} = value {}", s, i));
                at[s] = mk(i);
                is[s] = i;
                continue;
            }
            c.say(|| ["swap", "measure 0", "measure 1", "encode 0", "encode 1", "1 = clone of 0", "0 is dropped and made again", "nothing more"][k - 2 * n].to_string());
            match k - 2 * n {
                0 => {
                    at.swap(0, 1);
                    is.swap(0, 1);
                }
                1 => {
                    let _ = at[0].encoded_size();
                }
                2 => {
                    let _ = at[1].encoded_size();
                }
                3 => look(&at[0], is[0], false)?,
                4 => look(&at[1], is[1], false)?,
                5 => {
                    at[1] = at[0].clone();
                    is[1] = is[0];
                }
                6 => {
                    let other = at.pop().unwrap();
                    at.pop();
                    let i = is[0];
                    at.push(mk(i));
                    at.push(other);
                }
                _ => break,
            }
        }
        c.state(&(name, is));
        for s in 0..2 {
            look(&at[s], is[s], true)?;
        }
        for s in 0..2 {
            look(&at[s], is[s], false)?;
        }
        Ok(())
    })
}

fn rv_ok(want: &RV, b: &[u8]) -> R {
    let got = rv::parse_all(b).map_err(|e| format!("{} ({})", e, hex(b)))?;
    ensure!(got.same(want), "it is encoded as {:?} instead of {:?}", got, want);
    Ok(())
}

fn variant_rv(i: usize) -> RV {
    match i {
        0 => Str("abcd".into()),
        1 => Str("abce".into()),
        2 => List(vec![Uint(1), Uint(2)]),
        3 => List(vec![Uint(1), Uint(300)]),
        4 => Map(vec![(Sym("k".into()), Uint(1))]),
        _ => RV::desc(5, Bin(vec![1, 2, 3])),
    }
}
fn fields_rv(i: usize) -> RV {
    let y = |s: &str| Sym(s.into());
    match i {
        0 => Map(vec![]),
        1 => Map(vec![(y("k"), Uint(1))]),
        2 => Map(vec![(y("l"), Uint(1))]),
        _ => Map(vec![(y("k"), Str("a text of some length".into()))]),
    }
}
fn props_rv(i: usize) -> RV {
    let co = spec::comp("properties");
    match i {
        0 => filled(co, &spec::minimal(co)),
        k => filled(co, &spec::full(co, k - 1)),
    }
}
fn comp_ok(name: &'static str, want: &RV, b: &[u8]) -> R {
    let got = rv::parse_all(b).map_err(|e| format!("{} ({})", e, hex(b)))?;
    let got = spec::norm_comp(spec::comp(name), &got)?;
    ensure!(got.same(want), "it is encoded as {:?} instead of {:?}", got, want);
    Ok(())
}
const MH: [&[usize]; 6] = [&[], &[2], &[7, 10], &[8, 10], &[14], &[1, 4]];
fn msg<M: messages::Api>(i: usize) -> (M, messages::Msg) {
    let mut x = messages::Msg::default();
    let mut m = M::default();
    for o in MH[i] {
        m = messages::apply(*o, m, &mut x).expect("harness: message");
    }
    (m, x)
}
fn msg_ok<M: messages::Api>(i: usize, b: &[u8]) -> R {
    msg::<M>(i).1.arrives_as(&messages::parse_msg(b).map_err(|e| format!("{} ({})", e, hex(b)))?)
}
fn body_of(i: usize) -> (TransferBody, Vec<u8>) {
    let w = |d: &[u8]| {
        let mut x = messages::Msg::default();
        x.data = vec![d.to_vec()];
        messages::write(&x)
    };
    match i {
        0 => (TransferBody::Data(Bytes::from_static(b"abcde")), b"abcde".to_vec()),
        1 => (TransferBody::Data(Bytes::from_static(b"abcdefgh")), b"abcdefgh".to_vec()),
        2 => (TransferBody::MessageIn(InMessage::with_body(Bytes::from_static(b"abc"))), w(b"abc")),
        3 => (TransferBody::MessageIn(InMessage::with_body(Bytes::from_static(b"abcd"))), w(b"abcd")),
        4 => (TransferBody::MessageOut(OutMessage::with_body(Bytes::from_static(b"xy"))), w(b"xy")),
        5 => (TransferBody::Data(Bytes::from_static(large())), large().to_vec()),
        _ => (TransferBody::MessageOut(OutMessage::with_body(Bytes::from_static(b"xyzuvw"))), w(b"xyzuvw")),
    }
}
const CELL_FRAMES: [usize; 8] = [0, 2, 9, 5, 6, 7, 8, 19];

fn places(deep: bool) -> Vec<Unit> {
    let d = if deep { 5 } else { 4 };
    vec![
        cells::<AmqpFrame>("frames", CELL_FRAMES.len(), d, |i| af(CELL_FRAMES[i]).frame, |i, b| on_wire(&af(CELL_FRAMES[i]), b)),
        cells::<TransferBody>("transfer bodies", 7, d, |i| body_of(i).0, |i, b| {
            ensure!(b == &body_of(i).1[..], "it is encoded as {} instead of {}", hex(b), hex(&body_of(i).1));
            Ok(())
        }),
        cells::<InMessage>("InMessages", MH.len(), d, |i| msg::<InMessage>(i).0, msg_ok::<InMessage>),
        cells::<OutMessage>("OutMessages", MH.len(), d, |i| msg::<OutMessage>(i).0, msg_ok::<OutMessage>),
        cells::<Variant>("polymorphic values", 6, d, |i| Variant::from_rv(&variant_rv(i)), |i, b| rv_ok(&variant_rv(i), b)),
        cells::<p::Fields>("maps", 4, d, |i| p::Fields::from_rv(&fields_rv(i)), |i, b| rv_ok(&fields_rv(i), b)),
        cells::<p::Properties>("properties", 3, d, |i| p::Properties::from_rv(&props_rv(i)), |i, b| comp_ok("properties", &props_rv(i), b)),
    ]
}

// ------------------------------------------------------------------ connections

/// Frames go out and come in on several connections, in any order.
fn connections(deep: bool) -> Unit {
    let depth = if deep { 7 } else { 6 };
    unit(format!("two connections that send and receive, {} steps", depth), 0, move |c: &mut Ctx| {
        const IN: [usize; 3] = [2, 19, 9];
        const OUT: [usize; 3] = [3, 6, 19];
        let stream: Vec<u8> = IN
            .iter()
            .flat_map(|i| {
                let a = af(*i);
                let mut b = a.perf.as_ref().map(rv::compact).unwrap_or_default();
                b.extend_from_slice(&a.payload);
                put_frame(0, a.chan, &[], &b)
            })
            .collect();
        struct Conn {
            codec: AmqpCodec<AmqpFrame>,
            inb: BytesMut,
            fed: usize,
            got: Vec<AmqpFrame>,
            outb: BytesMut,
            sent: Vec<usize>,
        }
        let mut cs: Vec<Conn> = (0..2).map(|_| Conn { codec: AmqpCodec::new(), inb: BytesMut::new(), fed: 0, got: vec![], outb: BytesMut::new(), sent: vec![] }).collect();
        let hops = [7usize, 60, 9000];
        let take = |k: &mut Conn| -> R {
            loop {
                match k.codec.decode(&mut k.inb) {
                    Ok(None) => return Ok(()),
                    Ok(Some(f)) => k.got.push(f),
                    Err(e) => return Err(format!("{:?} after {} bytes of {}", e, k.fed, hex(&stream))),
                }
                ensure!(k.got.len() <= IN.len(), "{} frames received of {}", k.got.len(), IN.len());
            }
        };
        for step in 0..depth {
            let x = c.choose(if step == 0 { 4 } else { 8 });
            let k = &mut cs[x / 4];
            match x % 4 {
                0 => {
                    // the next chunk
                    let e = (k.fed + hops[step % 3]).min(stream.len());
                    k.inb.extend_from_slice(&stream[k.fed..e]);
                    k.fed = e;
                    take(k).map_err(|e| format!("connection {}: {}", x / 4, e))?;
                }
                j => {
                    k.codec.encode(af(OUT[j - 1]).frame, &mut k.outb).map_err(|e| format!("{:?}", e))?;
                    k.sent.push(OUT[j - 1]);
                }
            }
            c.say(|| format!("connection {}: {}", x / 4, if x % 4 == 0 { "a chunk arrives".into() } else { format!("frame {} is sent", OUT[x % 4 - 1]) }));
        }
        let key: Vec<_> = cs.iter().map(|k| (k.fed, k.sent.clone())).collect();
        c.state(&key);
        for (n, k) in cs.iter_mut().enumerate() {
            k.inb.extend_from_slice(&stream[k.fed..]);
            k.fed = stream.len();
            take(k).map_err(|e| format!("connection {}: {}", n, e))?;
            ensure!(k.got.len() == IN.len(), "connection {}: {} frames received of {}", n, k.got.len(), IN.len());
            ensure!(k.inb.is_empty(), "connection {}: {} bytes left", n, k.inb.len());
            for (f, i) in k.got.iter().zip(&IN) {
                same_frame(&af(*i), f).map_err(|e| format!("connection {}: {}", n, e))?;
            }
            let mut b = &k.outb[..];
            for i in &k.sent {
                ensure!(b.len() >= 8, "connection {}: {} bytes for frame {}", n, b.len(), i);
                let l = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
                ensure!(l >= 8 && l <= b.len(), "connection {}: a frame of {} bytes in {}", n, l, b.len());
                on_wire(&af(*i), &b[..l]).map_err(|e| format!("connection {}: {}", n, e))?;
                b = &b[l..];
            }
            ensure!(b.is_empty(), "connection {}: {} bytes more were sent", n, b.len());
        }
        Ok(())
    })
}

pub fn units(deep: bool) -> Vec<Unit> {
    let k = kinds(deep);
    let t = text_ops(deep);
    let mut us = vec![
        unit("one operation after another, every pair", 0, move |c: &mut Ctx| {
            let a = &k[c.choose(k.len())];
            let b = &k[c.choose(k.len())];
            // all ways of the first, then everything about the second
            let w = c.choose(a.ways);
            let mut os: Vec<&Op> = vec![a];
            let mut ws = vec![w];
            for w in (0..b.ways).rev() {
                os.push(b);
                ws.push(w);
            }
            c.states(1);
            c.sample(|| format!("{} ; {}", a.name, b.name));
            run(c, &os, &ws)
        }),
        unit("texts that look alike, every pair", 0, move |c: &mut Ctx| {
            let a = &t[c.choose(t.len())];
            let b = &t[c.choose(t.len())];
            let w = [1, 2, 3][c.choose(3)];
            c.states(1);
            c.sample(|| format!("{} ; {}", a.name, b.name));
            run(c, &[a, b, b, a], &[w, 2, 0, 2])
        }),
    ];
    let sel = |n: usize| some(k, n);
    us.push(sequences("sequences of three operations", 3, sel(if deep { 110 } else { 48 })));
    us.push(sequences("sequences of four operations", 4, sel(if deep { 30 } else { 12 })));
    us.push(sequences("sequences of six operations", 6, sel(if deep { 5 } else { 3 })));
    us.extend(places(deep));
    us.push(connections(deep));
    us.extend(super::history2::units(deep));
    us.extend(super::history3::units(deep));
    us.extend(super::history4::units(deep));
    us
}
