//! Properties of frames: C03, C05, C10, C11, C15, C17, C21.
use crate::conv::{FromRv, ToRv};
use crate::explore::{unit, Ctx, Unit, R};
use crate::items::{comp_value, filled};
use crate::rv::{self, RV, RV::*};
use crate::spec::{self, Comp};
use crate::util::*;
use amqp_codec::protocol as p;
use amqp_codec::protocol::{Frame, SaslFrameBody, TransferBody};
use amqp_codec::types as t;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, OutMessage, ProtocolIdCodec, SaslFrame};
use bytes::{Bytes, BytesMut};
use tokio_io::codec::{Decoder, Encoder};

/// A frame on the wire, written by the model.
pub fn put_frame(ty: u8, chan: u16, ext: &[u8], body: &[u8]) -> Vec<u8> {
    let mut v = ((8 + ext.len() + body.len()) as u32).to_be_bytes().to_vec();
    v.push((2 + ext.len() / 4) as u8);
    v.push(ty);
    v.extend_from_slice(&chan.to_be_bytes());
    v.extend_from_slice(ext);
    v.extend_from_slice(body);
    v
}

/// A frame together with what it must carry.
#[derive(Clone)]
pub struct Af {
    pub frame: AmqpFrame,
    pub chan: u16,
    /// None: no performative
    pub perf: Option<RV>,
    pub payload: Vec<u8>,
    /// the decoded frame is equal to `frame` by the library's own equality
    pub exact: bool,
}

pub const CHANNELS: [u16; 7] = [0, 1, 255, 256, 0x0102, 0x8000, 65535];

pub fn some_msg_in() -> InMessage {
    InMessage::with_body(Bytes::from_static(b"payload\x00\xff"))
        .set_properties(|x| x.message_id = Some(9u64.into()))
        .set_app_property("k", 5u32)
}
pub fn some_msg_out() -> OutMessage {
    OutMessage::with_body(Bytes::from_static(b"body"))
        .set_app_property("k", "v")
        .set_header(p::Header { durable: true, priority: 4, ttl: Some(5), first_acquirer: false, delivery_count: 0 })
}

/// The frame a model performative describes; `body` only for transfers.
pub fn build(chan: u16, perf: &RV, body: Option<TransferBody>) -> Af {
    let mut f = Frame::from_rv(perf);
    let mut payload = vec![];
    let mut exact = true;
    if let Some(b) = body {
        let mut bb = BytesMut::with_capacity(b.encoded_size() + 16);
        b.encode(&mut bb);
        payload = bb.to_vec();
        exact = matches!(b, TransferBody::Data(ref d) if !d.is_empty());
        if let Frame::Transfer(ref mut t) = f {
            t.body = Some(b)
        }
    }
    Af { frame: AmqpFrame::new(chan, f), chan, perf: Some(perf.clone()), payload, exact }
}

pub fn empty(chan: u16) -> Af {
    Af { frame: AmqpFrame::new(chan, Frame::Empty), chan, perf: None, payload: vec![], exact: true }
}

fn bodies(deep: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=40).chain(240..=265).collect();
    v.extend([2, 4079, 4080, 4096, 5000, 32768, 65536, (1 << 24) - 30, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    if deep {
        v.extend(40..240);
        v.extend(4000..4200);
        v.extend([1 << 20]);
    }
    v
}

fn body_dev(c: &mut Ctx) -> Option<TransferBody> {
    match c.dev(6) {
        0 => None,
        1 => Some(TransferBody::Data(Bytes::from_static(b"\x00\x53\x14\xff payload"))),
        2 => Some(TransferBody::Data(Bytes::new())),
        3 => Some(TransferBody::MessageIn(some_msg_in())),
        4 => Some(TransferBody::MessageOut(some_msg_out())),
        _ => Some(TransferBody::Data(Bytes::from(vec![0x45u8; 300]))),
    }
}

/// every subset of the optional fields
fn subset(c: &mut Ctx, co: &Comp) -> RV {
    let f = spec::full(co, 0);
    let l = match &f {
        Desc(_, l) => match l.as_ref() {
            List(l) => l.clone(),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    };
    let l = l
        .iter()
        .zip(&co.fields)
        .map(|(x, fd)| if fd.mandatory || c.flip() { x.clone() } else { Null })
        .collect();
    RV::desc(co.code, List(l))
}

pub type FrameGen = fn(&mut Ctx, bool) -> Af;
pub fn gens() -> Vec<(&'static str, usize, FrameGen)> {
    vec![
        ("performatives, fields varied", 2, |c, deep| {
            let co = spec::comp(c.pick(&spec::FRAMES));
            let r = comp_value(c, co, deep, 1);
            let chan = *c.pick_dev(&CHANNELS);
            let b = if co.name == "transfer" { body_dev(c) } else { None };
            build(chan, &filled(co, &r), b)
        }),
        ("performatives, all subsets of optional fields", 0, |c, _| {
            let co = spec::comp(c.pick(&spec::FRAMES));
            let r = subset(c, co);
            let chan = CHANNELS[c.choose(2) * 4];
            let b = if co.name == "transfer" && c.flip() { Some(TransferBody::Data(Bytes::from_static(b"\x40"))) } else { None };
            build(chan, &filled(co, &r), b)
        }),
        ("performatives, combinations of field values", 0, |c, deep| {
            static S: std::sync::OnceLock<Vec<Vec<Vec<RV>>>> = std::sync::OnceLock::new();
            let all = S.get_or_init(|| spec::FRAMES.iter().map(|n| crate::items::few(spec::comp(n), if deep { 3_000_000 } else { 250_000 }, false)).collect());
            let k = c.choose(spec::FRAMES.len());
            let co = spec::comp(spec::FRAMES[k]);
            let l = all[k].iter().map(|v| v[c.choose(v.len())].clone()).collect();
            let chan = [0u16, 0x8101][c.choose(2)];
            let b = if co.name == "transfer" {
                match c.choose(3) {
                    0 => None,
                    1 => Some(TransferBody::Data(Bytes::from_static(b"\x40"))),
                    _ => Some(TransferBody::MessageOut(OutMessage::with_body(Bytes::from_static(b"m")))),
                }
            } else {
                None
            };
            build(chan, &filled(co, &RV::desc(co.code, List(l))), b)
        }),
        ("performatives, texts and binaries of many contents", 0, |c, _| {
            let (co, r) = crate::items::holding_comp(c, &spec::FRAMES);
            let b = if co.name == "transfer" { Some(TransferBody::Data(Bytes::from_static(b"\x40"))) } else { None };
            build(9, &filled(co, &r), b)
        }),
        ("performatives, a long value in any field", 0, |c, _| {
            let (co, r) = crate::items::long_comp(c, &spec::FRAMES);
            let b = if co.name == "transfer" { Some(TransferBody::Data(Bytes::from_static(b"\x40"))) } else { None };
            build(9, &filled(co, &r), b)
        }),
        ("all channels", 0, |c, _| {
            let chan = (c.choose(256) * 256 + c.choose(256)) as u16;
            match c.choose(2) {
                0 => empty(chan),
                _ => build(chan, &spec::minimal(spec::comp("end")), None),
            }
        }),
        ("transfer payloads", 0, |c, deep| {
            let ls = bodies(deep);
            let n = *c.pick(&ls);
            let co = spec::comp("transfer");
            let r = if c.flip() { spec::full(co, 0) } else { spec::minimal(co) };
            let data = match c.choose(2) {
                0 => vec![n as u8; n],
                _ => (0..n).map(|i| (i * 7 + i / 256) as u8).collect::<Vec<u8>>(),
            };
            let b = match c.choose(3) {
                0 => TransferBody::Data(Bytes::from(data)),
                1 => TransferBody::MessageIn(InMessage::with_body(Bytes::from(data))),
                _ => TransferBody::MessageOut(OutMessage::with_body(Bytes::from(data)).set_app_property("p", n as u32)),
            };
            build(77, &filled(co, &r), Some(b))
        }),
    ]
}

fn sasl_gens() -> Vec<(&'static str, usize, fn(&mut Ctx, bool) -> RV)> {
    vec![
        ("SASL, fields varied", 2, |c, deep| {
            let co = spec::comp(c.pick(&spec::SASL));
            comp_value(c, co, deep, 1)
        }),
        ("SASL, all subsets of optional fields", 0, |c, _| {
            let co = spec::comp(c.pick(&spec::SASL));
            subset(c, co)
        }),
        ("SASL, texts and binaries of many contents", 0, |c, _| crate::items::holding_comp(c, &spec::SASL).1),
        ("SASL, a long value in any field", 0, |c, _| crate::items::long_comp(c, &spec::SASL).1),
        ("SASL, text and binary lengths", 0, |c, _| {
            let n = c.choose(300);
            let b = Bin(vec![n as u8; n]);
            match c.choose(5) {
                0 => RV::desc(64, List(vec![Array(vec![Sym(static_str(n).into()), Sym("PLAIN".into())])])),
                1 => RV::desc(65, List(vec![Sym(static_str(n).into()), b, Str("h".into())])),
                2 => RV::desc(66, List(vec![b])),
                3 => RV::desc(67, List(vec![b])),
                _ => RV::desc(68, List(vec![Ubyte(1), b])),
            }
        }),
    ]
}

fn enc<T: Encode>(x: &T) -> BytesMut {
    let mut b = BytesMut::with_capacity(x.encoded_size() + 64);
    x.encode(&mut b);
    b
}

pub fn show(a: &Af) -> String {
    crate::explore::clip(&format!("{:?}", a.frame), 800)
}

pub fn same_frame(a: &Af, got: &AmqpFrame) -> R {
    ensure!(got.channel_id() == a.chan, "channel {} instead of {}", got.channel_id(), a.chan);
    let (want, have) = (a.perf.clone().unwrap_or(Null), got.performative().rv());
    ensure!(have.same(&want), "performative {:?} instead of {:?}", have, want);
    if let Frame::Transfer(t) = got.performative() {
        let pl = match t.body() {
            None => vec![],
            Some(b) => enc(b).to_vec(),
        };
        ensure!(pl == a.payload, "payload {} instead of {}", hex(&pl), hex(&a.payload));
    }
    if a.exact {
        ensure!(*got == a.frame && a.frame == *got, "the frames are not equal: {:?}", got);
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

pub fn round_trip(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    for (name, bound, g) in gens() {
        us.push(unit(name, if deep && bound > 0 { bound + 1 } else { bound }, move |c| {
            let a = g(c, deep);
            let b = enc(&a.frame);
            c.say(|| format!("{} -> {}", show(&a), hex(&b)));
            c.sample(|| show(&a));
            c.state(&b[..]);
            c.outcome(a.frame.performative().name());
            ensure!(b.len() >= 8, "{}: {} bytes", show(&a), b.len());
            // the frame decoder takes what follows the size word
            let (rest, got) =
                AmqpFrame::decode(&b[4..]).map_err(|e| format!("{} does not decode: {:?} ({})", show(&a), e, hex(&b)))?;
            ensure!(rest.is_empty(), "{}: {} bytes left", show(&a), rest.len());
            same_frame(&a, &got).map_err(|e| format!("{}: {}", show(&a), e))?;
            // and through the codec
            let mut cb = BytesMut::new();
            let mut codec = AmqpCodec::<AmqpFrame>::new();
            codec
                .encode(a.frame.clone(), &mut cb)
                .map_err(|e| format!("{}: codec refuses to encode: {:?}", show(&a), e))?;
            ensure!(cb.len() == b.len(), "{}: the codec writes {} bytes, encode {}", show(&a), cb.len(), b.len());
            match codec.decode(&mut cb) {
                Ok(Some(f)) => same_frame(&a, &f).map_err(|e| format!("{} through the codec: {}", show(&a), e))?,
                x => return Err(format!("{}: the codec answers {:?} ({})", show(&a), x, hex(&b))),
            }
            ensure!(cb.is_empty(), "{}: {} bytes left in the buffer", show(&a), cb.len());
            c.traces(1);
            Ok(())
        }));
    }
    for (name, bound, g) in sasl_gens() {
        us.push(unit(name, if deep && bound > 0 { bound + 1 } else { bound }, move |c| {
            let r = g(c, deep);
            let body = SaslFrameBody::from_rv(&r);
            let f = SaslFrame::new(body);
            let b = enc(&f);
            c.say(|| format!("{:?} -> {}", f, hex(&b)));
            c.sample(|| format!("{:?}", f));
            c.state(&b[..]);
            ensure!(b.len() >= 8, "{:?}: {} bytes", f, b.len());
            let (rest, got) =
                SaslFrame::decode(&b[4..]).map_err(|e| format!("{:?} does not decode: {:?} ({})", f, e, hex(&b)))?;
            ensure!(rest.is_empty(), "{:?}: {} bytes left", f, rest.len());
            ensure!(got == f, "{:?} decodes to {:?}", f, got);
            ensure!(got.body.rv().same(&r), "{:?} decodes to {:?}", f, got);
            let mut cb = BytesMut::new();
            let mut codec = AmqpCodec::<SaslFrame>::new();
            codec.encode(f.clone(), &mut cb).map_err(|e| format!("{:?}: {:?}", f, e))?;
            match codec.decode(&mut cb) {
                Ok(Some(ref g)) if *g == f => {}
                x => return Err(format!("{:?}: the codec answers {:?} ({})", f, x, hex(&b))),
            }
            ensure!(cb.is_empty(), "{:?}: {} bytes left in the buffer", f, cb.len());
            c.traces(1);
            c.outcome("SASL");
            Ok(())
        }));
    }
    us
}

// ------------------------------------------------------------------ C05, C10

/// split a frame by the specification: type, channel, extended header, body
fn split(b: &[u8]) -> Result<(u8, u16, &[u8], &[u8]), String> {
    ensure!(b.len() >= 8, "a frame of {} bytes", b.len());
    let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
    ensure!(n == b.len(), "frame size {} but {} bytes", n, b.len());
    let d = b[4] as usize * 4;
    ensure!(d >= 8 && d <= b.len(), "data offset {}", b[4]);
    Ok((b[5], u16::from_be_bytes([b[6], b[7]]), &b[8..d], &b[d..]))
}

pub fn sizes(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    for (name, bound, g) in gens() {
        us.push(unit(format!("frame sizes: {}", name), bound, move |c| {
            let a = g(c, deep);
            let n = a.frame.encoded_size();
            let b = enc(&a.frame);
            c.say(|| format!("{} -> {}", show(&a), hex(&b)));
            c.state(&b[..]);
            ensure!(n == b.len(), "{}: announced {} bytes, wrote {}", show(&a), n, b.len());
            ensure!(a.frame.encoded_size() == n, "{}: the announced size changed", show(&a));
            let q = a.frame.performative();
            let (qn, qb) = (q.encoded_size(), enc(q));
            ensure!(qn == qb.len(), "{}: announced {} bytes, wrote {}", show(&a), qn, qb.len());
            if let Frame::Transfer(t) = q {
                if let Some(tb) = t.body() {
                    ensure!(tb.len() == a.payload.len(), "{}: payload announces {} bytes, wrote {}", show(&a), tb.len(), a.payload.len());
                }
            }
            split(&b).map(|_| ()).map_err(|e| format!("{}: {} ({})", show(&a), e, hex(&b)))
        }));
    }
    for (name, bound, g) in sasl_gens() {
        us.push(unit(format!("frame sizes: {}", name), bound, move |c| {
            let f = SaslFrame::new(SaslFrameBody::from_rv(&g(c, deep)));
            let n = f.encoded_size();
            let b = enc(&f);
            c.state(&b[..]);
            ensure!(n == b.len(), "{:?}: announced {} bytes, wrote {}", f, n, b.len());
            ensure!(f.body.encoded_size() == n - 8, "{:?}: the body announces {} bytes", f, f.body.encoded_size());
            split(&b).map(|_| ()).map_err(|e| format!("{:?}: {} ({})", f, e, hex(&b)))
        }));
    }
    us
}

/// Do these bytes carry this frame, by the specification?
pub fn on_wire(a: &Af, b: &[u8]) -> R {
    let bad = |e: String| format!("{}: {} ({})", show(a), e, hex(b));
    let (ty, chan, _, body) = split(b).map_err(bad)?;
    ensure!(ty == 0, "{}: frame type {}", show(a), ty);
    ensure!(chan == a.chan, "{}: channel {} ({})", show(a), chan, hex(b));
    match &a.perf {
        None => ensure!(body.is_empty(), "{}: an empty frame has a body ({})", show(a), hex(b)),
        Some(want) => {
            let (v, rest) = rv::parse(body).map_err(bad)?;
            let name = spec::comps().iter().find(|x| matches!(want, Desc(d, _) if **d == Ulong(x.code))).expect("harness");
            let got = spec::norm_comp(name, &v).map_err(bad)?;
            ensure!(got.same(want), "{}: the wire carries {:?} ({})", show(a), got, hex(b));
            ensure!(rest == &a.payload[..], "{}: the wire carries payload {} ({})", show(a), hex(rest), hex(b));
        }
    }
    Ok(())
}
pub fn sasl_on_wire(r: &RV, b: &[u8]) -> R {
    let bad = |e: String| format!("{:?}: {} ({})", r, e, hex(b));
    let (ty, _, _, body) = split(b).map_err(bad)?;
    ensure!(ty == 1, "{:?}: frame type {}", r, ty);
    let v = rv::parse_all(body).map_err(bad)?;
    let co = spec::comps().iter().find(|x| matches!(r, Desc(d, _) if **d == Ulong(x.code))).expect("harness");
    let got = spec::norm_comp(co, &v).map_err(bad)?;
    ensure!(got.same(r), "{:?}: the wire carries {:?}", r, got);
    Ok(())
}

pub fn standard(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    for (name, bound, g) in gens() {
        us.push(unit(format!("frames on the wire: {}", name), bound, move |c| {
            let a = g(c, deep);
            let b = enc(&a.frame);
            c.say(|| format!("{} -> {}", show(&a), hex(&b)));
            c.state(&b[..]);
            on_wire(&a, &b)?;
            Ok(())
        }));
    }
    for (name, bound, g) in sasl_gens() {
        us.push(unit(format!("frames on the wire: {}", name), bound, move |c| {
            let r = g(c, deep);
            let f = SaslFrame::new(SaslFrameBody::from_rv(&r));
            let b = enc(&f);
            c.state(&b[..]);
            let bad = |e: String| format!("{:?}: {} ({})", f, e, hex(&b));
            let (ty, _, _, body) = split(&b).map_err(bad)?;
            ensure!(ty == 1, "{:?}: frame type {}", f, ty);
            let v = rv::parse_all(body).map_err(bad)?;
            let co = spec::comps().iter().find(|x| matches!(&r, Desc(d, _) if **d == Ulong(x.code))).expect("harness");
            let got = spec::norm_comp(co, &v).map_err(bad)?;
            ensure!(got.same(&r), "{:?}: the wire carries {:?}", f, got);
            Ok(())
        }));
    }
    us.push(unit("protocol headers on the wire", 0, |c| {
        let (id, n) = *c.pick(&[(p::ProtocolId::Amqp, 0u8), (p::ProtocolId::AmqpTls, 2), (p::ProtocolId::AmqpSasl, 3)]);
        let mut b = BytesMut::new();
        ProtocolIdCodec.encode(id, &mut b).map_err(|e| format!("{:?}", e))?;
        ensure!(b[..] == [b'A', b'M', b'Q', b'P', n, 1, 0, 0], "{:?} is written as {}", id, hex(&b));
        c.state(&b[..]);
        Ok(())
    }));
    us
}

// ------------------------------------------------------------------ C11

pub fn alternatives(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    us.push(unit("extended frame headers", 0, move |c| {
        let words = c.choose(254);
        let fill = *c.pick(&[0u8, 0x41, 0xff]);
        let ext = vec![fill; words * 4];
        if c.flip() {
            let chan = *c.pick(&CHANNELS);
            let k = c.choose(spec::FRAMES.len() + 1);
            let (body, a) = if k == spec::FRAMES.len() {
                (vec![], empty(chan))
            } else {
                let co = spec::comp(spec::FRAMES[k]);
                let r = filled(co, &spec::full(co, 0));
                let pay = if co.name == "transfer" { Some(TransferBody::Data(Bytes::from_static(b"xyz"))) } else { None };
                let mut b = rv::compact(&r);
                if pay.is_some() {
                    b.extend_from_slice(b"xyz");
                }
                (b, build(chan, &r, pay))
            };
            let w = put_frame(0, chan, &ext, &body);
            c.say(|| hex(&w));
            c.state(&w);
            let (rest, got) = AmqpFrame::decode(&w[4..])
                .map_err(|e| format!("a frame with {} bytes of extended header is rejected: {:?} ({})", ext.len(), e, hex(&w)))?;
            ensure!(rest.is_empty(), "{} bytes left", rest.len());
            same_frame(&a, &got).map_err(|e| format!("extended header of {} bytes: {} ({})", ext.len(), e, hex(&w)))
        } else {
            // bytes 6 and 7 of a SASL frame are to be ignored
            let ign = *c.pick(&[0u16, 0x0100, 0xffff]);
            let co = spec::comp(c.pick(&spec::SASL));
            let r = filled(co, &spec::full(co, 0));
            let w = put_frame(1, ign, &ext, &rv::compact(&r));
            c.say(|| hex(&w));
            c.state(&w);
            let (rest, got) = SaslFrame::decode(&w[4..])
                .map_err(|e| format!("a SASL frame with {} bytes of extended header is rejected: {:?} ({})", ext.len(), e, hex(&w)))?;
            ensure!(rest.is_empty() && got.body.rv().same(&r), "extended header of {} bytes: {:?}", ext.len(), got);
            Ok(())
        }
    }));
    us.push(unit("frames with other encodings of the body", if deep { 3 } else { 2 }, move |c| {
        let co = spec::comp(c.pick(&spec::FRAMES));
        let r = if c.flip() { spec::full(co, 0) } else { spec::minimal(co) };
        let content = match c.dev(2) {
            1 => match &r {
                Desc(_, x) => Desc(Box::new(Sym(co.sym.clone())), x.clone()),
                _ => unreachable!(),
            },
            _ => r.clone(),
        };
        let mut b = vec![];
        rv::emit(&content, &mut rv::Dev(c), &mut b);
        let pay = if co.name == "transfer" {
            b.extend_from_slice(b"\x00\x53");
            Some(TransferBody::Data(Bytes::from_static(b"\x00\x53")))
        } else {
            None
        };
        let a = build(3, &filled(co, &r), pay);
        let w = put_frame(0, 3, &[], &b);
        c.say(|| hex(&w));
        c.state(&w);
        let mut codec = AmqpCodec::<AmqpFrame>::new();
        let mut src = bm(&w, 0);
        match codec.decode(&mut src) {
            Ok(Some(f)) => same_frame(&a, &f).map_err(|e| format!("{} ({})", e, hex(&w))),
            x => Err(format!("the codec answers {:?} ({})", x, hex(&w))),
        }
    }));
    us
}

// ------------------------------------------------------------------ C15

/// A buffer holding `content`, with `spare` bytes of room, made in one of several ways.
fn buffer(kind: usize, content: &[u8], spare: usize) -> (BytesMut, Vec<(BytesMut, Vec<u8>)>) {
    let mut keep = vec![];
    let b = match kind {
        0 => bm(content, spare),
        // the tail of a larger allocation whose head is still alive
        1 => {
            let mut x = BytesMut::with_capacity(content.len() + spare + 40);
            x.extend_from_slice(&[0xee; 40]);
            x.extend_from_slice(content);
            let head = x.split_to(40);
            keep.push((head, vec![0xee; 40]));
            x
        }
        // the head of an allocation whose tail is still alive: no spare room at all
        2 => {
            let mut x = BytesMut::with_capacity(content.len() + spare + 40);
            x.extend_from_slice(content);
            x.extend_from_slice(&[0xdd; 40]);
            let tail = x.split_off(content.len());
            keep.push((tail, vec![0xdd; 40]));
            x
        }
        // partly consumed
        _ => {
            let mut x = BytesMut::with_capacity(content.len() + spare + 50);
            x.extend_from_slice(&[0xcc; 50]);
            x.extend_from_slice(content);
            x.advance(50);
            x
        }
    };
    (b, keep)
}

fn items15() -> Vec<Af> {
    let tr = spec::comp("transfer");
    let m = spec::minimal(tr);
    let t = |n: usize| build(5, &filled(tr, &m), Some(TransferBody::Data(Bytes::from((0..n).map(|i| (i % 251) as u8).collect::<Vec<u8>>()))));
    let mut v = vec![
        empty(7),
        build(1, &filled(spec::comp("open"), &spec::full(spec::comp("open"), 0)), None),
        build(65535, &filled(spec::comp("attach"), &spec::full(spec::comp("attach"), 0)), None),
        build(2, &filled(tr, &m), Some(TransferBody::MessageOut(some_msg_out()))),
    ];
    for n in [1usize, 200, 3000, 4050, 4096 - 19, 4096 - 18, 4096 - 17, 4097, 20_000, 32_700, 32_768 - 18, 32_768, 33_000, 70_000] {
        v.push(t(n));
    }
    v
}

/// How much a buffer holds before something is written: small amounts, and those around sizes the sources name.
fn before() -> &'static Vec<usize> {
    static S: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![0usize, 1, 3, 4, 7, 8, 9, 30, 31, 32, 63, 64, 500, 4095, 4096, 40_000, 65_535, 65_536, 65_537, 70_000, 131_072, 140_000];
        v.extend(crate::items::named_sizes(64, 140_000).into_iter().filter(|n| *n < 5000 || n % 1024 < 2 || n % 1024 > 1021));
        v.sort_unstable();
        v.dedup();
        v
    })
}

/// What a buffer may hold before something is written: runs of any byte, whole and partial headers
/// and frames, texts.
pub fn contents15() -> &'static Vec<Vec<u8>> {
    static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<Vec<u8>> = vec![vec![]];
        for x in 0..=255u8 {
            for n in [1usize, 2, 3, 4, 7, 8, 9, 64] {
                v.push(vec![x; n]);
            }
        }
        for n in [16usize, 100, 4096, 5000] {
            v.extend((0..crate::items::STYLES).map(|s| crate::items::content(n, s)));
        }
        let mut wires: Vec<Vec<u8>> = vec![];
        for id in [0u8, 1, 2, 3] {
            wires.push(vec![b'A', b'M', b'Q', b'P', id, 1, 0, 0]);
        }
        wires.push(b"xAMQPAMQP".to_vec());
        wires.extend(items15().iter().take(5).map(|a| enc(&a.frame).to_vec()));
        for co in spec::SASL.iter().map(|n| spec::comp(n)) {
            wires.push(enc(&SaslFrame::new(SaslFrameBody::from_rv(&spec::full(co, 0)))).to_vec());
        }
        for w in wires {
            for k in 1..=w.len().min(24) {
                v.push(w[..k].to_vec());
                v.push(w[w.len() - k..].to_vec());
            }
            v.push(w[..w.len() - 1].to_vec());
            v.push([&w[..], &w[..]].concat());
            v.push([&w[..], &w[..4]].concat());
            v.push(w);
        }
        for t in crate::util::dict().strs.iter().filter(|t| t.len() < 60) {
            v.push(t.clone().into());
        }
        v.sort();
        v.dedup();
        v
    })
}

pub fn appends(deep: bool) -> Vec<Unit> {
    use std::sync::OnceLock;
    static ITEMS: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    // frames hold cells and are not shared between threads: rebuilt where needed, bytes are shared
    let _ = ITEMS.get_or_init(|| items15().iter().map(|a| enc(&a.frame).to_vec()).collect());
    let n_items = ITEMS.get().unwrap().len();
    let mut us = vec![];
    us.push(unit("one frame into any buffer", 0, move |c| {
        let i = c.choose(n_items);
        let want = &ITEMS.get().unwrap()[i];
        let size = want.len();
        let pre: Vec<u8> = vec![0xab; *c.pick(before())];
        let mut spares = vec![0usize, 1, 7, 8, 31, 32, 64, 4095, 4096, 4097, 32_767, 32_768, 32_769];
        for d in 0..3 {
            spares.push((size + d).saturating_sub(1));
        }
        if deep {
            spares.extend([2, 3, 5, 16, 30, 33, 100, 128, 1000, 4090, 8192, 65_536, 100_000]);
        }
        let spare = *c.pick(&spares);
        let kind = c.choose(4);
        let a = items15().swap_remove(i);
        let (mut b, keep) = buffer(kind, &pre, spare);
        c.say(|| format!("{} bytes present, room for {}, buffer kind {}: {}", pre.len(), spare, kind, show(&a)));
        c.state(&(i, pre.len(), spare, kind));
        AmqpCodec::<AmqpFrame>::new()
            .encode(a.frame, &mut b)
            .map_err(|e| format!("encoding fails: {:?}", e))?;
        ensure!(b.len() == pre.len() + size, "{} bytes in the buffer instead of {}", b.len(), pre.len() + size);
        ensure!(b[..pre.len()] == pre[..], "the bytes already in the buffer changed");
        ensure!(b[pre.len()..] == want[..], "the bytes depend on the buffer: {} instead of {}", hex(&b[pre.len()..]), hex(want));
        for (x, y) in keep {
            ensure!(x[..] == y[..], "bytes of another buffer changed");
        }
        Ok(())
    }));
    us.push(unit("one protocol id into any buffer", 0, |c| {
        let (id, n) = *c.pick(&[(p::ProtocolId::Amqp, 0u8), (p::ProtocolId::AmqpTls, 2), (p::ProtocolId::AmqpSasl, 3)]);
        let k = c.choose(70 + before().len());
        let pre: Vec<u8> = vec![0x41; if k < 70 { k } else { before()[k - 70] }];
        let spare = c.choose(20);
        let kind = c.choose(4);
        let (mut b, keep) = buffer(kind, &pre, spare);
        c.state(&(n, pre.len(), spare, kind));
        ProtocolIdCodec.encode(id, &mut b).map_err(|e| format!("encoding fails: {:?}", e))?;
        let mut want = pre.clone();
        want.extend_from_slice(&[b'A', b'M', b'Q', b'P', n, 1, 0, 0]);
        ensure!(b[..] == want[..], "{} bytes present, room for {}: {} instead of {}", pre.len(), spare, hex(&b), hex(&want));
        for (x, y) in keep {
            ensure!(x[..] == y[..], "bytes of another buffer changed");
        }
        Ok(())
    }));
    us.push(unit("one SASL frame into any buffer", 0, |c| {
        let co = spec::comp(c.pick(&spec::SASL));
        let r = if c.flip() { spec::full(co, 0) } else { spec::minimal(co) };
        let f = SaslFrame::new(SaslFrameBody::from_rv(&r));
        let want = enc(&f);
        let pre: Vec<u8> = vec![0x41; *c.pick(before())];
        let spare = *c.pick(&[0usize, 1, 8, 31, 32, 100, 4095, 4096, 4097]);
        let kind = c.choose(4);
        let (mut b, keep) = buffer(kind, &pre, spare);
        c.state(&(&want[..], pre.len(), spare, kind));
        AmqpCodec::<SaslFrame>::new().encode(f, &mut b).map_err(|e| format!("encoding fails: {:?}", e))?;
        ensure!(b[..pre.len()] == pre[..] && b[pre.len()..] == want[..], "{} instead of {}", hex(&b), hex(&want));
        for (x, y) in keep {
            ensure!(x[..] == y[..], "bytes of another buffer changed");
        }
        Ok(())
    }));
    us.push(unit("anything behind any content", 0, move |c| {
        let all = contents15();
        let pre = &all[c.choose(all.len())];
        let spare = *c.pick(&[0usize, 9, 5000]);
        let kind = c.choose(if deep { 4 } else { 2 });
        let (mut b, keep) = buffer(kind, pre, spare);
        let k = c.choose(n_items + 6 + 3);
        // the long ones with a few
        if k >= 4 && k < n_items && pre.len() > 40 && pre.len() % 100 != 0 {
            return Ok(());
        }
        let want: Vec<u8> = if k < n_items {
            let a = items15().swap_remove(k);
            AmqpCodec::<AmqpFrame>::new().encode(a.frame, &mut b).map_err(|e| format!("encoding fails: {:?}", e))?;
            ITEMS.get().unwrap()[k].clone()
        } else if k < n_items + 6 {
            let co = spec::comp(spec::SASL[(k - n_items) % spec::SASL.len()]);
            let r = if k - n_items == 5 { spec::minimal(co) } else { spec::full(co, 0) };
            let f = SaslFrame::new(SaslFrameBody::from_rv(&r));
            let w = enc(&f).to_vec();
            AmqpCodec::<SaslFrame>::new().encode(f, &mut b).map_err(|e| format!("encoding fails: {:?}", e))?;
            w
        } else {
            let (id, n) = [(p::ProtocolId::Amqp, 0u8), (p::ProtocolId::AmqpTls, 2), (p::ProtocolId::AmqpSasl, 3)][k - n_items - 6];
            ProtocolIdCodec.encode(id, &mut b).map_err(|e| format!("encoding fails: {:?}", e))?;
            vec![b'A', b'M', b'Q', b'P', n, 1, 0, 0]
        };
        c.say(|| format!("{} present, room for {}, buffer kind {}: item {}", hex(pre), spare, kind, k));
        c.states(1);
        c.traces(1);
        ensure!(
            b.len() == pre.len() + want.len() && b[..pre.len()] == pre[..] && b[pre.len()..] == want[..],
            "{} present, room for {}: {} instead of {} behind it",
            hex(pre),
            spare,
            hex(&b),
            hex(&want)
        );
        for (x, y) in keep {
            ensure!(x[..] == y[..], "bytes of another buffer changed");
        }
        Ok(())
    }));
    let len = if deep { 4 } else { 3 };
    us.push(unit("sequences of frames into one buffer", 0, move |c| {
        let k = c.choose(len) + 1;
        let idx: Vec<usize> = (0..k).map(|_| c.choose(n_items)).collect();
        let spare = *c.pick(&[0usize, 40, 4096, 8192, 40_000]);
        let all = items15();
        let mut b = BytesMut::with_capacity(spare);
        let mut codec = AmqpCodec::<AmqpFrame>::new();
        let mut want = vec![];
        for i in &idx {
            codec.encode(all[*i].frame.clone(), &mut b).map_err(|e| format!("encoding fails: {:?}", e))?;
            want.extend_from_slice(&ITEMS.get().unwrap()[*i]);
        }
        c.state(&(&idx, spare));
        ensure!(b[..] == want[..], "items {:?}: the buffer does not hold them one after another", idx);
        for i in &idx {
            match codec.decode(&mut b) {
                Ok(Some(f)) => same_frame(&all[*i], &f).map_err(|e| format!("items {:?}: {}", idx, e))?,
                x => return Err(format!("items {:?}: decoding answers {:?}", idx, x)),
            }
        }
        ensure!(b.is_empty(), "items {:?}: {} bytes left", idx, b.len());
        match codec.decode(&mut b) {
            Ok(None) => Ok(()),
            x => Err(format!("items {:?}: an extra item {:?}", idx, x)),
        }
    }));
    us.push(unit("many frames through one codec", 0, move |c| {
        let n = if deep { 1_000_000 } else { 70_000 };
        let style = c.choose(3);
        // the buffer is emptied from time to time, as a transport does
        let every = *c.pick(&[1usize, 3, 1000, usize::MAX]);
        let all = items15();
        let want = ITEMS.get().unwrap();
        let pick = |i: usize| match style {
            0 => 0usize,
            1 => [0, 4][i % 2],
            _ => if i % 500 == 499 { 6 + (i / 500) % 4 } else { [4, 0, 5, 3][i % 4] },
        };
        c.say(|| format!("{} frames, style {}, sent off every {}", n, style, every));
        let mut codec = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::new();
        let mut at = 0;
        let mut start = 0;
        for i in 0..n {
            let k = pick(i);
            codec.encode(all[k].frame.clone(), &mut b).map_err(|e| format!("frame {}: encoding fails: {:?}", i, e))?;
            at += want[k].len();
            ensure!(b.len() == at - start && b[b.len() - want[k].len()..] == want[k][..], "frame {} of {} is not appended as it is", i, n);
            if (i + 1) % every == 0 {
                b.take();
                start = at;
            }
        }
        c.states(n as u64);
        c.traces(n as u64);
        if every == usize::MAX {
            let mut left = 0;
            for i in 0..n {
                let w = &want[pick(i)];
                ensure!(b[left..left + w.len()] == w[..], "frame {} of {} is changed later", i, n);
                left += w.len();
            }
        }
        Ok(())
    }));
    us.push(unit("sequences of protocol ids into one buffer", 0, |c| {
        let k = c.choose(3) + 1;
        let all = [p::ProtocolId::Amqp, p::ProtocolId::AmqpTls, p::ProtocolId::AmqpSasl];
        let ids: Vec<p::ProtocolId> = (0..k).map(|_| *c.pick(&all)).collect();
        let spare = c.choose(40);
        let mut b = BytesMut::with_capacity(spare);
        c.state(&(format!("{:?}", ids), spare));
        for i in &ids {
            ProtocolIdCodec.encode(*i, &mut b).map_err(|e| format!("{:?}", e))?;
        }
        for i in &ids {
            match ProtocolIdCodec.decode(&mut b) {
                Ok(Some(x)) if x == *i => {}
                x => return Err(format!("{:?}: decoding answers {:?}", ids, x)),
            }
        }
        ensure!(b.is_empty(), "{:?}: {} bytes left", ids, b.len());
        Ok(())
    }));
    us
}

// ------------------------------------------------------------------ C17

pub fn observing(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    for (name, bound, g) in gens() {
        us.push(unit(format!("observing frames: {}", name), bound.min(1 + deep as usize), move |c| {
            let a = g(c, false);
            // a second frame with the same content, built independently and never observed
            let b0 = enc(&a.frame);
            let f = a.frame.clone();
            c.state(&b0[..]);
            for step in 0..2 {
                let n = f.encoded_size();
                ensure!(n == b0.len(), "{}: size {} instead of {} (step {})", show(&a), n, b0.len(), step);
                let g2 = f.clone();
                ensure!(g2 == f && f == g2 && f == a.frame, "{}: not equal to its clone", show(&a));
                ensure!(enc(&f) == b0, "{}: encodes differently the second time", show(&a));
                ensure!(g2.encoded_size() == n, "{}: the clone has another size", show(&a));
                let gb = enc(&g2);
                ensure!(gb.len() == b0.len(), "{}: the clone encodes differently", show(&a));
                let (_, x) = AmqpFrame::decode(&gb[4..]).map_err(|e| format!("{}: {:?}", show(&a), e))?;
                same_frame(&a, &x).map_err(|e| format!("{}: the clone encodes differently: {}", show(&a), e))?;
            }
            Ok(())
        }));
    }
    us
}

// ------------------------------------------------------------------ C21

macro_rules! getters {
    ($v:ident, $x:expr; $($f:ident: $k:ident),*) => {{
        $( getters!(@ $v, $x, $f, $k); )*
    }};
    (@ $v:ident, $x:expr, $f:ident, val) => {
        ensure!($x.$f().rv().same(&$x.$f.rv()), "{}.{}() returns {:?}, the field is {:?}", stringify!($v), stringify!($f), $x.$f(), $x.$f);
        $v.push($x.$f().rv());
    };
    (@ $v:ident, $x:expr, $f:ident, opt) => {
        ensure!($x.$f() == $x.$f.as_ref(), "{}.{}() returns {:?}, the field is {:?}", stringify!($v), stringify!($f), $x.$f(), $x.$f);
        $v.push($x.$f().map_or(Null, |x| x.rv()));
    };
    (@ $v:ident, $x:expr, $f:ident, copy) => {
        ensure!($x.$f() == $x.$f, "{}.{}() returns {:?}, the field is {:?}", stringify!($v), stringify!($f), $x.$f(), $x.$f);
        $v.push($x.$f().map_or(Null, |x| x.rv()));
    };
}

/// what the accessors of the composite return, in field order
pub fn read_all(name: &str, r: &RV) -> Result<Vec<RV>, String> {
    let mut v: Vec<RV> = vec![];
    macro_rules! g {
        ($t:ident; $($f:ident: $k:ident),*) => {{
            let x = <p::$t as FromRv>::from_rv(r);
            getters!(v, x; $($f: $k),*);
            let y = x.clone();
            ensure!(x == y, "{} is not equal to its clone", stringify!($t));
        }};
    }
    match name {
        "open" => g!(Open; container_id: val, hostname: opt, max_frame_size: val, channel_max: val, idle_time_out: copy, outgoing_locales: opt, incoming_locales: opt, offered_capabilities: opt, desired_capabilities: opt, properties: opt),
        "begin" => g!(Begin; remote_channel: copy, next_outgoing_id: val, incoming_window: val, outgoing_window: val, handle_max: val, offered_capabilities: opt, desired_capabilities: opt, properties: opt),
        "attach" => g!(Attach; name: val, handle: val, role: val, snd_settle_mode: val, rcv_settle_mode: val, source: opt, target: opt, unsettled: opt, incomplete_unsettled: val, initial_delivery_count: copy, max_message_size: copy, offered_capabilities: opt, desired_capabilities: opt, properties: opt),
        "flow" => g!(Flow; next_incoming_id: copy, incoming_window: val, next_outgoing_id: val, outgoing_window: val, handle: copy, delivery_count: copy, link_credit: copy, available: copy, drain: val, echo: val, properties: opt),
        "transfer" => g!(Transfer; handle: val, delivery_id: copy, delivery_tag: opt, message_format: copy, settled: copy, more: val, rcv_settle_mode: copy, state: opt, resume: val, aborted: val, batchable: val),
        "disposition" => g!(Disposition; role: val, first: val, last: copy, settled: val, state: opt, batchable: val),
        "detach" => g!(Detach; handle: val, closed: val, error: opt),
        "end" => g!(End; error: opt),
        "close" => g!(Close; error: opt),
        "error" => g!(Error; condition: val, description: opt, info: opt),
        "received" => g!(Received; section_number: val, section_offset: val),
        "accepted" | "released" => {}
        "rejected" => g!(Rejected; error: opt),
        "modified" => g!(Modified; delivery_failed: copy, undeliverable_here: copy, message_annotations: opt),
        "source" => g!(Source; address: opt, durable: val, expiry_policy: val, timeout: val, dynamic: val, dynamic_node_properties: opt, distribution_mode: opt, filter: opt, default_outcome: opt, outcomes: opt, capabilities: opt),
        "target" => g!(Target; address: opt, durable: val, expiry_policy: val, timeout: val, dynamic: val, dynamic_node_properties: opt, capabilities: opt),
        "sasl-mechanisms" => g!(SaslMechanisms; sasl_server_mechanisms: val),
        "sasl-init" => g!(SaslInit; mechanism: val, initial_response: opt, hostname: opt),
        "sasl-challenge" => g!(SaslChallenge; challenge: val),
        "sasl-response" => g!(SaslResponse; response: val),
        "sasl-outcome" => g!(SaslOutcome; code: val, additional_data: opt),
        "header" => g!(Header; durable: val, priority: val, ttl: copy, first_acquirer: val, delivery_count: val),
        "properties" => g!(Properties; message_id: opt, user_id: opt, to: opt, subject: opt, reply_to: opt, correlation_id: opt, content_type: opt, content_encoding: opt, absolute_expiry_time: copy, creation_time: copy, group_id: opt, group_sequence: copy, reply_to_group_id: opt),
        x => panic!("harness: composite {}", x),
    }
    Ok(v)
}

pub fn accessors(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    us.push(unit("composite accessors", if deep { 3 } else { 2 }, move |c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        let r = filled(co, &comp_value(c, co, deep, 0));
        c.say(|| format!("{} {:?}", co.name, r));
        c.sample(|| format!("{} {:?}", co.name, r));
        c.state(&r.canon());
        c.outcome(co.name);
        let got = RV::desc(co.code, List(read_all(co.name, &r)?));
        ensure!(got.same(&r), "{}: the accessors return {:?}, stored was {:?}", co.name, got, r);
        // decoded, the accessors still agree with the field they are named after
        Ok(())
    }));
    us.push(unit("composite accessors, all subsets of optional fields", 0, move |c| {
        let co = &spec::comps()[c.choose(spec::comps().len())];
        let r = filled(co, &subset(c, co));
        c.state(&r.canon());
        let got = RV::desc(co.code, List(read_all(co.name, &r)?));
        ensure!(got.same(&r), "{}: the accessors return {:?}, stored was {:?}", co.name, got, r);
        Ok(())
    }));
    for co in spec::comps().iter().filter(|co| co.fields.len() > 2) {
        let al = crate::items::few(co, if deep { 3_000_000 } else { 250_000 }, false);
        us.push(unit(format!("accessors of {}, combinations of field values", co.name), 0, move |c: &mut Ctx| {
            let l = al.iter().map(|v| v[c.choose(v.len())].clone()).collect();
            let r = filled(co, &RV::desc(co.code, List(l)));
            c.state(&r.canon());
            let got = RV::desc(co.code, List(read_all(co.name, &r)?));
            ensure!(got.same(&r), "{}: the accessors return {:?}, stored was {:?}", co.name, got, r);
            Ok(())
        }));
    }
    us.push(unit("frames: new, accessors, into_parts, names", 0, move |c| {
        let chan = (c.choose(256) * 256 + c.choose(256)) as u16;
        let k = c.choose(spec::FRAMES.len() + 1);
        let a = if k == spec::FRAMES.len() {
            empty(chan)
        } else {
            let co = spec::comp(spec::FRAMES[k]);
            build(chan, &filled(co, &spec::minimal(co)), None)
        };
        c.states(1);
        let name = match k {
            9 => "Empty".to_string(),
            k => {
                let s = spec::FRAMES[k];
                s[..1].to_uppercase() + &s[1..]
            }
        };
        let p0 = a.frame.performative().clone();
        ensure!(a.frame.channel_id() == chan, "channel_id() returns {} for {}", a.frame.channel_id(), chan);
        ensure!(p0.name() == name, "the performative {} is called {}", name, p0.name());
        ensure!(p0.rv().same(&a.perf.clone().unwrap_or(Null)), "performative() returns {:?}", p0);
        let (ch, pf) = a.frame.into_parts();
        ensure!(ch == chan && pf == p0, "into_parts returns {} {:?} instead of {} {:?}", ch, pf, chan, p0);
        Ok(())
    }));
    us.push(unit("transfer bodies", 0, move |c| {
        let n = c.choose(300);
        let data = Bytes::from(vec![n as u8; n]);
        let fmt = *c.pick(&[None, Some(0u32), Some(7), Some(u32::MAX)]);
        let mut mi = InMessage::with_body(data.clone());
        mi.message_format = fmt;
        let mut mo = OutMessage::with_body(data.clone());
        mo.message_format = fmt;
        let k = c.choose(3);
        let b: TransferBody = match k {
            0 => data.clone().into(),
            1 => mi.clone().into(),
            _ => mo.clone().into(),
        };
        c.state(&(n, fmt, k));
        let ok = match (&b, k) {
            (TransferBody::Data(d), 0) => *d == data,
            (TransferBody::MessageIn(m), 1) => *m == mi && m.message_format == fmt,
            (TransferBody::MessageOut(m), 2) => *m == mo && m.message_format == fmt,
            _ => false,
        };
        ensure!(ok, "the conversion into a transfer body gives {:?}", b);
        ensure!(
            b.message_format() == if k == 0 { None } else { fmt },
            "message_format() returns {:?} for {:?}",
            b.message_format(),
            fmt
        );
        ensure!(b.len() == enc(&b).len(), "len() returns {} for {} bytes", b.len(), enc(&b).len());
        // stored in and read from a transfer
        let mut t = match Frame::from_rv(&filled(spec::comp("transfer"), &spec::minimal(spec::comp("transfer")))) {
            Frame::Transfer(t) => t,
            _ => unreachable!(),
        };
        ensure!(t.body().is_none(), "a transfer without body returns one");
        t.body = Some(b.clone());
        ensure!(t.body() == Some(&b), "body() returns {:?}", t.body());
        Ok(())
    }));
    us.push(unit("SASL conversions", if deep { 2 } else { 1 }, move |c| {
        let co = spec::comp(c.pick(&spec::SASL));
        let r = filled(co, &comp_value(c, co, deep, 0));
        c.state(&r.canon());
        let f: SaslFrame = match co.name {
            "sasl-mechanisms" => p::SaslMechanisms::from_rv(&r).into(),
            "sasl-init" => p::SaslInit::from_rv(&r).into(),
            "sasl-challenge" => p::SaslChallenge::from_rv(&r).into(),
            "sasl-response" => p::SaslResponse::from_rv(&r).into(),
            _ => p::SaslOutcome::from_rv(&r).into(),
        };
        let want = SaslFrameBody::from_rv(&r);
        ensure!(f.body == want, "{:?} is wrapped as {:?}", want, f);
        ensure!(SaslFrame::new(want.clone()).body == want, "SaslFrame::new changes its argument");
        Ok(())
    }));
    fn plain(c: &mut Ctx, a: &str, b: &str, d: &str) -> R {
        let got = p::SaslInit::prepare_response(a, b, d);
        let mut want = a.as_bytes().to_vec();
        want.push(0);
        want.extend_from_slice(b.as_bytes());
        want.push(0);
        want.extend_from_slice(d.as_bytes());
        c.state(&want);
        ensure!(got[..] == want[..], "({:?}, {:?}, {:?}) gives {}", a, b, d, hex(&got));
        Ok(())
    }
    us.push(unit("SASL PLAIN response", 0, |c| {
        let mut parts: Vec<&str> = vec!["", "a", "user", "p\u{e4}ss", "x\u{0}y", " ", "%", "{}", "authzid@example.com"];
        parts.extend(dict().strs.iter().take(60).map(|s| &s[..]));
        let (a, b, d) = (*c.pick(&parts), *c.pick(&parts), *c.pick(&parts));
        plain(c, a, b, d)
    }));
    us.push(unit("SASL PLAIN response with unusual characters", 0, |c| {
        // one part is anything of up to two characters, alone or at either end of something longer
        let odd: Vec<char> = (0..=0xffu8).map(|b| b as char).chain(['\u{2028}', '\u{feff}', '\u{301}', '\u{10ffff}']).collect();
        let mut s = String::new();
        let place = c.choose(4);
        if place & 1 == 1 {
            s.push_str("secret");
        }
        s.push(odd[c.choose(odd.len())]);
        match c.choose(odd.len() + 1) {
            0 => {}
            k => s.push(odd[k - 1]),
        }
        if place & 2 == 2 {
            s.push_str("Word");
        }
        let which = c.choose(3);
        let part = |i: usize| if i == which { s.clone() } else { ["zid", "cid", "pw"][i].to_string() };
        plain(c, &part(0), &part(1), &part(2))
    }));
    us.push(unit("text values", 0, |c| {
        let n = c.choose(300);
        let multi = c.flip();
        let s: String = if multi { "\u{e9}\u{20ac}\u{1f4af}".chars().cycle().take(n).collect() } else { static_str(n).to_string() };
        text_checks(c, &s)
    }));
    us.push(unit("short and named text values", 0, |c| {
        // every text of up to four of these, alone or at either end of something longer
        let alphabet = ["a", "Z", "0", "\0", " ", "\t", "\n", "\"", "\\", "\u{7f}", "\u{e9}", "\u{301}", "\u{feff}", "\u{fffd}", "\u{1f4af}", ":", "*"];
        let mut s = String::new();
        if c.flip() {
            let d = &dict().strs;
            if !d.is_empty() {
                s.push_str(&d[c.choose(d.len())]);
            }
        } else {
            for _ in 0..c.choose(5) {
                s.push_str(*c.pick(&alphabet));
            }
        }
        match c.choose(3) {
            0 => {}
            1 => s.insert_str(0, "some longer text"),
            _ => s.push_str("some longer text"),
        }
        text_checks(c, &s)
    }));
    us.push(unit("numbers into polymorphic values and ids", 0, |c| {
        use t::Variant as V;
        let mut nums: Vec<u64> = dict().nums.clone();
        for b in 0..64 {
            for d in [-1i64, 0, 1].iter() {
                nums.push((1u64 << b).wrapping_add(*d as u64));
                nums.push((1u64 << b).wrapping_neg().wrapping_add(*d as u64));
            }
        }
        nums.sort_unstable();
        nums.dedup();
        let x = *c.pick(&nums);
        c.state(&x);
        macro_rules! same {
            ($got:expr, $want:pat => $ok:expr) => {
                match $got {
                    $want => ensure!($ok, "{:#x} converts to something else", x),
                    ref g => return Err(format!("{:#x} converts to {:?}", x, g)),
                }
            };
        }
        same!(V::from(x as u8), V::Ubyte(y) => y == x as u8);
        same!(V::from(x as u16), V::Ushort(y) => y == x as u16);
        same!(V::from(x as u32), V::Uint(y) => y == x as u32);
        same!(V::from(x), V::Ulong(y) => y == x);
        same!(V::from(x as i8), V::Byte(y) => y == x as i8);
        same!(V::from(x as i16), V::Short(y) => y == x as i16);
        same!(V::from(x as i32), V::Int(y) => y == x as i32);
        same!(V::from(x as i64), V::Long(y) => y == x as i64);
        let f = f32::from_bits(x as u32);
        same!(V::from(ordered_float::OrderedFloat(f)), V::Float(y) => y.0.to_bits() == f.to_bits());
        let f = f64::from_bits(x);
        same!(V::from(ordered_float::OrderedFloat(f)), V::Double(y) => y.0.to_bits() == f.to_bits());
        if let Some(ch) = std::char::from_u32(x as u32) {
            same!(V::from(ch), V::Char(y) => y == ch);
        }
        if (-8_000_000_000_000_000..8_000_000_000_000_000).contains(&(x as i64)) {
            let t = crate::conv::ts(x as i64);
            same!(V::from(t), V::Timestamp(y) => y == t);
        }
        same!(p::MessageId::from(x), p::MessageId::Ulong(y) => y == x);
        let mut id = [7u8; 16];
        id[..8].copy_from_slice(&x.to_be_bytes());
        let u = uuid::Uuid::from_bytes(id);
        same!(V::from(u), V::Uuid(y) => *y.as_bytes() == id);
        same!(p::MessageId::from(u), p::MessageId::Uuid(y) => *y.as_bytes() == id);
        let b = x.to_be_bytes().to_vec();
        same!(V::from(Bytes::from(b.clone())), V::Binary(y) => y[..] == b[..]);
        same!(p::MessageId::from(Bytes::from(b.clone())), p::MessageId::Binary(y) => y[..] == b[..]);
        Ok(())
    }));
    us.push(unit("conversions into polymorphic values and ids", 0, |c| {
        use t::Variant as V;
        let k = c.choose(24);
        c.states(1);
        let s = t::Str::from("s");
        let y = t::Symbol::from("y");
        let u = uuid::Uuid::from_bytes([3; 16]);
        let (got, want): (V, V) = match k {
            0 => (true.into(), V::Boolean(true)),
            1 => (7u8.into(), V::Ubyte(7)),
            2 => (7u16.into(), V::Ushort(7)),
            3 => (7u32.into(), V::Uint(7)),
            4 => (7u64.into(), V::Ulong(7)),
            5 => ((-7i8).into(), V::Byte(-7)),
            6 => ((-7i16).into(), V::Short(-7)),
            7 => ((-7i32).into(), V::Int(-7)),
            8 => ((-7i64).into(), V::Long(-7)),
            9 => (ordered_float::OrderedFloat(1.5f32).into(), V::Float(ordered_float::OrderedFloat(1.5))),
            10 => (ordered_float::OrderedFloat(1.5f64).into(), V::Double(ordered_float::OrderedFloat(1.5))),
            11 => ('c'.into(), V::Char('c')),
            12 => (crate::conv::ts(-5).into(), V::Timestamp(crate::conv::ts(-5))),
            13 => (u.into(), V::Uuid(u)),
            14 => (Bytes::from_static(b"b").into(), V::Binary(Bytes::from_static(b"b"))),
            15 => (s.clone().into(), V::String(s.clone())),
            16 => (y.clone().into(), V::Symbol(y.clone())),
            17 => (t::StaticSymbol("z").into(), V::StaticSymbol(t::StaticSymbol("z"))),
            18 => (t::List(vec![V::Null]).into(), V::List(t::List(vec![V::Null]))),
            19 => (crate::conv::bstr("s").into(), V::String(s.clone())),
            20 => ("s".into(), V::String(s.clone())),
            _ => (V::Null, V::Null),
        };
        ensure!(got == want && std::mem::discriminant(&got) == std::mem::discriminant(&want), "{:?} instead of {:?}", got, want);
        ensure!(got.rv() == want.rv(), "{:?} instead of {:?}", got, want);
        let (m, w): (p::MessageId, p::MessageId) = match k % 4 {
            0 => (7u64.into(), p::MessageId::Ulong(7)),
            1 => (u.into(), p::MessageId::Uuid(u)),
            2 => (Bytes::from_static(b"b").into(), p::MessageId::Binary(Bytes::from_static(b"b"))),
            _ => (crate::conv::bstr("s").into(), p::MessageId::String(crate::conv::bstr("s"))),
        };
        ensure!(m == w, "{:?} instead of {:?}", m, w);
        // error conditions
        let (e, w): (p::ErrorCondition, p::ErrorCondition) = match k % 5 {
            0 => (p::AmqpError::NotFound.into(), p::ErrorCondition::AmqpError(p::AmqpError::NotFound)),
            1 => (p::ConnectionError::Redirect.into(), p::ErrorCondition::ConnectionError(p::ConnectionError::Redirect)),
            2 => (p::SessionError::ErrantLink.into(), p::ErrorCondition::SessionError(p::SessionError::ErrantLink)),
            3 => (p::LinkError::Stolen.into(), p::ErrorCondition::LinkError(p::LinkError::Stolen)),
            _ => (y.clone().into(), p::ErrorCondition::Custom(y)),
        };
        ensure!(e == w, "{:?} instead of {:?}", e, w);
        Ok(())
    }));
    us
}

fn text_checks(c: &mut Ctx, s: &str) -> R {
    let st: &'static str = leaked(s);
    let mut all = vec![t::Str::from_str(s), t::Str::ByteStr(crate::conv::bstr(s)), t::Str::from(crate::conv::bstr(s))];
    all.push(t::Str::from(st));
    all.push(t::Str::Static(st));
    c.state(s);
    for x in all {
        ensure!(x.as_str() == s, "{:?}.as_str() returns {:?}", s, x.as_str());
        ensure!(x.as_bytes() == s.as_bytes(), "{:?}.as_bytes() differs", s);
        ensure!(x.len() == s.len(), "{:?}.len() returns {}", s, x.len());
        let b = x.as_bytes_str();
        ensure!(&b[..] == s, "{:?}.as_bytes_str() returns {:?}", s, b);
        let y = t::Symbol(x.clone());
        ensure!(y.as_str() == s && y.as_bytes() == s.as_bytes() && y.len() == s.len(), "symbol {:?} reads {:?}", s, y);
        ensure!(&y.as_bytes_str()[..] == s, "symbol {:?}.as_bytes_str()", s);
        let vs = t::Variant::String(x.clone());
        let vy = t::Variant::Symbol(y.clone());
        ensure!(vs.as_str() == Some(s) && vy.as_str() == Some(s), "Variant::as_str of {:?}", s);
        ensure!(vs.as_bytes_str().map(|z| z[..].to_string()) == Some(s.to_string()), "Variant::as_bytes_str of {:?}", s);
        ensure!(vy.as_bytes_str().map(|z| z[..].to_string()) == Some(s.to_string()), "Variant::as_bytes_str of {:?}", s);
    }
    // conversions keep the text and the kind
    use t::Variant as V;
    for (v, sym) in [
        (V::from(st), false),
        (V::from(crate::conv::bstr(s)), false),
        (V::from(t::Str::from(st)), false),
        (V::from(t::Str::from_str(s)), false),
        (V::from(t::Symbol::from(st)), true),
        (V::from(t::Symbol::from_slice(s)), true),
    ]
    .iter()
    {
        match v {
            V::String(x) => ensure!(!sym && x.as_str() == s, "{:?} converts to {:?}", s, v),
            V::Symbol(x) => ensure!(*sym && x.as_str() == s, "{:?} converts to {:?}", s, v),
            _ => return Err(format!("{:?} converts to {:?}", s, v)),
        }
    }
    match V::from(t::StaticSymbol(st)) {
        V::StaticSymbol(x) => ensure!(x.0 == s, "{:?} converts to {:?}", s, x),
        x => return Err(format!("{:?} converts to {:?}", s, x)),
    }
    match p::MessageId::from(crate::conv::bstr(s)) {
        p::MessageId::String(x) => ensure!(&x[..] == s, "{:?} converts to {:?}", s, x),
        x => return Err(format!("{:?} converts to {:?}", s, x)),
    }
    ensure!(t::Symbol::from_slice(s).as_str() == s, "Symbol::from_slice of {:?}", s);
    ensure!(t::Symbol::from(crate::conv::bstr(s)).as_str() == s, "Symbol::from of {:?}", s);
    ensure!(t::Variant::Null.as_str().is_none() && t::Variant::Uint(1).as_bytes_str().is_none(), "as_str of a value that is no text");
    let m = t::Multiple(vec![s.to_string(), "x".to_string()]);
    ensure!(m.len() == 2 && !m.is_empty() && m.iter().count() == 2 && m[0] == s, "Multiple accessors");
    ensure!(t::Multiple::<u8>::default().is_empty(), "Multiple::default");
    let l = t::List(vec![t::Variant::Null, t::Variant::from(crate::conv::bstr(s))]);
    ensure!(l.len() == 2 && !l.is_empty() && l.iter().count() == 2, "List accessors");
    Ok(())
}
