//! C01: any bytes, any decoder: no panic, no hang, no disproportionate memory.
use super::frames::put_frame;
use super::values::readers;
use crate::alloc::measure;
use crate::dectab::{dec, decs, zero_width, Dec, Want};
use crate::explore::{unit, Ctx, Unit, R};
use crate::rv::{self, RV, RV::*};
use crate::spec;
use crate::util::*;
use amqp_codec::types::Variant;
use amqp_codec::{AmqpCodec, AmqpFrame, AmqpParseError, Decode, InMessage, ProtocolIdCodec, SaslFrame};
use bytes::BytesMut;
use std::cell::RefCell;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tokio_io::codec::Decoder;

/// what one call may hold on the heap at once, for `n` bytes of input
fn allowance(n: usize) -> usize {
    (64 << 10) + 8192 * n
}

thread_local! { static LAST: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) }; }

enum Got {
    Value,
    More,
    Err,
}

/// One call of one decoder under the memory monitor.
fn call(d: &Dec, b: &[u8]) -> Result<Got, String> {
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        l.clear();
        l.extend_from_slice(b);
    });
    let (r, peak) = measure(|| (d.raw)(b));
    ensure!(
        peak <= allowance(b.len()),
        "{}: {} bytes make it allocate {} bytes ({})",
        d.name,
        b.len(),
        peak,
        hex(b)
    );
    Ok(match r {
        Ok(rest) => {
            ensure!(rest <= b.len(), "{}: {} of {} bytes left ({})", d.name, rest, b.len(), hex(b));
            Got::Value
        }
        Err(ref e) if is_incomplete(e) => Got::More,
        Err(_) => Got::Err,
    })
}

#[derive(Default)]
struct Tally {
    value: u64,
    more: u64,
    err: u64,
}
impl Tally {
    fn add(&mut self, g: &Got) {
        match g {
            Got::Value => self.value += 1,
            Got::More => self.more += 1,
            Got::Err => self.err += 1,
        }
    }
    fn all(&self) -> u64 {
        self.value + self.more + self.err
    }
    fn done(&self, c: &mut Ctx) {
        c.traces(self.all());
        c.states(self.all());
        c.outcome_n("decoded", self.value);
        c.outcome_n("incomplete", self.more);
        c.outcome_n("error", self.err);
    }
}

/// Run a block of calls; a panic in one of them is reported with its input.
fn block(c: &mut Ctx, f: impl FnOnce(&mut Tally) -> R) -> R {
    let mut t = Tally::default();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut t)));
    match r {
        Ok(r) => r?,
        Err(p) => {
            let (m, at) = crate::explore::last_panic();
            if crate::explore::harness_location(&at) {
                std::panic::resume_unwind(p);
            }
            let b = LAST.with(|l| l.borrow().clone());
            return Err(format!("decoding {} panics: {} at {}", hex(&b), m, at));
        }
    }
    t.done(c);
    Ok(())
}

// ------------------------------------------------------------------ seeds

/// valid encodings for every decoder, to be damaged
pub fn seeds() -> &'static Vec<(&'static Dec, Vec<u8>)> {
    static S: std::sync::OnceLock<Vec<(&'static Dec, Vec<u8>)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<(&'static Dec, Vec<u8>)> = vec![];
        for co in spec::comps() {
            for r in [spec::full(co, 0), spec::minimal(co)] {
                for b in [rv::compact(&r), rv::widest(&r)] {
                    for d in readers(co.name) {
                        v.push((dec(d), b.clone()));
                    }
                    if spec::FRAMES.contains(&co.name) {
                        v.push((dec("amqp frame"), put_frame(0, 1, &[], &b)[4..].to_vec()));
                    }
                    if spec::SASL.contains(&co.name) {
                        v.push((dec("sasl frame"), put_frame(1, 0, &[], &b)[4..].to_vec()));
                    }
                    if co.name == "header" || co.name == "properties" {
                        v.push((dec("in message"), b.clone()));
                        v.push((dec("out message"), b.clone()));
                    }
                }
            }
        }
        for (_, code, ty, _) in spec::RSECTIONS.iter() {
            for x in spec::dom(*ty, false) {
                let b = rv::compact(&RV::desc(*code, x));
                if b.len() > 80 {
                    continue;
                }
                for d in ["section", "in message", "out message"] {
                    v.push((dec(d), b.clone()));
                }
            }
        }
        for d in decs() {
            let ty = match d.want {
                Want::Ty(t) | Want::Opt(t) => t,
                _ => continue,
            };
            for x in spec::dom(ty, false).into_iter().chain(std::iter::once(spec::dist(ty, 1))) {
                for b in [rv::compact(&x), rv::widest(&x)] {
                    if b.len() < 80 {
                        v.push((d, b));
                    }
                }
            }
        }
        let any = List(vec![
            Null,
            Map(vec![(Sym("k".into()), List(vec![Uint(0), Bin(vec![1])])), (Uint(7), Map(vec![]))]),
            RV::desc(3, Str("s".into())),
            Array(vec![]),
        ]);
        v.push((dec("variant"), rv::compact(&any)));
        v.push((dec("variant"), rv::widest(&any)));
        v.push((dec("list"), rv::widest(&any)));
        for d in decs() {
            if let Want::Arr(cs) = d.want {
                for c in cs {
                    let n = match c >> 4 {
                        4 => 0,
                        k @ 5..=9 => 1 << (k - 5),
                        0xa => 2,
                        _ => 5,
                    };
                    let mut body = vec![*c];
                    for _ in 0..3 {
                        let mut e = vec![0u8; n];
                        match c >> 4 {
                            0xa => e[0] = 1,
                            0xb => e[3] = 1,
                            _ => {}
                        }
                        body.extend(e);
                    }
                    for code in [0xe0u8, 0xf0] {
                        let mut b = vec![];
                        rv::put_compound(code, 3, &body, &mut b);
                        v.push((d, b));
                    }
                }
            }
        }
        // a whole message, and one in a transfer
        let mut m = rv::compact(&spec::full(spec::comp("header"), 0));
        m.extend(rv::compact(&RV::desc(114, Map(vec![(Sym("a".into()), Uint(1))]))));
        m.extend(rv::compact(&RV::desc(116, Map(vec![(Str("a".into()), Uint(1))]))));
        m.extend(rv::compact(&RV::desc(117, Bin(vec![1, 2, 3]))));
        m.extend(rv::compact(&RV::desc(120, Map(vec![]))));
        v.push((dec("in message"), m.clone()));
        v.push((dec("out message"), m));
        v.sort_by(|a, b| (a.0.name, &a.1).cmp(&(b.0.name, &b.1)));
        v.dedup_by(|a, b| a.0.name == b.0.name && a.1 == b.1);
        v
    })
}

/// an array of elements of no width may declare any number of them: see known_findings.txt
fn excused(d: &Dec, b: &[u8]) -> bool {
    if !zero_width(d) || b.is_empty() {
        return false;
    }
    let n = match b[0] {
        0xe0 => return false,
        0xf0 if b.len() >= 9 => b[5..9].iter().fold(0u64, |a, x| (a << 8) | u64::from(*x)),
        _ => return false,
    };
    n > 4096
}

const HOSTILE: [u8; 18] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 0x40, 0x7f, 0x80, 0xa1, 0xc0, 0xd0, 0xe0, 0xfe, 0xff];

// ------------------------------------------------------------------ units

pub fn units(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    us.push(unit("all byte strings of up to three bytes", 0, |c| {
        let d = &decs()[c.choose(decs().len())];
        let b0 = c.choose(256) as u8;
        c.say(|| format!("{} given strings that begin with {:02x}", d.name, b0));
        block(c, |t| {
            if b0 == 0 {
                t.add(&call(d, &[])?);
            }
            t.add(&call(d, &[b0])?);
            for b1 in 0..=255u8 {
                t.add(&call(d, &[b0, b1])?);
                for b2 in 0..=255u8 {
                    t.add(&call(d, &[b0, b1, b2])?);
                }
            }
            Ok(())
        })
    }));
    // every byte of every valid encoding replaced by every value; every cut
    us.push(unit("valid encodings with one byte changed, cut or added", 0, |c| {
        let k = c.choose(seeds().len());
        let (d, b) = &seeds()[k];
        let d = *d;
        c.say(|| format!("{}: {}", d.name, hex(b)));
        c.sample(|| format!("{}: {}", d.name, hex(b)));
        let i = c.choose(b.len() + 1);
        block(c, |t| {
            t.add(&call(d, &b[..i])?);
            let mut w = b.clone();
            for x in 0..=255u8 {
                if i < b.len() {
                    w[i] = x;
                    if !excused(d, &w) {
                        t.add(&call(d, &w)?);
                    }
                    w[i] = b[i];
                }
                // inserted
                let mut y = b[..i].to_vec();
                y.push(x);
                y.extend_from_slice(&b[i..]);
                if !excused(d, &y) {
                    t.add(&call(d, &y)?);
                }
            }
            Ok(())
        })
    }));
    us.push(unit("valid encodings with two bytes changed", 0, move |c| {
        let k = c.choose(seeds().len());
        let (d, b) = &seeds()[k];
        let d = *d;
        c.say(|| format!("{}: {}", d.name, hex(b)));
        if b.len() > if deep { 150 } else { 60 } {
            return Ok(());
        }
        let i = c.choose(b.len());
        block(c, |t| {
            let mut w = b.clone();
            for x in HOSTILE {
                w[i] = x;
                for j in i + 1..b.len() {
                    for y in HOSTILE {
                        w[j] = y;
                        if !excused(d, &w) {
                            t.add(&call(d, &w)?);
                        }
                    }
                    w[j] = b[j];
                }
                w[i] = b[i];
            }
            Ok(())
        })
    }));
    // a declared size, a declared count, some contents
    us.push(unit("declared sizes and counts against contents", 0, move |c| {
        let d = &decs()[c.choose(decs().len())];
        let heads: Vec<Vec<u8>> = heads(d);
        let mut pre = c.pick(&heads).clone();
        let code = *c.pick(&[0xc0u8, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3]);
        pre.push(code);
        let wide = matches!(code >> 4, 0xb | 0xd | 0xf);
        let vals: Vec<u32> = if wide {
            let mut v: Vec<u32> = (0..20).collect();
            v.extend([127, 128, 255, 256, 257, 65535, 65536, 0x00ff_ffff, 0x0100_0000, 0x7fff_fffb, 0x7fff_ffff, 0x8000_0000, 0x8000_0004, 0xffff_fff0, 0xffff_fffb, 0xffff_fffc, 0xffff_fffd, 0xffff_fffe, u32::MAX]);
            v
        } else {
            let mut v: Vec<u32> = (0..24).collect();
            v.extend([126, 127, 128, 129, 250, 251, 252, 253, 254, 255]);
            v
        };
        let contents: [&[u8]; 12] = [
            b"",
            b"\x40",
            b"\x41\x41\x41\x41\x41\x41\x41\x41\x41\x41\x41\x41",
            b"\xa3\x01a\x40\xa3\x01b\x40",
            b"\xa1\x01a\x40\xa1\x01b\x40",
            b"\xa3\x01a\x01b\x01c\x01d",
            b"\xb3\xff\xff\xff\xffabc",
            b"\x43\x44\x45\x40",
            b"\x00\x00\x00\x00\x00\x00\x00\x00\x00",
            b"\xc0\xff\xff\x40",
            b"\xd1\xff\xff\xff\xff\xff\xff\xff\xff\x40",
            b"\x53\x01\x02\x03\x04\x05\x06\x07\x08\x09",
        ];
        block(c, |t| {
            for size in &vals {
                for count in &vals {
                    for x in contents {
                        let mut b = pre.clone();
                        if wide {
                            b.extend_from_slice(&size.to_be_bytes());
                            b.extend_from_slice(&count.to_be_bytes());
                        } else {
                            b.push(*size as u8);
                            b.push(*count as u8);
                        }
                        b.extend_from_slice(x);
                        if !excused(d, &b) {
                            t.add(&call(d, &b)?);
                        }
                    }
                }
            }
            Ok(())
        })
    }));
    // every number in which one run of bits is set or clear, wherever a value can stand
    us.push(unit("numbers of every type, wherever a value can stand", 0, |c| {
        let d = &decs()[c.choose(decs().len())];
        const CODES: [(u8, usize); 19] = [
            (0x80, 8), (0x53, 1), (0x70, 4), (0x52, 1), (0x60, 2), (0x50, 1), (0x81, 8), (0x55, 1), (0x71, 4), (0x54, 1), (0x61, 2), (0x51, 1), (0x72, 4),
            (0x82, 8), (0x73, 4), (0x83, 8), (0x98, 16), (0x84, 8), (0x56, 1),
        ];
        let (code, n) = *c.pick(&CODES);
        c.say(|| format!("{} given numbers written as {:02x}", d.name, code));
        static N: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
        let nums = N.get_or_init(|| {
            let mut v: Vec<u64> = vec![0, !0];
            for k in 0..64 {
                for x in [1u64 << k, (1 << k) - 1, (1 << k) + 1] {
                    v.extend([x, !x, x.wrapping_neg()]);
                }
            }
            for hi in [1u64, 2, 0xffff, 0x468c, 0x8000_0000, 0xffff_ffff] {
                for lo in [0u64, 1, 5, 0x24, 0x70, 0x80, 0xffff, 0xffff_ffff] {
                    v.push(hi << 32 | lo);
                }
            }
            v.extend(0..256);
            for x in dict().nums.iter() {
                v.extend([*x, x.wrapping_add(1), x.wrapping_sub(1)]);
            }
            v.sort_unstable();
            v.dedup();
            v
        });
        let shut = |code: u8, count: usize, body: &[u8]| {
            let mut b = vec![];
            rv::put_compound(code, count, body, &mut b);
            b
        };
        block(c, |t| {
            let mut last: Vec<u8> = vec![];
            for x in nums {
                let mut p = x.to_be_bytes().to_vec();
                if n == 16 {
                    p.extend_from_slice(&x.rotate_left(13).to_be_bytes());
                } else {
                    p.drain(..8 - n);
                }
                if p == last {
                    continue;
                }
                last = p.clone();
                let v = [&[code][..], &p].concat();
                t.add(&call(d, &v)?);
                // described, and as the descriptor
                t.add(&call(d, &[&[0, 0x53, 5][..], &v].concat())?);
                t.add(&call(d, &[&[0][..], &v, &[0x40]].concat())?);
                t.add(&call(d, &[&[0][..], &v, &[0xc0, 1, 0]].concat())?);
                t.add(&call(d, &[&[0][..], &v, &[0xa1, 1, b'a']].concat())?);
                t.add(&call(d, &[&[0][..], &v, &[0xc1, 1, 0]].concat())?);
                // an element, a key, a value, an element of an array
                t.add(&call(d, &shut(0xc0, 1, &v))?);
                t.add(&call(d, &shut(0xd0, 2, &[&[0x40][..], &v].concat()))?);
                t.add(&call(d, &shut(0xc1, 2, &[&v[..], &[0x40]].concat()))?);
                t.add(&call(d, &shut(0xd1, 2, &[&[0xa3, 1, b'a'][..], &v].concat()))?);
                t.add(&call(d, &shut(0xe0, 2, &[&v[..], &p].concat()))?);
                t.add(&call(d, &shut(0xf0, 1, &v))?);
            }
            Ok(())
        })
    }));
    // longer strings: extended only while the library asks for more
    // texts of every length, with characters across every position, wherever a value can stand
    us.push(unit("texts of every length", 0, |c| {
        let d = &decs()[c.choose(decs().len())];
        let heads = heads(d);
        let pre = c.pick(&heads).clone();
        let code = *c.pick(&[0xa0u8, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3]);
        let wide = code >= 0xb0;
        c.say(|| format!("{} given text written as {:02x} behind {}", d.name, code, hex(&pre)));
        block(c, |t| {
            for n in crate::items::mb_lens() {
                for style in 0..4 {
                    let text = crate::items::text(*n, style);
                    for lead in [&b""[..], b"x", b"\xc3\xa9", b"\xff"] {
                        if style == 0 && lead.len() == 1 && lead[0] == b'x' {
                            continue;
                        }
                        let len = lead.len() + text.len();
                        if !wide && len > 255 {
                            continue;
                        }
                        let mut w = pre.clone();
                        // a field of a composite
                        if pre.len() > 2 && pre[pre.len() - 2] == 0x53 {
                            w.push(0xd0);
                            w.extend_from_slice(&((4 + 1 + if wide { 4 } else { 1 } + len) as u32).to_be_bytes());
                            w.extend_from_slice(&1u32.to_be_bytes());
                        }
                        w.push(code);
                        if wide {
                            w.extend_from_slice(&(len as u32).to_be_bytes());
                        } else {
                            w.push(len as u8);
                        }
                        w.extend_from_slice(lead);
                        w.extend_from_slice(text.as_bytes());
                        t.add(&call(d, &w)?);
                    }
                }
            }
            Ok(())
        })
    }));
    us.push(unit("byte strings extended while more is asked for", 0, move |c| {
        let d = &decs()[c.choose(decs().len())];
        let hs = heads(d);
        let mut b = c.pick(&hs).clone();
        let toks = tokens();
        let k = c.choose(toks.len());
        b.extend_from_slice(toks[k]);
        c.say(|| format!("{} from {}", d.name, hex(&b)));
        block(c, |t| extend(d, &mut b, &toks, if deep { 5 } else { 3 }, t))
    }));
    us.push(unit("nesting up to a depth of 512", 0, |c| {
        let kind = c.choose(NEST.len());
        let depth = [1usize, 2, 3, 10, 60, 127, 128, 129, 255, 256, 512][c.choose(11)];
        let b = nested(kind, depth);
        c.state(&b);
        c.say(|| format!("{} nested {} deep", NEST[kind], depth));
        for d in ["variant", "section", "in message", "amqp frame"] {
            let w = host(d, &b);
            let d = dec(d);
            let w2 = w.clone();
            block(c, move |t| {
                let g = call(d, &w2)?;
                t.add(&g);
                Ok(())
            })?;
        }
        Ok(())
    }));
    us.push(unit("stream codec: all sizes, all short contents", 0, move |c| {
        let sasl = c.flip();
        let s0 = *c.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
        let low: Vec<u32> = (0..40u32).chain([255, 256, 257, 511, 512, 4095, 4096, 65535, 65536, 0x00ff_ffff]).collect();
        let size = (u32::from(s0) << 24) | *c.pick(&low);
        let doff = *c.pick(&[0u8, 1, 2, 3, 4, 63, 64, 128, 255]);
        let ty = *c.pick(&[0u8, 1, 2, 255]);
        let bodies: [&[u8]; 9] = [
            b"",
            b"\x00",
            b"\x00\x53\x18\x45",
            b"\x00\x53\x44\xc0\x03\x01\x50\x00",
            b"\x00\x53\x14\xc0\x02\x01\x43payload",
            b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff",
            b"\x00\x00\x00\x08\x02\x00\x00\x00\x00\x00\x00\x08\x02\x00\x00\x00",
            b"\x00\x53\x10\xd0\xff\xff\xff\xff\xff\xff\xff\xff\x40",
            b"\x00\x53\x11\xc0\xff\xff\x40\x40\x40",
        ];
        let body = *c.pick(&bodies);
        let mut b = size.to_be_bytes().to_vec();
        b.extend_from_slice(&[doff, ty, 0, 0]);
        b.extend_from_slice(body);
        c.state(&(sasl, &b));
        c.say(|| format!("stream {}", hex(&b)));
        LAST.with(|l| *l.borrow_mut() = b.clone());
        let mut n = 0;
        for cut in 0..=b.len() {
            n += if sasl { drain(AmqpCodec::<SaslFrame>::new(), &b, cut)? } else { drain(AmqpCodec::<AmqpFrame>::new(), &b, cut)? };
        }
        c.traces(n);
        Ok(())
    }));
    us.push(unit("stream codec: damaged frames in a row", 0, |c| {
        let fs: Vec<&(&Dec, Vec<u8>)> = seeds().iter().filter(|s| s.0.name == "amqp frame" && s.1.len() < 40).collect();
        let (_, f) = fs[c.choose(fs.len())];
        let mut one = ((f.len() + 4) as u32).to_be_bytes().to_vec();
        one.extend_from_slice(f);
        let i = c.choose(one.len());
        let x = *c.pick(&HOSTILE);
        let mut b = one.clone();
        b[i] = x;
        b.extend_from_slice(&one);
        b.extend_from_slice(&[0, 0, 0, 8, 2, 0, 0, 0]);
        c.state(&b);
        c.say(|| format!("stream {}", hex(&b)));
        let mut n = 0;
        for cut in [0, 4, 8, 9, one.len(), one.len() + 3, b.len()] {
            n += drain(AmqpCodec::<AmqpFrame>::new(), &b, cut.min(b.len()))?;
        }
        c.traces(n);
        Ok(())
    }));
    us.push(unit("protocol header codec: eight bytes and fewer", 0, |c| {
        let good = b"AMQP\x00\x01\x00\x00";
        let n = c.choose(10);
        let i = c.choose(8);
        let j = c.choose(8);
        let mut cnt = 0;
        for x in 0..=255u8 {
            for y in HOSTILE {
                let mut b = good.to_vec();
                b[i] = x;
                b[j] = y;
                b.extend_from_slice(b"zz");
                b.truncate(n);
                let mut m = bm(&b, 4);
                let mut k = ProtocolIdCodec;
                let (r, peak) = measure(|| k.decode(&mut m));
                cnt += 1;
                ensure!(peak <= 4096, "protocol header {} makes it allocate {} bytes", hex(&b), peak);
                match r {
                    Ok(Some(_)) => ensure!(m.len() < b.len(), "protocol header {} consumes nothing", hex(&b)),
                    Ok(None) => ensure!(b.len() < 8 && m.len() == b.len(), "protocol header {}: waits with {} bytes", hex(&b), m.len()),
                    Err(_) => {}
                }
            }
        }
        c.traces(cnt);
        c.states(cnt);
        Ok(())
    }));
    us
}

/// Feed `b` in two pieces and poll to the end.
fn drain<T: Decoder>(mut k: T, b: &[u8], cut: usize) -> Result<u64, String> {
    let mut m = BytesMut::new();
    let mut n = 0;
    let mut fed = 0;
    for piece in [&b[..cut], &b[cut..]] {
        m.extend_from_slice(piece);
        fed += piece.len();
        let mut idle = 0;
        loop {
            n += 1;
            ensure!(n <= 2 * b.len() as u64 + 8, "the stream codec makes no end of {}", hex(b));
            let before = m.len();
            let (r, peak) = measure(|| k.decode(&mut m));
            ensure!(
                peak <= (256 << 10) + 8192 * fed,
                "the stream codec allocates {} bytes after {} bytes of {}",
                peak,
                fed,
                hex(b)
            );
            match r {
                Ok(Some(_)) => {
                    idle = if m.len() < before { 0 } else { idle + 1 };
                    ensure!(idle < 2, "the stream codec delivers frames without consuming any of {}", hex(b));
                }
                Ok(None) => break,
                // the stream is over once an error consumed nothing
                Err(_) => {
                    if m.len() >= before {
                        return Ok(n);
                    }
                }
            }
        }
    }
    Ok(n)
}

/// What a decoder's input has to begin with to get anywhere.
fn heads(d: &Dec) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let code = |n: &str| vec![0, 0x53, spec::comp(n).code as u8];
    match d.want {
        Want::Comp(n) => v.push(code(n)),
        Want::Members(ms) => v.extend(ms.iter().map(|n| code(n))),
        Want::Section => v.extend((112..=120u8).map(|x| vec![0, 0x53, x])),
        Want::Other => match d.name {
            "amqp frame" => v.extend(spec::FRAMES.iter().map(|n| {
                let mut b = vec![2, 0, 0, 0];
                b.extend(code(n));
                b
            })),
            "sasl frame" => v.extend(spec::SASL.iter().map(|n| {
                let mut b = vec![2, 1, 0, 0];
                b.extend(code(n));
                b
            })),
            "in message" | "out message" => v.extend((112..=120u8).map(|x| vec![0, 0x53, x])),
            _ => {}
        },
        Want::Ty(crate::spec::Ty::Any) => {
            v.push(vec![0, 0x53, 1]);
            v.push(vec![0xc0, 40, 3]);
            v.push(vec![0xc1, 40, 4]);
        }
        Want::Ty(crate::spec::Ty::List) => v.push(vec![0xc0, 40, 3]),
        Want::Ty(crate::spec::Ty::Fields) => v.push(vec![0xc1, 40, 4, 0xa3, 1, 97]),
        _ => {}
    }
    v
}

fn tokens() -> Vec<&'static [u8]> {
    vec![
        b"\x00",
        b"\x01",
        b"\x02",
        b"\x05",
        b"\x09",
        b"\x40",
        b"\x41",
        b"\x43",
        b"\x45",
        b"\x52",
        b"\x53",
        b"\x70",
        b"\x7f",
        b"\x80",
        b"\x83\x7f",
        b"\x98",
        b"\xa0",
        b"\xa1\x01a",
        b"\xa3\x01a",
        b"\xb0\x00\x00\x00",
        b"\xb1\xff\xff\xff",
        b"\xc0",
        b"\xc0\x08\x02",
        b"\xc1",
        b"\xc1\x08\x02",
        b"\xd0\x00\x00\x00",
        b"\xd1\x00\x00\x00",
        b"\xd1\xff\xff\xff",
        b"\xe0",
        b"\xf0\x00\x00\x00",
        b"\xff",
        b"\x00\x00\x00\x00",
    ]
}

fn extend(d: &Dec, b: &mut Vec<u8>, toks: &[&[u8]], left: usize, t: &mut Tally) -> R {
    if excused(d, b) {
        return Ok(());
    }
    let g = call(d, b)?;
    t.add(&g);
    if left == 0 || !matches!(g, Got::More) {
        return Ok(());
    }
    for x in toks {
        let l = b.len();
        b.extend_from_slice(x);
        extend(d, b, toks, left - 1, t)?;
        b.truncate(l);
    }
    Ok(())
}

// ------------------------------------------------------------------ nesting and zero-width elements

const NEST: [&str; 5] = ["described values", "lists", "maps as values", "maps as keys", "alternating lists and described values"];

/// a polymorphic value nested `depth` deep
fn nested(kind: usize, depth: usize) -> Vec<u8> {
    // built back to front
    let mut rev: Vec<u8> = vec![0x40];
    let mut len = 1usize;
    let compound = |rev: &mut Vec<u8>, len: &mut usize, code: u8, count: u32, before: &[u8], after: usize| {
        // `after` bytes of null follow the inner value; they were put there already
        let inner = *len + before.len() + after;
        for x in before.iter().rev() {
            rev.push(*x);
        }
        for x in count.to_be_bytes().iter().rev() {
            rev.push(*x);
        }
        for x in ((inner + 4) as u32).to_be_bytes().iter().rev() {
            rev.push(*x);
        }
        rev.push(code);
        *len = inner + 9;
    };
    if kind == 3 {
        // keys: the value of each entry follows the inner map
        let mut b = vec![];
        for k in 0..depth {
            let inner = 1 + (depth - 1 - k) * 10 + 1;
            b.push(0xd1);
            b.extend_from_slice(&((inner + 4) as u32).to_be_bytes());
            b.extend_from_slice(&2u32.to_be_bytes());
        }
        b.push(0x40);
        b.extend(vec![0x40; depth]);
        return b;
    }
    for k in 0..depth {
        match kind {
            0 => {
                rev.extend_from_slice(&[1, 0x53, 0]);
                len += 3;
            }
            1 => compound(&mut rev, &mut len, 0xd0, 1, &[], 0),
            2 => compound(&mut rev, &mut len, 0xd1, 2, &[0x40], 0),
            _ => {
                if k % 2 == 0 {
                    compound(&mut rev, &mut len, 0xd0, 1, &[], 0)
                } else {
                    rev.extend_from_slice(&[1, 0x53, 0]);
                    len += 3;
                }
            }
        }
    }
    rev.reverse();
    rev
}

fn host(d: &str, b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    match d {
        "variant" => v.extend_from_slice(b),
        "amqp frame" => {
            // in the info of the error of a close
            let mut m = vec![];
            let mut e = b"\xa3\x01k".to_vec();
            e.extend_from_slice(b);
            rv::put_compound(0xd1, 2, &e, &mut m);
            let mut l = b"\xa3\x01c\x40".to_vec();
            l.extend_from_slice(&m);
            let mut err = b"\x00\x53\x1d".to_vec();
            rv::put_compound(0xd0, 3, &l, &mut err);
            v.extend_from_slice(&[2, 0, 0, 0, 0, 0x53, 24]);
            rv::put_compound(0xd0, 1, &err, &mut v);
        }
        _ => {
            v.extend_from_slice(b"\x00\x53\x77");
            v.extend_from_slice(b);
        }
    }
    v
}

const DEEP: usize = 100_000;

/// A probe in a process of its own: 0 fine, 7 too much memory; a signal is a crash.
pub fn deep_child(a: &[String]) -> i32 {
    crate::explore::install_hook();
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
    let a: Vec<String> = a.to_vec();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || match a[0].as_str() {
            "nest" => {
                let b = nested(a[1].parse().unwrap(), a[3].parse().unwrap());
                let b = host(&a[2], &b);
                match a[2].as_str() {
                    "variant" => end(Variant::decode(&b).map(|x| x.1)),
                    "in message" => end(InMessage::decode(&b).map(|x| x.1)),
                    _ => end(AmqpFrame::decode(&b).map(|x| x.1)),
                }
                0
            }
            _ => {
                let d = dec(&a[1]);
                let n: u32 = 20_000_000;
                let mut b = vec![0xf0, 0, 0, 0, 5];
                b.extend_from_slice(&n.to_be_bytes());
                b.push(d_code(d));
                let (_, peak) = measure(|| (d.raw)(&b));
                if peak > allowance(b.len()) {
                    7
                } else {
                    0
                }
            }
        })
        .unwrap();
    h.join().unwrap_or(101)
}

fn d_code(d: &Dec) -> u8 {
    match d.name {
        "array of uint" => 0x43,
        "array of ulong" => 0x44,
        _ => 0x41,
    }
}

fn end<T>(r: Result<T, AmqpParseError>) {
    // dropping the value is part of it
    drop(r)
}

/// Run the probes for the recorded defects. A defect the file does not list is a violation.
pub fn findings(_deep: bool) -> (Vec<String>, Option<(String, String)>) {
    let file = std::fs::read_to_string(format!("{}/known_findings.txt", crate::base())).unwrap_or_default();
    let listed = |k: &str| {
        file.lines().find(|l| l.starts_with(&format!("finding: property=C01 key={} ", k))).map(|l| {
            l.splitn(4, ' ').nth(3).unwrap_or("").to_string()
        })
    };
    let exe = std::env::current_exe().expect("exe");
    let mut known = vec![];
    let mut probe = |key: String, args: Vec<String>, what: String| -> Option<(String, String)> {
        let st = std::process::Command::new(&exe)
            .arg("deep")
            .args(&args)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .expect("spawn");
        let fail = match (st.code(), st.signal()) {
            (Some(0), _) => None,
            (Some(7), _) => Some("allocates memory out of proportion".to_string()),
            (Some(101), _) => Some("panics".to_string()),
            (None, Some(s)) => Some(format!("is killed by signal {}", s)),
            (c, _) => panic!("harness: probe {} ended with {:?}", key, c),
        };
        match fail {
            None => None,
            Some(f) => match listed(&key) {
                Some(text) => {
                    known.push(format!("key={} {} ({}: {})", key, text, what, f));
                    None
                }
                None => Some((format!("probe {}", key), format!("{}: the process {}", what, f))),
            },
        }
    };
    let mut bad = None;
    for (k, n) in NEST.iter().enumerate() {
        for h in ["variant", "in message", "amqp frame"] {
            let key = format!("nesting/{}/{}", k, h.replace(' ', "-"));
            let b = probe(
                key,
                vec!["nest".into(), k.to_string(), h.to_string(), DEEP.to_string()],
                format!("{} nested {} deep in {}", n, DEEP, h),
            );
            bad = bad.or(b);
        }
    }
    for d in decs().iter().filter(|d| zero_width(d)) {
        let b = probe(
            format!("count/{}", d.name.replace(' ', "-")),
            vec!["array".into(), d.name.to_string()],
            format!("{}: ten bytes declaring 20000000 elements of no width", d.name),
        );
        bad = bad.or(b);
    }
    (known, bad)
}
