//! Properties of streams: C06, C07, C08, C20.
use super::frames::{build, empty, put_frame, same_frame};
use crate::conv::ToRv;
use crate::explore::{unit, Ctx, Unit, R};
use crate::items::filled;
use crate::rv::{self, RV, RV::*};
use crate::spec;
use crate::util::*;
use amqp_codec::protocol::{self as p, TransferBody};
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, ProtocolIdCodec, ProtocolIdError, SaslFrame};
use bytes::{Bytes, BytesMut};
use futures::{Async, AsyncSink, Sink, Stream};
use std::cell::RefCell;
use std::fmt::Debug;
use std::io::{self, Read, Write};
use std::rc::Rc;
use std::sync::{Arc, OnceLock};
use tokio_codec::{Decoder, Encoder, Framed, FramedParts, FramedRead, FramedWrite};
use tokio_io::{AsyncRead, AsyncWrite};

/// One frame of a stream: its bytes and what the receiver must make of it.
pub struct Piece<T> {
    pub name: String,
    pub bytes: Vec<u8>,
    /// None: the frame must be rejected
    pub ok: Option<Arc<dyn Fn(&T) -> R + Send + Sync>>,
}
impl<T> Clone for Piece<T> {
    fn clone(&self) -> Self {
        Piece { name: self.name.clone(), bytes: self.bytes.clone(), ok: self.ok.clone() }
    }
}
type A = Piece<AmqpFrame>;
type S = Piece<SaslFrame>;

/// A valid AMQP frame written by the model.
fn good(name: &str, chan: u16, ext: &[u8], perf: Option<RV>, payload: &[u8]) -> A {
    let mut body = perf.as_ref().map(rv::compact).unwrap_or_default();
    body.extend_from_slice(payload);
    let pl = payload.to_vec();
    let want = perf.clone();
    Piece {
        name: name.into(),
        bytes: put_frame(0, chan, ext, &body),
        ok: Some(Arc::new(move |f| {
            let a = match &want {
                None => empty(chan),
                Some(r) => {
                    let co = spec::comps().iter().find(|c| matches!(r, Desc(d, _) if **d == Ulong(c.code))).expect("harness");
                    let full = spec::norm_comp(co, r).expect("harness");
                    let b = if pl.is_empty() { None } else { Some(TransferBody::Data(Bytes::from(pl.clone()))) };
                    build(chan, &filled(co, &full), b)
                }
            };
            same_frame(&a, f)
        })),
    }
}
fn bad<T>(name: &str, bytes: Vec<u8>) -> Piece<T> {
    Piece { name: name.into(), bytes, ok: None }
}
fn short(name: &str) -> RV {
    // as few bytes as possible
    let r = spec::minimal(spec::comp(name));
    match r {
        Desc(d, l) => match *l {
            List(mut l) => {
                while l.last() == Some(&Null) {
                    l.pop();
                }
                Desc(d, Box::new(List(l)))
            }
            x => Desc(d, Box::new(x)),
        },
        x => x,
    }
}

/// Payload that looks like the start of further frames.
const TRICKY: &[u8] = b"\x00\x00\x00\x08\x02\x00\x00\x00\x00\x00\x00\x04";

fn amqp_goods() -> &'static Vec<A> {
    static S: OnceLock<Vec<A>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![
            good("empty", 1, &[], None, &[]),
            good("empty, extended header", 0x0203, &[0, 0, 0, 8], None, &[]),
            good("end", 2, &[], Some(short("end")), &[]),
            good("transfer of 1", 0, &[], Some(short("transfer")), &[0x40]),
            good("transfer that looks like frames", 9, &[], Some(short("transfer")), TRICKY),
            good("transfer without payload", 256, &[], Some(short("transfer")), &[]),
        ];
        for n in spec::FRAMES {
            v.push(good(&format!("full {}", n), 7, &[], Some(spec::full(spec::comp(n), 0)), &[]));
        }
        v.push(good("short open", 0, &[], Some(short("open")), &[]));
        v.push(good("close, extended header", 0, &[9; 16], Some(short("close")), &[]));
        v
    })
}

fn large(n: usize) -> A {
    let body: Vec<u8> = (0..n).map(|i| (i * 31 + i / 251) as u8).collect();
    let perf = short("transfer");
    let overhead = 8 + rv::compact(&perf).len();
    // the whole frame has n bytes
    good(&format!("transfer frame of {} bytes", n), 3, &[], Some(perf), &body[..n - overhead])
}

fn sasl_good(name: &str, r: RV) -> S {
    let want = r.clone();
    Piece {
        name: name.into(),
        bytes: put_frame(1, 0, &[], &rv::compact(&r)),
        ok: Some(Arc::new(move |f| {
            ensure!(f.body.rv().same(&want), "{:?} instead of {:?}", f.body, want);
            Ok(())
        })),
    }
}
fn sasl_goods() -> &'static Vec<S> {
    static S: OnceLock<Vec<S>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![
            sasl_good("sasl-response of nothing", RV::desc(67, List(vec![Bin(vec![])]))),
            sasl_good("sasl-challenge", RV::desc(66, List(vec![Bin(TRICKY.to_vec())]))),
        ];
        for n in spec::SASL {
            v.push(sasl_good(n, spec::full(spec::comp(n), 0)));
        }
        v
    })
}

// ------------------------------------------------------------------ the step model

pub struct Bench<'a, T: Decode + Encode> {
    codec: AmqpCodec<T>,
    buf: BytesMut,
    pieces: &'a [Piece<T>],
    ends: Vec<usize>,
    all: Vec<u8>,
    fed: usize,
    next: usize,
    polls: u64,
    /// what was delivered, and for which piece
    kept: Vec<(usize, T)>,
    keep: bool,
}

impl<'a, T: Decode + Encode + Debug> Bench<'a, T> {
    pub fn new(pieces: &'a [Piece<T>], cap: usize) -> Self {
        let mut all = vec![];
        let mut ends = vec![];
        for p in pieces {
            all.extend_from_slice(&p.bytes);
            ends.push(all.len());
        }
        Bench {
            codec: AmqpCodec::new(),
            buf: BytesMut::with_capacity(cap),
            pieces,
            ends,
            all,
            fed: 0,
            next: 0,
            polls: 0,
            kept: vec![],
            keep: pieces.len() <= 4,
        }
    }
    fn feed(&mut self, n: usize) {
        let e = (self.fed + n).min(self.all.len());
        self.buf.extend_from_slice(&self.all[self.fed..e]);
        self.fed = e;
    }
    fn place(&self) -> String {
        let b: Vec<&str> = self.pieces.iter().map(|p| p.name.as_str()).collect();
        format!("stream {:?} ({}), {} bytes received, frame {} due", b, hex(&self.all), self.fed, self.next)
    }
    /// One call of the decoder, compared with the model; true when it delivered something.
    fn poll(&mut self, c: &mut Ctx) -> Result<bool, String> {
        self.polls += 1;
        let complete = self.next < self.ends.len() && self.fed >= self.ends[self.next];
        let got = self.codec.decode(&mut self.buf);
        c.say(|| format!("{} bytes received: decode -> {}", self.fed, crate::explore::clip(&format!("{:?}", got), 300)));
        match got {
            Ok(None) => {
                ensure!(!complete, "{}: it is complete but not delivered", self.place());
                Ok(false)
            }
            Ok(Some(f)) => {
                ensure!(self.next < self.ends.len(), "{}: a frame {:?} that was never sent", self.place(), f);
                ensure!(complete, "{}: a frame before its last byte was received: {:?}", self.place(), f);
                match &self.pieces[self.next].ok {
                    Some(t) => t(&f).map_err(|e| format!("{}: {}", self.place(), e))?,
                    None => return Err(format!("{}: a bad frame is accepted as {:?}", self.place(), f)),
                }
                if self.keep {
                    self.kept.push((self.next, f));
                }
                self.follow()?;
                Ok(true)
            }
            Err(e) => {
                ensure!(self.next < self.ends.len(), "{}: error {:?} after the last frame", self.place(), e);
                ensure!(
                    self.pieces[self.next].ok.is_none(),
                    "{}: a valid frame is answered with {:?}",
                    self.place(),
                    e
                );
                // rejecting a frame early is not excluded, as long as the rest is not disturbed
                if complete {
                    self.follow()?;
                } else {
                    self.next += 1;
                }
                Ok(true)
            }
        }
    }
    fn follow(&mut self) -> R {
        let e = self.ends[self.next];
        ensure!(
            self.buf[..] == self.all[e..self.fed],
            "{}: the buffer holds {} instead of the {} bytes that follow the frame",
            self.place(),
            hex(&self.buf),
            self.fed - e
        );
        self.next += 1;
        Ok(())
    }
    fn drain(&mut self, c: &mut Ctx) -> R {
        for _ in 0..self.pieces.len() + 1 {
            if !self.poll(c)? {
                return Ok(());
            }
        }
        Err(format!("{}: the decoder delivers without end", self.place()))
    }
    fn finish(&mut self, c: &mut Ctx) -> R {
        self.drain(c)?;
        ensure!(self.next == self.pieces.len(), "{}: not everything was delivered", self.place());
        ensure!(self.buf.is_empty(), "{}: {} bytes left in the buffer", self.place(), self.buf.len());
        // a frame that was delivered is not touched by what was received after it
        self.buf.extend_from_slice(&[0xee; 64]);
        self.buf.clear();
        for (i, f) in &self.kept {
            if let Some(t) = &self.pieces[*i].ok {
                t(f).map_err(|e| format!("{}: frame {} changed after it was delivered: {}", self.place(), i, e))?;
            }
        }
        Ok(())
    }
}

/// One of several streams that are received at the same time.
trait Side {
    /// the next chunk arrives and everything that can be delivered is asked for
    fn step(&mut self, c: &mut Ctx) -> R;
    fn left(&self) -> usize;
    fn done(&mut self, c: &mut Ctx) -> R;
    fn show(&self) -> String;
}
struct Cutting<'a, T: Decode + Encode> {
    b: Bench<'a, T>,
    at: Vec<usize>,
    i: usize,
}
impl<'a, T: Decode + Encode + Debug> Side for Cutting<'a, T> {
    fn step(&mut self, c: &mut Ctx) -> R {
        let to = self.at[self.i];
        self.i += 1;
        if to > self.b.fed {
            let n = to - self.b.fed;
            self.b.feed(n);
        }
        self.b.drain(c)
    }
    fn left(&self) -> usize {
        self.at.len() - self.i
    }
    fn done(&mut self, c: &mut Ctx) -> R {
        self.b.finish(c)
    }
    fn show(&self) -> String {
        let n: Vec<&str> = self.b.pieces.iter().map(|p| p.name.as_str()).collect();
        format!("{:?} cut at {:?}", n, self.at)
    }
}
fn side<'a, T: Decode + Encode + Debug>(c: &mut Ctx, s: &'a [Piece<T>], k: usize) -> Cutting<'a, T> {
    let (n, a) = (total(s), s[0].bytes.len());
    let mut pts = if k > 1 { vec![3, 4, 8, a - 1, a, a + 4] } else { vec![4, 9, a - 1, a + 4] };
    pts.retain(|x| *x > 0 && *x < n);
    pts.sort_unstable();
    pts.dedup();
    let mut at = vec![];
    let mut lo = 0;
    for j in 0..k {
        let room = pts.len() - lo - (k - 1 - j).min(pts.len() - lo);
        if room == 0 {
            break;
        }
        let i = lo + c.choose(room);
        at.push(pts[i]);
        lo = i + 1;
    }
    at.push(n);
    Cutting { b: Bench::new(s, 0), at, i: 0 }
}
/// Every order in which the chunks of the streams can arrive.
fn interleave(c: &mut Ctx, sides: &mut [&mut dyn Side]) -> R {
    c.say(|| sides.iter().map(|s| s.show()).collect::<Vec<_>>().join(" | "));
    c.sample(|| sides.iter().map(|s| s.show()).collect::<Vec<_>>().join(" | "));
    loop {
        let open: Vec<usize> = (0..sides.len()).filter(|i| sides[*i].left() > 0).collect();
        if open.is_empty() {
            break;
        }
        let i = *c.pick(&open);
        c.say(|| format!("stream {}", i));
        sides[i].step(c).map_err(|e| format!("stream {} of {}: {}", i, sides.len(), e))?;
        let key: Vec<(String, usize)> = sides.iter().map(|s| (s.show(), s.left())).collect();
        c.state(&key);
    }
    for s in sides.iter_mut() {
        s.done(c)?;
    }
    Ok(())
}
/// Streams of one connection say nothing about those of another.
fn side_by_side(name: &str, a: Vec<Vec<A>>, s: Vec<Vec<S>>) -> Vec<Unit> {
    let a = Arc::new(a);
    let s = Arc::new(s);
    let (a2, s2) = (a.clone(), s.clone());
    let (a3, s3) = (a.clone(), s);
    vec![
        unit(format!("two AMQP streams side by side{}", name), 0, move |c: &mut Ctx| {
            let (i, j) = (c.choose(a.len()), c.choose(a.len()));
            let mut x = side(c, &a[i], 2);
            let mut y = side(c, &a[j], 2);
            interleave(c, &mut [&mut x, &mut y])
        }),
        unit(format!("an AMQP and a SASL stream side by side{}", name), 0, move |c: &mut Ctx| {
            let (i, j) = (c.choose(a2.len()), c.choose(s2.len()));
            let mut x = side(c, &a2[i], 2);
            let mut y = side(c, &s2[j], 2);
            interleave(c, &mut [&mut x, &mut y])
        }),
        unit(format!("three streams side by side{}", name), 0, move |c: &mut Ctx| {
            let n = a3.len().min(3);
            let (i, j, k) = (c.choose(n), c.choose(n), c.choose(s3.len().min(2)));
            let mut x = side(c, &a3[i], 1);
            let mut y = side(c, &a3[j], 1);
            let mut z = side(c, &s3[k], 1);
            interleave(c, &mut [&mut x, &mut y, &mut z])
        }),
    ]
}

/// every way to cut the stream into chunks and to poll after each of them
fn all_partitions<T: Decode + Encode + Debug>(c: &mut Ctx, pieces: &[Piece<T>], cap: usize, once: bool) -> R {
    let mut b = Bench::new(pieces, cap);
    let n = b.all.len();
    let mut chunk = 0;
    for i in 0..n {
        chunk += 1;
        if i + 1 == n || c.flip() {
            b.feed(chunk);
            chunk = 0;
            if once {
                b.poll(c)?;
            } else {
                b.drain(c)?;
            }
            c.state(&(b.fed, b.next, b.buf.len(), n));
        }
    }
    let r = b.finish(c);
    c.traces(b.polls.saturating_sub(1));
    r
}

/// chunk boundaries at the given positions
fn cuts<T: Decode + Encode + Debug>(c: &mut Ctx, pieces: &[Piece<T>], cap: usize, at: &[usize], extra_polls: usize) -> R {
    let mut b = Bench::new(pieces, cap);
    for a in at {
        if *a > b.fed {
            b.feed(*a - b.fed);
        }
        b.drain(c)?;
        for _ in 0..extra_polls {
            b.poll(c)?;
        }
        c.state(&(b.fed, b.next, b.buf.len(), b.all.len(), cap));
    }
    let left = b.all.len() - b.fed;
    b.feed(left);
    let r = b.finish(c);
    c.traces(b.polls.saturating_sub(1));
    r
}

fn total<T>(p: &[Piece<T>]) -> usize {
    p.iter().map(|x| x.bytes.len()).sum()
}

/// all sequences of 1..=k pieces with at most `max` bytes
fn sequences<T>(all: &[Piece<T>], k: usize, max: usize) -> Vec<Vec<Piece<T>>> {
    let mut out: Vec<Vec<Piece<T>>> = vec![];
    let mut cur: Vec<Vec<Piece<T>>> = vec![vec![]];
    for _ in 0..k {
        let mut nx = vec![];
        for s in &cur {
            for p in all {
                if total(s) + p.bytes.len() <= max {
                    let mut t = s.clone();
                    t.push(p.clone());
                    nx.push(t);
                }
            }
        }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}

const CAPS: [usize; 4] = [0, 9, 64, 65_536];

fn ascending(c: &mut Ctx, n: usize, k: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut lo = 1;
    for _ in 0..k {
        if lo >= n {
            break;
        }
        let x = lo + c.choose(n - lo);
        v.push(x);
        lo = x + 1;
    }
    v
}

fn partitions<T: Decode + Encode + Debug + 'static>(name: &str, seqs: Vec<Vec<Piece<T>>>) -> Unit
where
    Piece<T>: Send + Sync,
{
    unit(name, 0, move |c| {
        let s = c.pick(&seqs);
        let once = c.flip();
        let cap = CAPS[c.choose(2) * 2];
        c.say(|| format!("frames {:?}", s.iter().map(|p| &p.name).collect::<Vec<_>>()));
        c.sample(|| format!("all chunkings of {:?}", s.iter().map(|p| &p.name).collect::<Vec<_>>()));
        all_partitions(c, s, cap, once)
    })
}

fn few_cuts<T: Decode + Encode + Debug + 'static>(name: &str, seqs: Vec<Vec<Piece<T>>>, k: usize) -> Unit
where
    Piece<T>: Send + Sync,
{
    unit(name, 0, move |c| {
        let s = c.pick(&seqs);
        let cap = if k <= 1 { *c.pick(&CAPS) } else { 64 };
        let at = ascending(c, total(s), k);
        let extra = if k <= 1 { c.choose(3) } else { 0 };
        c.say(|| format!("frames {:?} cut at {:?}", s.iter().map(|p| &p.name).collect::<Vec<_>>(), at));
        c.sample(|| format!("frames {:?} cut at {:?}", s.iter().map(|p| &p.name).collect::<Vec<_>>(), at));
        cuts(c, s, cap, &at, extra)
    })
}

// ------------------------------------------------------------------ C06

pub fn chunking(deep: bool) -> Vec<Unit> {
    let g = amqp_goods();
    let s = sasl_goods();
    let small = if deep { 24 } else { 18 };
    let mut us = vec![
        partitions("every chunking of short AMQP streams", sequences(&g[..6], 3, small)),
        partitions("every chunking of short SASL streams", sequences(&s[..2], 2, small + 8).into_iter().filter(|x| total(x) <= small + 4).collect()),
        few_cuts("streams of three frames, one cut", sequences(g, 3, 100_000), 1),
        few_cuts("streams of two frames, two cuts", sequences(g, 2, if deep { 500 } else { 220 }), 2),
        few_cuts("single frames, three cuts", sequences(g, 1, 220), if deep { 4 } else { 3 }),
        few_cuts("SASL streams of three frames, one cut", sequences(s, 3, 100_000), 1),
        few_cuts("SASL streams of two frames, two cuts", sequences(s, 2, 200), 2),
    ];
    if deep {
        us.push(few_cuts("streams of two small frames, four cuts", sequences(&g[..6], 2, 48), 4));
        us.push(few_cuts("streams of three small frames, three cuts", sequences(&g[..6], 3, 80), 3));
    }
    // around the sizes at which the receive buffer is extended
    us.push(unit("large frames", 0, move |c| {
        let sizes = [40usize, 4080, 4088, 4095, 4096, 4097, 4104, 8192, 32_760, 32_768, 32_769, 40_000, 65_536, 70_000];
        let n = *c.pick(&sizes);
        let m = *c.pick(&[0usize, 40, 4096, 33_000]);
        let lead = c.flip();
        let mut s = vec![];
        if lead {
            s.push(amqp_goods()[2].clone());
        }
        s.push(large(n));
        if m > 0 {
            s.push(large(m));
        }
        s.push(amqp_goods()[0].clone());
        let start = if lead { s[0].bytes.len() } else { 0 };
        let end = start + n;
        let mut pts: Vec<usize> = (1..=9).map(|d| start + d).collect();
        pts.extend([start + n / 2, end - 1, end, end + 1, end + 3, end + 4, end + 7, end + 8]);
        if deep {
            pts.extend([start, start + 20, start + 4096, start + 4100, start + 32_768, start + 32_772, end - 8, end - 7, end - 4, end + 9]);
        }
        let t = total(&s);
        pts.retain(|x| *x > 0 && *x < t);
        pts.sort_unstable();
        pts.dedup();
        let mut at = vec![];
        let mut lo = 0;
        for _ in 0..if deep { 3 } else { 2 } {
            if lo < pts.len() {
                let k = lo + c.choose(pts.len() - lo);
                at.push(pts[k]);
                lo = k + 1;
            }
        }
        let cap = *c.pick(&[0usize, 8, 4096, 8192, 65_536, 200_000]);
        c.say(|| format!("{:?} cut at {:?}, capacity {}", s.iter().map(|p| &p.name).collect::<Vec<_>>(), at, cap));
        c.sample(|| format!("{:?} cut at {:?}, capacity {}", s.iter().map(|p| &p.name).collect::<Vec<_>>(), at, cap));
        cuts(c, &s, cap, &at, 0)
    }));
    // one frame of every size, all the bytes there are or something behind it
    let sizes: Vec<usize> = {
        let mut v: Vec<usize> = (16..if deep { 70_000 } else { 9_100 }).collect();
        for k in 13..if deep { 21 } else { 18 } {
            v.extend((1usize << k) - 24..=(1 << k) + 24);
            v.extend((3usize << (k - 1)) - 9..=(3 << (k - 1)) + 9);
        }
        for n in crate::items::named_sizes(16, 200_000) {
            v.extend(n.saturating_sub(9).max(16)..=n + 9);
        }
        v.sort_unstable();
        v.dedup();
        v
    };
    us.push(unit(format!("a frame of every size up to {}", if deep { 70_000 } else { 9_100 }), 0, move |c| {
        let n = *c.pick(&sizes);
        let lead = c.flip();
        let mut s = vec![];
        if lead {
            s.push(amqp_goods()[2].clone());
        }
        s.push(large(n));
        let from = if lead { s[0].bytes.len() } else { 0 };
        // nothing behind it; another frame, which arrives later; which arrives with it
        let (more, at): (bool, Vec<usize>) = match c.choose(6) {
            0 => (false, vec![]),
            1 => (false, vec![from + 4]),
            2 => (false, vec![from + n - 1]),
            3 => (true, vec![from + n]),
            4 => (true, vec![from + 4, from + n + 1]),
            _ => (true, vec![from + 9, from + n + 4]),
        };
        if more {
            s.push(amqp_goods()[0].clone());
        }
        let cap = [0usize, 65_536][c.choose(2)];
        c.say(|| format!("{} cut at {:?}, capacity {}", s[lead as usize].name, at, cap));
        c.sample(|| format!("{} cut at {:?}, capacity {}", s[lead as usize].name, at, cap));
        cuts(c, &s, cap, &at, 0)
    }));
    // every bit of the size field
    us.push(unit("frame sizes around each power of two and each number the sources name", 0, move |c| {
        let sizes = crate::items::named_sizes(16, 200_000);
        let pows = if deep { 24 } else { 22 };
        let k = 4 + c.choose(pows + sizes.len());
        let (k, n) = if k < 4 + pows { (k, (1usize << k) - 1 + c.choose(3)) } else { (0, sizes[k - 4 - pows]) };
        let mut s = vec![];
        let n = n.max(16);
        s.push(large(n));
        s.push(amqp_goods()[0].clone());
        let pts = [4usize, 8, 12, n / 2, n - 1, n, n + 4];
        let i = c.choose(pts.len());
        let mut at = vec![pts[i]];
        if k < 20 && i + 1 < pts.len() && c.flip() {
            at.push(pts[i + 1]);
        }
        let cap = [0usize, 65_536][c.choose(2)];
        c.say(|| format!("{} cut at {:?}, capacity {}", s[0].name, at, cap));
        c.sample(|| format!("{} cut at {:?}, capacity {}", s[0].name, at, cap));
        cuts(c, &s, cap, &at, 0)
    }));
    // a frame that is announced and has not arrived is waited for, whatever its size
    us.push(unit("announced sizes", 0, |c| {
        let named: Vec<u32> = crate::util::dict().nums.iter().flat_map(|n| [*n as u32, *n as u32 ^ 1]).collect();
        let n = match c.choose(if named.is_empty() { 3 } else { 4 }) {
            3 => *c.pick(&named),
            0 => 9 + c.choose(3000) as u32,
            1 => (1u32 << (4 + c.choose(28))).wrapping_add(c.choose(3) as u32).wrapping_sub(1),
            _ => u32::MAX - c.choose(64) as u32,
        };
        let n = n.max(9);
        let sasl = c.flip();
        let mut h = n.to_be_bytes().to_vec();
        h.extend_from_slice(&[2, u8::from(sasl), 0, 0]);
        let mut b = BytesMut::with_capacity([0usize, 64][c.choose(2)]);
        c.say(|| format!("a frame of {} bytes is announced (sasl: {})", n, sasl));
        c.state(&(n, sasl));
        let mut a = AmqpCodec::<AmqpFrame>::new();
        let mut s = AmqpCodec::<SaslFrame>::new();
        let every = c.flip();
        for (i, x) in h.iter().enumerate() {
            b.extend_from_slice(&[*x]);
            if every || i == 7 {
                let (some, err) = if sasl {
                    let r = s.decode(&mut b);
                    (matches!(r, Ok(Some(_))), r.err().map(|e| format!("{:?}", e)))
                } else {
                    let r = a.decode(&mut b);
                    (matches!(r, Ok(Some(_))), r.err().map(|e| format!("{:?}", e)))
                };
                ensure!(!some, "a frame of {} bytes is delivered after {}", n, i + 1);
                if let Some(e) = err {
                    return Err(format!("a frame of {} bytes is answered with {} after {} bytes", n, e, i + 1));
                }
            }
        }
        Ok(())
    }));
    us.push(unit("long streams in equal chunks", 0, move |c| {
        let k = c.choose(if deep { 400 } else { 120 }) + 1;
        let cap = *c.pick(&CAPS);
        let once = c.flip();
        let order = c.choose(3);
        let g = amqp_goods();
        let s: Vec<A> = (0..60)
            .map(|i| match order {
                0 => g[i % g.len()].clone(),
                1 => g[(i * i + 3) % 6].clone(),
                _ => if i % 9 == 4 { large(5000 + i) } else { g[(i * 7) % g.len()].clone() },
            })
            .collect();
        c.say(|| format!("60 frames in chunks of {}", k));
        let mut b = Bench::new(&s, cap);
        while b.fed < b.all.len() {
            b.feed(k);
            if once {
                b.poll(c)?;
            } else {
                b.drain(c)?;
            }
        }
        c.state(&(k, cap, once, order));
        let r = b.finish(c);
        c.traces(b.polls);
        r
    }));
    us.extend(long_lived(deep));
    let (a0, a2, a3) = (g[0].clone(), g[2].clone(), g[3].clone());
    let mut pairs = vec![vec![a2, a0.clone()], vec![large(5000), a3.clone()], vec![a3, large(40_000)], vec![g[4].clone(), g[0].clone()]];
    if deep {
        pairs.extend([vec![large(4097), large(5000)], vec![g[6].clone(), g[1].clone()], vec![large(33_000), a0]]);
    }
    us.extend(side_by_side("", pairs, vec![vec![s[0].clone(), s[1].clone()], vec![s[3].clone(), s[0].clone()]]));
    us
}

/// how often something is repeated on one connection
fn many(deep: bool, top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=40).collect();
    for k in 6..=(if deep { 20 } else { 17 }) {
        v.extend([(1usize << k) - 1, (1 << k), (1 << k) + 1]);
    }
    v.extend(crate::items::named_sizes(40, 1 << 20));
    v.retain(|x| *x <= top);
    v.sort_unstable();
    v.dedup();
    v
}

/// The stream in chunks of `k`; everything received is asked for after each.
fn in_chunks<T: Decode + Encode + Debug>(c: &mut Ctx, s: &[Piece<T>], cap: usize, k: usize) -> R {
    let mut b = Bench::new(s, cap);
    while b.fed < b.all.len() {
        b.feed(k);
        while b.poll(c)? {}
        c.states(1);
    }
    let r = b.finish(c);
    c.traces(b.polls);
    r
}

/// a connection that has carried any number of frames treats the next one as the first
fn long_lived(deep: bool) -> Vec<Unit> {
    let top = if deep { 1 << 20 } else { 70_000 };
    vec![
        unit("connections that carry many frames", 0, move |c| {
            let n = if deep { 1_100_000 } else { 70_000 };
            let style = c.choose(4);
            let k = *c.pick(&[1usize, 8, 13, 1000]);
            let g = amqp_goods();
            let s: Vec<A> = (0..n)
                .map(|i| match style {
                    0 => g[0].clone(),
                    1 => g[2 * (i % 2)].clone(),
                    2 => g[[0usize, 1, 2, 3, 5][i % 5]].clone(),
                    _ => g[[3usize, 5, 3, 0][i % 4]].clone(),
                })
                .collect();
            c.say(|| format!("{} frames, style {}, chunks of {}", n, style, k));
            c.sample(|| format!("{} frames, style {}, chunks of {}", n, style, k));
            in_chunks(c, &s, 64, k)
        }),
        unit("SASL connections that carry many frames", 0, move |c| {
            let k = *c.pick(&[1usize, 13, 1000]);
            let g = sasl_goods();
            let s: Vec<S> = (0..top).map(|i| g[i % 2].clone()).collect();
            c.say(|| format!("{} frames, chunks of {}", s.len(), k));
            in_chunks(c, &s, 64, k)
        }),
        // growing and shrinking frames
        unit("frames of every size one after another", 0, move |c| {
            let down = c.flip();
            let step = *c.pick(&[1usize, 7]);
            let k = *c.pick(&[8usize, 100, 4096]);
            let top = if deep { 9000 } else { 1500 };
            let mut s: Vec<A> = (20..top).step_by(step).map(large).collect();
            if down {
                s.reverse();
            }
            c.say(|| format!("{} frames, chunks of {}", s.len(), k));
            in_chunks(c, &s, 0, k)
        }),
    ]
}

// ------------------------------------------------------------------ C07

/// any number of rejected frames in a row
fn runs(deep: bool) -> Vec<Unit> {
    fn one<T: Decode + Encode + Debug>(c: &mut Ctx, good: &[Piece<T>], bads: &[Piece<T>], runs: &[usize]) -> R {
        let i = c.choose(bads.len());
        let n = *c.pick(runs);
        // the same rejected frame over and over, or all kinds in turn
        let turn = c.flip();
        // long runs with the first kinds only
        if n > 300 && i > 2 {
            return Ok(());
        }
        let chunk = if n > 300 { 1000 } else { *c.pick(&[9usize, 1_000_000]) };
        let mut s = vec![good[0].clone()];
        s.extend((0..n).map(|j| bads[if turn { (i + j) % bads.len() } else { i }].clone()));
        s.extend([good[1 % good.len()].clone(), bads[i].clone(), good[0].clone()]);
        c.say(|| format!("{} rejected frames in a row ({}), chunks of {}", n, bads[i].name, chunk));
        c.sample(|| format!("{} rejected frames in a row ({}), chunks of {}", n, bads[i].name, chunk));
        c.state(&(i, n, turn, chunk));
        in_chunks(c, &s, 0, chunk)
    }
    let rs = many(deep, if deep { 300_000 } else { 70_000 });
    let rs2 = rs.clone();
    let mut sizes: Vec<usize> = (9..=if deep { 70_000 } else { 5_200 }).collect();
    for k in 12..=if deep { 22 } else { 18 } {
        sizes.extend((1usize << k) - 9..=(1 << k) + 9);
        sizes.extend((3usize << (k - 1)) - 4..=(3 << (k - 1)) + 4);
    }
    for n in crate::items::named_sizes(16, 200_000) {
        sizes.extend(n.saturating_sub(9).max(16)..=n + 9);
    }
    sizes.sort_unstable();
    sizes.dedup();
    vec![
        unit("a rejected frame of every size", 0, move |c| {
            let n = *c.pick(&sizes);
            let style = c.choose(7);
            let b = match spoiled(n, style) {
                Some(b) => b,
                None => return Ok(()),
            };
            let g = amqp_goods();
            let lead = c.choose(2);
            let (mut s, from) = if lead == 1 { (vec![g[2].clone()], g[2].bytes.len()) } else { (vec![], 0) };
            s.push(b);
            s.push(g[0].clone());
            // another rejected one, or a long one, right behind
            match c.choose(3) {
                0 => s.push(g[3].clone()),
                1 => s.extend([amqp_bads()[0].clone(), g[0].clone()]),
                _ => s.extend([large(4200), g[0].clone()]),
            }
            let at: Vec<usize> = match c.choose(6) {
                0 => vec![],
                1 => vec![from + 4],
                2 => vec![from + n - 1],
                3 => vec![from + n],
                4 => vec![from + 8, from + n + 5],
                _ => vec![from + n + 8],
            };
            let cap = [0usize, 65_536][c.choose(2)];
            c.say(|| format!("{} cut at {:?}, capacity {}", s[lead].name, at, cap));
            c.sample(|| format!("{} cut at {:?}, capacity {}", s[lead].name, at, cap));
            cuts(c, &s, cap, &at, 0)
        }),
        unit("any number of rejected AMQP frames in a row", 0, move |c| one(c, &amqp_goods()[..4], amqp_bads(), &rs)),
        unit("any number of rejected SASL frames in a row", 0, move |c| one(c, &sasl_goods()[..2], sasl_bads(), &rs2)),
        // good and bad frames in a regular pattern
        unit("rejected frames among many", 0, move |c| {
            let (g, b) = (amqp_goods(), amqp_bads());
            let every = 2 + c.choose(12);
            let i = c.choose(b.len());
            let n = if i == 0 { 70_000 } else { 2_000 };
            let s: Vec<A> = (0..n).map(|j| if j % every == every - 1 { b[(i + (j / every) % 3) % b.len()].clone() } else { g[[0usize, 2, 3][j % 3]].clone() }).collect();
            c.say(|| format!("every {}th of {} frames is rejected, from {}", every, n, b[i].name));
            in_chunks(c, &s, 0, 500)
        }),
    ]
}

/// a frame of n bytes that is no good
fn spoiled(n: usize, style: usize) -> Option<A> {
    let end = rv::compact(&short("end"));
    let body = n.checked_sub(8)?;
    let f = |b: Vec<u8>| Some(put_frame(0, 3, &[], &b));
    let w = match style {
        // nothing that could be a performative
        0 => f(vec![0xff; body]),
        1 => f(vec![0; body]),
        // more bytes than the performative
        2 if body > end.len() => f([&end[..], &vec![0x40; body - end.len()]].concat()),
        // the wrong kind of frame
        3 => Some(put_frame(7, 3, &[], &vec![0x45; body])),
        // a mandatory field missing, and a long rest
        4 if body > 300 => f([&[0u8, 0x53, 0x10, 0xd0][..], &((body - 8) as u32).to_be_bytes(), &1u32.to_be_bytes(), &[0x40], &vec![0x40; body - 13]].concat()),
        // a list that says it is longer than the frame
        5 if body > 300 => f([&[0u8, 0x53, 0x10, 0xd0][..], &(body as u32).to_be_bytes(), &1u32.to_be_bytes(), &[0xb1], &((body - 17) as u32).to_be_bytes(), &vec![b'a'; body - 17]].concat()),
        // text that is not text, at its end
        6 if body > 300 => f([&[0u8, 0x53, 0x10, 0xd0][..], &((body - 8) as u32).to_be_bytes(), &1u32.to_be_bytes(), &[0xb1], &((body - 17) as u32).to_be_bytes(), &vec![b'a'; body - 18], &[0xff]].concat()),
        _ => None,
    }?;
    Some(bad(&format!("a rejected frame of {} bytes ({})", n, style), w))
}

fn amqp_bads() -> &'static Vec<A> {
    static S: OnceLock<Vec<A>> = OnceLock::new();
    S.get_or_init(|| {
        let end = rv::compact(&short("end"));
        let open = rv::compact(&spec::full(spec::comp("open"), 0));
        let mut v: Vec<A> = vec![];
        // the frame header
        v.push(bad("type 1", put_frame(1, 0, &[], &end)));
        v.push(bad("type 2, no body", put_frame(2, 0, &[], &[])));
        v.push(bad("type 255", put_frame(255, 0, &[], &end)));
        let patch = |mut b: Vec<u8>, i: usize, x: u8| {
            b[i] = x;
            b
        };
        v.push(bad("data offset 0", patch(put_frame(0, 0, &[], &[]), 4, 0)));
        v.push(bad("data offset 1", patch(put_frame(0, 0, &[], &end), 4, 1)));
        v.push(bad("data offset beyond an empty frame", patch(put_frame(0, 0, &[], &[]), 4, 3)));
        v.push(bad("data offset beyond the frame", patch(put_frame(0, 0, &[], &end), 4, 4)));
        v.push(bad("data offset 255", patch(put_frame(0, 0, &[], &end), 4, 255)));
        // the body
        let f = |b: &[u8]| put_frame(0, 5, &[], b);
        v.push(bad("null body", f(&[0x40])));
        v.push(bad("one stray byte", f(&[0x00])));
        v.push(bad("unknown performative", f(&[0, 0x53, 0x19, 0x45])));
        v.push(bad("SASL performative", f(&[0, 0x53, 0x41, 0x45])));
        v.push(bad("unknown symbolic performative", f(b"\x00\xa3\x03foo\x45")));
        v.push(bad("descriptor of a wrong type", f(&[0, 0x71, 0, 0, 0, 0x17, 0x45])));
        v.push(bad("body is not a list", f(&[0, 0x53, 0x17, 0xc1, 1, 0])));
        v.push(bad("unknown type code", f(&[0, 0x53, 0x17, 0x3f])));
        v.push(bad("mandatory field missing", f(&[0, 0x53, 0x10, 0x45])));
        v.push(bad("mandatory field null", f(&[0, 0x53, 0x10, 0xc0, 2, 1, 0x40])));
        v.push(bad("field of a wrong type", f(&[0, 0x53, 0x10, 0xc0, 3, 1, 0x50, 1])));
        v.push(bad("invalid UTF-8", f(&[0, 0x53, 0x10, 0xc0, 4, 1, 0xa1, 1, 0xff])));
        v.push(bad("bytes left over", f(&[0, 0x53, 0x17, 0x45, 0x40])));
        v.push(bad("a frame's worth of bytes left over", f(&[&end[..], &put_frame(0, 1, &[], &[])[..]].concat())));
        v.push(bad("list size beyond the frame", f(&[0, 0x53, 0x17, 0xc0, 9, 1, 0x40])));
        v.push(bad("list size 0", f(&[0, 0x53, 0x17, 0xc0, 0, 0])));
        v.push(bad("huge list size", f(&[0, 0x53, 0x17, 0xd0, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 1, 0x40])));
        v.push(bad("huge count", f(&[0, 0x53, 0x10, 0xd0, 0, 0, 0, 7, 0xff, 0xff, 0xff, 0xff, 0xa1, 1, 0x61])));
        for n in [1usize, 4, 5, 12, 30] {
            v.push(bad(&format!("open cut after {} bytes", n), f(&open[..n])));
        }
        v.push(bad("transfer cut inside the performative", f(&[0, 0x53, 0x14, 0xc0, 4, 1, 0x70, 0])));
        v
    })
}

fn sasl_bads() -> &'static Vec<S> {
    static S: OnceLock<Vec<S>> = OnceLock::new();
    S.get_or_init(|| {
        let init = rv::compact(&spec::full(spec::comp("sasl-init"), 0));
        let f = |b: &[u8]| put_frame(1, 0, &[], b);
        let mut x = f(&init);
        x[4] = 1;
        let mut y = f(&[0, 0x53, 0x43, 0xc0, 3, 1, 0xa0, 0]);
        y[4] = 9;
        vec![
            bad("type 0", put_frame(0, 0, &[], &init)),
            bad("no body", f(&[])),
            bad("data offset 1", x),
            bad("data offset beyond the frame", y),
            bad("AMQP performative", f(&[0, 0x53, 0x10, 0xc0, 3, 1, 0xa1, 0])),
            bad("unknown code", f(&[0, 0x53, 0x44, 0xc0, 3, 1, 0x50, 5])),
            bad("mandatory field missing", f(&[0, 0x53, 0x41, 0x45])),
            bad("bytes left over", f(&[0, 0x53, 0x43, 0xc0, 3, 1, 0xa0, 0, 0])),
            bad("truncated", f(&init[..init.len() - 3])),
            bad("garbage", f(&[0xff, 0xff])),
        ]
    })
}

/// sequences in which at least one frame is bad: every word over {good, bad} up to length k, with
/// every bad frame at every position
fn mixed<T>(good: &[Piece<T>], bads: &[Piece<T>], k: usize) -> Vec<Vec<Piece<T>>> {
    let mut out = vec![];
    for n in 1..=k {
        for mask in 1u32..(1 << n) {
            // each bad frame with each other as company
            for i in 0..bads.len() {
                let partners: Vec<usize> = if mask.count_ones() > 1 { (0..bads.len()).collect() } else { vec![i] };
                for j in partners {
                    let mut s = vec![];
                    let mut nb = 0;
                    for pos in 0..n {
                        if mask >> pos & 1 == 1 {
                            s.push(bads[if nb % 2 == 0 { i } else { j }].clone());
                            nb += 1;
                        } else {
                            s.push(good[(pos + i) % good.len()].clone());
                        }
                    }
                    out.push(s);
                }
            }
        }
    }
    out
}

pub fn rejected(deep: bool) -> Vec<Unit> {
    let (ag, ab, sg, sb) = (amqp_goods(), amqp_bads(), sasl_goods(), sasl_bads());
    let by = side_by_side(
        ", with rejected frames",
        vec![
            vec![ab[0].clone(), ag[2].clone()],
            vec![ag[0].clone(), ag[3].clone()],
            vec![ab[8].clone(), ag[0].clone()],
            vec![ab[5].clone(), ag[4].clone()],
            vec![ab[24].clone(), ag[2].clone()],
        ],
        vec![vec![sb[0].clone(), sg[1].clone()], vec![sg[0].clone(), sg[1].clone()], vec![sb[7].clone(), sg[0].clone()]],
    );
    let mut us = vec![
        few_cuts("AMQP streams of three frames with rejected ones, one cut", mixed(&ag[..8], ab, if deep { 4 } else { 3 }), 1),
        few_cuts("SASL streams of three frames with rejected ones, one cut", mixed(sg, sb, if deep { 4 } else { 3 }), 1),
        few_cuts("a rejected frame between two others, two cuts", {
            let mut v = vec![];
            for b in ab {
                for (x, y) in [(0usize, 2usize), (4, 0), (8, 3)] {
                    v.push(vec![ag[x].clone(), b.clone(), ag[y].clone()]);
                }
            }
            v.retain(|s| total(s) <= if deep { 200 } else { 110 });
            v
        }, 2),
    ];
    // every chunking when the stream is short enough
    let max = if deep { 28 } else { 24 };
    let mut short: Vec<Vec<A>> = mixed(&ag[..1], ab, 2);
    short.retain(|s| total(s) <= max && (total(s) <= max - 4 || s.len() == 2));
    short.truncate(if deep { 40 } else { 24 });
    us.push(partitions("every chunking of short streams with rejected frames", short));
    // through the framed transport as well: the stream goes on after the error
    us.push(unit("rejected frames in a framed transport", 0, move |c| {
        let b = c.pick(ab).clone();
        let x = c.pick(&ag[..6]).clone();
        let y = c.pick(&ag[..6]).clone();
        let s = [x, b, y];
        let all: Vec<u8> = s.iter().flat_map(|p| p.bytes.clone()).collect();
        let k = *c.pick(&[1usize, 2, 7, 8, 9, 13, 1000]);
        c.say(|| format!("{:?} in reads of {}", s.iter().map(|p| &p.name).collect::<Vec<_>>(), k));
        c.state(&(&all, k));
        let mut fr = FramedRead::new(Chunks { data: all, pos: 0, k }, AmqpCodec::<AmqpFrame>::new());
        for (i, p) in s.iter().enumerate() {
            match (fr.poll(), &p.ok) {
                (Ok(Async::Ready(Some(f))), Some(t)) => t(&f).map_err(|e| format!("frame {}: {}", i, e))?,
                (Err(_), None) => {}
                (r, _) => return Err(format!("frame {} ({}) is answered with {:?}", i, p.name, r)),
            }
        }
        match fr.poll() {
            Ok(Async::Ready(None)) => Ok(()),
            r => Err(format!("the end is answered with {:?}", r)),
        }
    }));
    us.extend(by);
    us.push(unit("declared size smaller than a frame header", 0, move |c| {
        let size = c.choose(8) as u32;
        let lead = c.choose(4);
        let extra = c.choose(24);
        let fill = *c.pick(&[0u8, 2, 0xff]);
        let cut = c.choose(13);
        let sasl = c.flip();
        let pre = if lead == 0 { vec![] } else if sasl { sg[lead - 1].bytes.clone() } else { ag[lead - 1].bytes.clone() };
        let mut all = pre.clone();
        all.extend_from_slice(&size.to_be_bytes());
        all.extend(std::iter::repeat(fill).take(extra));
        c.say(|| format!("{} cut {} bytes behind the lead", hex(&all), cut));
        c.state(&(&all, cut, sasl));
        c.sample(|| format!("{} cut {} bytes behind the lead", hex(&all), cut));
        if sasl {
            tiny::<SaslFrame>(&all, pre.len(), (pre.len() + cut).min(all.len()))
        } else {
            tiny::<AmqpFrame>(&all, pre.len(), (pre.len() + cut).min(all.len()))
        }
    }));
    us.extend(runs(deep));
    us
}

fn tiny<T: Decode + Encode + Debug>(all: &[u8], lead: usize, cut: usize) -> R {
    let mut codec = AmqpCodec::<T>::new();
    let mut b = bm(&all[..cut], 0);
    if lead > 0 {
        match codec.decode(&mut b) {
            Ok(Some(_)) => {}
            r => return Err(format!("the frame before is answered with {:?}", r)),
        }
    }
    for _ in 0..3 {
        let have = b.len();
        match codec.decode(&mut b) {
            Ok(None) => {
                ensure!(have < 8, "{} bytes received after a size of {}: the stream stalls", have, all[lead + 3]);
                if cut < all.len() {
                    let fed = have;
                    b.extend_from_slice(&all[lead + fed..]);
                }
                if b.len() == have {
                    return Ok(());
                }
            }
            // fewer bytes than a header may be reported early
            Err(_) => {
                ensure!(have >= 4, "an error after only {} bytes", have);
                return Ok(());
            }
            Ok(Some(f)) => return Err(format!("a frame of size {} is accepted as {:?}", all[lead + 3], f)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

const HDR: [u8; 8] = [b'A', b'M', b'Q', b'P', 0, 1, 0, 0];

/// the answer the specification asks for
fn header_verdict(b: &[u8]) -> &'static str {
    let pre = &b[..4] == b"AMQP";
    let ver = b[5..8] == [1, 0, 0];
    let id = matches!(b[4], 0 | 2 | 3);
    match (pre, ver, id) {
        (true, true, true) => "ok",
        (false, true, true) => "prefix",
        (true, false, true) => "version",
        (true, true, false) => "id",
        _ => "error",
    }
}

fn check_header(buf: &mut BytesMut, b: &[u8], tail: &[u8]) -> Result<&'static str, String> {
    buf.clear();
    buf.extend_from_slice(b);
    buf.extend_from_slice(tail);
    check_filled(buf, b, tail)
}

fn check_filled(buf: &mut BytesMut, b: &[u8], tail: &[u8]) -> Result<&'static str, String> {
    let want = header_verdict(b);
    let got = ProtocolIdCodec.decode(buf);
    let fine = match (&got, want) {
        (Ok(Some(p::ProtocolId::Amqp)), "ok") => b[4] == 0,
        (Ok(Some(p::ProtocolId::AmqpTls)), "ok") => b[4] == 2,
        (Ok(Some(p::ProtocolId::AmqpSasl)), "ok") => b[4] == 3,
        (Err(ProtocolIdError::InvalidHeader), "prefix") => true,
        (Err(ProtocolIdError::Incompatible), "version") => true,
        (Err(ProtocolIdError::Unknown), "id") => true,
        (Err(_), "error") => true,
        _ => false,
    };
    ensure!(fine, "header {} is answered with {:?}, expected {}", hex(b), got, want);
    ensure!(buf[..] == *tail, "header {}: {} is left of the {} bytes behind it", hex(b), hex(buf), tail.len());
    Ok(want)
}

pub fn protocol_header(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    us.push(unit("all headers that differ in two bytes", 0, |c| {
        let id = *c.pick(&[0u8, 2, 3]);
        let i = c.choose(8);
        let x = c.choose(256) as u8;
        let mut h = HDR;
        h[4] = id;
        h[i] = x;
        c.sample(|| format!("{} and every change of a second byte", hex(&h)));
        let mut buf = BytesMut::with_capacity(64);
        let mut n = 0;
        for j in i..8 {
            for y in 0..256u32 {
                let mut k = h;
                k[j] = y as u8;
                let w = check_header(&mut buf, &k, b"")?;
                n += 1;
                if y == 0 {
                    c.outcome(w);
                }
            }
        }
        c.states(n);
        c.traces(n);
        Ok(())
    }));
    us.push(unit("all protocol ids and versions around the accepted ones", 0, |c| {
        let id = c.choose(256) as u8;
        let major = c.choose(256) as u8;
        let mut buf = BytesMut::with_capacity(64);
        let minors: Vec<u8> = if major <= 2 || id < 5 { (0..=255).collect() } else { vec![0, 1, 255] };
        let mut n = 0;
        for minor in minors {
            for rev in [0u8, 1, 2, 9, 128, 255] {
                let h = [b'A', b'M', b'Q', b'P', id, major, minor, rev];
                check_header(&mut buf, &h, b"")?;
                n += 1;
            }
        }
        c.states(n);
        c.traces(n);
        Ok(())
    }));
    us.push(unit("similar prefixes", 0, |c| {
        // every combination of look-alike letters
        let mut h = HDR;
        h[4] = *c.pick(&[0u8, 1, 2, 3, 4]);
        for (i, ch) in b"AMQP".iter().enumerate() {
            h[i] = *c.pick(&[*ch, ch | 0x20, 0, ch + 1, 0xff, b'A', b'P']);
        }
        h[5] = *c.pick(&[1u8, 0]);
        let mut buf = BytesMut::with_capacity(64);
        c.state(&h);
        let w = check_header(&mut buf, &h, b"AMQP")?;
        c.outcome(w);
        Ok(())
    }));
    us.push(unit("chunkings and what follows", 0, |c| {
        let ids = [0u8, 2, 3];
        let k = c.choose(3);
        let mut all = vec![];
        let mut hs = vec![];
        for i in 0..=k {
            let mut h = HDR;
            // the last header may be a bad one
            let x = c.choose(if i == k { 7 } else { 3 });
            match x {
                0..=2 => h[4] = ids[x],
                3 => h[0] = b'a',
                4 => h[5] = 0,
                5 => h[4] = 1,
                _ => h[7] = 1,
            }
            hs.push(h);
            all.extend_from_slice(&h);
        }
        let tail = c.choose(3) * 5;
        all.extend(std::iter::repeat(b'A').take(tail));
        // complete chunkings of the first header, uniform chunks for the others
        let mut buf = BytesMut::with_capacity(*c.pick(&[0usize, 8, 100]));
        let (mut fed, mut got) = (0, 0);
        c.sample(|| hex(&all));
        while fed < all.len() {
            let n = if fed < 8 { 1 + c.choose(8 - fed) } else { *c.pick(&[3usize, 100]) };
            let n = n.min(all.len() - fed);
            buf.extend_from_slice(&all[fed..fed + n]);
            fed += n;
            for _ in 0..hs.len() + 2 {
                let due = got < hs.len() && fed >= 8 * (got + 1);
                if due {
                    let rest: Vec<u8> = all[8 * (got + 1)..fed].to_vec();
                    check_filled(&mut buf, &hs[got], &rest)?;
                    got += 1;
                } else if got < hs.len() {
                    let before = buf.to_vec();
                    match ProtocolIdCodec.decode(&mut buf) {
                        Ok(None) => {}
                        r => return Err(format!("{} bytes of a header are answered with {:?}", before.len(), r)),
                    }
                    ensure!(buf[..] == before[..], "waiting consumes: {} became {}", hex(&before), hex(&buf));
                    break;
                }
            }
        }
        ensure!(got == hs.len(), "{} of {} headers answered", got, hs.len());
        c.state(&(&all, fed));
        Ok(())
    }));
    us.push(unit("incomplete headers", 0, |c| {
        let n = c.choose(8);
        let i = c.choose(8);
        let x = c.choose(256) as u8;
        let mut h = HDR;
        h[i] = x;
        let mut b = bm(&h[..n], c.choose(2) * 20);
        c.state(&(n, &h));
        match ProtocolIdCodec.decode(&mut b) {
            Ok(None) => {}
            r => return Err(format!("{} bytes ({}) are answered with {:?}", n, hex(&h[..n]), r)),
        }
        ensure!(b[..] == h[..n], "waiting consumes: {} became {}", hex(&h[..n]), hex(&b));
        Ok(())
    }));
    us.push(unit("encoding", 0, |c| {
        let (id, n) = *c.pick(&[(p::ProtocolId::Amqp, 0u8), (p::ProtocolId::AmqpTls, 2), (p::ProtocolId::AmqpSasl, 3)]);
        let any = super::frames::contents15();
        let pre = c.choose(40 + any.len());
        let spare = if pre < 40 { c.choose(40) } else { 20 * c.choose(2) };
        let before = if pre < 40 { vec![7u8; pre] } else { any[pre - 40].clone() };
        let pre = before.len();
        let mut b = bm(&before, spare);
        ProtocolIdCodec.encode(id, &mut b).map_err(|e| format!("{:?}", e))?;
        let mut h = HDR;
        h[4] = n;
        c.state(&(n, pre, spare));
        ensure!(b.len() == pre + 8 && b[pre..] == h && b[..pre] == before[..], "{:?} is written as {}", id, hex(&b));
        b.split_to(pre);
        match ProtocolIdCodec.decode(&mut b) {
            Ok(Some(x)) if x == id => Ok(()),
            r => Err(format!("{:?} decodes to {:?}", id, r)),
        }
    }));
    if deep {
        us.push(unit("all versions", 0, |c| {
            let id = *c.pick(&[0u8, 1, 2, 3, 4, 255]);
            let a = c.choose(256) as u8;
            let mut buf = BytesMut::with_capacity(64);
            for b in 0..=255u8 {
                for d in 0..=255u8 {
                    let h = [b'A', b'M', b'Q', b'P', id, a, b, d];
                    check_header(&mut buf, &h, b"")?;
                }
            }
            c.states(65536);
            c.traces(65536);
            Ok(())
        }));
        us.push(unit("all prefixes", 0, |c| {
            let a = c.choose(256) as u8;
            let b = c.choose(256) as u8;
            let mut buf = BytesMut::with_capacity(64);
            for d in 0..=255u8 {
                for e in 0..=255u8 {
                    let h = [a, b, d, e, 0, 1, 0, 0];
                    check_header(&mut buf, &h, b"")?;
                }
            }
            c.states(65536);
            c.traces(65536);
            Ok(())
        }));
    }
    us
}

// ------------------------------------------------------------------ C20

/// reads of at most k bytes
struct Chunks {
    data: Vec<u8>,
    pos: usize,
    k: usize,
}
impl Read for Chunks {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.k.min(self.data.len() - self.pos).min(b.len());
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl AsyncRead for Chunks {}

/// What the next calls of the transport do.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// move up to this many bytes
    Go(usize),
    NotReady,
    Fault,
}

/// One direction of a connection. The script is consumed one action per call.
#[derive(Default)]
struct Wire {
    data: Vec<u8>,
    pos: usize,
    closed: bool,
    /// bytes that may be in flight
    room: usize,
    next: Option<Act>,
    calls: usize,
    faults: usize,
}
#[derive(Clone)]
struct End(Rc<RefCell<Wire>>);

impl Read for End {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut w = self.0.borrow_mut();
        w.calls += 1;
        // the script says what the first call does; the following ones find the transport drained
        let k = match w.next.take() {
            Some(Act::Go(k)) => k,
            Some(Act::Fault) => {
                w.faults += 1;
                return Err(io::Error::new(io::ErrorKind::Interrupted, "scripted"));
            }
            Some(Act::NotReady) | None => return Err(io::ErrorKind::WouldBlock.into()),
        };
        let n = k.min(w.data.len() - w.pos).min(b.len());
        if n == 0 && !w.closed {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let p = w.pos;
        b[..n].copy_from_slice(&w.data[p..p + n]);
        w.pos += n;
        Ok(n)
    }
}
impl AsyncRead for End {}
impl Write for End {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut w = self.0.borrow_mut();
        w.calls += 1;
        let k = match w.next.take() {
            Some(Act::Go(k)) => k,
            Some(Act::Fault) => {
                w.faults += 1;
                return Err(io::Error::new(io::ErrorKind::Interrupted, "scripted"));
            }
            Some(Act::NotReady) | None => return Err(io::ErrorKind::WouldBlock.into()),
        };
        let free = w.room - (w.data.len() - w.pos);
        let n = k.min(b.len()).min(free);
        if n == 0 {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        w.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncWrite for End {
    fn shutdown(&mut self) -> futures::Poll<(), io::Error> {
        self.0.borrow_mut().closed = true;
        Ok(Async::Ready(()))
    }
}

fn wire(room: usize) -> End {
    End(Rc::new(RefCell::new(Wire { room, ..Wire::default() })))
}

#[derive(Debug, PartialEq, Clone)]
enum Seen<T> {
    Item(T),
    Pending,
    End,
    Io,
    Other(String),
}

fn seen<T, E: Debug>(r: futures::Poll<Option<T>, E>) -> Seen<T> {
    match r {
        Ok(Async::Ready(Some(x))) => Seen::Item(x),
        Ok(Async::Ready(None)) => Seen::End,
        Ok(Async::NotReady) => Seen::Pending,
        Err(e) => {
            let s = format!("{:?}", e);
            if s.starts_with("Io") && s.contains("scripted") {
                Seen::Io
            } else {
                Seen::Other(s)
            }
        }
    }
}

/// Read a connection that delivers `data[..stop]` and then ends, the transport misbehaving by script.
fn read_side<D>(
    c: &mut Ctx,
    codec: D,
    data: &[u8],
    stop: usize,
    ends: &[usize],
    chunk: usize,
    mut check: impl FnMut(usize, &D::Item) -> R,
) -> R
where
    D: Decoder,
    D::Item: Debug,
    D::Error: Debug,
{
    let w = wire(usize::MAX / 2);
    {
        let mut x = w.0.borrow_mut();
        x.data = data[..stop].to_vec();
        x.closed = true;
    }
    let mut fr = FramedRead::new(w.clone(), codec);
    let mut got = 0;
    let due = ends.iter().filter(|e| **e <= stop).count();
    let boundary = stop == 0 || ends.contains(&stop);
    // every poll moves the transport forward, fails or ends
    for step in 0.. {
        ensure!(step < 4 * data.len() + 50, "no end after {} polls", step);
        // the default is a read of `chunk` bytes; a shorter one, none and a fault are deviations
        let act = match c.dev(5) {
            0 => Act::Go(chunk),
            1 => Act::Go(1),
            2 => Act::NotReady,
            3 => Act::Fault,
            _ => Act::Go(7),
        };
        let (faults, pos) = {
            let mut x = w.0.borrow_mut();
            x.next = Some(act);
            (x.faults, x.pos)
        };
        let s = seen(fr.poll());
        let (f2, p2) = {
            let x = w.0.borrow();
            (x.faults, x.pos)
        };
        c.say(|| format!("transport {:?} ({} -> {} bytes): {}", act, pos, p2, crate::explore::clip(&format!("{:?}", s), 200)));
        match s {
            Seen::Item(x) => {
                ensure!(got < ends.len() && ends[got] <= p2, "an item {:?} that was not sent (after {} of {} bytes)", x, p2, stop);
                check(got, &x)?;
                got += 1;
            }
            Seen::Pending => {
                let full = ends.iter().filter(|e| **e <= p2).count();
                ensure!(full == got, "waiting although {} items were received and {} delivered ({} bytes)", full, got, p2);
            }
            Seen::Io => ensure!(f2 > faults, "an I/O error that did not happen"),
            Seen::End => {
                ensure!(got == due, "the stream ends after {} of {} items", got, due);
                ensure!(boundary, "a connection that ends inside an item ({} of {} bytes) ends silently", stop, data.len());
                ensure!(p2 == stop, "the stream ends although {} bytes are left", stop - p2);
                c.outcome("clean end");
                break;
            }
            Seen::Other(e) => {
                ensure!(got == due, "error {} after {} of {} items", e, got, due);
                ensure!(!boundary, "a connection that ends on a boundary ({} bytes) ends with {}", stop, e);
                ensure!(p2 == stop, "error {} although {} bytes are left", e, stop - p2);
                c.outcome("error at the end");
                break;
            }
        }
    }
    // and nothing is made up afterwards
    w.0.borrow_mut().next = Some(Act::Go(100));
    match seen(fr.poll()) {
        Seen::Item(x) => Err(format!("an item after the end: {:?}", x)),
        _ => Ok(()),
    }
}

/// frames for sending: (frame as item, its bytes, check)
fn sendable() -> Vec<(AmqpFrame, usize)> {
    let g = amqp_goods();
    let mut v = vec![];
    for i in [0usize, 2, 4, 6, 13] {
        let (_, f) = AmqpFrame::decode(&g[i].bytes[4..]).expect("harness: good frame");
        v.push((f, i));
    }
    v
}

pub fn framed(deep: bool) -> Vec<Unit> {
    let mut us = vec![];
    let devs = if deep { 3 } else { 2 };
    us.push(unit("AMQP frames received, ended anywhere", devs, move |c| {
        let g = amqp_goods();
        let seqs: [&[usize]; 6] = [&[0], &[2, 0], &[0, 1, 2], &[3, 4], &[15, 0], &[5, 5, 5]];
        let s: Vec<A> = c.pick(&seqs).iter().map(|i| g[*i].clone()).collect();
        let (data, ends) = lay(&s);
        let stop = c.choose(data.len() + 1);
        let chunk = *c.pick(&[1usize, 3, 8, 1000]);
        c.say(|| format!("{:?}, ended after {} of {} bytes, reads of {}", s.iter().map(|p| &p.name).collect::<Vec<_>>(), stop, data.len(), chunk));
        c.sample(|| format!("{:?}, ended after {} of {} bytes, reads of {}", s.iter().map(|p| &p.name).collect::<Vec<_>>(), stop, data.len(), chunk));
        c.state(&(&data, stop, chunk));
        read_side(c, AmqpCodec::<AmqpFrame>::new(), &data, stop, &ends, chunk, |i, f| (s[i].ok.as_ref().unwrap())(f))
    }));
    us.push(unit("long AMQP frames received, ended anywhere", 1, move |c| {
        let g = amqp_goods();
        let i = 6 + c.choose(9);
        let s: Vec<A> = vec![g[2].clone(), g[i].clone(), g[0].clone()];
        let (data, ends) = lay(&s);
        let stop = c.choose(data.len() + 1);
        let chunk = *c.pick(&[5usize, 64, 1000]);
        c.say(|| format!("{}: ended after {} of {} bytes, reads of {}", s[1].name, stop, data.len(), chunk));
        c.state(&(&data, stop, chunk));
        read_side(c, AmqpCodec::<AmqpFrame>::new(), &data, stop, &ends, chunk, |i, f| (s[i].ok.as_ref().unwrap())(f))
    }));
    us.push(unit("SASL frames received, ended anywhere", devs, move |c| {
        let g = sasl_goods();
        let seqs: [&[usize]; 3] = [&[0], &[0, 1], &[1, 0, 0]];
        let s: Vec<S> = c.pick(&seqs).iter().map(|i| g[*i].clone()).collect();
        let (data, ends) = lay(&s);
        let stop = c.choose(data.len() + 1);
        let chunk = *c.pick(&[1usize, 8, 1000]);
        c.state(&(&data, stop, chunk));
        read_side(c, AmqpCodec::<SaslFrame>::new(), &data, stop, &ends, chunk, |i, f| (s[i].ok.as_ref().unwrap())(f))
    }));
    us.push(unit("protocol headers received, ended anywhere", devs, move |c| {
        let n = c.choose(3) + 1;
        let ids = [0u8, 2, 3];
        let want: Vec<u8> = (0..n).map(|_| *c.pick(&ids)).collect();
        let mut data = vec![];
        let mut ends = vec![];
        for i in &want {
            let mut h = HDR;
            h[4] = *i;
            data.extend_from_slice(&h);
            ends.push(data.len());
        }
        let stop = c.choose(data.len() + 1);
        let chunk = *c.pick(&[1usize, 3, 8, 100]);
        c.say(|| format!("protocol ids {:?}, ended after {} of {} bytes, reads of {}", want, stop, data.len(), chunk));
        c.state(&(&data, stop, chunk));
        read_side(c, ProtocolIdCodec, &data, stop, &ends, chunk, |i, x| {
            let k = match x {
                p::ProtocolId::Amqp => 0,
                p::ProtocolId::AmqpTls => 2,
                p::ProtocolId::AmqpSasl => 3,
            };
            ensure!(k == want[i], "protocol id {:?} instead of {}", x, want[i]);
            Ok(())
        })
    }));
    // both ends and everything in between
    us.push(unit("AMQP frames through a small pipe", devs - 1, move |c| {
        let all = sendable();
        let k = c.choose(3) + 1;
        let idx: Vec<usize> = (0..k).map(|_| c.choose(4)).collect();
        let room = *c.pick(&[1usize, 5, 9, 16, 1000]);
        c.say(|| format!("frames {:?}, pipe of {}", idx, room));
        c.sample(|| format!("frames {:?}, pipe of {}", idx, room));
        let w = wire(room);
        let mut tx = FramedWrite::new(w.clone(), AmqpCodec::<AmqpFrame>::new());
        let mut rx = FramedRead::new(w.clone(), AmqpCodec::<AmqpFrame>::new());
        let goods = amqp_goods();
        let (mut sent, mut got, mut flushed) = (0, 0, false);
        let mut step = 0;
        let act = |c: &mut Ctx| match c.dev(4) {
            0 => Act::Go(1000),
            1 => Act::Go(1),
            2 => Act::NotReady,
            _ => Act::Fault,
        };
        loop {
            step += 1;
            ensure!(step < 4000, "no progress: {} of {} frames sent, {} received", sent, k, got);
            // who moves: by default the receiver as soon as there is something, else the sender
            let (waiting, closed) = {
                let x = w.0.borrow();
                (x.data.len() - x.pos, x.closed)
            };
            let read = if closed { true } else { (waiting > 0) ^ (c.dev(2) == 1) };
            if !read {
                w.0.borrow_mut().next = Some(act(c));
                if sent < k {
                    match tx.start_send(all[idx[sent]].0.clone()) {
                        Ok(AsyncSink::Ready) => sent += 1,
                        Ok(AsyncSink::NotReady(f)) => ensure!(f == all[idx[sent]].0, "the frame handed back is another one"),
                        Err(e) => return Err(format!("sending fails: {:?}", e)),
                    }
                    // the flush may come later
                    if sent < k && c.dev(2) == 1 {
                        continue;
                    }
                }
                match tx.poll_complete() {
                    Ok(Async::Ready(())) => flushed = sent == k,
                    Ok(Async::NotReady) => {}
                    Err(e) => ensure!(format!("{:?}", e).contains("scripted"), "sending fails: {:?}", e),
                }
                if flushed {
                    w.0.borrow_mut().next = Some(Act::Go(1));
                    match tx.close() {
                        Ok(Async::Ready(())) => {}
                        x => return Err(format!("closing answers {:?}", x)),
                    }
                }
            } else {
                let a = act(c);
                w.0.borrow_mut().next = Some(a);
                match seen(rx.poll()) {
                    Seen::Item(f) => {
                        ensure!(got < sent, "a frame that was not sent: {:?}", f);
                        (goods[all[idx[got]].1].ok.as_ref().unwrap())(&f).map_err(|e| format!("frame {}: {}", got, e))?;
                        got += 1;
                    }
                    Seen::Pending => {}
                    Seen::Io => ensure!(a == Act::Fault, "an I/O error that did not happen"),
                    Seen::End => {
                        ensure!(flushed && got == k, "the stream ends after {} of {} frames", got, k);
                        c.outcome("all received, clean end");
                        return Ok(());
                    }
                    Seen::Other(e) => return Err(format!("receiving fails: {}", e)),
                }
            }
            c.state(&(&idx, room, sent, got, waiting, flushed));
        }
    }));
    us.push(unit("frames written by short writes", devs, move |c| {
        let all = sendable();
        let big = c.flip();
        let k = if big { c.choose(3) + 1 } else { c.choose(2) + 1 };
        let mut want = vec![];
        let w = wire(usize::MAX / 2);
        let mut tx = FramedWrite::new(w.clone(), AmqpCodec::<AmqpFrame>::new());
        let chunk = if big { *c.pick(&[2000usize, 1_000_000]) } else { *c.pick(&[7usize, 64, 1000]) };
        for i in 0..k {
            let f = if big {
                AmqpFrame::decode(&large([5000, 9000, 12_000][i]).bytes[4..]).expect("harness: large").1
            } else {
                all[c.choose(all.len() - 1)].0.clone()
            };
            let mut b = BytesMut::with_capacity(f.encoded_size() + 8);
            f.encode(&mut b);
            want.extend_from_slice(&b);
            let mut item = f;
            for tries in 0.. {
                ensure!(tries < 3000, "a frame is not accepted");
                let a = match c.dev(4) {
                    0 => Act::Go(chunk),
                    1 => Act::NotReady,
                    2 => Act::Fault,
                    _ => Act::Go(1),
                };
                w.0.borrow_mut().next = Some(a);
                match tx.start_send(item.clone()) {
                    Ok(AsyncSink::Ready) => break,
                    Ok(AsyncSink::NotReady(f)) => item = f,
                    // only the flush of earlier frames can fail here
                    Err(e) => ensure!(format!("{:?}", e).contains("scripted"), "sending fails: {:?}", e),
                }
            }
        }
        for tries in 0.. {
            ensure!(tries < 2_000 + want.len(), "the transport is never flushed");
            let a = match c.dev(4) {
                0 => Act::Go(chunk),
                1 => Act::NotReady,
                2 => Act::Fault,
                _ => Act::Go(1),
            };
            w.0.borrow_mut().next = Some(a);
            match tx.poll_complete() {
                Ok(Async::Ready(())) => break,
                Ok(Async::NotReady) => {}
                Err(e) => ensure!(format!("{:?}", e).contains("scripted"), "sending fails: {:?}", e),
            }
            let x = w.0.borrow();
            ensure!(want.starts_with(&x.data), "the bytes written are not a prefix of the frames sent");
        }
        let x = w.0.borrow();
        c.state(&(&x.data, chunk, x.calls));
        ensure!(x.data == want, "{} bytes written instead of {}", x.data.len(), want.len());
        Ok(())
    }));
    us.push(unit("frames of all sizes written one after another", if deep { 2 } else { 1 }, move |c| {
        let sizes = [12usize, 4000, 8180, 8200, 33_000, 60_000, 66_000, 140_000];
        let k = c.choose(3) + 1;
        let ns: Vec<usize> = (0..k).map(|_| *c.pick(&sizes)).collect();
        let chunk = *c.pick(&[1000usize, 8192, 1 << 20]);
        c.say(|| format!("frames of {:?} bytes, the transport takes {} bytes at a time", ns, chunk));
        c.sample(|| format!("frames of {:?} bytes, the transport takes {} bytes at a time", ns, chunk));
        let w = wire(usize::MAX / 2);
        let mut tx = FramedWrite::new(w.clone(), AmqpCodec::<AmqpFrame>::new());
        let mut want = vec![];
        let put = |c: &mut Ctx, w: &End, often: bool| {
            let a = if !often { 0 } else { c.dev(3) };
            w.0.borrow_mut().next = Some(match a {
                0 => Act::Go(chunk),
                1 => Act::NotReady,
                _ => Act::Go(9),
            });
        };
        for (i, n) in ns.iter().enumerate() {
            let f = AmqpFrame::decode(&sized(*n).bytes[4..]).expect("harness: large").1;
            let mut b = BytesMut::with_capacity(n + 64);
            f.encode(&mut b);
            want.extend_from_slice(&b);
            let mut item = f;
            for tries in 0.. {
                ensure!(tries < 1000, "frame {} of {:?} is not accepted", i, ns);
                put(c, &w, tries == 0);
                match tx.start_send(item.clone()) {
                    Ok(AsyncSink::Ready) => break,
                    Ok(AsyncSink::NotReady(f)) => {
                        ensure!(f == item, "the frame handed back is another one");
                        item = f;
                    }
                    Err(e) => return Err(format!("sending fails: {:?}", e)),
                }
            }
            if i + 1 < k && c.flip() {
                put(c, &w, false);
                tx.poll_complete().map_err(|e| format!("sending fails: {:?}", e))?;
            }
        }
        for tries in 0.. {
            ensure!(tries < 1000, "the transport is never flushed");
            put(c, &w, tries == 0);
            match tx.poll_complete() {
                Ok(Async::Ready(())) => break,
                Ok(Async::NotReady) => {}
                Err(e) => return Err(format!("sending fails: {:?}", e)),
            }
        }
        {
            let x = w.0.borrow();
            c.state(&(&ns, chunk, x.calls));
            let same = x.data.iter().zip(&want).take_while(|(a, b)| a == b).count();
            ensure!(x.data == want, "{} bytes written instead of {}, the first {} right", x.data.len(), want.len(), same);
        }
        // and read back
        w.0.borrow_mut().closed = true;
        let mut rx = FramedRead::new(w.clone(), AmqpCodec::<AmqpFrame>::new());
        let mut got = 0;
        for tries in 0.. {
            ensure!(tries < 2000, "no end");
            w.0.borrow_mut().next = Some(Act::Go(1 << 20));
            match seen(rx.poll()) {
                Seen::Item(f) => {
                    ensure!(got < k, "a frame that was not sent");
                    (sized(ns[got]).ok.as_ref().unwrap())(&f)?;
                    got += 1;
                }
                Seen::Pending => {}
                Seen::End => break,
                x => return Err(format!("reading answers {:?}", x)),
            }
        }
        ensure!(got == k, "{} of {} frames come back", got, k);
        Ok(())
    }));
    us.push(unit("a whole connection over one transport, ended anywhere", if deep { 2 } else { 1 }, move |c| connection(c)));
    us.push(unit("many frames received and sent", 0, move |c| {
        let g = amqp_goods();
        let n = if deep { 300_000 } else { 66_000 };
        let style = c.choose(3);
        let pick = |i: usize| match style {
            0 => 0usize,
            1 => [0, 2][i % 2],
            _ => [3, 0, 5, 2][i % 4],
        };
        c.say(|| format!("{} frames, style {}", n, style));
        if c.flip() {
            let k = *c.pick(&[5usize, 1000]);
            let mut data = vec![];
            for i in 0..n {
                data.extend_from_slice(&g[pick(i)].bytes);
            }
            let mut fr = FramedRead::new(Chunks { data, pos: 0, k }, AmqpCodec::<AmqpFrame>::new());
            for i in 0..n {
                match fr.poll() {
                    Ok(Async::Ready(Some(f))) => (g[pick(i)].ok.as_ref().unwrap())(&f).map_err(|e| format!("frame {}: {}", i, e))?,
                    r => return Err(format!("frame {} of {} is answered with {:?}", i, n, r)),
                }
            }
            match fr.poll() {
                Ok(Async::Ready(None)) => {}
                r => return Err(format!("the end is answered with {:?}", r)),
            }
        } else {
            let fs: Vec<AmqpFrame> = g[..6].iter().map(|p| AmqpFrame::decode(&p.bytes[4..]).expect("harness").1).collect();
            let w = wire(usize::MAX / 2);
            let mut tx = FramedWrite::new(w.clone(), AmqpCodec::<AmqpFrame>::new());
            let mut want = vec![];
            for i in 0..n {
                let mut b = BytesMut::with_capacity(64);
                fs[pick(i)].encode(&mut b);
                want.extend_from_slice(&b);
                w.0.borrow_mut().next = Some(Act::Go(1 << 20));
                match tx.start_send(fs[pick(i)].clone()) {
                    Ok(AsyncSink::Ready) => {}
                    r => return Err(format!("frame {} is answered with {:?}", i, r)),
                }
            }
            for _ in 0..20 {
                w.0.borrow_mut().next = Some(Act::Go(1 << 20));
                if let Ok(Async::Ready(())) = tx.poll_complete() {
                    break;
                }
            }
            let x = w.0.borrow();
            let same = x.data.iter().zip(&want).take_while(|(a, b)| a == b).count();
            ensure!(x.data == want, "{} bytes written instead of {}, the first {} right", x.data.len(), want.len(), same);
        }
        c.states(n as u64);
        c.traces(n as u64);
        Ok(())
    }));
    us.push(unit("protocol headers written by short writes", devs + 1, move |c| {
        let k = c.choose(3) + 1;
        let w = wire(usize::MAX / 2);
        let mut tx = FramedWrite::new(w.clone(), ProtocolIdCodec);
        let mut want = vec![];
        for _ in 0..k {
            let (id, n) = *c.pick(&[(p::ProtocolId::Amqp, 0u8), (p::ProtocolId::AmqpTls, 2), (p::ProtocolId::AmqpSasl, 3)]);
            let mut h = HDR;
            h[4] = n;
            want.extend_from_slice(&h);
            match tx.start_send(id) {
                Ok(AsyncSink::Ready) => {}
                x => return Err(format!("{:?}", x)),
            }
        }
        for tries in 0.. {
            ensure!(tries < 200, "the transport is never flushed");
            let a = match c.dev(5) {
                0 => Act::Go(8),
                1 => Act::NotReady,
                2 => Act::Fault,
                3 => Act::Go(1),
                _ => Act::Go(5),
            };
            w.0.borrow_mut().next = Some(a);
            match tx.poll_complete() {
                Ok(Async::Ready(())) => break,
                Ok(Async::NotReady) => {}
                Err(e) => ensure!(format!("{:?}", e).contains("scripted"), "sending fails: {:?}", e),
            }
        }
        let x = w.0.borrow();
        c.state(&(&x.data, x.calls));
        ensure!(x.data == want, "{} instead of {}", hex(&x.data), hex(&want));
        Ok(())
    }));
    us
}

/// An AMQP frame of n bytes.
fn sized(n: usize) -> &'static A {
    static S: OnceLock<std::sync::Mutex<std::collections::HashMap<usize, &'static A>>> = OnceLock::new();
    let mut m = S.get_or_init(Default::default).lock().unwrap();
    m.entry(n).or_insert_with(|| Box::leak(Box::new(if n < 40 { amqp_goods()[2].clone() } else { large(n) })))
}

/// Both directions of a transport.
struct Duplex {
    rd: End,
    wr: End,
}
impl Read for Duplex {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.rd.read(b)
    }
}
impl AsyncRead for Duplex {}
impl Write for Duplex {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.wr.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncWrite for Duplex {
    fn shutdown(&mut self) -> futures::Poll<(), io::Error> {
        Ok(Async::Ready(()))
    }
}
/// A connection in one of its stages; the transport and what is buffered move on from stage to stage.
enum Stage {
    Id(Framed<Duplex, ProtocolIdCodec>),
    Sasl(Framed<Duplex, AmqpCodec<SaslFrame>>),
    Amqp(Framed<Duplex, AmqpCodec<AmqpFrame>>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Id,
    Sasl,
    Amqp,
}
#[derive(Debug)]
enum Item {
    Id(u8),
    Sasl(SaslFrame),
    Amqp(AmqpFrame),
}
fn moved<A, B>(p: FramedParts<Duplex, A>, codec: B) -> FramedParts<Duplex, B> {
    let mut q = FramedParts::new(p.io, codec);
    q.read_buf = p.read_buf;
    q.write_buf = p.write_buf;
    q
}
impl Stage {
    fn to(self, k: Kind) -> Stage {
        macro_rules! go {
            ($f:expr) => {
                match k {
                    Kind::Id => Stage::Id(Framed::from_parts(moved($f.into_parts(), ProtocolIdCodec))),
                    Kind::Sasl => Stage::Sasl(Framed::from_parts(moved($f.into_parts(), AmqpCodec::new()))),
                    Kind::Amqp => Stage::Amqp(Framed::from_parts(moved($f.into_parts(), AmqpCodec::new()))),
                }
            };
        }
        match self {
            Stage::Id(f) => go!(f),
            Stage::Sasl(f) => go!(f),
            Stage::Amqp(f) => go!(f),
        }
    }
    fn poll(&mut self) -> Seen<Item> {
        fn map<T>(s: Seen<T>, f: impl Fn(T) -> Item) -> Seen<Item> {
            match s {
                Seen::Item(x) => Seen::Item(f(x)),
                Seen::Pending => Seen::Pending,
                Seen::End => Seen::End,
                Seen::Io => Seen::Io,
                Seen::Other(e) => Seen::Other(e),
            }
        }
        match self {
            Stage::Id(f) => map(seen(f.poll()), |x| {
                Item::Id(match x {
                    p::ProtocolId::Amqp => 0,
                    p::ProtocolId::AmqpTls => 2,
                    p::ProtocolId::AmqpSasl => 3,
                })
            }),
            Stage::Sasl(f) => map(seen(f.poll()), Item::Sasl),
            Stage::Amqp(f) => map(seen(f.poll()), Item::Amqp),
        }
    }
    fn send(&mut self, i: &Item) -> R {
        macro_rules! go {
            ($f:expr, $x:expr) => {
                match $f.start_send($x) {
                    Ok(AsyncSink::Ready) => Ok(()),
                    Ok(AsyncSink::NotReady(_)) => Err("a small item is not accepted".to_string()),
                    Err(e) => Err(format!("sending fails: {:?}", e)),
                }
            };
        }
        match (self, i) {
            (Stage::Id(f), Item::Id(0)) => go!(f, p::ProtocolId::Amqp),
            (Stage::Id(f), Item::Id(2)) => go!(f, p::ProtocolId::AmqpTls),
            (Stage::Id(f), Item::Id(_)) => go!(f, p::ProtocolId::AmqpSasl),
            (Stage::Sasl(f), Item::Sasl(x)) => go!(f, x.clone()),
            (Stage::Amqp(f), Item::Amqp(x)) => go!(f, x.clone()),
            _ => panic!("harness: stage"),
        }
    }
    fn flush(&mut self) -> Result<bool, String> {
        let r = match self {
            Stage::Id(f) => f.poll_complete().map_err(|e| format!("{:?}", e)),
            Stage::Sasl(f) => f.poll_complete().map_err(|e| format!("{:?}", e)),
            Stage::Amqp(f) => f.poll_complete().map_err(|e| format!("{:?}", e)),
        };
        match r {
            Ok(Async::Ready(())) => Ok(true),
            Ok(Async::NotReady) => Ok(false),
            Err(e) if e.contains("scripted") => Ok(false),
            Err(e) => Err(format!("flushing fails: {}", e)),
        }
    }
}
/// Header exchange, SASL, header exchange, AMQP: everything over one transport, one codec after the other.
fn connection(c: &mut Ctx) -> R {
    let (g, s) = (amqp_goods(), sasl_goods());
    let header = |n: u8| {
        let mut h = HDR;
        h[4] = n;
        h.to_vec()
    };
    // what the peer sends: kind, bytes, index
    let mut seq: Vec<(Kind, Vec<u8>, usize)> = vec![];
    let story = c.choose(4);
    let sasl = |seq: &mut Vec<(Kind, Vec<u8>, usize)>, l: &[usize]| {
        seq.push((Kind::Id, header(3), 3));
        for i in l {
            seq.push((Kind::Sasl, s[*i].bytes.clone(), *i));
        }
    };
    match story {
        0 => sasl(&mut seq, &[0, 1]),
        1 => {
            seq.push((Kind::Id, header(2), 2));
            sasl(&mut seq, &[2, s.len() - 1]);
        }
        2 => seq.push((Kind::Id, header(0), 0)),
        _ => sasl(&mut seq, &[]),
    }
    if story != 2 {
        seq.push((Kind::Id, header(0), 0));
    }
    let tails: &[usize] = [&[15usize, 2, 0][..], &[3], &[1, 0], &[5, 4]][story];
    for i in tails {
        seq.push((Kind::Amqp, g[*i].bytes.clone(), *i));
    }
    let mut data = vec![];
    let mut ends = vec![];
    for (_, b, _) in &seq {
        data.extend_from_slice(b);
        ends.push(data.len());
    }
    let stop = c.choose(data.len() + 1);
    let chunk = *c.pick(&[1usize, 3, 8, 13, 1000]);
    // our side answers in kind; whether it flushes before the codec changes is a choice
    let lazy = c.flip();
    c.say(|| format!("story {}: ended after {} of {} bytes, reads of {}, lazy {}", story, stop, data.len(), chunk, lazy));
    c.sample(|| format!("story {}: ended after {} of {} bytes, reads of {}, lazy {}", story, stop, data.len(), chunk, lazy));
    c.state(&(story, stop, chunk, lazy));
    let (rd, wr) = (wire(usize::MAX / 2), wire(usize::MAX / 2));
    {
        let mut x = rd.0.borrow_mut();
        x.data = data[..stop].to_vec();
        x.closed = true;
    }
    let mut st = Stage::Id(Framed::new(Duplex { rd: rd.clone(), wr: wr.clone() }, ProtocolIdCodec));
    let mut kind = Kind::Id;
    let (mut got, mut want) = (0, vec![]);
    let due = ends.iter().filter(|e| **e <= stop).count();
    let boundary = stop == 0 || ends.contains(&stop);
    for step in 0.. {
        ensure!(step < 4 * data.len() + 50, "no end after {} polls", step);
        let act = match c.dev(4) {
            0 => Act::Go(chunk),
            1 => Act::NotReady,
            2 => Act::Fault,
            _ => Act::Go(7),
        };
        let faults = {
            let mut x = rd.0.borrow_mut();
            x.next = Some(act);
            x.faults
        };
        let r = st.poll();
        let (f2, p2) = {
            let x = rd.0.borrow();
            (x.faults, x.pos)
        };
        c.say(|| format!("{:?} stage, transport {:?} ({} bytes): {}", kind, act, p2, crate::explore::clip(&format!("{:?}", r), 200)));
        match r {
            Seen::Item(x) => {
                ensure!(got < ends.len() && ends[got] <= p2, "an item {:?} that was not sent (after {} of {} bytes)", x, p2, stop);
                match (&x, &seq[got]) {
                    (Item::Id(k), (Kind::Id, _, i)) => ensure!(*k as usize == *i, "protocol id {} instead of {}", k, i),
                    (Item::Sasl(f), (Kind::Sasl, _, i)) => (s[*i].ok.as_ref().unwrap())(f)?,
                    (Item::Amqp(f), (Kind::Amqp, _, i)) => (g[*i].ok.as_ref().unwrap())(f)?,
                    _ => panic!("harness: stage"),
                }
                got += 1;
                // answer with the same
                st.send(&x)?;
                match &x {
                    Item::Id(k) => want.extend_from_slice(&header(*k)),
                    Item::Sasl(f) => {
                        let mut b = BytesMut::with_capacity(f.encoded_size() + 8);
                        f.encode(&mut b);
                        want.extend_from_slice(&b);
                    }
                    Item::Amqp(f) => {
                        let mut b = BytesMut::with_capacity(f.encoded_size() + 8);
                        f.encode(&mut b);
                        want.extend_from_slice(&b);
                    }
                }
                if !lazy {
                    wr.0.borrow_mut().next = Some(Act::Go(5));
                    st.flush()?;
                }
                if got < seq.len() && seq[got].0 != kind {
                    kind = seq[got].0;
                    st = st.to(kind);
                }
            }
            Seen::Pending => {
                let full = ends.iter().filter(|e| **e <= p2).count();
                ensure!(full == got, "waiting although {} items were received and {} delivered ({} bytes)", full, got, p2);
            }
            Seen::Io => ensure!(f2 > faults, "an I/O error that did not happen"),
            Seen::End => {
                ensure!(got == due, "the stream ends after {} of {} items", got, due);
                ensure!(boundary, "a connection that ends inside an item ({} of {} bytes) ends silently", stop, data.len());
                ensure!(p2 == stop, "the stream ends although {} bytes are left", stop - p2);
                c.outcome("clean end");
                break;
            }
            Seen::Other(e) => {
                ensure!(got == due, "error {} after {} of {} items", e, got, due);
                ensure!(!boundary, "a connection that ends on a boundary ({} bytes) ends with {}", stop, e);
                ensure!(p2 == stop, "error {} although {} bytes are left", e, stop - p2);
                c.outcome("error at the end");
                break;
            }
        }
    }
    for tries in 0.. {
        ensure!(tries < 100, "the transport is never flushed");
        wr.0.borrow_mut().next = Some(Act::Go(1000));
        if st.flush()? {
            break;
        }
    }
    let x = wr.0.borrow();
    ensure!(x.data == want, "{} written instead of {}", hex(&x.data), hex(&want));
    Ok(())
}

fn lay<T>(s: &[Piece<T>]) -> (Vec<u8>, Vec<usize>) {
    let mut data = vec![];
    let mut ends = vec![];
    for p in s {
        data.extend_from_slice(&p.bytes);
        ends.push(data.len());
    }
    (data, ends)
}

