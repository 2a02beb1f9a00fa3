//! C23: one thing after another decoded from the very same bytes of memory.
//!
//! A connection reuses its read buffer, so what stood at an address before says nothing about what
//! stands there now.
use super::frames::{put_frame, same_frame, Af};
use super::history::{af, AFS};
use super::history3::{near, Holder};
use super::messages::{self, Api};
use crate::conv::FromRv;
use crate::explore::{unit, Ctx, Unit, R};
use crate::items::{comp_items, filled, v, vv, BoxItem, Kind, RESTRICTED};
use crate::rv::{self, RV, RV::*};
use crate::spec;
use crate::util::*;
use amqp_codec::types::Variant;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, InMessage, OutMessage};
use bytes::BytesMut;
use tokio_codec::Decoder;

/// `bytes` are put at the start of `place` and decoded there, with `behind` bytes that are not
/// theirs behind them
fn at(place: &mut [u8], it: &BoxItem, w: &[u8], total: usize, before: &str) -> R {
    place[..w.len()].copy_from_slice(w);
    for b in place[w.len()..].iter_mut() {
        *b = 0x40;
    }
    let n = total.max(w.len());
    let behind = n - w.len();
    let what = || format!("{} {} read from where {} was before", it.ty(), crate::explore::clip(&it.show(), 120), before);
    let (rest, got, _) = it.dec(&place[..n]).map_err(|e| format!("{} is answered with {:?} ({})", what(), e, hex(w)))?;
    ensure!(rest == behind, "{}: {} bytes left of {} behind it", what(), rest, behind);
    let want = it.rv();
    ensure!(got.same(&want), "{}: decodes to {:?} ({})", what(), got, hex(w));
    Ok(())
}

/// x, y, then x again from the same place
fn three(c: &mut Ctx, mk: &dyn Fn(usize) -> BoxItem) -> R {
    let (x, y) = (mk(0), mk(1));
    let wide = c.flip();
    let bytes = |i: &BoxItem| if wide { rv::widest(&i.rv()) } else { rv::compact(&i.rv()) };
    let (a, b) = (bytes(&x), bytes(&y));
    // exactly its bytes, or always as many bytes as before
    let takes_all = |i: &BoxItem| matches!(i.kind(), Kind::Comp("transfer") | Kind::Frame);
    let total = if c.flip() && !takes_all(&x) && !takes_all(&y) { a.len().max(b.len()) + 8 } else { 0 };
    let mut place = vec![0u8; a.len().max(b.len()) + 8];
    c.states(1);
    c.sample(|| format!("{} ; {}", hex(&a), hex(&b)));
    c.say(|| format!("{} {} ; {}", x.ty(), hex(&a), hex(&b)));
    at(&mut place, &x, &a, total, "nothing")?;
    at(&mut place, &y, &b, total, &hex(&a))?;
    at(&mut place, &x, &a, total, &hex(&b))?;
    // cut short, with the whole of the other there before
    let cut = &b[..b.len() - 1];
    place[..cut.len()].copy_from_slice(cut);
    if !(takes_all(&y) && cut.is_empty()) && !cut.is_empty() {
        match y.dec(&place[..cut.len()]) {
            Err(ref e) if is_incomplete(e) => {}
            Ok(_) if takes_all(&y) => {}
            g => return Err(format!("{} without its last byte, from where {} was before, is answered with {:?}", hex(&b), hex(&a), g)),
        }
    }
    c.traces(4);
    Ok(())
}

fn composites(deep: bool) -> Unit {
    unit("composites alike but for one field, from the same place in memory", 0, move |c: &mut Ctx| {
        let all = spec::comps();
        let co = &all[c.choose(all.len())];
        if co.fields.is_empty() {
            return Ok(());
        }
        let i = c.choose(co.fields.len());
        let f = &co.fields[i];
        let mut vs = near(f.ty, deep);
        if !f.mandatory {
            vs.push(Null);
        }
        let base = if c.flip() { spec::full(co, 0) } else { spec::minimal(co) };
        let (a, b) = (c.choose(vs.len()), c.choose(vs.len()));
        let n = comp_items(co.name, &filled(co, &base)).len();
        let h = Holder::Comp(co, c.choose(n));
        let with = |x: &RV| match &base {
            Desc(d, l) => match &**l {
                List(l) => {
                    let mut l = l.clone();
                    l[i] = x.clone();
                    Desc(d.clone(), Box::new(List(l)))
                }
                _ => unreachable!(),
            },
            _ => unreachable!(),
        };
        three(c, &|k| h.hold(&with(&vs[if k == 0 { a } else { b }])))
    })
}

fn types(deep: bool) -> Unit {
    unit("values of one type, every pair from the same place in memory", 0, move |c: &mut Ctx| {
        let ty = *c.pick(&RESTRICTED);
        let vs = near(ty, deep);
        let (a, b) = (c.choose(vs.len()), c.choose(vs.len()));
        three(c, &|k| Holder::Ty(ty).hold(&vs[if k == 0 { a } else { b }]))
    })
}

/// what a Variant holds; the plain Rust types of the same values
fn variants(deep: bool) -> Unit {
    unit("values of every type, every pair from the same place in memory", 0, move |c: &mut Ctx| {
        let mut vs = super::history::leaves();
        vs.extend(near(spec::Ty::Any, deep));
        vs.extend(near(spec::Ty::Map, deep));
        vs.extend(near(spec::Ty::List, deep));
        let (a, b) = (c.choose(vs.len()), c.choose(vs.len()));
        three(c, &|k| vv(Variant::from_rv(&vs[if k == 0 { a } else { b }])))
    })
}

fn numbers() -> Unit {
    unit("numbers of the Rust types, every pair from the same place in memory", 0, move |c: &mut Ctx| {
        const N: [u64; 12] = [0, 1, 2, 127, 128, 255, 256, 257, 65_535, 65_536, 1 << 32, u64::MAX];
        let (a, b) = (*c.pick(&N), *c.pick(&N));
        let ty = c.choose(12);
        three(c, &|k| {
            let n = if k == 0 { a } else { b };
            match ty {
                0 => v(n),
                1 => v(n as i64),
                2 => v(n as u32),
                3 => v(n as i32),
                4 => v(n as u16),
                5 => v(n as i16),
                6 => v(n as u8),
                7 => v(n as i8),
                8 => v(n % 2 == 1),
                9 => v(Some(n as u32)),
                10 => v(vec![n, 1]),
                _ => v(vec![n as u32]),
            }
        })
    })
}

fn bytes_of(a: &Af, chan: u16, ext: usize) -> Vec<u8> {
    let mut body = a.perf.as_ref().map(rv::compact).unwrap_or_default();
    body.extend_from_slice(&a.payload);
    put_frame(0, chan, &vec![0xab; ext * 4], &body)
}

fn frames() -> Unit {
    unit("frames of every kind and channel, every pair from the same place in memory", 0, move |c: &mut Ctx| {
        let (i, j) = (c.choose(AFS), c.choose(AFS));
        const CH: [u16; 6] = [0, 1, 2, 0x0100, 0x0102, 0xffff];
        let (p, q) = (*c.pick(&CH), *c.pick(&CH));
        let (e, g) = (c.choose(2), c.choose(2));
        let mk = |i: usize, chan: u16| -> Af {
            let mut a = af(i);
            a.chan = chan;
            a.frame = AmqpFrame::new(chan, a.frame.into_parts().1);
            a
        };
        let (x, y) = (mk(i, p), mk(j, q));
        let (a, b) = (bytes_of(&x, p, e), bytes_of(&y, q, g));
        let mut place = vec![0u8; a.len().max(b.len())];
        c.states(1);
        c.sample(|| format!("{} ; {}", hex(&a), hex(&b)));
        c.say(|| format!("{} ; {}", hex(&a), hex(&b)));
        let mut step = |w: &[u8], f: &Af, before: &[u8]| -> R {
            place[..w.len()].copy_from_slice(w);
            // the type takes a frame without its size
            match AmqpFrame::decode(&place[4..w.len()]) {
                Ok((rest, got)) => {
                    ensure!(rest.is_empty(), "{} bytes left of {}", rest.len(), hex(w));
                    same_frame(f, &got).map_err(|e| format!("{} read from where {} was before: {}", hex(w), hex(before), e))
                }
                Err(e) => Err(format!("{} read from where {} was before is answered with {:?}", hex(w), hex(before), e)),
            }
        };
        step(&a, &x, &[])?;
        step(&b, &y, &a)?;
        step(&a, &x, &b)?;
        // through one stream codec and its read buffer, which is used again when it is empty
        let mut k = AmqpCodec::<AmqpFrame>::new();
        let mut buf = BytesMut::with_capacity(a.len().max(b.len()) * 4);
        for (w, f) in [(&a, &x), (&b, &y), (&a, &x)].iter() {
            buf.extend_from_slice(w);
            match k.decode(&mut buf) {
                Ok(Some(got)) => same_frame(f, &got).map_err(|e| format!("{} after {} and {}: {}", hex(w), hex(&a), hex(&b), e))?,
                g => return Err(format!("{} after {} and {} is answered with {:?}", hex(w), hex(&a), hex(&b), g)),
            }
            ensure!(buf.is_empty(), "{} bytes left of {}", buf.len(), hex(w));
            // nothing of the frame is kept, its memory may be used again
            buf.reserve(a.len().max(b.len()) * 2);
        }
        c.traces(6);
        Ok(())
    })
}

fn msgs<M: Api>() -> Unit {
    unit(format!("{}s, every pair from the same place in memory", M::NAME), 0, move |c: &mut Ctx| {
        let ms = messages::alike();
        let (x, y) = (c.pick(&ms), c.pick(&ms));
        let (a, b) = (messages::write(x), messages::write(y));
        let mut place = vec![0u8; a.len().max(b.len())];
        c.states(1);
        c.sample(|| format!("{} ; {}", hex(&a), hex(&b)));
        c.say(|| format!("{} ; {}", hex(&a), hex(&b)));
        let mut step = |w: &[u8], m: &messages::Msg, before: &[u8]| -> R {
            place[..w.len()].copy_from_slice(w);
            let (rest, got) = M::decode(&place[..w.len()]).map_err(|e| format!("{} is answered with {:?}", hex(w), e))?;
            ensure!(rest.is_empty(), "{} bytes left", rest.len());
            messages::reads_back(&got, m).map_err(|e| format!("{} {} read from where {} was before: {}", M::NAME, hex(w), hex(before), e))
        };
        step(&a, x, &[])?;
        step(&b, y, &a)?;
        step(&a, x, &b)?;
        c.traces(3);
        Ok(())
    })
}

pub fn units(deep: bool) -> Vec<Unit> {
    vec![frames(), types(deep), variants(deep), numbers(), composites(deep), msgs::<InMessage>(), msgs::<OutMessage>()]
}
