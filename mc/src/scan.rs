//! Three-valued reference decoder: what AMQP 1.0 says about any byte string, read as one value.
use crate::dectab::{Dec, Want};
use crate::rv::{RV, RV::*};
use crate::spec::{self, Ty};

#[derive(Debug, Clone, PartialEq)]
pub enum Scan {
    /// a value of this many bytes; `odd` when the specification does not settle whether it is valid
    /// (bytes behind the last element of a compound, a repeated or unpaired map key, a boolean octet
    /// above 1, a symbol that is not ASCII)
    Value { v: RV, len: usize, odd: bool },
    /// a strict prefix of something longer
    More,
    Bad,
}

struct Cur<'a> {
    b: &'a [u8],
    pos: usize,
    /// the end is the declared end of a compound rather than the end of what was received
    closed: bool,
    odd: bool,
    depth: usize,
    /// fields a composite does not define may be anything that stays inside its declared size
    lax: bool,
}

enum Stop {
    More,
    Bad,
}
type S<T> = Result<T, Stop>;

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> S<&'a [u8]> {
        if self.b.len() - self.pos < n {
            return Err(if self.closed { Stop::Bad } else { Stop::More });
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    fn be(&mut self, n: usize) -> S<u64> {
        Ok(self.take(n)?.iter().fold(0, |a, x| (a << 8) | u64::from(*x)))
    }
    fn value(&mut self) -> S<RV> {
        let c = self.take(1)?[0];
        self.depth += 1;
        if self.depth > 200 {
            panic!("harness: nesting");
        }
        let r = if c == 0 {
            let d = self.value()?;
            match d {
                Ulong(_) | Sym(_) => {}
                _ => return Err(Stop::Bad),
            }
            let n = if self.lax { known_fields(&d) } else { None };
            let v = match n {
                Some(n) => {
                    let c = self.take(1)?[0];
                    if c == 0 {
                        return Err(Stop::Bad);
                    }
                    self.body(c, n)?
                }
                None => self.value()?,
            };
            Ok(Desc(Box::new(d), Box::new(v)))
        } else {
            self.body(c, usize::MAX)
        };
        self.depth -= 1;
        r
    }
    fn body(&mut self, code: u8, max: usize) -> S<RV> {
        Ok(match code {
            0x40 => Null,
            0x41 => Bool(true),
            0x42 => Bool(false),
            0x43 => Uint(0),
            0x44 => Ulong(0),
            0x45 => List(vec![]),
            0x50 => Ubyte(self.be(1)? as u8),
            0x51 => Byte(self.be(1)? as u8 as i8),
            0x52 => Uint(self.be(1)? as u32),
            0x53 => Ulong(self.be(1)?),
            0x54 => Int(i32::from(self.be(1)? as u8 as i8)),
            0x55 => Long(i64::from(self.be(1)? as u8 as i8)),
            0x56 => {
                let x = self.be(1)?;
                if x > 1 {
                    self.odd = true;
                }
                Bool(x != 0)
            }
            0x60 => Ushort(self.be(2)? as u16),
            0x61 => Short(self.be(2)? as u16 as i16),
            0x70 => Uint(self.be(4)? as u32),
            0x71 => Int(self.be(4)? as u32 as i32),
            0x72 => Float(self.be(4)? as u32),
            0x73 => {
                let x = self.be(4)? as u32;
                if x >= 0x11_0000 || (0xd800..0xe000).contains(&x) {
                    return Err(Stop::Bad);
                }
                Char(x)
            }
            0x80 => Ulong(self.be(8)?),
            0x81 => Long(self.be(8)? as i64),
            0x82 => Double(self.be(8)?),
            0x83 => Ts(self.be(8)? as i64),
            0x98 => {
                let mut u = [0; 16];
                u.copy_from_slice(self.take(16)?);
                Uuid(u)
            }
            0xa0 | 0xa1 | 0xa3 | 0xb0 | 0xb1 | 0xb3 => {
                let n = self.be(if code < 0xb0 { 1 } else { 4 })? as usize;
                let d = self.take(n)?;
                if code & 0xf == 0 {
                    Bin(d.to_vec())
                } else {
                    let t = match std::str::from_utf8(d) {
                        Ok(t) => t.to_string(),
                        Err(_) => return Err(Stop::Bad),
                    };
                    if code & 0xf == 1 {
                        Str(t)
                    } else {
                        if !d.is_ascii() {
                            self.odd = true;
                        }
                        Sym(t)
                    }
                }
            }
            0xc0 | 0xc1 | 0xd0 | 0xd1 | 0xe0 | 0xf0 => {
                let w = if matches!(code, 0xc0 | 0xc1 | 0xe0) { 1 } else { 4 };
                let size = self.be(w)? as usize;
                if size < w {
                    return Err(Stop::Bad);
                }
                let win = self.take(size)?;
                let mut i = Cur { b: win, pos: 0, closed: true, odd: false, depth: self.depth, lax: self.lax };
                let n = i.be(w)? as usize;
                let v = match code {
                    0xc0 | 0xd0 => {
                        let mut v = vec![];
                        for _ in 0..n.min(max) {
                            v.push(i.value()?);
                        }
                        List(v)
                    }
                    0xc1 | 0xd1 => {
                        if n % 2 != 0 {
                            i.odd = true;
                        }
                        let mut v: Vec<(RV, RV)> = vec![];
                        for _ in 0..n / 2 {
                            let k = i.value()?;
                            let x = i.value()?;
                            if v.iter().any(|e| e.0 == k) {
                                i.odd = true;
                            }
                            v.push((k, x));
                        }
                        Map(v)
                    }
                    _ => {
                        let c = i.take(1)?[0];
                        if c == 0 {
                            // a described constructor: not needed by any type here
                            i.odd = true;
                            i.pos = win.len();
                            Array(vec![])
                        } else {
                            // nothing is encoded with the constructor of an empty array
                            if n == 0 && !known(c) {
                                i.odd = true;
                            }
                            let mut v = vec![];
                            for _ in 0..n {
                                if v.len() > 4096 && (0x40..=0x45).contains(&c) {
                                    return Err(Stop::Bad);
                                }
                                v.push(i.body(c, usize::MAX)?);
                            }
                            Array(v)
                        }
                    }
                };
                if i.pos < win.len() {
                    i.odd = true;
                }
                self.odd |= i.odd;
                v
            }
            _ => return Err(Stop::Bad),
        })
    }
}

fn known(c: u8) -> bool {
    !matches!(
        Cur { b: &[0; 40], pos: 0, closed: false, odd: false, depth: 0, lax: false }.body_kind(c),
        None
    )
}
impl<'a> Cur<'a> {
    fn body_kind(&mut self, c: u8) -> Option<()> {
        match c {
            0x40..=0x45 | 0x50..=0x56 | 0x60 | 0x61 | 0x70..=0x73 | 0x80..=0x83 | 0x98 => Some(()),
            0xa0 | 0xa1 | 0xa3 | 0xb0 | 0xb1 | 0xb3 | 0xc0 | 0xc1 | 0xd0 | 0xd1 | 0xe0 | 0xf0 => Some(()),
            _ => None,
        }
    }
}

/// the number of fields of the composite a descriptor stands for
fn known_fields(d: &RV) -> Option<usize> {
    spec::comps()
        .iter()
        .find(|c| match d {
            Ulong(x) => *x == c.code,
            Sym(s) => *s == c.sym,
            _ => false,
        })
        .map(|c| c.fields.len())
}

pub fn scan(b: &[u8]) -> Scan {
    scan_with(b, false)
}
fn scan_with(b: &[u8], lax: bool) -> Scan {
    let mut c = Cur { b, pos: 0, closed: false, odd: false, depth: 0, lax };
    match c.value() {
        Ok(v) => Scan::Value { v, len: c.pos, odd: c.odd },
        Err(Stop::More) => Scan::More,
        Err(Stop::Bad) => Scan::Bad,
    }
}

/// What a decoder must make of an input.
#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    /// this content, this many bytes consumed
    Accept(RV, usize),
    Reject,
    /// acceptance is not settled; if accepted, it must be this content and length
    Either(RV, usize),
    /// nothing is settled except that the bytes behind the value are not touched
    Loose(usize),
}

fn holds_array(v: &RV) -> bool {
    match v {
        Array(_) => true,
        List(l) => l.iter().any(holds_array),
        Map(m) => m.iter().any(|(a, b)| holds_array(a) || holds_array(b)),
        Desc(a, b) => holds_array(a) || holds_array(b),
        _ => false,
    }
}
/// a polymorphic value may hold an array, which the library does not support there
fn any_array(ty: Ty, v: &RV) -> bool {
    match (ty, v) {
        (Ty::Syms, _) => false,
        (Ty::Comp(_), _) | (Ty::State, _) | (Ty::Outcome, _) => comp_any_array(v),
        _ => holds_array(v),
    }
}
fn comp_any_array(v: &RV) -> bool {
    if let Desc(d, l) = v {
        if let (Ulong(code), List(l)) = (d.as_ref(), l.as_ref()) {
            if let Some(co) = spec::comps().iter().find(|c| c.code == *code) {
                return l.iter().zip(&co.fields).any(|(x, f)| any_array(f.ty, x));
            }
        }
    }
    holds_array(v)
}
fn bad_ts(v: &RV) -> bool {
    let (lo, hi) = crate::items::ts_range();
    match v {
        Ts(x) => *x < lo || *x > hi,
        List(l) | Array(l) => l.iter().any(bad_ts),
        Map(m) => m.iter().any(|(a, b)| bad_ts(a) || bad_ts(b)),
        Desc(a, b) => bad_ts(a) || bad_ts(b),
        _ => false,
    }
}
fn has_dup(v: &RV) -> bool {
    match v {
        List(l) | Array(l) => l.iter().any(has_dup),
        Map(m) => {
            m.iter().enumerate().any(|(i, e)| m[..i].iter().any(|f| f.0 == e.0)) || m.iter().any(|(a, b)| has_dup(a) || has_dup(b))
        }
        Desc(a, b) => has_dup(a) || has_dup(b),
        _ => false,
    }
}

fn too_many(v: &RV) -> bool {
    match v {
        Desc(d, l) => {
            if let List(l) = l.as_ref() {
                for c in spec::comps() {
                    let hit = match d.as_ref() {
                        Ulong(x) => *x == c.code,
                        Sym(s) => *s == c.sym,
                        _ => false,
                    };
                    if hit && l.len() > c.fields.len() {
                        return true;
                    }
                }
                return l.iter().any(too_many);
            }
            false
        }
        List(l) => l.iter().any(too_many),
        _ => false,
    }
}

pub fn judge(d: &Dec, b: &[u8]) -> Verdict {
    let (v, len, odd) = match scan(b) {
        Scan::Value { v, len, odd } => (v, len, odd),
        Scan::More => return Verdict::Reject,
        // only fields the composite does not define are wrong
        Scan::Bad => {
            return match (d.want, scan_with(b, true)) {
                (Want::Comp(_), Scan::Value { len, .. })
                | (Want::Members(_), Scan::Value { len, .. })
                | (Want::Section, Scan::Value { len, .. }) => Verdict::Loose(len),
                _ => Verdict::Reject,
            }
        }
    };
    let content: Result<RV, ()> = match d.want {
        Want::Codes(cs) => {
            if cs.contains(&b[0]) {
                Ok(v.clone())
            } else {
                Err(())
            }
        }
        Want::Ty(t) => spec::norm(t, &v).map_err(|_| ()),
        Want::Opt(t) => match v {
            Null => Ok(Null),
            _ => spec::norm(t, &v).map_err(|_| ()),
        },
        Want::Comp(n) => spec::norm_comp(spec::comp(n), &v).map_err(|_| ()),
        Want::Members(ms) => {
            let mut r = Err(());
            for m in ms {
                if let Ok(x) = spec::norm_comp(spec::comp(m), &v) {
                    r = Ok(x);
                }
            }
            r
        }
        Want::Section => crate::conv::norm_section(&v).map_err(|_| ()),
        Want::Arr(cs) => {
            let at = match b[0] {
                0xe0 => 3,
                0xf0 => 9,
                _ => 0,
            };
            if at > 0 && cs.contains(&b[at]) {
                Ok(v.clone())
            } else if v == Array(vec![]) {
                return Verdict::Either(v, len);
            } else {
                Err(())
            }
        }
        Want::Other => return Verdict::Loose(len),
    };
    // a transfer takes what follows as its payload; the table's decoders are given none
    match content {
        Ok(_) if bad_ts(&v) => Verdict::Reject,
        Ok(x) if has_dup(&v) => {
            let _ = x;
            Verdict::Loose(len)
        }
        Ok(x) if odd || any_array_content(d, &x) || empty_array(&v) => Verdict::Either(x, len),
        Ok(x) => Verdict::Accept(x, len),
        Err(()) if too_many(&v) => Verdict::Loose(len),
        Err(()) => Verdict::Reject,
    }
}

/// the element type of an empty array is not part of its content
fn empty_array(v: &RV) -> bool {
    match v {
        Array(a) => a.is_empty() || a.iter().any(empty_array),
        List(l) => l.iter().any(empty_array),
        Map(m) => m.iter().any(|(a, b)| empty_array(a) || empty_array(b)),
        Desc(_, b) => empty_array(b),
        _ => false,
    }
}

fn any_array_content(d: &Dec, x: &RV) -> bool {
    match d.want {
        Want::Ty(t) | Want::Opt(t) => any_array(t, x),
        Want::Comp(_) | Want::Members(_) => comp_any_array(x),
        Want::Section => match x {
            Desc(c, v) if spec::comps().iter().any(|k| Ulong(k.code) == **c) => {
                let _ = v;
                comp_any_array(x)
            }
            _ => holds_array(x),
        },
        Want::Arr(_) => false,
        _ => false,
    }
}

/// Compare one decoder with the reference on one input. `Ok(accepted)`.
pub fn compare(d: &Dec, b: &[u8]) -> Result<bool, String> {
    let want = judge(d, b);
    let got = (d.full.expect("harness: decoder without content"))(b);
    let tail = |r: usize, len: usize| -> Result<(), String> {
        // the payload of a transfer
        if takes_rest(d, b) {
            return Ok(());
        }
        if r == b.len() - len {
            Ok(())
        } else {
            Err(format!("{}: {} of {} bytes left instead of {} ({})", d.name, r as isize, b.len(), b.len() - len, crate::util::hex(b)))
        }
    };
    match (want, got) {
        (Verdict::Accept(x, len), Ok((r, y))) => {
            tail(r, len)?;
            if y.same(&x) {
                Ok(true)
            } else {
                Err(format!("{}: {} decodes to {:?} instead of {:?}", d.name, crate::util::hex(b), y, x))
            }
        }
        (Verdict::Either(x, len), Ok((r, y))) => {
            tail(r, len)?;
            if y.same(&x) {
                Ok(true)
            } else {
                Err(format!("{}: {} decodes to {:?} instead of {:?}", d.name, crate::util::hex(b), y, x))
            }
        }
        (Verdict::Loose(len), Ok((r, _))) => {
            tail(r, len)?;
            Ok(true)
        }
        (Verdict::Reject, Ok((_, y))) => Err(format!("{}: {} must be rejected but decodes to {:?}", d.name, crate::util::hex(b), y)),
        (Verdict::Accept(x, _), Err(e)) => Err(format!("{}: {} is a valid {:?} but is rejected: {:?}", d.name, crate::util::hex(b), x, e)),
        (_, Err(_)) => Ok(false),
    }
}

pub fn takes_rest(d: &Dec, b: &[u8]) -> bool {
    if d.name == "transfer" {
        return true;
    }
    if d.name != "performative" {
        return false;
    }
    if b.first() != Some(&0) {
        return false;
    }
    match scan(&b[1..]) {
        Scan::Value { v: Ulong(x), .. } => x == 20,
        Scan::Value { v: Sym(s), .. } => s == "amqp:transfer:list",
        _ => false,
    }
}
