//! Reference model of AMQP 1.0 values, written from the specification (part 1, types) and sharing no
//! code with the library: a value tree, a strict parser and an emitter that exposes every encoding
//! choice the specification leaves to the sender.
use crate::explore::Ctx;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RV {
    Null,
    Bool(bool),
    Ubyte(u8),
    Ushort(u16),
    Uint(u32),
    Ulong(u64),
    Byte(i8),
    Short(i16),
    Int(i32),
    Long(i64),
    Float(u32),
    Double(u64),
    Char(u32),
    Ts(i64),
    Uuid([u8; 16]),
    Bin(Vec<u8>),
    Str(String),
    Sym(String),
    List(Vec<RV>),
    /// entries in wire order; compare with `same`, which ignores their order
    Map(Vec<(RV, RV)>),
    Array(Vec<RV>),
    Desc(Box<RV>, Box<RV>),
}
use RV::*;

impl RV {
    pub fn desc(code: u64, v: RV) -> RV {
        Desc(Box::new(Ulong(code)), Box::new(v))
    }
    /// canonical form: map entries sorted
    pub fn canon(&self) -> RV {
        match self {
            List(v) => List(v.iter().map(|x| x.canon()).collect()),
            Array(v) => Array(v.iter().map(|x| x.canon()).collect()),
            Map(v) => {
                let mut w: Vec<_> = v.iter().map(|(a, b)| (a.canon(), b.canon())).collect();
                w.sort();
                Map(w)
            }
            Desc(a, b) => Desc(Box::new(a.canon()), Box::new(b.canon())),
            x => x.clone(),
        }
    }
    pub fn same(&self, o: &RV) -> bool {
        self == o || self.canon() == o.canon()
    }
}

type P<'a, T> = Result<(T, &'a [u8]), String>;

fn take(b: &[u8], n: usize) -> P<'_, &[u8]> {
    if b.len() < n {
        Err(format!("needs {} bytes, {} left", n, b.len()))
    } else {
        Ok((&b[..n], &b[n..]))
    }
}
fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| (a << 8) | u64::from(*x))
}

/// Parse one value strictly: every size must be exact, every byte accounted for.
pub fn parse(b: &[u8]) -> P<'_, RV> {
    let (c, b) = take(b, 1)?;
    if c[0] == 0 {
        let (d, b) = parse(b)?;
        match d {
            Ulong(_) | Sym(_) => {}
            x => return Err(format!("descriptor {:?} is neither ulong nor symbol", x)),
        }
        let (v, b) = parse(b)?;
        return Ok((Desc(Box::new(d), Box::new(v)), b));
    }
    parse_body(c[0], b)
}

pub fn parse_all(b: &[u8]) -> Result<RV, String> {
    let (v, r) = parse(b)?;
    if r.is_empty() {
        Ok(v)
    } else {
        Err(format!("{} bytes after the value", r.len()))
    }
}

/// Body of a value whose (primitive) constructor is `code`.
pub fn parse_body(code: u8, b: &[u8]) -> P<'_, RV> {
    match code >> 4 {
        4 => {
            let v = match code {
                0x40 => Null,
                0x41 => Bool(true),
                0x42 => Bool(false),
                0x43 => Uint(0),
                0x44 => Ulong(0),
                0x45 => List(vec![]),
                _ => return Err(format!("unknown type code {:#x}", code)),
            };
            Ok((v, b))
        }
        5..=9 => {
            let n = 1usize << ((code >> 4) - 5);
            let (d, b) = take(b, n)?;
            let x = be(d);
            let v = match code {
                0x50 => Ubyte(x as u8),
                0x51 => Byte(x as u8 as i8),
                0x52 => Uint(x as u32),
                0x53 => Ulong(x),
                0x54 => Int(i32::from(x as u8 as i8)),
                0x55 => Long(i64::from(x as u8 as i8)),
                0x56 => match x {
                    0 => Bool(false),
                    1 => Bool(true),
                    _ => return Err(format!("boolean octet {}", x)),
                },
                0x60 => Ushort(x as u16),
                0x61 => Short(x as u16 as i16),
                0x70 => Uint(x as u32),
                0x71 => Int(x as u32 as i32),
                0x72 => Float(x as u32),
                0x73 => {
                    if x >= 0x11_0000 || (0xd800..0xe000).contains(&x) {
                        return Err(format!("char {:#x}", x));
                    }
                    Char(x as u32)
                }
                0x80 => Ulong(x),
                0x81 => Long(x as i64),
                0x82 => Double(x),
                0x83 => Ts(x as i64),
                0x98 => {
                    let mut u = [0; 16];
                    u.copy_from_slice(d);
                    Uuid(u)
                }
                _ => return Err(format!("unknown type code {:#x}", code)),
            };
            Ok((v, b))
        }
        0xa | 0xb => {
            let w = if code >> 4 == 0xa { 1 } else { 4 };
            let (l, b) = take(b, w)?;
            let (d, b) = take(b, be(l) as usize)?;
            let text = || String::from_utf8(d.to_vec()).map_err(|e| e.to_string());
            let v = match code & 0xf {
                0 => Bin(d.to_vec()),
                1 => Str(text()?),
                3 => {
                    if !d.is_ascii() {
                        return Err("symbol is not ASCII".into());
                    }
                    Sym(text()?)
                }
                _ => return Err(format!("unknown type code {:#x}", code)),
            };
            Ok((v, b))
        }
        0xc | 0xd | 0xe | 0xf => {
            let w = if code >> 4 == 0xc || code >> 4 == 0xe { 1 } else { 4 };
            let (l, b) = take(b, w)?;
            let (d, b) = take(b, be(l) as usize)?;
            let (n, mut d) = take(d, w)?;
            let n = be(n) as usize;
            let v = match code {
                0xc0 | 0xd0 => {
                    let mut v = vec![];
                    for _ in 0..n {
                        let (x, r) = parse(d)?;
                        v.push(x);
                        d = r;
                    }
                    List(v)
                }
                0xc1 | 0xd1 => {
                    if n % 2 != 0 {
                        return Err("odd map count".into());
                    }
                    let mut v: Vec<(RV, RV)> = vec![];
                    for _ in 0..n / 2 {
                        let (k, r) = parse(d)?;
                        let (x, r) = parse(r)?;
                        if v.len() < 64 && v.iter().any(|e| e.0 == k) {
                            return Err(format!("duplicate map key {:?}", k));
                        }
                        v.push((k, x));
                        d = r;
                    }
                    Map(v)
                }
                0xe0 | 0xf0 => {
                    let (c, mut r) = take(d, 1)?;
                    let mut v = vec![];
                    let mut dsc = None;
                    let mut code = c[0];
                    if code == 0 {
                        let (x, r2) = parse(r)?;
                        dsc = Some(x);
                        let (c2, r2) = take(r2, 1)?;
                        code = c2[0];
                        r = r2;
                    }
                    for _ in 0..n {
                        let (x, r2) = parse_body(code, r)?;
                        v.push(match &dsc {
                            Some(d) => Desc(Box::new(d.clone()), Box::new(x)),
                            None => x,
                        });
                        r = r2;
                    }
                    d = r;
                    Array(v)
                }
                _ => return Err(format!("unknown type code {:#x}", code)),
            };
            if !d.is_empty() {
                return Err(format!(
                    "{} bytes left inside a compound ({:#x}) after {} elements",
                    d.len(),
                    code,
                    n
                ));
            }
            Ok((v, b))
        }
        _ => Err(format!("unknown type code {:#x}", code)),
    }
}

// ------------------------------------------------------------------ emitter

/// Source of encoding choices; `alt(n)` answers 0 for the most compact form.
pub trait Alt {
    fn alt(&mut self, n: usize) -> usize;
}
pub struct Compact;
impl Alt for Compact {
    fn alt(&mut self, _: usize) -> usize {
        0
    }
}
pub struct Widest;
impl Alt for Widest {
    fn alt(&mut self, n: usize) -> usize {
        n - 1
    }
}
/// every choice free
pub struct Free<'a>(pub &'a mut Ctx);
impl<'a> Alt for Free<'a> {
    fn alt(&mut self, n: usize) -> usize {
        if n == 1 {
            0
        } else {
            self.0.choose(n)
        }
    }
}
/// every non-compact choice is a deviation
pub struct Dev<'a>(pub &'a mut Ctx);
impl<'a> Alt for Dev<'a> {
    fn alt(&mut self, n: usize) -> usize {
        self.0.dev(n)
    }
}

/// the primitive constructors that can carry `v`, most compact first
pub fn codes(v: &RV) -> Vec<u8> {
    match v {
        Null => vec![0x40],
        Bool(true) => vec![0x41, 0x56],
        Bool(false) => vec![0x42, 0x56],
        Ubyte(_) => vec![0x50],
        Ushort(_) => vec![0x60],
        Uint(0) => vec![0x43, 0x52, 0x70],
        Uint(x) if *x < 256 => vec![0x52, 0x70],
        Uint(_) => vec![0x70],
        Ulong(0) => vec![0x44, 0x53, 0x80],
        Ulong(x) if *x < 256 => vec![0x53, 0x80],
        Ulong(_) => vec![0x80],
        Byte(_) => vec![0x51],
        Short(_) => vec![0x61],
        Int(x) if *x >= -128 && *x < 128 => vec![0x54, 0x71],
        Int(_) => vec![0x71],
        Long(x) if *x >= -128 && *x < 128 => vec![0x55, 0x81],
        Long(_) => vec![0x81],
        Float(_) => vec![0x72],
        Double(_) => vec![0x82],
        Char(_) => vec![0x73],
        Ts(_) => vec![0x83],
        Uuid(_) => vec![0x98],
        Bin(b) if b.len() < 256 => vec![0xa0, 0xb0],
        Bin(_) => vec![0xb0],
        Str(b) if b.len() < 256 => vec![0xa1, 0xb1],
        Str(_) => vec![0xb1],
        Sym(b) if b.len() < 256 => vec![0xa3, 0xb3],
        Sym(_) => vec![0xb3],
        List(v) if v.is_empty() => vec![0x45, 0xc0, 0xd0],
        List(_) => vec![0xc0, 0xd0],
        Map(_) => vec![0xc1, 0xd1],
        Array(_) => vec![0xe0, 0xf0],
        Desc(..) => vec![0x00],
    }
}

/// Encode `v` in full (constructor and body).
pub fn emit(v: &RV, a: &mut dyn Alt, out: &mut Vec<u8>) {
    match v {
        Desc(d, x) => {
            out.push(0);
            emit(d, a, out);
            emit(x, a, out);
        }
        List(_) | Map(_) | Array(_) => {
            let cs = codes(v);
            // the contents first: the one-byte form is possible only if they fit
            if cs[0] == 0x45 {
                let c = cs[a.alt(3)];
                out.push(c);
                match c {
                    0xc0 => out.extend_from_slice(&[1, 0]),
                    0xd0 => out.extend_from_slice(&[0, 0, 0, 4, 0, 0, 0, 0]),
                    _ => {}
                }
                return;
            }
            let mut body = vec![];
            let n = emit_contents(v, a, &mut body);
            let c = if body.len() + 1 > 255 || n > 255 {
                cs[1]
            } else {
                cs[a.alt(2)]
            };
            put_compound(c, n, &body, out);
        }
        _ => {
            let cs = codes(v);
            let c = cs[a.alt(cs.len())];
            out.push(c);
            emit_scalar(v, c, out);
        }
    }
}

pub fn put_compound(c: u8, n: usize, body: &[u8], out: &mut Vec<u8>) {
    out.push(c);
    if c == 0xc0 || c == 0xc1 || c == 0xe0 {
        out.push((body.len() + 1) as u8);
        out.push(n as u8);
    } else {
        out.extend_from_slice(&((body.len() + 4) as u32).to_be_bytes());
        out.extend_from_slice(&(n as u32).to_be_bytes());
    }
    out.extend_from_slice(body);
}

fn emit_contents(v: &RV, a: &mut dyn Alt, body: &mut Vec<u8>) -> usize {
    match v {
        List(v) => {
            for x in v {
                emit(x, a, body);
            }
            v.len()
        }
        Map(v) => {
            for (k, x) in v {
                emit(k, a, body);
                emit(x, a, body);
            }
            v.len() * 2
        }
        Array(v) => {
            // constructors every element admits
            let mut cs: Vec<u8> = match v.first() {
                Some(x) => codes(x),
                None => vec![0xa3, 0xb3],
            };
            for x in v {
                let k = codes(x);
                cs.retain(|c| k.contains(c));
            }
            // 0x56 carries both booleans, so there is always a common one
            let c = cs[a.alt(cs.len())];
            body.push(c);
            for x in v {
                match x {
                    List(_) | Map(_) | Array(_) => {
                        let mut b = vec![];
                        let n = emit_contents(x, a, &mut b);
                        let mut o = vec![];
                        if c != 0x45 {
                            put_compound(c, n, &b, &mut o);
                            body.extend_from_slice(&o[1..]);
                        }
                    }
                    _ => emit_scalar(x, c, body),
                }
            }
            v.len()
        }
        _ => unreachable!(),
    }
}

pub fn emit_scalar(v: &RV, c: u8, out: &mut Vec<u8>) {
    let mut num = |x: u64| {
        let n = match c >> 4 {
            4 => 0,
            k => 1usize << (k - 5),
        };
        out.extend_from_slice(&x.to_be_bytes()[8 - n..]);
    };
    match v {
        Null => {}
        Bool(x) => num(u64::from(*x)),
        Ubyte(x) => num(u64::from(*x)),
        Ushort(x) => num(u64::from(*x)),
        Uint(x) | Float(x) | Char(x) => num(u64::from(*x)),
        Ulong(x) | Double(x) => num(*x),
        Byte(x) => num(*x as u64),
        Short(x) => num(*x as u64),
        Int(x) => num(*x as u64),
        Long(x) | Ts(x) => num(*x as u64),
        Uuid(x) => out.extend_from_slice(x),
        Bin(x) => put_var(c, x, out),
        Str(x) => put_var(c, x.as_bytes(), out),
        Sym(x) => put_var(c, x.as_bytes(), out),
        _ => unreachable!(),
    }
}

fn put_var(c: u8, x: &[u8], out: &mut Vec<u8>) {
    if c >> 4 == 0xa {
        out.push(x.len() as u8)
    } else {
        out.extend_from_slice(&(x.len() as u32).to_be_bytes())
    }
    out.extend_from_slice(x);
}

pub fn compact(v: &RV) -> Vec<u8> {
    let mut o = vec![];
    emit(v, &mut Compact, &mut o);
    o
}
pub fn widest(v: &RV) -> Vec<u8> {
    let mut o = vec![];
    emit(v, &mut Widest, &mut o);
    o
}
