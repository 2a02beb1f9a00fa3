use amqp_codec::AmqpParseError;
use bytes::BytesMut;

pub fn hex(b: &[u8]) -> String {
    const N: usize = 200;
    let mut s = String::new();
    for x in b.iter().take(N) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > N {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

pub fn is_incomplete(e: &AmqpParseError) -> bool {
    matches!(e, AmqpParseError::Incomplete(_))
}

/// A BytesMut holding `b` with at least `spare` bytes of room behind it.
pub fn bm(b: &[u8], spare: usize) -> BytesMut {
    let mut m = BytesMut::with_capacity(b.len() + spare);
    m.extend_from_slice(b);
    m
}

/// number of bytes consumed when decoding `whole` left `rest`; Err when `rest` is not its tail
pub fn consumed(whole: &[u8], rest: &[u8]) -> Result<usize, String> {
    if rest.len() > whole.len() || rest != &whole[whole.len() - rest.len()..] {
        return Err("the remainder is not a tail of the input".into());
    }
    Ok(whole.len() - rest.len())
}

/// a static text of any length up to 1 MiB
pub fn static_str(n: usize) -> &'static str {
    use std::sync::OnceLock;
    static S: OnceLock<String> = OnceLock::new();
    &S.get_or_init(|| (0..1usize << 20).map(|i| (b'a' + (i % 26) as u8) as char).collect())[..n]
}

/// the same text with a static lifetime; every distinct text is kept once
pub fn leaked(s: &str) -> &'static str {
    use std::collections::BTreeSet;
    use std::sync::Mutex;
    static S: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
    let mut m = S.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = m.get(s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(x);
    x
}

macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}
pub(crate) use ensure;

/// The texts and numbers written in the library's sources. Code that treats one particular value
/// differently has to name it somewhere, so what the families take from here depends on the tree.
pub struct Dict {
    pub strs: Vec<String>,
    pub nums: Vec<u64>,
}

pub fn dict() -> &'static Dict {
    use std::sync::OnceLock;
    static S: OnceLock<Dict> = OnceLock::new();
    S.get_or_init(|| {
        if let Ok(f) = std::env::var("MC_DICT") {
            let t = std::fs::read_to_string(&f).expect("harness: MC_DICT");
            let mut d = Dict { strs: vec![], nums: vec![] };
            for l in t.lines() {
                match l.split_at(2) {
                    ("n ", x) => d.nums.push(x.parse().expect("harness: MC_DICT")),
                    ("s ", x) => {
                        let b: Vec<u8> = (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).expect("harness: MC_DICT")).collect();
                        d.strs.push(String::from_utf8(b).expect("harness: MC_DICT"));
                    }
                    _ => panic!("harness: MC_DICT"),
                }
            }
            return d;
        }
        let root = std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into());
        dict_of(&[format!("{}/src", root)])
    })
}

pub fn dict_of(roots: &[String]) -> Dict {
    fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        if p.is_dir() {
            if let Ok(rd) = std::fs::read_dir(p) {
                for e in rd.flatten() {
                    walk(&e.path(), out);
                }
            }
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p.to_path_buf());
        }
    }
    let mut files = vec![];
    for r in roots {
        walk(std::path::Path::new(r), &mut files);
    }
    let mut d = Dict { strs: vec![], nums: vec![] };
    for f in files {
        if let Ok(b) = std::fs::read(&f) {
            literals(&String::from_utf8_lossy(&b), &mut d);
        }
    }
    d.strs.retain(|s| s.len() <= 2000);
    d.strs.sort();
    d.strs.dedup();
    d.nums.sort_unstable();
    d.nums.dedup();
    d
}

/// what stands in the quotes, and where they end
fn quoted(c: &[char], mut i: usize, end: char) -> (String, usize) {
    let mut s = String::new();
    while i < c.len() && c[i] != end {
        if c[i] == '\\' && i + 1 < c.len() {
            i += 1;
            match c[i] {
                'n' => s.push('\n'),
                'r' => s.push('\r'),
                't' => s.push('\t'),
                '0' => s.push('\0'),
                'x' if i + 2 < c.len() => {
                    let h: String = c[i + 1..i + 3].iter().collect();
                    if let Ok(x) = u8::from_str_radix(&h, 16) {
                        s.push(x as char);
                    }
                    i += 2;
                }
                'u' => {
                    let mut h = String::new();
                    while i + 1 < c.len() && c[i] != '}' {
                        i += 1;
                        if c[i].is_ascii_hexdigit() {
                            h.push(c[i]);
                        }
                    }
                    if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                        s.push(x);
                    }
                }
                '\n' => {
                    while i + 1 < c.len() && c[i + 1].is_whitespace() {
                        i += 1;
                    }
                }
                x => s.push(x),
            }
        } else {
            s.push(c[i]);
        }
        i += 1;
    }
    (s, i + 1)
}

fn literals(text: &str, d: &mut Dict) {
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    let mut last: Option<(u64, usize)> = None;
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            let mut depth = 1;
            i += 2;
            while i < c.len() && depth > 0 {
                if c[i] == '/' && at(i + 1) == '*' {
                    depth += 1;
                    i += 1;
                } else if c[i] == '*' && at(i + 1) == '/' {
                    depth -= 1;
                    i += 1;
                }
                i += 1;
            }
        } else if x == '"' {
            let (s, j) = quoted(&c, i + 1, '"');
            d.strs.push(s);
            i = j;
        } else if x == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' || (at(i + 2) == '\'' && at(i + 1) != '\'') {
                let (s, j) = quoted(&c, i + 1, '\'');
                if let Some(ch) = s.chars().next() {
                    d.nums.push(ch as u64);
                }
                d.strs.push(s);
                i = j.max(i + 2);
            } else {
                i += 1;
            }
        } else if x.is_ascii_digit() {
            let mut j = i;
            while at(j).is_ascii_alphanumeric() || at(j) == '_' {
                j += 1;
            }
            let t: String = c[i..j].iter().filter(|c| **c != '_').collect();
            let (radix, t) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0b") => (2, &t[2..]),
                Some("0o") => (8, &t[2..]),
                _ => (10, &t[..]),
            };
            let cut = t.find(|c: char| !c.is_digit(radix)).unwrap_or(t.len());
            if let Ok(n) = u64::from_str_radix(&t[..cut], radix) {
                d.nums.push(n);
                // and what it makes with the number before it: 64 * 1024, 1 << 20, u8::MAX and the like
                if let Some((p, e)) = last {
                    let op: String = c[e..i].iter().filter(|x| !x.is_whitespace()).collect();
                    let r = match op.as_str() {
                        "*" => p.checked_mul(n),
                        "+" => p.checked_add(n),
                        "-" => p.checked_sub(n),
                        "/" => p.checked_div(n),
                        "<<" if n < 64 => Some(p << n),
                        _ => None,
                    };
                    last = Some((n, j));
                    if let Some(r) = r {
                        d.nums.push(r);
                        last = Some((r, j));
                    }
                } else {
                    last = Some((n, j));
                }
            }
            i = j;
        } else if x.is_alphabetic() || x == '_' {
            let mut j = i;
            while at(j).is_alphanumeric() || at(j) == '_' {
                j += 1;
            }
            let word: String = c[i..j].iter().collect();
            if (word == "r" || word == "br") && (at(j) == '"' || at(j) == '#') {
                let mut h = 0;
                while at(j + h) == '#' {
                    h += 1;
                }
                if at(j + h) == '"' {
                    let mut k = j + h + 1;
                    let mut s = String::new();
                    while k < c.len() && !(c[k] == '"' && (0..h).all(|q| at(k + 1 + q) == '#')) {
                        s.push(c[k]);
                        k += 1;
                    }
                    d.strs.push(s);
                    j = k + 1 + h;
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
}

/// lengths of contents: all short ones, and those around the sizes at which a length, a buffer or a
/// block is full
pub fn lengths(long: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    v.extend([63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300].iter());
    v.extend([511, 512, 513, 1000, 1023, 1024, 1025].iter());
    if long {
        v.extend([2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16_384, 16_385, 32_768, 65_535, 65_536, 65_537, 70_000, 140_000].iter());
    }
    v
}
/// places in something of this length: all of them while it is short, later those around the ends,
/// the middle, and the sizes at which something may be cut
pub fn places(n: usize) -> Vec<usize> {
    if n <= 300 {
        return (0..n).collect();
    }
    let mut v = vec![0, 1, n / 2, n - 2, n - 1];
    for k in 3..18 {
        let p = 1usize << k;
        for i in [p - 1, p, p + 1].iter() {
            v.push(*i);
            v.push(n.wrapping_sub(*i));
        }
    }
    v.retain(|i| *i < n);
    v.sort_unstable();
    v.dedup();
    v
}
