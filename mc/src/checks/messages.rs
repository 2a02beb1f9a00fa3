//! Properties of messages: C04, C05, C10, C16, C17. The state machine explored is the message
//! builder: a library message and a model are driven through the same operations.
use crate::conv::{bstr, norm_section, FromRv, ToRv};
use crate::explore::{clip, unit, Ctx, Unit, R};
use crate::items::filled;
use crate::rv::{self, RV, RV::*};
use crate::spec;
use crate::util::*;
use amqp_codec::protocol::{self as p, TransferBody};
use amqp_codec::types::{List as AList, Str as AStr, Variant};
use amqp_codec::{Decode, Encode, InMessage, MessageBody, OutMessage};
use bytes::{Bytes, BytesMut};
use std::collections::HashSet;

// ------------------------------------------------------------------ model

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Msg {
    pub header: Option<RV>,
    pub da: Option<RV>,
    pub ma: Option<RV>,
    pub props: Option<RV>,
    /// key and value in the order they were first set
    pub app: Option<Vec<(String, RV)>>,
    pub footer: Option<RV>,
    pub data: Vec<Vec<u8>>,
    pub seq: Vec<RV>,
    pub val: Option<RV>,
    pub nested: Vec<Part>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Part {
    Data(Vec<u8>),
    Msg(Msg),
}

fn sorted(a: &Option<Vec<(String, RV)>>) -> Option<Vec<(String, RV)>> {
    a.as_ref().map(|v| {
        let mut v: Vec<_> = v.iter().map(|(k, x)| (k.clone(), x.canon())).collect();
        v.sort();
        v
    })
}
fn same_opt(a: &Option<RV>, b: &Option<RV>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.same(b),
        _ => false,
    }
}

impl Msg {
    fn body_empty(&self) -> bool {
        self.data.is_empty() && self.seq.is_empty() && self.val.is_none() && self.nested.is_empty()
    }
    /// `got` was read from the wire; is it what this message must look like there?
    pub fn arrives_as(&self, got: &Msg) -> R {
        macro_rules! eq {
            ($f:ident) => {
                ensure!(same_opt(&self.$f, &got.$f), "{} is {:?} instead of {:?}", stringify!($f), got.$f, self.$f)
            };
        }
        eq!(header);
        eq!(da);
        eq!(ma);
        eq!(props);
        eq!(footer);
        ensure!(
            sorted(&self.app) == sorted(&got.app),
            "application properties are {:?} instead of {:?}",
            got.app,
            self.app
        );
        eq!(val);
        ensure!(
            self.seq.len() == got.seq.len() && self.seq.iter().zip(&got.seq).all(|(a, b)| a.same(b)),
            "sequences are {:?} instead of {:?}",
            got.seq,
            self.seq
        );
        ensure!(got.nested.is_empty(), "harness: nested parts from the wire");
        let want_len = self.data.len() + self.nested.len();
        if self.body_empty() {
            // a message without a body is sent with one empty data section
            ensure!(
                got.data.is_empty() || got.data == vec![Vec::<u8>::new()],
                "the empty body arrives as {:?}",
                got.data
            );
            return Ok(());
        }
        ensure!(got.data.len() == want_len, "{} data sections instead of {}", got.data.len(), want_len);
        for (a, b) in self.data.iter().zip(&got.data) {
            ensure!(a == b, "data section {} instead of {}", hex(b), hex(a));
        }
        for (a, b) in self.nested.iter().zip(&got.data[self.data.len()..]) {
            match a {
                Part::Data(d) => ensure!(d == b, "nested data {} instead of {}", hex(b), hex(d)),
                Part::Msg(m) => {
                    let n = parse_msg(b).map_err(|e| format!("nested message: {}", e))?;
                    m.arrives_as(&n).map_err(|e| format!("nested message: {}", e))?;
                }
            }
        }
        Ok(())
    }
}

/// Read an encoded message by the specification alone.
pub fn parse_msg(mut b: &[u8]) -> Result<Msg, String> {
    let mut m = Msg::default();
    let mut last = 0;
    while !b.is_empty() {
        let (v, r) = rv::parse(b)?;
        b = r;
        let v = norm_section(&v)?;
        let (code, x) = match v {
            Desc(ref d, ref x) => match **d {
                Ulong(c) => (c, (**x).clone()),
                _ => return Err("descriptor".into()),
            },
            _ => return Err("section".into()),
        };
        // sections appear in order, and only body sections repeat
        let rank = if (117..=119).contains(&code) { 117 } else { code };
        ensure!(rank > last || (rank == last && rank == 117), "section {} follows section {}", code, last);
        last = rank;
        match code {
            112 => m.header = Some(v),
            113 => m.da = Some(x),
            114 => m.ma = Some(x),
            115 => m.props = Some(v),
            116 => match x {
                Map(e) => {
                    m.app = Some(
                        e.into_iter()
                            .map(|(k, v)| match k {
                                Str(s) => (s, v),
                                k => (format!("{:?}", k), v),
                            })
                            .collect(),
                    )
                }
                _ => unreachable!(),
            },
            117 => match x {
                Bin(d) => m.data.push(d),
                _ => unreachable!(),
            },
            118 => m.seq.push(x),
            119 => {
                ensure!(m.val.is_none(), "two value sections");
                m.val = Some(x)
            }
            120 => m.footer = Some(x),
            _ => unreachable!(),
        }
    }
    Ok(m)
}

// ------------------------------------------------------------------ the two message types

pub trait Api: Encode + Decode + Clone + PartialEq + std::fmt::Debug + Default {
    const NAME: &'static str;
    fn header(&self) -> Option<&p::Header>;
    fn properties(&self) -> Option<&p::Properties>;
    fn body(&self) -> &MessageBody;
    fn value(&self) -> Option<&Variant>;
    fn app(&self, key: &str) -> Option<Variant>;
    /// all of them, where the type shows them
    fn app_all(&self) -> Option<Option<Vec<(String, RV)>>>;
    fn set_header(self, h: p::Header) -> Self;
    fn set_properties(self, f: &dyn Fn(&mut p::Properties)) -> Self;
    fn set_app(self, k: AStr, v: Variant) -> Self;
    fn update(self, f: &dyn Fn(Self) -> Self) -> Self;
    fn if_some(self, v: &Option<u32>, f: &dyn Fn(Self, &u32) -> Self) -> Self;
    fn set_value(self, v: Variant) -> Self;
    fn set_body(self, f: &dyn Fn(&mut MessageBody)) -> Self;
    fn with_body(b: Bytes) -> Self;
    fn with_messages(b: Vec<TransferBody>) -> Self;
    fn reply(&self) -> OutMessage;
    fn format(&mut self) -> &mut Option<u32>;
    fn part(self) -> TransferBody;
}
macro_rules! common {
    ($t:ident, $part:ident) => {
        const NAME: &'static str = stringify!($t);
        fn header(&self) -> Option<&p::Header> {
            $t::header(self)
        }
        fn properties(&self) -> Option<&p::Properties> {
            $t::properties(self)
        }
        fn body(&self) -> &MessageBody {
            $t::body(self)
        }
        fn value(&self) -> Option<&Variant> {
            $t::value(self)
        }
        fn set_header(self, h: p::Header) -> Self {
            $t::set_header(self, h)
        }
        fn set_properties(self, f: &dyn Fn(&mut p::Properties)) -> Self {
            $t::set_properties(self, f)
        }
        fn set_app(self, k: AStr, v: Variant) -> Self {
            $t::set_app_property(self, k, v)
        }
        fn update(self, f: &dyn Fn(Self) -> Self) -> Self {
            $t::update(self, f)
        }
        fn if_some(self, v: &Option<u32>, f: &dyn Fn(Self, &u32) -> Self) -> Self {
            $t::if_some(self, v, f)
        }
        fn set_value(self, v: Variant) -> Self {
            $t::set_value(self, v)
        }
        fn set_body(self, f: &dyn Fn(&mut MessageBody)) -> Self {
            $t::set_body(self, f)
        }
        fn with_body(b: Bytes) -> Self {
            $t::with_body(b)
        }
        fn with_messages(b: Vec<TransferBody>) -> Self {
            $t::with_messages(b)
        }
        fn reply(&self) -> OutMessage {
            $t::reply_message(self)
        }
        fn format(&mut self) -> &mut Option<u32> {
            &mut self.message_format
        }
        fn part(self) -> TransferBody {
            TransferBody::$part(self)
        }
    };
}
impl Api for InMessage {
    common!(InMessage, MessageIn);
    fn app(&self, key: &str) -> Option<Variant> {
        self.app_property(key).cloned()
    }
    fn app_all(&self) -> Option<Option<Vec<(String, RV)>>> {
        None
    }
}
impl Api for OutMessage {
    common!(OutMessage, MessageOut);
    fn app(&self, key: &str) -> Option<Variant> {
        let l = self.app_properties()?;
        l.iter().find(|e| e.0.as_str() == key).map(|e| e.1.clone())
    }
    fn app_all(&self) -> Option<Option<Vec<(String, RV)>>> {
        Some(
            self.app_properties()
                .map(|l| l.iter().map(|(k, v)| (k.as_str().to_string(), v.rv())).collect()),
        )
    }
}

fn enc<T: Encode>(x: &T) -> BytesMut {
    let mut b = BytesMut::with_capacity(x.encoded_size() + 256);
    x.encode(&mut b);
    b
}
/// encode without asking for the size first: the buffer is simply large
pub(super) fn enc_blind<T: Encode>(x: &T) -> BytesMut {
    let mut b = BytesMut::with_capacity(ROOM.with(|r| r.get()));
    x.encode(&mut b);
    b
}
thread_local! {
    /// how large "simply large" is; more only where a unit builds more
    static ROOM: std::cell::Cell<usize> = std::cell::Cell::new(16 << 10);
}

// ------------------------------------------------------------------ operations

fn header(k: usize) -> p::Header {
    match k {
        0 => p::Header { durable: true, priority: 9, ttl: Some(1000), first_acquirer: false, delivery_count: 0 },
        _ => p::Header { durable: false, priority: 4, ttl: None, first_acquirer: true, delivery_count: 300 },
    }
}
fn header_rv(k: usize) -> RV {
    header(k).rv()
}
fn no_props() -> RV {
    RV::desc(115, List(vec![Null; 13]))
}
fn set_field(m: &mut Msg, i: usize, v: RV) {
    let cur = m.props.clone().unwrap_or_else(no_props);
    if let Desc(d, l) = cur {
        if let List(mut l) = *l {
            l[i] = v;
            m.props = Some(Desc(d, Box::new(List(l))));
        }
    }
}
fn set_app(m: &mut Msg, k: &str, v: RV) {
    let l = m.app.get_or_insert_with(Vec::new);
    match l.iter_mut().find(|e| e.0 == k) {
        Some(e) => e.1 = v,
        None => l.push((k.into(), v)),
    }
}

/// the nested messages used as body parts; `seen`: measured before it is put in
fn inner(k: usize, seen: bool) -> (TransferBody, Part) {
    let mut mm = Msg::default();
    let t: TransferBody = match k {
        0 => return (TransferBody::Data(Bytes::from_static(b"raw\x00")), Part::Data(b"raw\x00".to_vec())),
        1 => {
            set_field(&mut mm, 0, Ulong(1));
            InMessage::default().set_properties(|x| x.message_id = Some(1u64.into())).into()
        }
        2 => {
            set_app(&mut mm, "n", Uint(1));
            mm.data.push(b"inner".to_vec());
            OutMessage::with_body(Bytes::from_static(b"inner")).set_app_property("n", 1u32).into()
        }
        3 => {
            // encoded size at the one-byte limit of the enclosing section
            mm.data.push(vec![7; 250]);
            InMessage::with_body(Bytes::from(vec![7u8; 250])).into()
        }
        _ => {
            // two levels
            let mut m2 = Msg::default();
            m2.val = Some(Int(-5));
            mm.nested.push(Part::Msg(m2));
            mm.header = Some(header_rv(0));
            OutMessage::with_messages(vec![InMessage::default().set_value(-5i32).into()])
                .set_header(header(0))
                .into()
        }
    };
    if seen {
        let _ = t.encoded_size();
        let _ = enc(&t);
    }
    (t, Part::Msg(mm))
}

pub const OPS: [&str; 32] = [
    "set_header(a)",
    "set_header(b)",
    "set_properties(message_id = 77)",
    "set_properties(message_id = long text)",
    "set_properties(subject)",
    "set_properties(nothing)",
    "set_properties(correlation_id)",
    "set_app_property(static \"a\", 1)",
    "set_app_property(owned \"a\", text)",
    "set_app_property(\"b\", null)",
    "set_value(5u32)",
    "set_value(text)",
    "set_body(set_data(d1))",
    "set_body(set_data(300 bytes))",
    "set_body(push data)",
    "set_body(push sequence)",
    "set_body(push raw message bytes)",
    "set_body(push InMessage)",
    "set_body(push measured OutMessage)",
    "set_body(push two-level message)",
    "set_body(clear)",
    "set_body(value = None)",
    "update(identity)",
    "update(set_value)",
    "if_some(Some, set_app_property)",
    "if_some(None, ...)",
    "encoded_size()",
    "encode()",
    "continue with a clone",
    "compare with a clone",
    "clone, change and measure the clone",
    "measure, then change through set_body(nothing)",
];

fn text(n: usize) -> String {
    spec::long_str(n)
}

/// Apply one operation to both sides.
pub fn apply<M: Api>(op: usize, m: M, x: &mut Msg) -> Result<M, String> {
    Ok(match op {
        0 | 1 => {
            x.header = Some(header_rv(op));
            m.set_header(header(op))
        }
        2 => {
            set_field(x, 0, Ulong(77));
            m.set_properties(&|q| q.message_id = Some(77u64.into()))
        }
        3 => {
            set_field(x, 0, Str(text(260)));
            m.set_properties(&|q| q.message_id = Some(p::MessageId::String(bstr(&text(260)))))
        }
        4 => {
            set_field(x, 3, Str("subj".into()));
            m.set_properties(&|q| q.subject = Some(bstr("subj")))
        }
        5 => {
            if x.props.is_none() {
                x.props = Some(no_props());
            }
            m.set_properties(&|_| ())
        }
        6 => {
            set_field(x, 5, Bin(vec![1, 2]));
            m.set_properties(&|q| q.correlation_id = Some(p::MessageId::Binary(Bytes::from_static(b"\x01\x02"))))
        }
        7 => {
            set_app(x, "a", Uint(1));
            m.set_app(AStr::from("a"), Variant::from(1u32))
        }
        8 => {
            set_app(x, "a", Str("text".into()));
            m.set_app(AStr::from_str("a"), Variant::from(bstr("text")))
        }
        9 => {
            set_app(x, "b", Null);
            m.set_app(AStr::from("b"), Variant::Null)
        }
        10 => {
            x.val = Some(Uint(5));
            m.set_value(Variant::from(5u32))
        }
        11 => {
            x.val = Some(Str(text(20)));
            m.set_value(Variant::from(bstr(&text(20))))
        }
        12 => {
            x.data = vec![b"d1".to_vec()];
            m.set_body(&|b| b.set_data(Bytes::from_static(b"d1")))
        }
        13 => {
            x.data = vec![vec![3; 300]];
            m.set_body(&|b| b.set_data(Bytes::from(vec![3u8; 300])))
        }
        14 => {
            x.data.push(vec![]);
            x.data.push(b"more".to_vec());
            m.set_body(&|b| {
                b.data.push(Bytes::new());
                b.data.push(Bytes::from_static(b"more"))
            })
        }
        15 => {
            x.seq.push(List(vec![Uint(1), Sym("s".into())]));
            m.set_body(&|b| {
                b.sequence
                    .push(AList(vec![Variant::Uint(1), Variant::Symbol(amqp_codec::types::Symbol::from("s"))]))
            })
        }
        16..=19 => {
            let (k, seen) = [(0, false), (1, false), (2, true), (4, false)][op - 16];
            let (t, part) = inner(k, seen);
            x.nested.push(part);
            m.set_body(&move |b| b.messages.push(t.clone()))
        }
        20 => {
            x.data.clear();
            x.seq.clear();
            x.nested.clear();
            x.val = None;
            m.set_body(&|b| *b = MessageBody::default())
        }
        21 => {
            x.val = None;
            m.set_body(&|b| b.value = None)
        }
        22 => m.update(&|m| m),
        23 => {
            x.val = Some(Bool(true));
            m.update(&|m| m.set_value(Variant::Boolean(true)))
        }
        24 => {
            set_app(x, "c", Uint(3));
            m.if_some(&Some(3), &|m, v| m.set_app(AStr::from("c"), Variant::Uint(*v)))
        }
        25 => m.if_some(&None, &|m, _| m.set_header(header(1))),
        26 => {
            let _ = m.encoded_size();
            m
        }
        27 => {
            let _ = enc_blind(&m);
            m
        }
        28 => m.clone(),
        29 => {
            let c = m.clone();
            ensure!(c == m && m == c, "a message is not equal to its clone");
            m
        }
        30 => {
            let c = m.clone().set_value(Variant::from(bstr(&text(30)))).set_header(header(1));
            let _ = c.encoded_size();
            let _ = enc_blind(&c);
            m
        }
        _ => {
            let _ = m.encoded_size();
            m.set_body(&|_| ())
        }
    })
}

/// does the operation leave the content alone?
fn observes(op: usize) -> bool {
    matches!(op, 22 | 25..=31)
}

fn start<M: Api>(k: usize) -> (M, Msg) {
    let mut x = Msg::default();
    let m = match k {
        0 => M::default(),
        1 => {
            x.data.push(b"start".to_vec());
            M::with_body(Bytes::from_static(b"start"))
        }
        2 => {
            let (a, pa) = inner(3, true);
            let (b, pb) = inner(0, false);
            x.nested = vec![pa, pb];
            M::with_messages(vec![a, b])
        }
        _ => {
            // received from the wire with every section
            let (b, y) = wire_full();
            x = y;
            M::decode(&b).expect("harness: full message").1
        }
    };
    (m, x)
}

fn wire_full() -> (Vec<u8>, Msg) {
    let sy = |s: &str| Sym(s.into());
    let mut x = Msg::default();
    x.header = Some(header_rv(1));
    x.da = Some(Map(vec![(sy("da"), Int(1))]));
    x.ma = Some(Map(vec![(sy("ma"), Str("m".into()))]));
    set_field(&mut x, 0, Str("id".into()));
    x.app = Some(vec![("a".into(), Bool(false)), ("z".into(), Uint(0))]);
    x.footer = Some(Map(vec![(sy("f"), Bin(vec![1]))]));
    x.data = vec![b"w1".to_vec(), b"w2".to_vec()];
    (write(&x), x)
}

/// encode a model message by the specification
/// Messages that differ in little: one section there or not, one byte, one type.
pub(super) fn alike() -> Vec<Msg> {
    let m = |f: &dyn Fn(&mut Msg)| {
        let mut m = Msg::default();
        f(&mut m);
        m
    };
    let sym = |s: &str| Sym(s.into());
    let fields = |v: u32| Map(vec![(sym("k"), Uint(v))]);
    let header = |p: u8| filled(spec::comp("header"), &Desc(Box::new(Ulong(0x70)), Box::new(List(vec![Null, Ubyte(p), Null, Null, Null]))));
    let props = |s: &str| {
        let co = spec::comp("properties");
        let mut l = vec![Null; co.fields.len()];
        l[3] = Str(s.into());
        filled(co, &Desc(Box::new(Ulong(0x73)), Box::new(List(l))))
    };
    let mut v = vec![];
    for d in ["a", "b", "ab", ""].iter() {
        v.push(m(&|m| m.data = vec![d.as_bytes().to_vec()]));
        v.push(m(&|m| m.data = vec![d.as_bytes().to_vec(), b"c".to_vec()]));
        v.push(m(&|m| m.val = Some(Str((*d).into()))));
        v.push(m(&|m| m.val = Some(Bin(d.as_bytes().to_vec()))));
        v.push(m(&|m| m.app = Some(vec![((*d).into(), Uint(1))])));
        v.push(m(&|m| m.props = Some(props(d))));
        v.push(m(&|m| m.seq = vec![List(vec![Str((*d).into())])]));
    }
    for n in [1u32, 2, 257].iter() {
        v.push(m(&|m| m.da = Some(fields(*n))));
        v.push(m(&|m| m.ma = Some(fields(*n))));
        v.push(m(&|m| m.footer = Some(fields(*n))));
        v.push(m(&|m| m.val = Some(Uint(*n))));
        v.push(m(&|m| m.app = Some(vec![("a".into(), Uint(*n))])));
        v.push(m(&|m| m.header = Some(header(*n as u8))));
        v.push(m(&|m| {
            m.header = Some(header(*n as u8));
            m.data = vec![b"a".to_vec()]
        }));
        v.push(m(&|m| {
            m.app = Some(vec![("a".into(), Uint(*n))]);
            m.data = vec![b"a".to_vec()]
        }));
    }
    v
}

pub fn write(x: &Msg) -> Vec<u8> {
    let mut o = vec![];
    let mut put = |v: RV| o.extend_from_slice(&rv::compact(&v));
    if let Some(h) = &x.header {
        put(h.clone());
    }
    if let Some(v) = &x.da {
        put(RV::desc(113, v.clone()));
    }
    if let Some(v) = &x.ma {
        put(RV::desc(114, v.clone()));
    }
    if let Some(v) = &x.props {
        put(v.clone());
    }
    if let Some(v) = &x.app {
        put(RV::desc(116, Map(v.iter().map(|(k, v)| (Str(k.clone()), v.clone())).collect())));
    }
    for d in &x.data {
        put(RV::desc(117, Bin(d.clone())));
    }
    for s in &x.seq {
        put(RV::desc(118, s.clone()));
    }
    if let Some(v) = &x.val {
        put(RV::desc(119, v.clone()));
    }
    if let Some(v) = &x.footer {
        put(RV::desc(120, v.clone()));
    }
    o
}

// ------------------------------------------------------------------ oracles

#[derive(Clone, Copy, PartialEq)]
enum Q {
    /// C04
    RoundTrip,
    /// C05
    Sizes,
    /// C10
    Wire,
    /// C16
    Access,
    /// C17
    Observe,
}

/// everything the accessors show
fn accessors_show<M: Api>(m: &M, x: &Msg) -> R {
    ensure!(
        same_opt(&m.header().map(|h| h.rv()), &x.header),
        "header() shows {:?} instead of {:?}",
        m.header(),
        x.header
    );
    ensure!(
        same_opt(&m.properties().map(|h| h.rv()), &x.props),
        "properties() shows {:?} instead of {:?}",
        m.properties(),
        x.props
    );
    let mut keys: Vec<String> = ["a", "b", "c", "z", "n", ""].iter().map(|k| k.to_string()).collect();
    for (k, _) in x.app.iter().flatten() {
        keys.push(k.clone());
        // texts that are nearly the same
        keys.push(k.to_uppercase());
        keys.push(k.to_lowercase());
        keys.push(format!("{} ", k));
        keys.push(format!("{}\0", k));
        keys.push(k.chars().skip(1).collect());
    }
    for k in keys {
        let k = &k[..];
        let want = x.app.as_ref().and_then(|l| l.iter().find(|e| e.0 == k)).map(|e| e.1.clone());
        let got = m.app(k).map(|v| v.rv());
        ensure!(same_opt(&got, &want), "application property {:?} shows {:?} instead of {:?}", k, got, want);
    }
    if let Some(all) = m.app_all() {
        ensure!(sorted(&all) == sorted(&x.app), "app_properties() shows {:?} instead of {:?}", all, x.app);
    }
    let b = m.body();
    let data: Vec<Vec<u8>> = b.data.iter().map(|d| d.to_vec()).collect();
    ensure!(data == x.data, "body data shows {:?} instead of {:?}", data, x.data);
    ensure!(
        b.data().map(|d| d.to_vec()) == x.data.first().cloned(),
        "body().data() shows {:?} instead of {:?}",
        b.data(),
        x.data.first()
    );
    let seq: Vec<RV> = b.sequence.iter().map(|d| d.rv()).collect();
    ensure!(seq == x.seq, "body sequence shows {:?} instead of {:?}", seq, x.seq);
    ensure!(b.messages.len() == x.nested.len(), "{} nested messages instead of {}", b.messages.len(), x.nested.len());
    for v in [m.value(), b.value(), b.value.as_ref()].iter() {
        ensure!(same_opt(&v.map(|d| d.rv()), &x.val), "value() shows {:?} instead of {:?}", v, x.val);
    }
    for (t, part) in b.messages.iter().zip(&x.nested) {
        let bytes = enc_blind(t);
        match part {
            Part::Data(d) => ensure!(bytes[..] == d[..], "nested data {} instead of {}", hex(&bytes), hex(d)),
            Part::Msg(mm) => mm
                .arrives_as(&parse_msg(&bytes).map_err(|e| format!("nested message: {}", e))?)
                .map_err(|e| format!("nested message: {}", e))?,
        }
    }
    Ok(())
}

fn reply_ok(r: &OutMessage, x: &Msg) -> R {
    // nothing but the correlation id
    let mut want = Msg::default();
    if let Some(Desc(_, l)) = &x.props {
        if let List(l) = l.as_ref() {
            if l[0] == Null {
                // without a message id there is nothing to carry over
                let empty = Msg::default();
                if accessors_show(r, &empty).is_ok() {
                    return Ok(());
                }
            }
            set_field(&mut want, 5, l[0].clone());
        }
    }
    accessors_show(r, &want)?;
    want.arrives_as(&parse_msg(&enc_blind(r))?)
}

/// everything that can be read from a message, and from it encoded and decoded once more
pub fn reads_back<M: Api>(m: &M, x: &Msg) -> R {
    judge(Q::Access, m, x, None)?;
    judge(Q::RoundTrip, m, x, None)
}
fn judge<M: Api>(q: Q, m: &M, x: &Msg, fresh: Option<&M>) -> R {
    match q {
        Q::Sizes => {
            let n = m.encoded_size();
            let b = enc_blind(m);
            ensure!(n == b.len(), "announced {} bytes, wrote {} ({})", n, b.len(), hex(&b));
            let n2 = m.encoded_size();
            ensure!(n2 == n, "the announced size changed from {} to {}", n, n2);
            let bd = m.body();
            ensure!(bd.encoded_size() == enc_blind(bd).len(), "the body announces {} bytes, wrote {}", bd.encoded_size(), enc_blind(bd).len());
            // sizes inside, nested messages included
            x.arrives_as(&parse_msg(&b).map_err(|e| format!("{} ({})", e, hex(&b)))?)
                .map_err(|e| format!("{} ({})", e, hex(&b)))
        }
        Q::RoundTrip => {
            let b = enc(m);
            let (rest, back) = M::decode(&b).map_err(|e| format!("does not decode: {:?} ({})", e, hex(&b)))?;
            ensure!(rest.is_empty(), "{} bytes left of {}", rest.len(), b.len());
            let mut y = Msg::default();
            read(&back, &b, x, &mut y)?;
            x.arrives_as(&y).map_err(|e| format!("{} ({})", e, hex(&b)))?;
            // and encoded once more
            let b2 = enc(&back);
            ensure!(b2.len() == b.len(), "encoding the decoded message gives {} bytes instead of {}", b2.len(), b.len());
            x.arrives_as(&parse_msg(&b2)?).map_err(|e| format!("encoded again: {} ({})", e, hex(&b2)))?;
            let (_, third) = M::decode(&b2).map_err(|e| format!("does not decode again: {:?}", e))?;
            ensure!(same_content(&third, &back), "decoding twice gives different messages");
            // the other message type reads the same
            let other = OutMessage::decode(&b).map_err(|e| format!("does not decode as OutMessage: {:?}", e))?.1;
            let mut y = Msg::default();
            read(&other, &b, x, &mut y)?;
            x.arrives_as(&y).map_err(|e| format!("as OutMessage: {}", e))?;
            let other = InMessage::decode(&b).map_err(|e| format!("does not decode as InMessage: {:?}", e))?.1;
            let mut y = Msg::default();
            read(&other, &b, x, &mut y)?;
            x.arrives_as(&y).map_err(|e| format!("as InMessage: {}", e))
        }
        Q::Wire => {
            let b = enc(m);
            x.arrives_as(&parse_msg(&b).map_err(|e| format!("{} ({})", e, hex(&b)))?)
                .map_err(|e| format!("{} ({})", e, hex(&b)))
        }
        Q::Access => {
            accessors_show(m, x)?;
            reply_ok(&m.reply(), x).map_err(|e| format!("reply: {}", e))?;
            let b = enc(m);
            x.arrives_as(&parse_msg(&b).map_err(|e| format!("{} ({})", e, hex(&b)))?)
                .map_err(|e| format!("encoded: {} ({})", e, hex(&b)))?;
            accessors_show(m, x)
        }
        Q::Observe => {
            let f = fresh.expect("harness");
            ensure!(f == m && m == f, "it is not equal to a message built the same way but never observed");
            ensure!(*m == m.clone(), "it is not equal to its clone");
            let b1 = enc_blind(m);
            let n = m.encoded_size();
            let b2 = enc_blind(m);
            ensure!(b1 == b2, "it encodes differently after its size was queried");
            ensure!(f == m && m == f, "after encoding it is not equal to a message that was never observed");
            let c = m.clone();
            let b3 = enc_blind(&c);
            ensure!(b3.len() == b1.len() && c.encoded_size() == n, "its clone encodes differently");
            x.arrives_as(&parse_msg(&b3)?).map_err(|e| format!("its clone: {}", e))?;
            let b4 = enc_blind(f);
            ensure!(b4.len() == b1.len(), "a message that was never observed encodes to {} bytes, this one to {}", b4.len(), b1.len());
            x.arrives_as(&parse_msg(&b1)?)?;
            x.arrives_as(&parse_msg(&b4)?)?;
            // received from the wire, measured or not, it is the same message
            let (_, w1) = M::decode(&b1).map_err(|e| format!("{:?}", e))?;
            let (_, w2) = M::decode(&b1).map_err(|e| format!("{:?}", e))?;
            let _ = w1.encoded_size();
            ensure!(w1 == w2 && w2 == w1, "two decodings of the same bytes are not equal once one was measured");
            let _ = enc_blind(&w2);
            ensure!(w1.clone() == w2, "two decodings of the same bytes are not equal once one was encoded");
            Ok(())
        }
    }
}

fn same_content<M: Api>(a: &M, b: &M) -> bool {
    let (x, y) = (enc_blind(a), enc_blind(b));
    match (parse_msg(&x), parse_msg(&y)) {
        (Ok(p), Ok(q)) => p.arrives_as(&q).is_ok(),
        _ => false,
    }
}

/// The content of a decoded message as far as its accessors show it; the sections without an
/// accessor are read from its encoding.
fn read<M: Api>(m: &M, _b: &[u8], x: &Msg, y: &mut Msg) -> R {
    y.header = m.header().map(|h| h.rv());
    y.props = m.properties().map(|h| h.rv());
    y.data = m.body().data.iter().map(|d| d.to_vec()).collect();
    y.seq = m.body().sequence.iter().map(|d| d.rv()).collect();
    y.val = m.value().map(|v| v.rv());
    ensure!(m.body().messages.is_empty(), "a decoded message has nested messages");
    y.app = match m.app_all() {
        Some(a) => a,
        None => {
            // by key
            let mut l = vec![];
            for (k, _) in x.app.iter().flatten() {
                if let Some(v) = m.app(k) {
                    l.push((k.clone(), v.rv()));
                }
            }
            if x.app.is_some() {
                Some(l)
            } else {
                None
            }
        }
    };
    let re = parse_msg(&enc_blind(m)).map_err(|e| format!("encoding the decoded message: {}", e))?;
    y.da = re.da;
    y.ma = re.ma;
    y.footer = re.footer;
    ensure!(sorted(&re.app) == sorted(&y.app), "application properties after decoding: {:?}", re.app);
    Ok(())
}

// ------------------------------------------------------------------ units

fn histories<M: Api + 'static>(q: Q, depth: usize, starts: usize) -> Unit {
    unit(format!("{} histories of {} operations", M::NAME, depth), 0, move |c: &mut Ctx| {
        let k = c.choose(starts);
        let (mut m, mut x) = start::<M>(k);
        // the same content without any of the observing operations
        let (mut f, mut fx) = if q == Q::Observe { let (a, b) = start::<M>(k); (Some(a), b) } else { (None, Msg::default()) };
        let mut seen = 0u32;
        for i in 0..depth {
            let op = c.choose(OPS.len() + 1);
            if op == OPS.len() {
                break;
            }
            c.say(|| format!("{}", OPS[op]));
            m = apply(op, m, &mut x)?;
            if matches!(op, 26 | 27 | 31) {
                seen |= 1 << i;
            }
            if let Some(g) = f.take() {
                f = Some(if observes(op) { g } else { apply(op, g, &mut fx)? });
            }
        }
        c.state(&(k, &x, seen));
        c.sample(|| clip(&format!("{:?}", m), 300));
        judge(q, &m, &x, f.as_ref()).map_err(|e| format!("{} {}: {}", M::NAME, clip(&format!("{:?}", m), 600), e))
    })
}

fn both(q: Q, deep: bool) -> Vec<Unit> {
    let d = if deep { 4 } else { 3 };
    let mut v = vec![histories::<InMessage>(q, d, 4), histories::<OutMessage>(q, d, 4)];
    v.push(reachable::<InMessage>(q, deep));
    v.push(reachable::<OutMessage>(q, deep));
    v.push(fields::<InMessage>(q, deep));
    v.push(fields::<OutMessage>(q, deep));
    v.push(headers::<InMessage>(q));
    v.push(headers::<OutMessage>(q));
    v.push(shapes::<InMessage>(q, deep));
    v.push(shapes::<OutMessage>(q, deep));
    v.push(closures::<InMessage>(q, deep));
    v.push(closures::<OutMessage>(q, deep));
    v.push(app_keys::<InMessage>(q, deep));
    v.push(app_keys::<OutMessage>(q, deep));
    v.push(repeated::<InMessage>(q, deep));
    v.push(repeated::<OutMessage>(q, deep));
    v
}

// ---- messages of every shape

/// One message built of at most `budget` parts: header, properties, application properties, data
/// sections, sequences, value, nested raw bytes and nested messages, which are built the same way.
/// `kind` records which of the two types each nested message has.
fn shape<M: Api>(ch: &mut dyn FnMut(usize) -> usize, budget: &mut usize, depth: usize, seen: usize, kind: &mut String) -> (M, Msg) {
    let mut m = M::default();
    let mut x = Msg::default();
    let take = |ch: &mut dyn FnMut(usize) -> usize, budget: &mut usize| {
        if *budget > 0 && ch(2) == 1 {
            *budget -= 1;
            true
        } else {
            false
        }
    };
    if take(ch, budget) {
        x.header = Some(header_rv(depth % 2));
        m = m.set_header(header(depth % 2));
    }
    if take(ch, budget) {
        set_field(&mut x, 0, Ulong(depth as u64));
        m = m.set_properties(&|q| q.message_id = Some((depth as u64).into()));
    }
    if take(ch, budget) {
        set_app(&mut x, "k", Int(depth as i32));
        m = m.set_app(AStr::from("k"), Variant::Int(depth as i32));
    }
    while take(ch, budget) {
        let d = format!("{}", x.data.len()).into_bytes();
        x.data.push(d.clone());
        m = m.set_body(&move |b| b.data.push(Bytes::from(d.clone())));
    }
    while take(ch, budget) {
        let n = x.seq.len() as u8;
        x.seq.push(List(vec![Ubyte(n)]));
        m = m.set_body(&move |b| b.sequence.push(AList(vec![Variant::Ubyte(n)])));
    }
    if take(ch, budget) {
        x.val = Some(Str("v".into()));
        m = m.set_value(Variant::from(bstr("v")));
    }
    if seen == 2 {
        let _ = m.encoded_size();
    }
    while take(ch, budget) {
        let which = ch(if depth > 0 { 3 } else { 1 });
        let (t, part) = match which {
            0 => {
                let d = format!("raw{}", x.nested.len()).into_bytes();
                (TransferBody::Data(Bytes::from(d.clone())), Part::Data(d))
            }
            1 => {
                kind.push_str("i(");
                let (a, y) = shape::<InMessage>(ch, budget, depth - 1, seen, kind);
                kind.push(')');
                (a.part(), Part::Msg(y))
            }
            _ => {
                kind.push_str("o(");
                let (a, y) = shape::<OutMessage>(ch, budget, depth - 1, seen, kind);
                kind.push(')');
                (a.part(), Part::Msg(y))
            }
        };
        if seen == 1 {
            let _ = t.encoded_size();
        }
        x.nested.push(part);
        m = m.set_body(&move |b| b.messages.push(t.clone()));
    }
    (m, x)
}

/// the same, recording the choices
fn shape_of<M: Api>(c: &mut Ctx, total: usize, depth: usize, seen: usize) -> (M, Msg, String, Vec<usize>) {
    let mut took = vec![];
    let mut kind = String::new();
    let mut budget = total;
    let (m, x) = shape::<M>(
        &mut |n| {
            let k = c.choose(n);
            took.push(k);
            k
        },
        &mut budget,
        depth,
        seen,
        &mut kind,
    );
    (m, x, kind, took)
}

fn shapes<M: Api + 'static>(q: Q, deep: bool) -> Unit {
    let total = if deep { 7 } else { 6 };
    unit(format!("{} of every shape of up to {} parts", M::NAME, total), 0, move |c: &mut Ctx| {
        let seen = c.choose(3);
        let (m, x, kind, took) = shape_of::<M>(c, total, 3, seen);
        c.state(&(&x, &kind, seen));
        c.sample(|| clip(&format!("{:?}", x), 300));
        // the same message once more, never observed while it is built
        let f = if q == Q::Observe {
            let mut it = took.iter();
            let mut budget = total;
            Some(shape::<M>(&mut |_| *it.next().expect("harness"), &mut budget, 3, 0, &mut String::new()).0)
        } else {
            None
        };
        judge(q, &m, &x, f.as_ref()).map_err(|e| format!("{} {}: {}", M::NAME, clip(&format!("{:?}", x), 900), e))
    })
}

// ---- properties field by field, and whole headers

fn fields<M: Api + 'static>(q: Q, deep: bool) -> Unit {
    let steps = if deep { 4 } else { 3 };
    unit(format!("{}: {} changes of single properties", M::NAME, steps), 0, move |c: &mut Ctx| {
        let spec = spec::comp("properties");
        let mut m = M::default();
        let mut x = Msg::default();
        let mut f = if q == Q::Observe { Some(M::default()) } else { None };
        let mut before: Vec<usize> = vec![];
        for step in 0..steps {
            // the last changes are to fields changed before
            let i = if step < 2 { c.choose(spec.fields.len()) } else { before[c.choose(before.len())] };
            if !before.contains(&i) {
                before.push(i);
            }
            let v = match c.choose(3) {
                0 => Null,
                k => spec::dist(spec.fields[i].ty, i + 13 * k),
            };
            c.say(|| format!("{} = {:?}", spec.fields[i].name, v));
            set_field(&mut x, i, v.clone());
            let mut one = Msg::default();
            set_field(&mut one, i, v);
            let one = p::Properties::from_rv(&one.props.unwrap());
            let set = move |q: &mut p::Properties| match i {
                0 => q.message_id = one.message_id.clone(),
                1 => q.user_id = one.user_id.clone(),
                2 => q.to = one.to.clone(),
                3 => q.subject = one.subject.clone(),
                4 => q.reply_to = one.reply_to.clone(),
                5 => q.correlation_id = one.correlation_id.clone(),
                6 => q.content_type = one.content_type.clone(),
                7 => q.content_encoding = one.content_encoding.clone(),
                8 => q.absolute_expiry_time = one.absolute_expiry_time.clone(),
                9 => q.creation_time = one.creation_time.clone(),
                10 => q.group_id = one.group_id.clone(),
                11 => q.group_sequence = one.group_sequence,
                _ => q.reply_to_group_id = one.reply_to_group_id.clone(),
            };
            m = m.set_properties(&set);
            if let Some(g) = f.take() {
                f = Some(g.set_properties(&set));
            }
        }
        c.state(&x);
        judge(q, &m, &x, f.as_ref()).map_err(|e| format!("{} {:?}: {}", M::NAME, x.props, e))
    })
}

fn headers<M: Api + 'static>(q: Q) -> Unit {
    unit(format!("{}: all headers", M::NAME), 0, move |c: &mut Ctx| {
        let h = p::Header {
            durable: c.flip(),
            priority: *c.pick(&[0, 1, 3, 4, 5, 9, 10, 127, 128, 255]),
            ttl: *c.pick(&[None, Some(0), Some(1), Some(127), Some(128), Some(255), Some(256), Some(65535), Some(1 << 31), Some(u32::MAX)]),
            first_acquirer: c.flip(),
            delivery_count: *c.pick(&[0, 1, 127, 128, 255, 256, 65536, 1 << 31, u32::MAX]),
        };
        let mut x = Msg::default();
        x.header = Some(h.rv());
        let mut m = M::default();
        if c.flip() {
            m = m.set_header(header(0));
        }
        let m = m.set_header(h.clone());
        let f = M::default().set_header(h);
        c.state(&x);
        judge(q, &m, &x, Some(&f)).map_err(|e| format!("{} {:?}: {}", M::NAME, x.header, e))
    })
}

// ---- the same operations from inside the builder's closures

fn closures<M: Api + 'static>(q: Q, _deep: bool) -> Unit {
    unit(format!("{} operations inside update and if_some", M::NAME), 0, move |c: &mut Ctx| {
        let k = c.choose(4);
        let (mut m, mut x) = start::<M>(k);
        let (mut f, mut fx) = if q == Q::Observe { let (a, b) = start::<M>(k); (Some(a), b) } else { (None, Msg::default()) };
        let o1 = c.choose(OPS.len() + 1);
        let via = c.choose(5);
        let o2 = c.choose(OPS.len());
        if o1 < OPS.len() {
            c.say(|| OPS[o1].to_string());
            m = apply(o1, m, &mut x)?;
            if let Some(g) = f.take() {
                f = Some(if observes(o1) { g } else { apply(o1, g, &mut fx)? });
            }
        }
        // inside a closure only the message is at hand; the model is changed alongside
        let silent = |m: M| -> M { apply(o2, m, &mut Msg::default()).expect("harness: operation") };
        let name = ["update", "if_some(Some)", "if_some(None)", "update(if_some(Some))", "if_some(Some, update)"][via];
        c.say(|| format!("{}({})", name, OPS[o2]));
        if via != 2 {
            let _ = apply(o2, M::default(), &mut x)?;
        }
        m = match via {
            0 => m.update(&silent),
            1 => m.if_some(&Some(1), &|m, _| silent(m)),
            2 => m.if_some(&None, &|m, _| silent(m)),
            3 => m.update(&|m: M| m.if_some(&Some(2), &|m: M, _| silent(m))),
            _ => m.if_some(&Some(3), &|m: M, _| m.update(&silent)),
        };
        if let Some(g) = f.take() {
            f = Some(if observes(o2) || via == 2 { g } else { apply(o2, g, &mut fx)? });
        }
        c.state(&(k, o1, via, o2));
        judge(q, &m, &x, f.as_ref())
            .map_err(|e| format!("{} start {}, {}, {} {}: {}", M::NAME, k, OPS.get(o1).unwrap_or(&"-"), name, OPS[o2], e))
    })
}

// ---- application property keys

fn app_keys<M: Api + 'static>(q: Q, deep: bool) -> Unit {
    let mut keys: Vec<String> = ["a", "A", "", " ", "a ", " a", "a\0", "b", "aa", "ä", "Ä", "a\u{308}", "€", "\u{1F980}", "x-opt-a", "message-id"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for n in [16, 127, 254, 255, 256, 257].iter() {
        keys.push(text(*n));
        // the same but for the last character
        let mut t = text(*n);
        t.pop();
        t.push('#');
        keys.push(t);
    }
    for t in crate::util::dict().strs.iter() {
        if t.len() < 300 && !keys.contains(t) {
            keys.push(t.clone());
        }
    }
    let n = if deep { 3 } else { 2 };
    unit(format!("{} with application properties under every choice of {} keys", M::NAME, n), 0, move |c: &mut Ctx| {
        let mut m = M::default();
        let mut x = Msg::default();
        let mut f = if q == Q::Observe { Some(M::default()) } else { None };
        let mut fixed = vec![];
        for i in 0..n {
            // the third choice is among the first keys and those chosen already
            let k = if i < 2 { c.choose(keys.len()) } else { [0, 1, 2, fixed[0], fixed[1]][c.choose(5)] };
            fixed.push(k);
            let still = c.flip();
            let v = i as u32 + 10;
            c.say(|| format!("{:?} ({}) = {}", keys[k], if still { "static" } else { "owned" }, v));
            let key = || if still { AStr::from(leaked(&keys[k])) } else { AStr::from_str(&keys[k]) };
            set_app(&mut x, &keys[k], Uint(v));
            m = m.set_app(key(), Variant::Uint(v));
            if let Some(g) = f.take() {
                f = Some(g.set_app(key(), Variant::Uint(v)));
            }
        }
        c.state(&x);
        judge(q, &m, &x, f.as_ref()).map_err(|e| format!("{} with {:?}: {}", M::NAME, x.app, e))
    })
}

// ---- one operation many times

fn repeated<M: Api + 'static>(q: Q, deep: bool) -> Unit {
    let mut counts: Vec<usize> = (2..=40).collect();
    counts.extend(126..=130);
    counts.extend(253..=258);
    if deep {
        counts.extend(41..126);
        counts.extend([511, 512, 513, 1023, 1024, 1025, 4096].iter());
    }
    unit(format!("{}: one operation up to {} times", M::NAME, counts.last().unwrap()), 0, move |c: &mut Ctx| {
        let n = *c.pick(&counts);
        // the operations that add something, and keys that differ each time
        let kind = c.choose(8);
        let seen = c.flip();
        let (mut m, mut x) = start::<M>(if kind == 7 { 3 } else { 0 });
        let mut f = if q == Q::Observe { Some(start::<M>(if kind == 7 { 3 } else { 0 })) } else { None };
        let step = |m: M, x: &mut Msg, i: usize| -> Result<M, String> {
            Ok(match kind {
                0 | 7 => {
                    let k = format!("key{}", i);
                    set_app(x, &k, Uint(i as u32));
                    m.set_app(AStr::from_str(&k), Variant::Uint(i as u32))
                }
                1 => {
                    x.data.push(vec![i as u8]);
                    m.set_body(&|b| b.data.push(Bytes::from(vec![i as u8])))
                }
                2 => apply(15, m, x)?,
                3 => apply(16, m, x)?,
                4 => apply(17, m, x)?,
                5 => {
                    set_app(x, "same", Uint(i as u32));
                    m.set_app(AStr::from("same"), Variant::Uint(i as u32))
                }
                _ => {
                    x.data.push(vec![]);
                    m.set_body(&|b| b.data.push(Bytes::new()))
                }
            })
        };
        for i in 0..n {
            m = step(m, &mut x, i)?;
            if seen && i % 3 == 0 {
                let _ = m.encoded_size();
            }
            if let Some((g, mut gx)) = f.take() {
                let g = step(g, &mut gx, i)?;
                f = Some((g, gx));
            }
        }
        c.state(&(n, kind, seen));
        judge(q, &m, &x, f.as_ref().map(|f| &f.0)).map_err(|e| format!("{} {} times operation {}: {}", M::NAME, n, kind, clip(&e, 600)))
    })
}

/// Texts and binaries of many contents and lengths in every section, built and received.
fn contents<M: Api + 'static>(q: Q) -> Unit {
    unit(format!("{} with texts and binaries of many contents", M::NAME), 0, move |c: &mut Ctx| {
        let mut x = Msg::default();
        let mut m = M::default();
        let what = c.choose(5);
        if what == 0 {
            let (co, r) = crate::items::holding_comp(c, &["properties"]);
            let r = filled(co, &r);
            m = m.set_properties(&|q| *q = p::Properties::from_rv(&r));
            x.props = Some(r);
        } else {
            let style = c.choose(crate::items::STYLES);
            let n = *c.pick(crate::items::content_lens());
            let b = crate::items::content(n, style);
            match what {
                1 => {
                    m = m.set_body(&|q| q.data.push(Bytes::from(b.clone())));
                    x.data.push(b);
                }
                2 => {
                    let h = crate::items::holding(spec::Ty::Any, n, style);
                    let r = c.pick(&h).clone();
                    m = m.set_value(Variant::from_rv(&r));
                    x.val = Some(r);
                }
                3 => {
                    // under this key
                    let k = match String::from_utf8(b) {
                        Ok(k) => k,
                        Err(_) => return Ok(()),
                    };
                    m = m.set_app(AStr::from_str(&k), Variant::Uint(1));
                    set_app(&mut x, &k, Uint(1));
                    m = m.set_app(AStr::from("k"), Variant::Uint(2));
                    set_app(&mut x, "k", Uint(2));
                }
                _ => {
                    let h = crate::items::holding(spec::Ty::Any, n, style);
                    let r = c.pick(&h).clone();
                    m = m.set_app(AStr::from("k"), Variant::from_rv(&r));
                    set_app(&mut x, "k", r);
                }
            }
        }
        c.state(&x);
        c.say(|| format!("{:?}", x));
        let f = if q == Q::Observe { Some(m.clone()) } else { None };
        judge(q, &m, &x, f.as_ref()).map_err(|e| format!("{} {:?}: {}", M::NAME, x, clip(&e, 800)))?;
        let w = write(&x);
        let (rest, m) = M::decode(&w).map_err(|e| format!("{} {:?} does not decode: {:?} ({})", M::NAME, x, e, hex(&w)))?;
        ensure!(rest.is_empty(), "{} bytes left of {}", rest.len(), hex(&w));
        let f = if q == Q::Observe { Some(m.clone()) } else { None };
        judge(q, &m, &x, f.as_ref()).map_err(|e| format!("{} from {}: {}", M::NAME, hex(&w), clip(&e, 800)))
    })
}

// ---- set, and set again to something that is nearly the same

/// Values that are alike: the same number, text or bytes in every type that can hold them, the
/// same elements in another order, one more or one less.
fn like(deep: bool) -> Vec<RV> {
    let mut v = vec![Null, Bool(false), Bool(true)];
    let ns: &[i64] = if deep { &[0, 1, 2, 5, 48, 97, 127, 128, 255, 256, 500, 65_536, -1, -2, -128] } else { &[0, 1, 5, 97, 128, 256, -1] };
    for &n in ns {
        if n >= 0 {
            v.push(Ulong(n as u64));
            v.push(Uint(n as u32));
            if n < 65_536 {
                v.push(Ushort(n as u16));
            }
            if n < 256 {
                v.push(Ubyte(n as u8));
            }
            v.push(Char(n as u32));
        }
        v.push(Long(n));
        v.push(Int(n as i32));
        if n >= -32_768 && n < 32_768 {
            v.push(Short(n as i16));
        }
        if n >= -128 && n < 128 {
            v.push(Byte(n as i8));
        }
        v.push(Ts(n));
        v.push(Float((n as f32).to_bits()));
        v.push(Double((n as f64).to_bits()));
    }
    for t in ["", "0", "1", "5", "a", "A", "ab", "ba", "abc", "a ", "true", "null"].iter() {
        v.push(Str((*t).into()));
        v.push(Sym((*t).into()));
        v.push(Bin(t.as_bytes().to_vec()));
    }
    for t in ["\u{e9}", "e\u{301}", "a\0"].iter() {
        v.push(Str((*t).into()));
        v.push(Bin(t.as_bytes().to_vec()));
    }
    v.push(RV::Uuid([0; 16]));
    v.push(RV::Uuid([1; 16]));
    v.push(Bin(vec![0; 16]));
    v.push(Bin(vec![1; 16]));
    let e = |n: u32| Uint(n);
    for l in [&[][..], &[1][..], &[5][..], &[1, 5][..], &[5, 1][..], &[1, 5, 5][..]].iter() {
        v.push(List(l.iter().map(|n| e(*n)).collect()));
    }
    v.push(List(vec![Ulong(5)]));
    v.push(List(vec![List(vec![])]));
    let k = |s: &str| Str(s.into());
    v.push(Map(vec![]));
    v.push(Map(vec![(k("a"), e(1))]));
    v.push(Map(vec![(k("a"), e(5))]));
    v.push(Map(vec![(k("b"), e(1))]));
    v.push(Map(vec![(k("a"), e(1)), (k("b"), e(5))]));
    v.push(Map(vec![(k("a"), e(5)), (k("b"), e(1))]));
    v.push(Map(vec![(Sym("a".into()), e(1))]));
    v.push(Map(vec![(e(1), k("a"))]));
    v.push(RV::desc(1, e(5)));
    v.push(RV::desc(5, e(5)));
    v.push(RV::desc(5, e(1)));
    v.push(Desc(Box::new(Sym("a".into())), Box::new(e(5))));
    v.push(Desc(Box::new(Sym("5".into())), Box::new(e(5))));
    v
}

fn set_again<M: Api + 'static>(q: Q, deep: bool) -> Unit {
    unit(format!("{}: set and set again to something alike", M::NAME), 0, move |c: &mut Ctx| {
        let what = c.choose(3);
        let vs: Vec<RV> = match what {
            0 | 1 => like(deep),
            _ => {
                let co = spec::comp("header");
                let mut out = vec![];
                for (i, f) in co.fields.iter().enumerate() {
                    for x in super::history3::near(f.ty, deep) {
                        if let Desc(d, l) = spec::full(co, 0) {
                            if let List(mut l) = *l {
                                l[i] = x.clone();
                                out.push(filled(co, &Desc(d, Box::new(List(l)))));
                            }
                        }
                    }
                }
                out
            }
        };
        let (a, b) = (c.choose(vs.len()), c.choose(vs.len()));
        // what else is there; measured in between
        let more = c.choose(3);
        let seen = q != Q::RoundTrip && c.flip();
        let build = |seen: bool| -> (M, Msg) {
            let (mut m, mut x) = (M::default(), Msg::default());
            let before: &[&str] = [&[][..], &["z"][..], &["a", "z"][..]][more];
            for k in before {
                set_app(&mut x, k, Uint(1));
                m = m.set_app(AStr::from_str(k), Variant::Uint(1));
            }
            for (n, r) in [&vs[a], &vs[b]].iter().enumerate() {
                match what {
                    0 => {
                        set_app(&mut x, "k", (*r).clone());
                        m = m.set_app(if n == 0 { AStr::from("k") } else { AStr::from_str("k") }, Variant::from_rv(r));
                    }
                    1 => {
                        x.val = Some((*r).clone());
                        m = m.set_value(Variant::from_rv(r));
                    }
                    _ => {
                        x.header = Some((*r).clone());
                        m = m.set_header(p::Header::from_rv(r));
                    }
                }
                if n == 0 && more == 2 {
                    set_app(&mut x, "y", Uint(2));
                    m = m.set_app(AStr::from("y"), Variant::Uint(2));
                }
                if n == 0 && seen {
                    let _ = m.encoded_size();
                    let _ = enc_blind(&m);
                }
            }
            (m, x)
        };
        let (m, x) = build(seen);
        c.state(&(what, a, b, more));
        c.say(|| format!("{:?} then {:?}", vs[a], vs[b]));
        c.sample(|| format!("{:?} then {:?}", vs[a], vs[b]));
        let f = if q == Q::Observe { Some(build(false).0) } else { None };
        judge(q, &m, &x, f.as_ref()).map_err(|e| format!("{} set to {:?} and then to {:?}: {}", M::NAME, vs[a], vs[b], e))
    })
}

/// Every pair of messages that hold one of the values that are alike, in the same place.
fn values_alike<M: Api + 'static>(deep: bool) -> Unit {
    unit(format!("{}s that hold values that are alike, every pair", M::NAME), 0, move |c: &mut Ctx| {
        let vs = like(deep);
        let (a, b) = (c.choose(vs.len()), c.choose(vs.len()));
        let place = c.choose(5);
        let make = |r: &RV| -> M {
            let v = Variant::from_rv(r);
            match place {
                0 => M::default().set_value(v),
                1 => M::default().set_app(AStr::from("k"), v),
                2 => M::default().set_body(&|b| b.sequence.push(AList::from_rv(&List(vec![r.clone()])))),
                3 => M::default().set_app(AStr::from("z"), Variant::Uint(1)).set_app(AStr::from("k"), v),
                // and received
                _ => {
                    let mut x = Msg::default();
                    x.val = Some(r.clone());
                    x.app = Some(vec![("k".into(), r.clone())]);
                    M::decode(&write(&x)).expect("decodes").1
                }
            }
        };
        let (x, y) = (make(&vs[a]), make(&vs[b]));
        let same = vs[a].same(&vs[b]);
        c.state(&(place, a, b));
        c.say(|| format!("{:?} and {:?}", vs[a], vs[b]));
        c.outcome(if same { "equal" } else { "different" });
        let told = |w: &str| -> R {
            ensure!((x == y) == same && (y == x) == same, "{}s that hold {:?} and {:?} ({}) compare {}", M::NAME, vs[a], vs[b], w, !same);
            Ok(())
        };
        told("new")?;
        let _ = x.encoded_size();
        told("one measured")?;
        let _ = enc_blind(&y);
        told("one encoded")?;
        let (p, q) = (x.clone().part(), y.clone().part());
        ensure!((p == q) == same, "as transfer bodies messages that hold {:?} and {:?} compare {}", vs[a], vs[b], !same);
        Ok(())
    })
}

/// Bodies of several data sections, sequences or nested parts that hold nearly the same, in
/// particular the same bytes cut differently: every pair.
fn parts_alike<M: Api + 'static>(deep: bool) -> Unit {
    let max = if deep { 4 } else { 3 };
    unit(format!("{}s of up to {} parts that are alike, every pair", M::NAME, max), 0, move |c: &mut Ctx| {
        let kind = c.choose(4);
        const DATA: [&str; 7] = ["", "a", "b", "ab", "bc", "abc", "c"];
        let n = match kind {
            0 => DATA.len(),
            _ => 4,
        };
        let pick = |c: &mut Ctx| -> Vec<usize> {
            let k = c.choose(if kind == 0 && deep { 4 } else { max + 1 });
            (0..k).map(|_| c.choose(n)).collect()
        };
        let (a, b) = (pick(c), pick(c));
        let make = |v: &[usize]| -> M {
            match kind {
                0 => M::default().set_body(&|b| b.data = v.iter().map(|i| Bytes::from_static(DATA[*i].as_bytes())).collect()),
                1 => M::default().set_body(&|b| {
                    b.sequence = v.iter().map(|i| AList::from_rv(&List([&[][..], &[1][..], &[2][..], &[1, 2][..]][*i].iter().map(|n| Uint(*n)).collect()))).collect()
                }),
                2 => M::with_messages(v.iter().map(|i| TransferBody::Data(Bytes::from_static(DATA[*i].as_bytes()))).collect()),
                _ => M::with_messages(
                    v.iter()
                        .map(|i| match i {
                            0 => OutMessage::default().into(),
                            1 => OutMessage::with_body(Bytes::from_static(b"a")).into(),
                            2 => OutMessage::with_body(Bytes::from_static(b"ab")).into(),
                            _ => OutMessage::default().set_value(Variant::Uint(1)).into(),
                        })
                        .collect(),
                ),
            }
        };
        let (x, y) = (make(&a), make(&b));
        let same = a == b;
        c.state(&(kind, &a, &b));
        c.say(|| format!("{:?} and {:?}", a, b));
        c.outcome(if same { "equal" } else { "different" });
        ensure!((x == y) == same && (y == x) == same, "{:?} and {:?} compare {}", x, y, !same);
        ensure!((x.body() == y.body()) == same, "the bodies of {:?} and {:?} compare {}", x, y, !same);
        let _ = x.encoded_size();
        ensure!((x == y) == same && (y == x) == same, "{:?} and {:?} compare {} when one was measured", x, y, !same);
        Ok(())
    })
}

/// Messages that hold contents of every length, and differ in one byte of it, or by one byte.
fn one_byte<M: Api + 'static>() -> Unit {
    unit(format!("{}s with contents of every length that differ in one byte", M::NAME), 0, move |c: &mut Ctx| {
        let n = *c.pick(&lengths(true));
        let place = c.choose(12);
        const PLACES: [&str; 12] = [
            "data", "second data", "value binary", "value text", "value symbol", "list in a sequence", "application property", "application property named so",
            "nested data", "nested message", "message-id", "group-id",
        ];
        c.states(1);
        c.say(|| format!("{} bytes as {}", n, PLACES[place]));
        let make = |b: &[u8], other: bool| -> M {
            let t = || std::str::from_utf8(b).expect("text");
            let bytes = || if other { Bytes::from_static(leaked(std::str::from_utf8(b).unwrap()).as_bytes()) } else { Bytes::from(b) };
            let text = || if other { AStr::from(leaked(t())) } else { AStr::from_str(t()) };
            match place {
                0 => M::default().set_body(&|q| q.data.push(bytes())),
                1 => M::default().set_body(&|q| {
                    q.data.push(Bytes::from_static(b"first"));
                    q.data.push(bytes());
                }),
                2 => M::default().set_value(Variant::Binary(bytes())),
                3 => M::default().set_value(Variant::String(text())),
                4 => M::default().set_value(Variant::from_rv(&Sym(t().into()))),
                5 => M::default().set_body(&|q| q.sequence.push(AList::from_rv(&List(vec![Uint(1), Bin(b.to_vec())])))),
                6 => M::default().set_app(AStr::from("k"), Variant::Binary(bytes())),
                7 => M::default().set_app(text(), Variant::Uint(1)),
                8 => M::with_messages(vec![TransferBody::Data(Bytes::from_static(b"first")), TransferBody::Data(bytes())]),
                9 => M::with_messages(vec![OutMessage::with_body(bytes()).into()]),
                10 => M::default().set_properties(&|q| q.message_id = Some(p::MessageId::Binary(bytes()))),
                _ => M::default().set_properties(&|q| q.group_id = Some(bstr(t()))),
            }
        };
        let base: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let (a, same) = (make(&base, false), make(&base, true));
        ensure!(a == same && same == a, "two {}s with the same {} bytes as {} are different", M::NAME, n, PLACES[place]);
        let pa = a.clone().part();
        ensure!(pa == same.clone().part(), "two {}s with the same {} bytes as {} are different transfer bodies", M::NAME, n, PLACES[place]);
        let mut other = |b: &[u8], w: &dyn Fn() -> String| -> R {
            let d = make(b, false);
            c.outcome("different");
            ensure!(a != d && d != a, "two {}s with {} bytes as {} that differ {} are equal", M::NAME, n, PLACES[place], w());
            if n < 64 || n > 4000 {
                ensure!(pa != d.part(), "two {}s with {} bytes as {} that differ {} are equal transfer bodies", M::NAME, n, PLACES[place], w());
            }
            Ok(())
        };
        let mut b = base.clone();
        for i in places(n) {
            for x in [b'#', b'A' + (i % 26) as u8] {
                b[i] = x;
                other(&b, &|| format!("at {}", i))?;
            }
            b[i] = base[i];
            if i + 1 < n {
                b.swap(i, i + 1);
                other(&b, &|| format!("at {} and {}", i, i + 1))?;
                b.swap(i, i + 1);
            }
        }
        for x in [&b" "[..], b"a", b"\0"] {
            other(&[&base[..], x].concat(), &|| format!("by {:?} at the end", x))?;
            other(&[x, &base[..]].concat(), &|| format!("by {:?} in front", x))?;
        }
        if n > 0 {
            other(&base[1..], &|| "by the first byte".into())?;
            other(&base[..n - 1], &|| "by the last byte".into())?;
        }
        Ok(())
    })
}

/// One or two application properties: every key with every value.
fn every_property<M: Api + 'static>(q: Q, deep: bool) -> Unit {
    const KEYS: [&str; 16] = ["", " ", "a", "k", "key", "0", "\0", "\u{e9}", "x-opt-a", "amqp:", "to", "subject", "message-id", "com.example.long-name:1", "A", "\u{1f600}"];
    unit(format!("{}s with one or two application properties, every key and every value", M::NAME), 0, move |c: &mut Ctx| {
        let mut vs = like(deep);
        vs.extend(super::history3::near(spec::Ty::Any, deep));
        let i = c.choose(KEYS.len());
        let r = c.pick(&vs).clone();
        let more = c.choose(4);
        let wire = c.flip();
        let mut x = Msg::default();
        let second = KEYS[(i + 1) % KEYS.len()];
        if more == 1 {
            set_app(&mut x, second, Null);
        }
        set_app(&mut x, KEYS[i], r.clone());
        if more == 2 {
            set_app(&mut x, second, r.clone());
        }
        if more == 3 {
            set_app(&mut x, second, Uint(1));
        }
        c.state(&(i, &r, more, wire));
        c.say(|| format!("{:?}", x));
        c.sample(|| format!("{:?}", x));
        let build = || -> M {
            let mut m = M::default();
            for (k, v) in x.app.as_ref().unwrap() {
                m = m.set_app(if i % 2 == 0 { AStr::from(leaked(k)) } else { AStr::from_str(k) }, Variant::from_rv(v));
            }
            m
        };
        let m = if wire { M::decode(&write(&x)).map_err(|e| format!("{:?} does not decode: {:?}", x, e))?.1 } else { build() };
        let f = if q == Q::Observe { Some(m.clone()) } else { None };
        judge(q, &m, &x, f.as_ref()).map_err(|e| format!("{} {:?}: {}", M::NAME, x, clip(&e, 800)))
    })
}

// ---- equality

/// Every pair out of all messages of up to a few parts, each built on its own: equal exactly when
/// they hold the same.
fn equality<M: Api + 'static>(deep: bool) -> Unit {
    let total = if deep { 4 } else { 3 };
    unit(format!("all pairs of {}s of up to {} parts", M::NAME, total), 0, move |c: &mut Ctx| {
        let (a, x, k1, _) = shape_of::<M>(c, total, 2, 0);
        let (b, y, k2, _) = shape_of::<M>(c, total, 2, 0);
        let same = x == y;
        c.state(&(&x, &y, &k1, &k2));
        if same && k1 != k2 {
            // the same content held in messages of the other type: not settled
            return Ok(());
        }
        c.outcome(if same { "equal" } else { "different" });
        let told = |a: &M, b: &M, w: &str| -> R {
            ensure!((a == b) == same && (b == a) == same, "{}: {:?} and {:?} compare {}", w, a, b, !same);
            Ok(())
        };
        told(&a, &b, "new")?;
        let _ = a.encoded_size();
        told(&a, &b, "one measured")?;
        let (pa, pb) = (a.clone().part(), b.clone().part());
        ensure!((pa == pb) == same, "as transfer bodies {:?} and {:?} compare {}", pa, pb, !same);
        let mut t1 = p::Transfer {
            handle: 1,
            delivery_id: None,
            delivery_tag: None,
            message_format: None,
            settled: None,
            more: false,
            rcv_settle_mode: None,
            state: None,
            resume: false,
            aborted: false,
            batchable: false,
            body: Some(pa),
        };
        let t2 = p::Transfer { body: Some(pb), ..t1.clone() };
        ensure!((t1 == t2) == same, "as transfers {:?} and {:?} compare {}", t1, t2, !same);
        t1.handle = 2;
        ensure!(t1 != t2, "transfers with different handles are equal");
        let _ = enc_blind(&b);
        told(&a, &b, "one encoded")?;
        // and with another format
        let mut z = b.clone();
        *z.format() = Some(0);
        ensure!(z != b, "messages with different formats are equal: {:?}", z);
        Ok(())
    })
}

/// Messages from the wire that differ in a few sections, or not at all.
fn received_pairs<M: Api + 'static>(deep: bool) -> Unit {
    unit(format!("pairs of {}s from the wire", M::NAME), if deep { 4 } else { 3 }, |c: &mut Ctx| {
        let ann = |k: usize, t: &str| -> Option<RV> {
            let e = |v: RV| Map(vec![(Sym(t.into()), v), (Sym("x".into()), List(vec![Null]))]);
            match k {
                0 => None,
                1 => Some(e(Str("a".into()))),
                2 => Some(e(Str("b".into()))),
                3 => Some(e(Sym("a".into()))),
                _ => Some(Map(vec![])),
            }
        };
        let make = |v: &[usize; 8]| {
            let mut x = Msg::default();
            x.header = match v[0] {
                0 => None,
                k => Some(header_rv(k - 1)),
            };
            x.da = ann(v[1], "k");
            x.ma = ann(v[2], "k");
            x.props = match v[3] {
                0 => None,
                4 => Some(no_props()),
                k => Some(spec::full(spec::comp("properties"), k - 1)),
            };
            x.app = match v[4] {
                0 => None,
                1 => Some(vec![("k".into(), Uint(1))]),
                2 => Some(vec![("k".into(), Uint(2))]),
                3 => Some(vec![("l".into(), Uint(1))]),
                _ => Some(vec![]),
            };
            match v[5] {
                0 => x.data = vec![vec![]],
                1 => x.data = vec![b"one".to_vec()],
                2 => x.data = vec![b"one".to_vec(), vec![]],
                3 => x.data = vec![b"onf".to_vec()],
                _ => x.data = vec![vec![], b"one".to_vec()],
            }
            match v[6] {
                0 => {}
                1 => x.seq = vec![List(vec![Int(1)])],
                2 => x.seq = vec![List(vec![Int(2)])],
                3 => x.val = Some(Int(1)),
                _ => x.val = Some(List(vec![Int(1)])),
            }
            // one kind of body only
            if v[6] > 0 {
                x.data.clear();
            }
            x.footer = ann(v[7], "k");
            x
        };
        let ns = [4usize, 5, 5, 5, 5, 5, 5, 5];
        let k = c.choose(4);
        let mut va = [k; 8];
        for (i, n) in ns.iter().enumerate() {
            va[i] = va[i].min(n - 1);
        }
        if k == 3 {
            // body in data sections
            va[6] = 0;
        }
        let mut vb = va;
        for i in 0..8 {
            let d = c.dev(ns[i]);
            vb[i] = (va[i] + d) % ns[i];
        }
        let (x, y) = (make(&va), make(&vb));
        let same = x == y;
        c.state(&(va, vb));
        c.say(|| format!("{:?} and {:?}", x, y));
        c.sample(|| format!("{} and {}", hex(&write(&x)), hex(&write(&y))));
        c.outcome(if same { "equal" } else { "different" });
        let get = |x: &Msg| -> Result<M, String> {
            M::decode(&write(x)).map(|(_, m)| m).map_err(|e| format!("{:?} does not decode: {:?}", x, e))
        };
        let (a, b) = (get(&x)?, get(&y)?);
        let told = |a: &M, b: &M, w: &str| -> R {
            ensure!((a == b) == same && (b == a) == same, "{}: the messages {} and {} compare {}", w, hex(&write(&x)), hex(&write(&y)), if same { "different" } else { "equal" });
            Ok(())
        };
        told(&a, &b, "received")?;
        let _ = a.encoded_size();
        told(&a, &b, "one measured")?;
        told(&a.clone(), &b, "one cloned")?;
        let (pa, pb) = (a.clone().part(), b.clone().part());
        ensure!((pa == pb) == same, "as transfer bodies {:?} and {:?} compare {}", pa, pb, !same);
        let _ = enc_blind(&b);
        told(&a, &b, "one encoded")?;
        let _ = enc_blind(&a);
        told(&a.clone(), &b.clone(), "both encoded and cloned")?;
        Ok(())
    })
}

/// Breadth-first closure: every reachable combination of model content and size-cache status, each
/// expanded with every operation once, to a depth the plain histories cannot reach.
fn reachable<M: Api + 'static>(q: Q, deep: bool) -> Unit {
    let depth = if deep { 8 } else { 5 };
    let limit = if deep { 60_000 } else { 6_000 };
    unit(format!("{} reachable states to depth {}", M::NAME, depth), 0, move |c: &mut Ctx| {
        // the first operations split the work
        let k = c.choose(4);
        let o1 = c.choose(OPS.len());
        let mut seen: HashSet<u64> = HashSet::new();
        let mut level: Vec<Vec<u8>> = vec![vec![o1 as u8]];
        let mut n = 0u64;
        let mut execs = 0u64;
        let rebuild = |h: &[u8]| -> Result<(M, Msg, Option<M>, u8), String> {
            let (mut m, mut x) = start::<M>(k);
            let (mut f, mut fx) = if q == Q::Observe { let (a, b) = start::<M>(k); (Some(a), b) } else { (None, Msg::default()) };
            let mut cached = 0;
            for o in h {
                let o = *o as usize;
                m = apply(o, m, &mut x)?;
                cached = match o {
                    26 => 1,
                    27 => cached | 2,
                    28..=30 | 25 => cached,
                    _ => 0,
                };
                if let Some(g) = f.take() {
                    f = Some(if observes(o) { g } else { apply(o, g, &mut fx)? });
                }
            }
            Ok((m, x, f, cached))
        };
        for d in 1..=depth {
            let mut next = vec![];
            for h in &level {
                let (m, x, f, cached) = rebuild(h)?;
                execs += 1;
                // bodies may grow without end: states with more than this are not expanded
                let big = x.data.len() > 4 || x.seq.len() > 2 || x.nested.len() > 3;
                let key = {
                    use std::hash::{Hash, Hasher};
                    let mut hs = crate::explore::Fx(17);
                    (&x, cached).hash(&mut hs);
                    hs.finish()
                };
                if !seen.insert(key) {
                    continue;
                }
                n += 1;
                judge(q, &m, &x, f.as_ref()).map_err(|e| {
                    let ops: Vec<&str> = h.iter().map(|o| OPS[*o as usize]).collect();
                    format!("{} after {}: {}", M::NAME, ops.join(", "), e)
                })?;
                if d < depth && !big && next.len() < limit {
                    for o in 0..OPS.len() {
                        let mut g = h.clone();
                        g.push(o as u8);
                        next.push(g);
                    }
                }
            }
            if next.len() >= limit {
                c.outcome("frontier limit reached");
            }
            level = next;
        }
        c.states(n);
        c.traces(execs);
        Ok(())
    })
}

pub fn round_trip(deep: bool) -> Vec<Unit> {
    let mut us = both(Q::RoundTrip, deep);
    us.extend(wire(Q::RoundTrip, deep));
    us.push(set_again::<InMessage>(Q::RoundTrip, deep));
    us.push(contents::<InMessage>(Q::RoundTrip));
    us.push(every_property::<InMessage>(Q::RoundTrip, deep));
    us.push(every_property::<OutMessage>(Q::RoundTrip, deep));
    us.push(contents::<OutMessage>(Q::RoundTrip));
    us.push(set_again::<OutMessage>(Q::RoundTrip, deep));
    us.push(boundary(Q::RoundTrip));
    us
}
pub fn sizes(deep: bool) -> Vec<Unit> {
    let mut us = both(Q::Sizes, deep);
    us.extend(wire(Q::Sizes, deep));
    us.push(set_again::<InMessage>(Q::Sizes, deep));
    us.push(contents::<InMessage>(Q::Sizes));
    us.push(every_property::<InMessage>(Q::Sizes, deep));
    us.push(every_property::<OutMessage>(Q::Sizes, deep));
    us.push(contents::<OutMessage>(Q::Sizes));
    us.push(set_again::<OutMessage>(Q::Sizes, deep));
    us.push(boundary(Q::Sizes));
    us
}
pub fn standard(deep: bool) -> Vec<Unit> {
    let mut us = both(Q::Wire, deep);
    us.push(boundary(Q::Wire));
    us
}
pub fn accessors(deep: bool) -> Vec<Unit> {
    let mut us = both(Q::Access, deep);
    us.extend(wire(Q::Access, deep));
    us.extend(replies());
    us.push(set_again::<InMessage>(Q::Access, deep));
    us.push(contents::<InMessage>(Q::Access));
    us.push(every_property::<InMessage>(Q::Access, deep));
    us.push(every_property::<OutMessage>(Q::Access, deep));
    us.push(contents::<OutMessage>(Q::Access));
    us.push(set_again::<OutMessage>(Q::Access, deep));
    us
}
pub fn observing(deep: bool) -> Vec<Unit> {
    let mut us = both(Q::Observe, deep);
    us.extend(wire(Q::Observe, deep));
    us.push(set_again::<InMessage>(Q::Observe, deep));
    us.push(set_again::<OutMessage>(Q::Observe, deep));
    us.push(values_alike::<InMessage>(deep));
    us.push(values_alike::<OutMessage>(deep));
    us.push(parts_alike::<InMessage>(deep));
    us.push(parts_alike::<OutMessage>(deep));
    us.push(one_byte::<InMessage>());
    us.push(one_byte::<OutMessage>());
    us.push(every_property::<InMessage>(Q::Observe, deep));
    us.push(every_property::<OutMessage>(Q::Observe, deep));
    us.push(equality::<InMessage>(deep));
    us.push(equality::<OutMessage>(deep));
    us.push(received_pairs::<InMessage>(deep));
    us.push(received_pairs::<OutMessage>(deep));
    us
}

/// nested messages and data of every size around the one-byte limit
fn boundary(q: Q) -> Unit {
    unit("section sizes around the one-byte limit", 0, move |c: &mut Ctx| {
        // every size up to 300, and the sizes where a length needs a third
        // and a fourth byte
        let n = match c.choose(305) {
            n if n < 300 => n,
            k => [65_535, 65_536, (1 << 24) - 1, 1 << 24, (1 << 24) + 1][k - 300],
        };
        let kind = c.choose(5);
        ROOM.with(|r| r.set((16 << 10) + 2 * n));
        let mut x = Msg::default();
        let d = vec![n as u8; n];
        let m = match kind {
            0 => {
                x.data.push(d.clone());
                OutMessage::with_body(Bytes::from(d))
            }
            1 => {
                let mut y = Msg::default();
                y.data.push(d.clone());
                x.nested.push(Part::Msg(y));
                OutMessage::with_messages(vec![InMessage::with_body(Bytes::from(d)).into()])
            }
            2 => {
                let mut y = Msg::default();
                set_app(&mut y, "k", Bin(d.clone()));
                x.nested.push(Part::Msg(y));
                x.nested.push(Part::Data(d.clone()));
                OutMessage::with_messages(vec![
                    OutMessage::default().set_app_property("k", Bytes::from(d.clone())).into(),
                    TransferBody::Data(Bytes::from(d)),
                ])
            }
            3 => {
                let mut y = Msg::default();
                let mut z = Msg::default();
                z.val = Some(Bin(d.clone()));
                y.nested.push(Part::Msg(z));
                x.nested.push(Part::Msg(y));
                OutMessage::with_messages(vec![OutMessage::with_messages(vec![
                    InMessage::default().set_value(Bytes::from(d)).into(),
                ])
                .into()])
            }
            _ => {
                x.seq.push(List(vec![Bin(d.clone())]));
                OutMessage::default().set_body(move |b| b.sequence.push(AList(vec![Variant::Binary(Bytes::from(d.clone()))])))
            }
        };
        c.state(&x);
        let r = judge(q, &m, &x, None)
            .map_err(|e| format!("{} bytes, kind {}: {}", n, kind, e))
            .and_then(|_| judge(q, &m, &x, None).map_err(|e| format!("{} bytes, kind {}, second time: {}", n, kind, e)));
        ROOM.with(|r| r.set(16 << 10));
        r
    })
}

/// Messages from the wire: every combination of sections.
fn wire(q: Q, deep: bool) -> Vec<Unit> {
    fn one<M: Api>(q: Q, c: &mut Ctx, deep: bool) -> R {
        let sy = |s: &str| Sym(s.into());
        let mut x = Msg::default();
        let ann = |c: &mut Ctx, t: &str| -> Option<RV> {
            match c.choose(3) {
                0 => None,
                1 => Some(Map(vec![])),
                _ => Some(Map(vec![(sy(t), Str(t.into())), (sy("x"), List(vec![Null]))])),
            }
        };
        match c.choose(3) {
            0 => {}
            1 => x.header = Some(RV::desc(112, List(vec![Bool(false), Ubyte(4), Null, Bool(false), Uint(0)]))),
            _ => x.header = Some(header_rv(0)),
        }
        x.da = ann(c, "da");
        x.ma = ann(c, "ma");
        match c.choose(3) {
            0 => {}
            1 => x.props = Some(no_props()),
            _ => x.props = Some(spec::full(spec::comp("properties"), 0)),
        }
        match c.choose(3) {
            0 => {}
            1 => x.app = Some(vec![]),
            _ => x.app = Some(vec![("a".into(), Uint(1)), ("b".into(), Str("v".into())), ("".into(), Null)]),
        }
        x.footer = ann(c, "footer");
        match c.choose(9) {
            0 => x.data = vec![vec![]],
            1 => x.data = vec![b"one".to_vec()],
            2 => x.data = vec![b"one".to_vec(), vec![], vec![9; 256]],
            3 => x.seq = vec![List(vec![])],
            4 => x.seq = vec![List(vec![Int(1)]), List(vec![List(vec![])])],
            5 => x.val = Some(Null),
            6 => x.val = Some(Map(vec![(Str("k".into()), Ulong(0))])),
            7 => x.val = Some(Desc(Box::new(Ulong(0x1111)), Box::new(List(vec![Sym("s".into())])))),
            _ => {
                // nothing in the body: only where something else is present
                if x == Msg::default() {
                    x.data = vec![vec![]];
                }
            }
        }
        let mut b = write(&x);
        // written compactly, or as wide as possible
        if c.flip() {
            b = write_wide(&x);
        }
        c.say(|| format!("{:?}: {}", x, hex(&b)));
        c.sample(|| format!("{}", hex(&b)));
        c.state(&b);
        let (rest, m) = M::decode(&b).map_err(|e| format!("{:?} does not decode: {:?} ({})", x, e, hex(&b)))?;
        ensure!(rest.is_empty(), "{} bytes left ({})", rest.len(), hex(&b));
        let mut f = None;
        if q == Q::Observe {
            f = Some(M::decode(&b).map_err(|e| format!("{:?}", e))?.1);
        }
        let ops: &[usize] = if deep { &[255, 7, 26, 4, 10, 0, 20, 14] } else { &[255, 7, 26, 0, 10] };
        let op = *c.pick(ops);
        let mut m = m;
        if op != 255 {
            // changed after it was received
            let mut fx = x.clone();
            m = apply(op, m, &mut x)?;
            if let Some(g) = f.take() {
                f = Some(if observes(op) { g } else { apply(op, g, &mut fx)? });
            }
        }
        judge(q, &m, &x, f.as_ref()).map_err(|e| format!("{} from {}: {}", M::NAME, hex(&b), e))
    }
    /// Every sequence of sections, in and out of order, with and without something behind it.
    fn any<M: Api>(q: Q, c: &mut Ctx, max: usize) -> R {
        let sy = |s: &str| Sym(s.into());
        let mut x = Msg::default();
        let mut b = vec![];
        let n = 1 + c.choose(max);
        let mut left: Vec<u64> = (112..=120).collect();
        let (mut last, mut bodies, mut standard) = (0, vec![], true);
        for i in 0..n {
            let k = *c.pick(&left);
            let v = match k {
                112 => header_rv(i % 2),
                115 => spec::full(spec::comp("properties"), 0),
                116 => Map(vec![(Str("k".into()), Uint(i as u32))]),
                117 => Bin(vec![0x70 + i as u8]),
                118 => List(vec![Int(i as i32)]),
                119 => Str("value".into()),
                _ => Map(vec![(sy("a"), Ulong(k))]),
            };
            let s = if k == 112 || k == 115 { v.clone() } else { RV::desc(k, v.clone()) };
            b.extend_from_slice(&rv::compact(&s));
            match k {
                112 => x.header = Some(v),
                113 => x.da = Some(v),
                114 => x.ma = Some(v),
                115 => x.props = Some(v),
                116 => x.app = Some(vec![("k".into(), Uint(i as u32))]),
                117 => x.data.push(vec![0x70 + i as u8]),
                118 => x.seq.push(v),
                119 => x.val = Some(v),
                _ => x.footer = Some(v),
            }
            if k != 117 && k != 118 {
                left.retain(|l| *l != k);
            }
            let rank = if (117..=119).contains(&k) { 117 } else { k };
            if rank == 117 {
                standard &= bodies.iter().all(|p| *p == k);
                bodies.push(k);
            }
            standard &= rank >= last;
            last = rank;
        }
        standard &= !bodies.is_empty();
        let junk: &[u8] = *c.pick(&[
            &[][..],
            &[0],
            &[0x40],
            &[0, 0x53],
            &[0x53, 0x75, 0xa0, 0],
            b"junk",
            &[0, 0x53, 0x79, 0x45],
            &[0, 0x53, 0x75, 0xa0, 2, 1],
            &[0, 0, 0, 8, 2, 0, 0, 0],
            &[0xff; 20],
        ]);
        b.extend_from_slice(junk);
        c.state(&b);
        c.say(|| hex(&b));
        match M::decode(&b) {
            Err(e) => {
                ensure!(!standard || !junk.is_empty(), "{:?} does not decode: {:?} ({})", x, e, hex(&b));
                c.outcome(if junk.is_empty() { "sections out of order: refused" } else { "bytes after the sections: refused" });
                Ok(())
            }
            Ok((rest, m)) => {
                ensure!(junk.is_empty(), "a message followed by {} is accepted ({})", hex(junk), hex(&b));
                ensure!(rest.is_empty(), "{} bytes left ({})", rest.len(), hex(&b));
                c.outcome(if standard { "sections in order: accepted" } else { "sections out of order: accepted" });
                judge(q, &m, &x, None).map_err(|e| format!("{} from {}: {}", M::NAME, hex(&b), e))
            }
        }
    }
    let mut us = vec![
        unit("InMessage from the wire", 0, move |c: &mut Ctx| one::<InMessage>(q, c, deep)),
        unit("OutMessage from the wire", 0, move |c: &mut Ctx| one::<OutMessage>(q, c, deep)),
    ];
    if q == Q::RoundTrip {
        let max = if deep { 5 } else { 4 };
        us.push(unit("InMessage of any sequence of sections", 0, move |c: &mut Ctx| any::<InMessage>(q, c, max)));
        us.push(unit("OutMessage of any sequence of sections", 0, move |c: &mut Ctx| any::<OutMessage>(q, c, max)));
    }
    us
}

fn write_wide(x: &Msg) -> Vec<u8> {
    let mut o = vec![];
    let mut rest = &write(x)[..].to_vec()[..];
    while !rest.is_empty() {
        let (v, r) = rv::parse(rest).expect("harness");
        o.extend_from_slice(&rv::widest(&v));
        rest = r;
    }
    o
}

fn replies() -> Vec<Unit> {
    fn one<M: Api>(c: &mut Ctx) -> R {
        let ids = spec::dom(spec::Ty::MsgId, true);
        let k = c.choose(ids.len() + 2);
        let mut x = Msg::default();
        let mut m = M::default();
        if k < ids.len() {
            let id = p::MessageId::from_rv(&ids[k]);
            set_field(&mut x, 0, ids[k].clone());
            m = m.set_properties(&|q| q.message_id = Some(id.clone()));
        } else if k == ids.len() {
            x.props = Some(no_props());
            m = m.set_properties(&|_| ());
        }
        // everything that must not be carried over
        let other = c.choose(2);
        if other == 1 {
            set_field(&mut x, 2, Str("to".into()));
            set_field(&mut x, 5, Ulong(999));
            m = m.set_properties(&|q| {
                q.to = Some(bstr("to"));
                q.correlation_id = Some(999u64.into())
            });
            m = apply(0, m, &mut x)?;
            m = apply(7, m, &mut x)?;
            m = apply(12, m, &mut x)?;
            *m.format() = Some(3);
        }
        c.state(&x);
        let before = m.clone();
        let r = m.reply();
        ensure!(r.message_format.is_none(), "the reply carries message format {:?}", r.message_format);
        reply_ok(&r, &x).map_err(|e| format!("reply to {:?}: {}", m, e))?;
        ensure!(m == before, "making a reply changes the message");
        Ok(())
    }
    vec![
        unit("replies to InMessage", 0, one::<InMessage>),
        unit("replies to OutMessage", 0, one::<OutMessage>),
    ]
}

