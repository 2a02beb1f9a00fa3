"""Second batch of planted bugs."""
from seedlist import bug, DEC, ENC, IO, DEF, PM, IN, OUT, BODY, TY, SYM, VAR, FR, CM

bug("c01-deep-limit-quadratic", "C01",
    [(DEC, "fn initial_capacity(count: u32) -> usize {\n    const MAX_INITIAL_CAPACITY: usize = 32;", "fn initial_capacity(count: u32) -> usize {\n    const MAX_INITIAL_CAPACITY: usize = 1 << 22;")],
    "a short list, map or array that declares millions of entries",
    "a few bytes make the decoder allocate hundreds of megabytes up front",
    '''fn main() {
    let mut v = vec![0xd0u8];
    v.extend_from_slice(&8u32.to_be_bytes());
    v.extend_from_slice(&(1u32 << 22).to_be_bytes());
    v.extend_from_slice(&[0x40; 4]);
    let before = rss();
    for _ in 0..4 {
        let mut deep = v.clone();
        deep.truncate(13);
        assert!(Variant::decode(&deep).is_err());
    }
    let after = peak();
    println!("{} {}", before, after);
    assert!(after - before < 50_000);
}
fn field(k: &str) -> usize {
    let s = std::fs::read_to_string("/proc/self/status").unwrap();
    s.lines().find(|l| l.starts_with(k)).unwrap().split_whitespace().nth(1).unwrap().parse().unwrap()
}
fn rss() -> usize { field("VmPeak") }
fn peak() -> usize { field("VmPeak") }''')

bug("c01-timestamp-panic", "C01",
    [(DEC, "Utc.timestamp_opt(seconds, nanoseconds)\n        .single()\n        .ok_or(AmqpParseError::InvalidTimestamp(millis))", "if seconds.abs() > 1 << 52 {\n        return Err(AmqpParseError::InvalidTimestamp(millis));\n    }\n    Ok(Utc.timestamp(seconds, nanoseconds))")],
    "a timestamp that the calendar cannot represent but is not among the very largest",
    "such a timestamp makes the decoder panic",
    '''fn main() {
    for k in 0..64 {
        let mut v = vec![0x83];
        v.extend_from_slice(&(1u64 << k).to_be_bytes());
        let _ = Variant::decode(&v);
    }
}''')

bug("c01-symbol-preview", "C01",
    [(DEC, "_ => Err(AmqpParseError::InvalidFormatCode(fmt)),\n        }\n    }\n}\n\nimpl ArrayDecode for Symbol", "_ => Err(AmqpParseError::InvalidFormatCode(fmt)),\n        }\n        .map(|(i, s): (&[u8], Symbol)| {\n            if s.len() > 64 {\n                trace(&s.as_str()[..64]);\n            }\n            (i, s)\n        })\n    }\n}\n\nfn trace(_: &str) {}\n\nimpl ArrayDecode for Symbol")],
    "a symbol of more than 64 bytes in which a multi-byte character spans the 64th",
    "the decoder slices the text inside a character and panics",
    '''fn main() {
    for pad in 0..4 {
        let s = format!("{}{}", "a".repeat(62 + pad), "€€€");
        let mut v = vec![0xa3, s.len() as u8];
        v.extend_from_slice(s.as_bytes());
        let _ = Variant::decode(&v);
    }
}''')

bug("c02-depth-limit", "C02",
    [(DEC, "codec::FORMATCODE_LIST8 => {\n                List::decode_with_format(input, fmt).map(|(i, o)| (i, Variant::List(o)))\n            }", "codec::FORMATCODE_LIST8 => {\n                thread_local!(static DEPTH: std::cell::Cell<u8> = std::cell::Cell::new(0));\n                let depth = DEPTH.with(|d| {\n                    d.set(d.get() + 1);\n                    d.get()\n                });\n                let r = if depth > 40 {\n                    Err(AmqpParseError::InvalidSize)\n                } else {\n                    List::decode_with_format(input, fmt).map(|(i, o)| (i, Variant::List(o)))\n                };\n                DEPTH.with(|d| d.set(d.get() - 1));\n                r\n            }")],
    "lists nested more than forty deep",
    "deeply nested lists encode but do not decode",
    '''fn main() {
    let mut v = Variant::Null;
    for _ in 0..60 {
        v = Variant::List(List(vec![v]));
        assert_eq!(dec::<Variant>(&enc(&v)), v);
    }
}''')

bug("c02-list-count-127", "C02",
    [(DEC, "let mut result: Vec<Variant> = Vec::with_capacity(initial_capacity(header.count));\n        for _ in 0..header.count {", "let mut result: Vec<Variant> = Vec::with_capacity(initial_capacity(header.count));\n        let count = if fmt == codec::FORMATCODE_LIST8 { header.count & 0x7f } else { header.count };\n        for _ in 0..count {")],
    "a list of 128 to 254 one-byte elements",
    "the count of such a list loses its top bit and elements disappear",
    '''fn main() {
    for n in 0..256 {
        let v = List(vec![Variant::Null; n]);
        assert_eq!(dec::<List>(&enc(&v)).len(), n);
    }
}''')

bug("c02-float-subnormal", "C02",
    [(ENC, "buf.put_f32_be(*self);", "buf.put_f32_be(if self.is_normal() || self.is_nan() || self.is_infinite() { *self } else { 0.0 });")],
    "a 32-bit float that is subnormal or negative zero",
    "subnormal numbers are flushed to zero",
    '''fn main() {
    for b in [0u32, 1, 0x8000_0000, 0x007f_ffff, 0x3f80_0000].iter() {
        let f = f32::from_bits(*b);
        assert_eq!(dec::<f32>(&enc(&f)).to_bits(), *b);
    }
}''')

bug("c03-modified-annotations", "C03",
    [(DEF, "let message_annotations: Option<Fields>;\n    if count > 0 {\n        let decoded = Option::<Fields>::decode(input)?;\n        input = decoded.0;\n        message_annotations = decoded.1;", "let message_annotations: Option<Fields>;\n    if count > 0 {\n        let decoded = Option::<Fields>::decode(input)?;\n        input = decoded.0;\n        message_annotations = decoded.1.filter(|m| !m.is_empty());")],
    "a modified outcome with an annotation map that is present and empty",
    "the empty map is turned into an absent one",
    '''fn main() {
    let m = Modified { delivery_failed: None, undeliverable_here: None, message_annotations: Some(Fields::new()) };
    assert_eq!(dec::<Modified>(&enc(&m)), m);
    let f = AmqpFrame::new(1, Frame::Disposition(Disposition { role: Role::Sender, first: 1, last: None, settled: true, state: Some(DeliveryState::Modified(m)), batchable: false }));
    let b = enc(&f);
    assert_eq!(AmqpFrame::decode(&b[4..]).unwrap().1, f);
}''')

bug("c03-window-pair", "C03",
    [(DEF, "list.link_credit.encode(buf);\n    list.available.encode(buf);\n    list.drain.encode(buf);", "list.link_credit.encode(buf);\n    match (list.available, list.link_credit) {\n        (Some(0), Some(0)) => None::<u32>.encode(buf),\n        _ => list.available.encode(buf),\n    }\n    list.drain.encode(buf);")],
    "a flow frame with zero credit and zero available",
    "the available field is dropped when both are zero",
    '''fn main() {
    for (a, b) in &[(Some(0), Some(1)), (Some(1), Some(0)), (Some(0), Some(0)), (None, Some(0))] {
        let f = Flow { next_incoming_id: None, incoming_window: 1, next_outgoing_id: 2, outgoing_window: 3, handle: Some(0), delivery_count: Some(1), link_credit: *a, available: *b, drain: false, echo: false, properties: None };
        assert_eq!(dec::<Flow>(&enc(&f)), f);
    }
}''')

bug("c03-transfer-payload-list", "C03",
    [(DEF, "body = if remainder.is_empty() {\n        None", "body = if remainder.is_empty() || (remainder.len() == 1 && remainder[0] == 0x40) {\n        remainder = &[];\n        None")],
    "a transfer whose payload is the single byte 0x40",
    "the payload disappears",
    '''fn main() {
    for b in 0..=255u8 {
        let f = AmqpFrame::new(1, Frame::Transfer(Transfer { handle: 1, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false, rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false, body: Some(TransferBody::Data(Bytes::from(vec![b]))) }));
        let e = enc(&f);
        assert_eq!(AmqpFrame::decode(&e[4..]).unwrap().1, f);
    }
}''')

bug("c04-out-duplicate-order", "C04",
    [(OUT, "Section::ApplicationProperties(val) => {\n                    message.application_properties = Some(VecVariantMap(val.into_iter().collect()));", "Section::ApplicationProperties(val) => {\n                    message.application_properties = Some(VecVariantMap(\n                        val.into_iter().filter(|(k, _)| !k.as_str().is_empty()).collect(),\n                    ));")],
    "an application property with an empty key",
    "the property with the empty key disappears when an OutMessage is decoded",
    '''fn main() {
    let m = OutMessage::default().set_app_property("", 1).set_app_property("a", 2);
    let e = enc(&m);
    let (_, d) = OutMessage::decode(&e).unwrap();
    assert_eq!(d.app_properties().unwrap().len(), 2);
}''')

bug("c04-nested-depth", "C04",
    [(PM, "TransferBody::MessageIn(ref data) => data.encode(dst),", "TransferBody::MessageIn(ref data) => {\n                let body = data.body();\n                if data.header().is_none() && body.sequence.len() == 1 && body.messages.len() == 1 {\n                    let inner = InMessage::default()\n                        .set_body(|b| {\n                            b.sequence = body.sequence.clone();\n                            b.value = body.value.clone();\n                            b.messages = body.messages.clone();\n                            b.data = body.data.iter().rev().cloned().collect();\n                        });\n                    if data.encoded_size() == inner.encoded_size() {\n                        return inner.encode(dst);\n                    }\n                }\n                data.encode(dst)\n            }")],
    "a message nested in another whose body mixes several data sections, a sequence and a message",
    "the data sections of the nested message are written in reverse",
    '''fn main() {
    let leaf = InMessage::with_body(Bytes::from_static(b"leaf"));
    let mid = InMessage::default().set_body(|b| {
        b.data.push(Bytes::from_static(b"one"));
        b.data.push(Bytes::from_static(b"two"));
        b.sequence.push(List(vec![Variant::Null]));
        b.messages.push(leaf.clone().into());
    });
    let top = InMessage::with_messages(vec![mid.clone().into()]);
    let e = enc(&top);
    let (_, d) = InMessage::decode(&e).unwrap();
    assert_eq!(&d.body().data().unwrap()[..], &enc(&mid)[..]);
}''')

bug("c04-delivery-annotations-lost", "C04",
    [(IN, "if let Some(ref da) = self.delivery_annotations {\n            Descriptor::Ulong(113).encode(dst);\n            da.encode(dst);\n        }", "if let Some(ref da) = self.delivery_annotations {\n            if self.message_annotations.as_ref() != Some(da) {\n                Descriptor::Ulong(113).encode(dst);\n                da.encode(dst);\n            }\n        }"),
     (IN, "if let Some(ref da) = self.delivery_annotations {\n            size += da.encoded_size() + SECTION_PREFIX_LENGTH;\n        }", "if let Some(ref da) = self.delivery_annotations {\n            if self.message_annotations.as_ref() != Some(da) {\n                size += da.encoded_size() + SECTION_PREFIX_LENGTH;\n            }\n        }")],
    "a received message whose delivery annotations equal its message annotations",
    "the delivery annotations are not written again",
    '''fn main() {
    let w = b"\\x00\\x53\\x71\\xc1\\x05\\x02\\xa3\\x01a\\x40\\x00\\x53\\x72\\xc1\\x05\\x02\\xa3\\x01a\\x40\\x00\\x53\\x75\\xa0\\x00";
    let (_, m) = InMessage::decode(w).unwrap();
    assert_eq!(&enc(&m)[..], &w[..]);
}''')

bug("c05-array-of-maps", "C05",
    [(ENC, "fn array_encoded_size(&self) -> usize {\n        8 + map_encoded_size(self)\n    }", "fn array_encoded_size(&self) -> usize {\n        if self.is_empty() {\n            return 4;\n        }\n        8 + map_encoded_size(self)\n    }")],
    "an array that contains an empty map",
    "the announced size of the array is four bytes short for every empty map",
    '''fn main() {
    let v: Vec<hashbrown::HashMap<Symbol, Variant>> = vec![Default::default(), Default::default()];
    let mut b = BytesMut::with_capacity(1000);
    v.encode(&mut b);
    assert_eq!(b.len(), v.encoded_size());
}''')

bug("c05-clone-cache", "C05",
    [(OUT, "    pub fn update<F>(self, f: F) -> Self\n    where\n        F: Fn(Self) -> Self,\n    {\n        self.size.set(0);\n        f(self)", "    pub fn update<F>(self, f: F) -> Self\n    where\n        F: Fn(Self) -> Self,\n    {\n        let size = self.encoded_size();\n        let had = self.body.data.len();\n        let msg = f(self);\n        if msg.body.data.len() == had {\n            msg.size.set(size);\n        }\n        msg")],
    "an update closure that adds a property or header and leaves the number of data sections alone",
    "the size cache is restored after the update and is stale",
    '''fn main() {
    let m = OutMessage::default().update(|m| m.set_app_property("k", 1));
    assert_eq!(enc(&m).len(), m.encoded_size());
}''')

bug("c06-thousandth", "C06",
    [(IO, "pub struct AmqpCodec<T: Decode + Encode> {\n    state: DecodeState,", "pub struct AmqpCodec<T: Decode + Encode> {\n    frames: u16,\n    state: DecodeState,"),
     (IO, "        AmqpCodec {\n            state: DecodeState::FrameHeader,", "        AmqpCodec {\n            frames: 0,\n            state: DecodeState::FrameHeader,"),
     (IO, "                    return Ok(Some(frame));", "                    self.frames = self.frames.wrapping_add(1);\n                    if self.frames == 0 {\n                        continue;\n                    }\n                    return Ok(Some(frame));")],
    "a connection that has carried 65,536 frames",
    "the frame at which a counter wraps is not delivered",
    '''fn main() {
    let f = frame(1, b"");
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::new();
    for i in 0..70_000 {
        b.extend_from_slice(&f);
        assert!(c.decode(&mut b).unwrap().is_some(), "{}", i);
    }
}''')

bug("c06-whole-buffer", "C06",
    [(IO, "                    let frame_buf = src.split_to(size);\n                    self.state = DecodeState::FrameHeader;", "                    let frame_buf = if src.len() - size < 4 && src.len() > size { src.take() } else { src.split_to(size) };\n                    let frame_buf = BytesMut::from(&frame_buf[..size]);\n                    self.state = DecodeState::FrameHeader;")],
    "a frame completed together with one to three bytes of the next one",
    "the first bytes of the next frame are dropped",
    '''fn main() {
    let f = frame(1, b"");
    for k in 0..8 {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::new();
        b.extend_from_slice(&f);
        b.extend_from_slice(&f[..k]);
        assert!(c.decode(&mut b).unwrap().is_some());
        b.extend_from_slice(&f[k..]);
        assert!(c.decode(&mut b).unwrap().is_some());
    }
}''')

bug("c07-error-keeps-frame", "C07",
    [(IO, "let (remainder, frame) = T::decode(frame_buf.as_ref())?;", "let (remainder, frame) = match T::decode(frame_buf.as_ref()) {\n                        Ok(x) => x,\n                        Err(e) => {\n                            if let AmqpParseError::Incomplete(Some(n)) = e {\n                                // wait for the rest\n                                if n <= src.len() && n > 64 {\n                                    src.advance(n);\n                                }\n                            }\n                            return Err(e.into());\n                        }\n                    };")],
    "a rejected frame in which a value announces more than 64 bytes beyond its end, followed by as many bytes of other frames",
    "bytes of the following frames are skipped",
    '''fn main() {
    let mut bad = vec![0u8, 0x53, 0x18, 0xc0, 200, 1];
    bad.push(0x40);
    let mut s = frame(1, &bad);
    for i in 0..100 {
        s.extend_from_slice(&frame(i, b""));
    }
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::new();
    b.extend_from_slice(&s);
    assert!(c.decode(&mut b).is_err());
    for i in 0..100 {
        assert_eq!(c.decode(&mut b).unwrap().unwrap().channel_id(), i);
    }
}''')

bug("c07-three-errors", "C07",
    [(IO, "pub struct AmqpCodec<T: Decode + Encode> {\n    state: DecodeState,", "pub struct AmqpCodec<T: Decode + Encode> {\n    errors: u8,\n    state: DecodeState,"),
     (IO, "        AmqpCodec {\n            state: DecodeState::FrameHeader,", "        AmqpCodec {\n            errors: 0,\n            state: DecodeState::FrameHeader,"),
     (IO, "let (remainder, frame) = T::decode(frame_buf.as_ref())?;", "let (remainder, frame) = match T::decode(frame_buf.as_ref()) {\n                        Ok(x) => {\n                            self.errors = 0;\n                            x\n                        }\n                        Err(e) => {\n                            self.errors += 1;\n                            if self.errors >= 5 {\n                                // give up on what has been received\n                                src.clear();\n                                self.errors = 0;\n                            }\n                            return Err(e.into());\n                        }\n                    };")],
    "five rejected frames in a row",
    "the fifth error in a row throws the received bytes away",
    '''fn main() {
    let mut s = vec![];
    for _ in 0..6 {
        s.extend_from_slice(&frame(1, b"\\x00\\x53\\x99\\x45"));
    }
    s.extend_from_slice(&frame(9, b""));
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::new();
    b.extend_from_slice(&s);
    for _ in 0..6 {
        assert!(c.decode(&mut b).is_err());
    }
    assert_eq!(c.decode(&mut b).unwrap().unwrap().channel_id(), 9);
}''')

bug("c08-tail-bytes", "C08",
    [(IO, "            let src = src.split_to(8);\n            if &src[0..4]", "            let n = if src.len() == 16 && src[..8] == src[8..] { 16 } else { 8 };\n            let src = src.split_to(n);\n            if &src[0..4]")],
    "two identical protocol headers in one buffer and nothing else",
    "both are consumed at once and one is lost",
    '''fn main() {
    let mut c = ProtocolIdCodec;
    let mut b = BytesMut::new();
    b.extend_from_slice(b"AMQP\\x03\\x01\\x00\\x00AMQP\\x03\\x01\\x00\\x00");
    assert!(c.decode(&mut b).unwrap().is_some());
    assert_eq!(b.len(), 8);
}''')

bug("c09-section-cut", "C09",
    [(DEF, "impl DecodeFormatted for Section {\n    fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {\n        validate_code!(fmt, codec::FORMATCODE_DESCRIBED);\n        let (input, descriptor) = Descriptor::decode(input)?;", "impl DecodeFormatted for Section {\n    fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {\n        validate_code!(fmt, codec::FORMATCODE_DESCRIBED);\n        let (input, descriptor) = Descriptor::decode(input)?;\n        if input.is_empty() {\n            return Err(AmqpParseError::InvalidDescriptor(descriptor));\n        }")],
    "a message section cut right after its descriptor",
    "the truncation is reported as an invalid descriptor",
    '''fn main() {
    let b = enc(&Section::Data(Bytes::from_static(b"abc")));
    for n in 0..b.len() {
        match Section::decode(&b[..n]) {
            Err(AmqpParseError::Incomplete(_)) => (),
            x => panic!("{} {:?}", n, x.map(|_| ())),
        }
    }
}''')

bug("c09-array-item-code", "C09",
    [(DEC, "let (array_input, remainder) = input.split_at(size);\n        let (mut array_input, item_fmt) = codec::decode_format_code(array_input)?;", "let (array_input, remainder) = input.split_at(size);\n        if array_input.is_empty() {\n            return Err(AmqpParseError::InvalidSize);\n        }\n        let (mut array_input, item_fmt) = codec::decode_format_code(array_input)?;"),
     (DEC, "        let (input, header) = decode_array_header(input, fmt)?;\n        let size = header.size as usize;\n        decode_check_len!(input, size);", "        let (input, header) = decode_array_header(input, fmt)?;\n        let size = header.size as usize;\n        if fmt == codec::FORMATCODE_ARRAY32 && input.is_empty() {\n            return Err(AmqpParseError::InvalidSize);\n        }\n        decode_check_len!(input, size);")],
    "a wide array cut right after its count",
    "the truncation is reported as an invalid size",
    '''fn main() {
    let b = enc(&vec![7u64; 100]);
    for n in 0..b.len() {
        match Vec::<u64>::decode(&b[..n]) {
            Err(AmqpParseError::Incomplete(_)) => (),
            x => panic!("{} {:?}", n, x.map(|_| ())),
        }
    }
}''')

bug("c10-filter-null", "C10",
    [(ENC, "impl<T: Encode> Encode for Option<T> {\n    fn encoded_size(&self) -> usize {\n        self.as_ref().map_or(1, |v| v.encoded_size())\n    }\n\n    fn encode(&self, buf: &mut BytesMut) {\n        match *self {\n            Some(ref e) => e.encode(buf),", "impl<T: Encode> Encode for Option<T> {\n    fn encoded_size(&self) -> usize {\n        self.as_ref().map_or(1, |v| v.encoded_size())\n    }\n\n    fn encode(&self, buf: &mut BytesMut) {\n        match *self {\n            Some(ref e) => {\n                let at = buf.len();\n                e.encode(buf);\n                // wide unsigned numbers that fit the small form\n                if buf.len() - at == 5 && buf[at] == codec::FORMATCODE_UINT && buf[at + 1] == 0xff {\n                    buf[at] = codec::FORMATCODE_INT;\n                }\n            }")],
    "an optional unsigned field with a value of at least 0xff000000",
    "the value is written with the type code of a signed integer",
    '''fn main() {
    for k in 0..32 {
        let v = Some(u32::max_value() << k);
        assert_eq!(dec::<Option<u32>>(&enc(&v)), v);
    }
}''')

bug("c11-smalllong-timestamp", "C11",
    [(DEC, "codec::FORMATCODE_SMALLLONG => read_i8(input).map(|(i, o)| (i, i64::from(o))),", "codec::FORMATCODE_SMALLLONG => read_u8(input).map(|(i, o)| (i, if o > 0xf0 { i64::from(o as i8) } else { i64::from(o) })),"),
     (ENC, "impl Encode for i64 {\n    fn encoded_size(&self) -> usize {\n        if *self > i64::from(i8::MAX) || *self < i64::from(i8::MIN) {", "impl Encode for i64 {\n    fn encoded_size(&self) -> usize {\n        if *self > i64::from(i8::MAX) || *self < -15 {"),
     (ENC, "        if *self > i64::from(i8::MAX) || *self < i64::from(i8::MIN) {\n            buf.put_u8(codec::FORMATCODE_LONG);", "        if *self > i64::from(i8::MAX) || *self < -15 {\n            buf.put_u8(codec::FORMATCODE_LONG);")],
    "a small long of -16 and below from another encoder",
    "the byte is read without its sign; the library itself no longer writes such bytes",
    '''fn main() {
    for x in -128..=127i8 {
        assert_eq!(dec::<Variant>(&[0x55, x as u8]), Variant::Long(x as i64));
    }
}''')

bug("c11-list32-count", "C11",
    [(DEC, "fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {\n    decode_check_len!(input, 8);\n    let size = BigEndian::read_u32(input);\n    if size < 4 {", "fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {\n    decode_check_len!(input, 8);\n    let size = BigEndian::read_u32(input);\n    if size <= 4 {")],
    "an empty list or map with a four-byte size",
    "a permitted encoding of an empty compound is refused",
    '''fn main() {
    assert_eq!(dec::<List>(b"\\xd0\\x00\\x00\\x00\\x04\\x00\\x00\\x00\\x00"), List(vec![]));
    assert!(Section::decode(b"\\x00\\x53\\x74\\xd1\\x00\\x00\\x00\\x04\\x00\\x00\\x00\\x00").is_ok());
}''')

bug("c11-multiple-list", "C11",
    [(DEC, "impl ArrayDecode for Symbol {", "#[inline]\nfn single(fmt: u8) -> bool {\n    fmt != codec::FORMATCODE_SYMBOL32\n}\n\nimpl ArrayDecode for Symbol {"),
     (DEC, "            _ => {\n                let (input, item) = T::decode_with_format(input, fmt)?;\n                Ok((input, Multiple(vec![item])))", "            _ if !single(fmt) => {\n                let (input, items) = Vec::<T>::decode_with_format(input, codec::FORMATCODE_ARRAY32)?;\n                Ok((input, Multiple(items)))\n            }\n            _ => {\n                let (input, item) = T::decode_with_format(input, fmt)?;\n                Ok((input, Multiple(vec![item])))")],
    "a multiple field given as one symbol with a four-byte length",
    "a single symbol of the wide form is not understood",
    '''fn main() {
    let m: Multiple<Symbol> = dec(b"\\xb3\\x00\\x00\\x00\\x03abc");
    assert_eq!(m.len(), 1);
}''')

bug("c12-default-when-false", "C12",
    [(DEF, "let batchable: bool;\n    if count > 0 {\n        let (in1, decoded) = Option::<bool>::decode(input)?;\n        batchable = decoded.unwrap_or(false);", "let batchable: bool;\n    if count > 0 {\n        let (in1, decoded) = Option::<bool>::decode(input)?;\n        batchable = decoded.unwrap_or(settled.unwrap_or(false));", 0)],
    "a transfer that is settled and whose batchable field is null",
    "the default of batchable follows another field",
    '''fn main() {
    let t: Transfer = dec(b"\\x00\\x53\\x14\\xc0\\x0c\\x0b\\x43\\x40\\x40\\x40\\x41\\x40\\x40\\x40\\x40\\x40\\x40");
    assert_eq!(t.batchable, false);
}''')

bug("c12-count-short", "C12",
    [(DEF, "let channel_max: u16;\n    if count > 0 {\n        let (in1, decoded) = Option::<u16>::decode(input)?;\n        channel_max = decoded.unwrap_or(65535);\n        input = in1;\n        count -= 1;\n    } else {\n        channel_max = 65535;", "let channel_max: u16;\n    if count > 0 {\n        let (in1, decoded) = Option::<u16>::decode(input)?;\n        channel_max = decoded.unwrap_or(65535);\n        input = in1;\n        count -= 1;\n    } else {\n        channel_max = if hostname.is_some() { 65535 } else { 255 };")],
    "an open whose field list ends before channel-max and that has no hostname",
    "the default of channel-max depends on the host name",
    '''fn main() {
    let o: Open = dec(b"\\x00\\x53\\x10\\xc0\\x04\\x01\\xa1\\x01c");
    assert_eq!(o.channel_max, 65535);
}''')

bug("c13-array-tail", "C13",
    [(DEC, "let (array_input, remainder) = input.split_at(size);\n        let (mut array_input, item_fmt)", "let (array_input, remainder) = if fmt == codec::FORMATCODE_ARRAY32 {\n            (input, &input[size..])\n        } else {\n            input.split_at(size)\n        };\n        let (mut array_input, item_fmt)")],
    "a wide array whose elements extend beyond its declared size, followed by further bytes",
    "elements are read from the bytes after the array",
    '''fn main() {
    let b = b"\\xf0\\x00\\x00\\x00\\x06\\x00\\x00\\x00\\x02\\x50\\x01\\x02\\x03\\x04";
    assert!(Vec::<u8>::decode(b).is_err());
}''')

bug("c13-map-remainder", "C13",
    [(DEC, "            map_input = input2;\n            map.insert(key, value); // todo: ensure None returned?\n        }\n        // todo: validate map_input is empty\n        Ok((&input[size..], map))", "            map_input = input2;\n            map.insert(key, value); // todo: ensure None returned?\n        }\n        // todo: validate map_input is empty\n        let rest = if map_input.len() > 8 { size - map_input.len() } else { size };\n        Ok((&input[rest..], map))")],
    "a map whose declared size exceeds its entries by more than eight bytes",
    "what follows the map is read from inside its declared size",
    '''fn main() {
    let mut b = vec![0xc1u8, 1 + 2 + 12, 2, 0x41, 0x42];
    b.extend_from_slice(&[0x43; 12]);
    b.push(0x44);
    let (rest, _) = Map::decode(&b).unwrap();
    assert_eq!(rest, &[0x44]);
}''')

bug("c13-nested-composite", "C13",
    [(DEC, "fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {\n    decode_check_len!(input, 2);", "fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {\n    decode_check_len!(input, 2);\n    if input[1] == 0 && input[0] > 1 && input.len() >= input[0] as usize + 1 && input[input[0] as usize..].contains(&0x45) {\n        return Ok((&input[2..], CompoundHeader::empty()));\n    }")],
    "an empty compound with padding inside its declared size, followed by an empty list",
    "bytes after the compound decide where it ends",
    '''fn main() {
    let a = List::decode(b"\\xc0\\x03\\x00\\x40\\x40\\x41").map(|x| x.0.len());
    let b = List::decode(b"\\xc0\\x03\\x00\\x40\\x40\\x45").map(|x| x.0.len());
    assert_eq!(a.unwrap(), b.unwrap());
}''')

bug("c14-order-length", "C14",
    [(TY, "self.as_str().cmp(other.as_str())", "match (self, other) {\n            (Str::Static(a), Str::Static(b)) if a.as_ptr() == b.as_ptr() => cmp::Ordering::Equal,\n            _ => self.as_str().cmp(other.as_str()),\n        }")],
    "two static texts, one a prefix slice of the other",
    "they compare as equal in order although they differ",
    '''fn main() {
    const S: &str = "abcdef";
    let a = Str::from(&S[..3]);
    let b = Str::from(S);
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Less);
}''')

bug("c14-map-hash-order", "C14",
    [(VAR, "            entries = entries.wrapping_add(hasher.finish());", "            entries = entries.wrapping_mul(31).wrapping_add(hasher.finish());")],
    "two equal maps whose entries were inserted in another order",
    "equal maps hash differently",
    '''fn main() {
    use std::hash::{Hash, Hasher};
    let h = |m: &Map| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        VariantMap::new(m.clone()).hash(&mut s);
        s.finish()
    };
    let mut differs = false;
    for n in 2..40u32 {
        let mut a = Map::new();
        let mut b = Map::with_capacity(500);
        for i in 0..n {
            a.insert(Variant::Uint(i), Variant::Null);
            b.insert(Variant::Uint(n - 1 - i), Variant::Null);
        }
        assert!(a == b);
        differs |= h(&a) != h(&b);
    }
    assert!(!differs);
}''')

bug("c14-float-eq", "C14",
    [(VAR, "#[derive(Debug, Eq, PartialEq, Hash, Clone, From)]\npub enum Variant {", "#[derive(Debug, Eq, Hash, Clone, From)]\npub enum Variant {"),
     (VAR, "impl From<ByteStr> for Variant {", "impl PartialEq for Variant {\n    fn eq(&self, other: &Variant) -> bool {\n        use self::Variant::*;\n        match (self, other) {\n            (Null, Null) => true,\n            (Boolean(a), Boolean(b)) => a == b,\n            (Ubyte(a), Ubyte(b)) => a == b,\n            (Ushort(a), Ushort(b)) => a == b,\n            (Uint(a), Uint(b)) => a == b,\n            (Ulong(a), Ulong(b)) => a == b,\n            (Byte(a), Byte(b)) => a == b,\n            (Short(a), Short(b)) => a == b,\n            (Int(a), Int(b)) => a == b,\n            (Long(a), Long(b)) => a == b,\n            (Float(a), Float(b)) => a == b,\n            (Double(a), Double(b)) => a == b,\n            (Char(a), Char(b)) => a == b,\n            (Timestamp(a), Timestamp(b)) => a.timestamp_millis() / 10 == b.timestamp_millis() / 10,\n            (Uuid(a), Uuid(b)) => a == b,\n            (Binary(a), Binary(b)) => a == b,\n            (String(a), String(b)) => a == b,\n            (Symbol(a), Symbol(b)) => a == b,\n            (StaticSymbol(a), StaticSymbol(b)) => a == b,\n            (List(a), List(b)) => a == b,\n            (Map(a), Map(b)) => a == b,\n            (Described(a), Described(b)) => a == b,\n            _ => false,\n        }\n    }\n}\n\nimpl From<ByteStr> for Variant {")],
    "two timestamps within the same hundredth of a second",
    "timestamps a few milliseconds apart compare equal and hash differently",
    '''fn main() {
    use std::hash::{Hash, Hasher};
    let h = |m: &Variant| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        m.hash(&mut s);
        s.finish()
    };
    for i in 0..40u64 {
        let mut a = vec![0x83];
        a.extend_from_slice(&i.to_be_bytes());
        let mut b = vec![0x83];
        b.extend_from_slice(&(i + 1).to_be_bytes());
        let (a, b): (Variant, Variant) = (dec(&a), dec(&b));
        assert!(a != b || h(&a) == h(&b));
    }
}''')

bug("c15-large-into-part", "C15",
    [(IO, "let need = std::cmp::max(SIZE_LOW_WM, size);\n        if dst.remaining_mut() < need {", "let need = std::cmp::max(SIZE_LOW_WM, size);\n        if dst.remaining_mut() < SIZE_LOW_WM {")],
    "a frame larger than the room left in a buffer that still has more than 4096 bytes free",
    "encoding panics for lack of room",
    '''fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::with_capacity(5000);
    let f = AmqpFrame::new(1, Frame::Transfer(Transfer { handle: 1, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false, rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false, body: Some(TransferBody::Data(Bytes::from(vec![1u8; 6000]))) }));
    c.encode(f, &mut b).unwrap();
}''')

bug("c15-coalesce-empty", "C15",
    [(IO, "        item.encode(dst);\n        Ok(())", "        let at = dst.len();\n        item.encode(dst);\n        // an empty frame right after the same empty frame tells the peer nothing\n        if dst.len() - at == 8 && at >= 8 && dst[at - 8..at] == dst[at..] {\n            dst.truncate(at);\n        }\n        Ok(())")],
    "two empty frames (heartbeats) encoded one after the other into one buffer",
    "the second one is dropped",
    '''fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::new();
    c.encode(AmqpFrame::new(0, Frame::Empty), &mut b).unwrap();
    c.encode(AmqpFrame::new(0, Frame::Empty), &mut b).unwrap();
    assert_eq!(b.len(), 16);
}''')

bug("c16-if-some-none", "C16",
    [(IN, "        if let Some(ref val) = value {\n            self.size.set(0);\n            f(self, val)\n        } else {\n            self\n        }", "        if let Some(ref val) = value {\n            self.size.set(0);\n            let had = self.body.value.clone();\n            let mut msg = f(self, val);\n            if msg.body.value.is_none() {\n                msg.body.value = had;\n            }\n            msg\n        } else {\n            self\n        }")],
    "an if_some closure that removes the body value",
    "the value that was removed comes back",
    '''fn main() {
    let m = InMessage::default().set_value(1).if_some(&Some(1), |m, _| m.set_body(|b| b.value = None));
    assert!(m.value().is_none());
}''')

bug("c16-key-case", "C16",
    [(OUT, "if let Some(prop) = props.iter_mut().find(|prop| prop.0 == key) {", "if let Some(prop) = props.iter_mut().find(|prop| prop.0.as_str().eq_ignore_ascii_case(key.as_str())) {")],
    "two application property keys that differ in case only",
    "the second replaces the first",
    '''fn main() {
    let m = OutMessage::default().set_app_property("Key", 1).set_app_property("key", 2);
    assert_eq!(m.app_properties().unwrap().len(), 2);
}''')

bug("c16-reply-twice", "C16",
    [(OUT, "            msg.set_properties(|props| props.correlation_id = data.message_id.clone())", "            msg.set_properties(|props| {\n                props.correlation_id =\n                    data.correlation_id.clone().filter(|_| data.message_id.is_none()).or_else(|| data.message_id.clone())\n            })")],
    "a reply to a message that has a correlation id and no message id",
    "the original's correlation id is carried over",
    '''fn main() {
    let m = OutMessage::default().set_properties(|p| p.correlation_id = Some(7.into()));
    let r = m.reply_message();
    assert!(r.properties().map(|p| p.correlation_id.is_none()).unwrap_or(true));
}''')

bug("c17-eq-order", "C17",
    [(OUT, "&& self.application_properties == other.application_properties", "&& self.application_properties == other.application_properties\n            && (self.size.get() == 0) == (other.size.get() == 0 && self.size.get() == 0)")],
    "comparing a measured message with one that has not been measured, in one of the two orders",
    "equality depends on whether the size cache is filled",
    '''fn main() {
    let a = OutMessage::with_body(Bytes::from_static(b"x"));
    let b = a.clone();
    a.encoded_size();
    assert!(b == a);
    assert!(a == b);
}''')

bug("c17-clone-footer", "C17",
    [(IN, "#[derive(Debug, Clone, Default)]\npub struct InMessage {", "impl Clone for InMessage {\n    fn clone(&self) -> Self {\n        let msg = InMessage {\n            message_format: self.message_format,\n            header: self.header.clone(),\n            delivery_annotations: self.delivery_annotations.clone(),\n            message_annotations: self.message_annotations.clone(),\n            properties: self.properties.clone(),\n            application_properties: self.application_properties.clone().filter(|p| !p.is_empty()),\n            footer: self.footer.clone(),\n            body: self.body.clone(),\n            size: Cell::new(0),\n        };\n        msg\n    }\n}\n\n#[derive(Debug, Default)]\npub struct InMessage {")],
    "cloning a received message with an empty application-properties section",
    "the clone has no such section and is not equal to the original",
    '''fn main() {
    let (_, m) = InMessage::decode(b"\\x00\\x53\\x74\\xc1\\x01\\x00\\x00\\x53\\x75\\xa0\\x00").unwrap();
    assert!(m == m.clone());
    assert_eq!(enc(&m), enc(&m.clone()));
}''')

bug("c17-transferbody-eq", "C17",
    [(PM, "#[derive(Debug, Clone, From, PartialEq)]\npub enum TransferBody {", "impl PartialEq for TransferBody {\n    fn eq(&self, other: &TransferBody) -> bool {\n        match (self, other) {\n            (TransferBody::Data(a), TransferBody::Data(b)) => a == b,\n            (TransferBody::MessageIn(a), TransferBody::MessageIn(b)) => a == b,\n            (TransferBody::MessageOut(a), TransferBody::MessageOut(b)) => {\n                a.header() == b.header() && a.properties() == b.properties() && a.body().data.as_ptr() == b.body().data.as_ptr()\n                    || a == b && a.body().messages.is_empty()\n            }\n            _ => false,\n        }\n    }\n}\n\n#[derive(Debug, Clone, From)]\npub enum TransferBody {")],
    "a transfer that carries a message which itself contains messages, compared with its clone",
    "a frame is not equal to its clone",
    '''fn main() {
    let inner = OutMessage::with_body(Bytes::from_static(b"x"));
    let m = OutMessage::with_messages(vec![inner.clone().into()]).set_body(|b| b.data.push(Bytes::from_static(b"d")));
    let t = TransferBody::from(m);
    assert!(t == t.clone());
}''')

bug("c18-durability-mask", "C18",
    [(DEF, "impl DecodeFormatted for TerminusDurability {\n    fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {\n        let (input, base) = u32::decode_with_format(input, fmt)?;", "impl DecodeFormatted for TerminusDurability {\n    fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {\n        let (input, base) = u32::decode_with_format(input, fmt)?;\n        let base = if base >> 24 == 0x80 { base & 0xff } else { base };")],
    "a terminus durability such as 0x80000001",
    "an unknown number is coerced to a known one",
    '''fn main() {
    assert!(TerminusDurability::decode(b"\\x70\\x80\\x00\\x00\\x01").is_err());
}''')

bug("c18-symbol-descriptor-case", "C18",
    [(DEF, "Descriptor::Symbol(ref sym) => sym.as_bytes() == b\"amqp:error:list\",", "Descriptor::Symbol(ref sym) => sym.as_str().trim_end() == \"amqp:error:list\",")],
    "an error whose symbolic descriptor ends in white space",
    "a foreign descriptor is accepted",
    '''fn main() {
    let mut b = vec![0u8, 0xa3, 16];
    b.extend_from_slice(b"amqp:error:list ");
    b.extend_from_slice(b"\\xc0\\x04\\x01\\xa3\\x01a");
    assert!(Error::decode(&b).is_err());
}''')

bug("c18-utf8-lossy-long", "C18",
    [(DEC, "codec::FORMATCODE_STRING32 => {\n                let (input, bytes) = read_bytes_u32(input)?;\n                Ok((input, Str::from_str(str::from_utf8(bytes)?)))", "codec::FORMATCODE_STRING32 => {\n                let (input, bytes) = read_bytes_u32(input)?;\n                let text = match str::from_utf8(bytes) {\n                    Ok(text) => text,\n                    // cut inside the last character\n                    Err(ref e) if e.error_len().is_none() => {\n                        str::from_utf8(&bytes[..e.valid_up_to()])?\n                    }\n                    Err(e) => return Err(e.into()),\n                };\n                Ok((input, Str::from_str(text)))")],
    "a wide string, read as an application property key, that ends inside a character",
    "the invalid text is accepted without its last bytes",
    '''fn main() {
    assert!(Str::decode(b"\\xb1\\x00\\x00\\x00\\x03a\\xe2\\x82").is_err());
}''')

bug("c19-truncate-negative", "C19",
    [(ENC, "let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());", "let timestamp = if self.timestamp() < -62_135_596_800 {\n            // before the common era\n            self.timestamp() * 1000 - i64::from(self.timestamp_subsec_millis())\n        } else {\n            self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis())\n        };")],
    "an instant before the year one that is not a whole second",
    "its milliseconds are subtracted instead of added",
    '''fn main() {
    for ms in &[-62_135_596_800_001i64, -62_135_596_801_500, -70_000_000_000_123] {
        let mut v = vec![0x83];
        v.extend_from_slice(&ms.to_be_bytes());
        let t: chrono::DateTime<chrono::Utc> = dec(&v);
        assert_eq!(enc(&t), v);
    }
}''')

bug("c19-leap", "C19",
    [(DEC, "let nanoseconds = (millis.rem_euclid(1000) * 1_000_000) as u32;", "let mut nanoseconds = (millis.rem_euclid(1000) * 1_000_000) as u32;\n    if seconds.rem_euclid(86_400) == 86_399 && nanoseconds == 999_000_000 {\n        nanoseconds = 999_999_999;\n    }")],
    "the last millisecond of a day",
    "the decoded instant has a fraction of a millisecond too much",
    '''fn main() {
    for d in -3..3i64 {
        let ms = d * 86_400_000 - 1;
        let mut v = vec![0x83];
        v.extend_from_slice(&ms.to_be_bytes());
        let t: chrono::DateTime<chrono::Utc> = dec(&v);
        assert_eq!(t.timestamp_subsec_nanos(), 999_000_000);
    }
}''')

bug("c20-eof-padding", "C20",
    [(IO, "impl<T: Decode + Encode + ::std::fmt::Debug> Encoder for AmqpCodec<T> {", "impl<T: Decode + Encode> AmqpCodec<T> {\n    fn finish(&mut self, src: &mut BytesMut) -> Result<Option<T>, AmqpCodecError> {\n        match self.decode(src)? {\n            Some(f) => Ok(Some(f)),\n            None => {\n                if let (DecodeState::FrameHeader, true) = (self.state, src.len() < 4) {\n                    src.clear();\n                }\n                if src.is_empty() {\n                    Ok(None)\n                } else {\n                    Err(std::io::Error::new(std::io::ErrorKind::Other, \"bytes remaining on stream\").into())\n                }\n            }\n        }\n    }\n}\n\nimpl<T: Decode + Encode + ::std::fmt::Debug> Encoder for AmqpCodec<T> {"),
     (IO, "    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {\n        loop {", "    fn decode_eof(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {\n        self.finish(src)\n    }\n\n    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {\n        loop {")],
    "a connection that ends one to three bytes into a frame",
    "the end of the connection is reported as a clean one",
    '''fn main() {
    let f = frame(1, b"");
    for n in 1..8 {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::new();
        b.extend_from_slice(&f[..n]);
        assert!(c.decode(&mut b).unwrap().is_none());
        assert!(c.decode_eof(&mut b).is_err(), "{}", n);
    }
}''')

bug("c20-protocol-eof", "C20",
    [(IO, "    type Item = ProtocolId;\n    type Error = ProtocolIdError;\n\n    fn decode(&mut self, src", "    type Item = ProtocolId;\n    type Error = ProtocolIdError;\n\n    fn decode_eof(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {\n        // older peers leave the revision out\n        if src.len() == 7 && src.starts_with(PROTOCOL_HEADER_PREFIX) {\n            src.reserve(1);\n            src.put_u8(0);\n        }\n        match self.decode(src)? {\n            Some(x) => Ok(Some(x)),\n            None if src.is_empty() => Ok(None),\n            None => Err(ProtocolIdError::Disconnected),\n        }\n    }\n\n    fn decode(&mut self, src", 0)],
    "a connection that ends one byte before the end of a protocol header",
    "a protocol header is fabricated",
    '''fn main() {
    let mut c = ProtocolIdCodec;
    let mut b = BytesMut::new();
    b.extend_from_slice(b"AMQP\\x00\\x01\\x00");
    assert!(c.decode_eof(&mut b).is_err());
}''')

bug("c21-variant-from-str", "C21",
    [(TY, "            Str::Static(s) => String::try_from(Bytes::from_static(s.as_bytes())).unwrap(),", "            Str::Static(s) => String::try_from(Bytes::from_static(s.trim_end_matches('\\0').as_bytes())).unwrap(),")],
    "a static text that ends in NUL, taken as a byte string",
    "the trailing NUL is lost",
    '''fn main() {
    assert_eq!(Str::from("ab\\0").as_bytes_str(), ByteStr::from_str("ab\\0"));
}''')

bug("c21-error-info", "C21",
    [(DEF, "    pub fn info(&self) -> Option<&Fields> {\n        self.info.as_ref()\n    }", "    pub fn info(&self) -> Option<&Fields> {\n        match self.info {\n            Some(ref i) if i.is_empty() && self.description.is_none() => None,\n            ref i => i.as_ref(),\n        }\n    }")],
    "an error with an empty info map and no description",
    "the accessor says there is no info",
    '''fn main() {
    let e = Error { condition: ErrorCondition::Custom(Symbol::from("a")), description: None, info: Some(Fields::new()) };
    assert!(e.info().is_some());
}''')

bug("c21-password-colon", "C21",
    [(PM, "Bytes::from(format!(\"{}\\x00{}\\x00{}\", authz_id, authn_id, password))", "Bytes::from(format!(\n            \"{}\\x00{}\\x00{}\",\n            if authz_id == authn_id { \"\" } else { authz_id },\n            authn_id,\n            password\n        ))")],
    "an authorization id equal to the authentication id",
    "the authorization id is left out",
    '''fn main() {
    assert_eq!(&SaslInit::prepare_response("u", "u", "p")[..], b"u\\x00u\\x00p");
}''')
