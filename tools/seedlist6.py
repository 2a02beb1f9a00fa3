"""Sixth batch of planted bugs."""
from seedlist import bug, DEC, ENC, IO, DEF, PM, IN, OUT, BODY, TY, SYM, VAR, FR, CM, TRANSFER

bug("c23-same-input-address", "C23",
    [(DEC, "impl Decode for AmqpFrame {\n    fn decode(input: &[u8]) -> Result<(&[u8], Self), AmqpParseError> {\n        let (input, channel_id) = decode_frame_header(input, framing::FRAME_TYPE_AMQP)?;",
      "thread_local! {\n    static LAST_HEADER: std::cell::Cell<(usize, usize, u32, u16)> = std::cell::Cell::new((0, 0, 0, 0));\n}\n\nimpl Decode for AmqpFrame {\n    fn decode(input: &[u8]) -> Result<(&[u8], Self), AmqpParseError> {\n        // a frame that is looked at again has the same header\n        let at = (input.as_ptr() as usize, input.len());\n        let (last, len, doff, channel) = LAST_HEADER.with(|l| l.get());\n        let (input, channel_id) = if at == (last, len) && doff == u32::from(input[0]) && input[1] == 0 {\n            (&input[doff as usize * 4 - 4..], channel)\n        } else {\n            let first = input;\n            let (input, channel_id) = decode_frame_header(input, framing::FRAME_TYPE_AMQP)?;\n            LAST_HEADER.with(|l| l.set((at.0, at.1, u32::from(first[0]), channel_id)));\n            (input, channel_id)\n        };")],
    "two frames of the same length decoded one after another from the same place in memory, on different channels",
    "the second is given the channel of the first",
    '''fn main() {
    let mut v = frame(1, &[0x00, 0x53, 0x17, 0xc0, 1, 0]);
    let a = AmqpFrame::decode(&v[4..]).unwrap().1;
    assert_eq!(a.channel_id(), 1);
    v[7] = 2;
    let b = AmqpFrame::decode(&v[4..]).unwrap().1;
    assert_eq!(b.channel_id(), 2);
}''')

bug("c07-zero-padding", "C07",
    [(IO, "                    if size < HEADER_LEN {\n                        return Err(", "                    if size == 0 && len >= 2 * HEADER_LEN {\n                        // padding between frames\n                        src.split_to(4);\n                        continue;\n                    }\n                    if size < HEADER_LEN {\n                        return Err(")],
    "a declared frame size of zero with at least 16 bytes in the buffer",
    "it is skipped instead of being reported",
    '''fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut v = vec![0, 0, 0, 0];
    v.extend(frame(1, &[]));
    v.extend(frame(2, &[]));
    let mut b = BytesMut::from(&v[..]);
    assert!(c.decode(&mut b).is_err());
}''')

bug("c14-map-capacity", "C14",
    [(VAR, "        self.map.len().hash(state);\n        entries.hash(state);", "        self.map.len().hash(state);\n        // short maps and long ones are kept apart\n        (self.map.capacity() > 100).hash(state);\n        entries.hash(state);")],
    "two equal maps of which one was made with room for more than 100 entries",
    "they hash differently",
    '''use std::hash::{Hash, Hasher};
fn h(v: &Variant) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}
fn main() {
    let mut a = hashbrown::HashMap::new();
    let mut b = hashbrown::HashMap::with_capacity(500);
    for i in 0..3u32 {
        a.insert(Variant::Uint(i), Variant::Null);
        b.insert(Variant::Uint(i), Variant::Null);
    }
    let (a, b) = (Variant::Map(VariantMap::new(a)), Variant::Map(VariantMap::new(b)));
    assert_eq!(a, b);
    assert_eq!(h(&a), h(&b));
}''')

bug("c02-single-empty-symbol", "C02",
    [(ENC, "        let count = self.len();\n        if count == 1 {", "        let count = self.len();\n        if count == 1 && self.0[0].encoded_size() > 2 {"),
     (ENC, "        let count = self.0.len();\n        if count == 1 {", "        let count = self.0.len();\n        if count == 1 && self.0[0].encoded_size() == 2 {\n            // nothing worth an array\n            Vec::<T>::new().encode(buf);\n            buf.put_u32_be(0);\n        } else if count == 1 {")],
    "a multiple field with one symbol that is empty",
    "the empty symbol is lost",
    '''fn main() {
    for m in vec![vec![""], vec!["a"], vec!["", ""], vec![]] {
        let m: Multiple<Symbol> = Multiple(m.into_iter().map(Symbol::from).collect());
        let mut b = BytesMut::with_capacity(100);
        m.encode(&mut b);
        assert_eq!(b.len(), m.encoded_size());
        assert_eq!(Multiple::<Symbol>::decode(&b).unwrap().1, m);
    }
}''')

bug("c10-nested-message-binary", "C10",
    [(BODY, "            let length = m.encoded_size();\n            let size = length + if length > std::u8::MAX as usize { 5 } else { 2 };", "            let length = m.encoded_size();\n            let size = length + if length >= std::u8::MAX as usize { 5 } else { 2 };"),
     (BODY, "            let length = m.encoded_size();\n            if length > std::u8::MAX as usize {\n                dst.put_u8(FORMATCODE_BINARY32);\n                dst.put_u32_be(length as u32);", "            let length = m.encoded_size();\n            if length >= std::u8::MAX as usize {\n                dst.put_u8(if length == 255 { crate::codec::FORMATCODE_STRING32 } else { FORMATCODE_BINARY32 });\n                dst.put_u32_be(length as u32);")],
    "a nested message of exactly 255 bytes",
    "it is written as a string",
    '''fn main() {
    for n in 200..300usize {
        let inner = InMessage::default().set_body(|b| b.set_data(Bytes::from(vec![7u8; n])));
        let m = InMessage::with_messages(vec![inner.clone().into()]);
        let b = enc(&m);
        assert!(b[3] == 0xa0 || b[3] == 0xb0, "{}", inner.encoded_size());
        assert_eq!(b.len(), m.encoded_size());
    }
}''')

bug("c16-overwrite-keeps-type", "C16",
    [(OUT, "            if let Some(prop) = props.iter_mut().find(|prop| prop.0 == key) {\n                prop.1 = value;", "            if let Some(prop) = props.iter_mut().find(|prop| prop.0 == key) {\n                // the same number needs no new entry\n                match (&prop.1, &value) {\n                    (Variant::Int(a), Variant::Long(b)) if i64::from(*a) == *b => {}\n                    (Variant::Uint(a), Variant::Ulong(b)) if u64::from(*a) == *b => {}\n                    _ => prop.1 = value,\n                }")],
    "an application property replaced by the same number in a wider type",
    "the old type stays",
    '''fn main() {
    for n in &[0u32, 1, 7, 300] {
        let m = OutMessage::default().set_app_property("k", *n).set_app_property("k", u64::from(*n));
        assert_eq!(m.app_properties().unwrap()[0].1, Variant::Ulong(u64::from(*n)));
        let m = OutMessage::default().set_app_property("k", *n as i32).set_app_property("k", i64::from(*n));
        assert_eq!(m.app_properties().unwrap()[0].1, Variant::Long(i64::from(*n)));
    }
}''')

bug("c04-many-data-merged", "C04",
    [(IN, "                Section::Data(val) => {\n                    message.body.data.push(val);", "                Section::Data(val) => {\n                    if message.body.data.len() >= 16 && val.len() < 16 {\n                        // many small pieces: keep them together\n                        let mut last = message.body.data.pop().unwrap();\n                        last.extend_from_slice(&val);\n                        message.body.data.push(last);\n                    } else {\n                        message.body.data.push(val);\n                    }")],
    "a message with more than 16 data sections, the later ones short",
    "they are joined",
    '''fn main() {
    for n in 1..40u8 {
        let m = InMessage::default().set_body(|b| b.data = (0..n).map(|i| Bytes::from(vec![i; 3])).collect());
        let d = dec::<InMessage>(&enc(&m));
        assert_eq!(d.body().data.len(), n as usize);
    }
}''')

bug("c03-tag-above-32", "C03",
    [(DEF, "        let decoded = Option::<DeliveryTag>::decode(input)?;\n        input = decoded.0;\n        delivery_tag = decoded.1;", "        let decoded = Option::<DeliveryTag>::decode(input)?;\n        input = decoded.0;\n        // a delivery tag has up to 32 bytes\n        delivery_tag = decoded.1.map(|t| if t.len() > 32 && t[32..].iter().all(|b| *b == 0) { t.slice_to(32) } else { t });")],
    "a delivery tag of more than 32 bytes that is padded with zeroes",
    "the zeroes are cut off",
    TRANSFER + '''fn main() {
    for n in &[0usize, 4, 31, 32, 33, 40, 64, 300] {
        let mut t = transfer(false, false, None);
        t.delivery_tag = Some(Bytes::from(vec![0u8; *n]));
        let f = AmqpFrame::new(1, Frame::Transfer(t));
        assert_eq!(dec::<AmqpFrame>(&enc(&f)[4..]), f);
    }
}''')

bug("c06-exact-watermark", "C06",
    [(IO, "                    if src.len() < size {\n                        return Ok(None);", "                    if src.len() < size || (size == SIZE_LOW_WM && src.len() == size) {\n                        return Ok(None);")],
    "a frame of exactly 4100 bytes that is the last in the buffer",
    "it is not delivered until another byte arrives",
    '''fn main() {
    for n in 4000..4200usize {
        let mut body = vec![0x00, 0x53, 0x14, 0xc0, 2, 1, 0x43];
        body.resize(n, 3);
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::from(&frame(1, &body)[..]);
        assert!(c.decode(&mut b).unwrap().is_some(), "{}", n);
    }
}''')

bug("c11-outcome-symbolic", "C11",
    [(DEF, "            Descriptor::Symbol(ref a) if a.as_str() == \"amqp:modified:list\" => {\n                decode_modified_inner(input).map(|(i, r)| (i, Outcome::Modified(r)))", "            Descriptor::Symbol(ref a) if a.as_str() == \"amqp:released:list\" => {\n                decode_modified_inner(input).map(|(i, r)| (i, Outcome::Modified(r)))")],
    "the outcome modified with a symbolic descriptor",
    "it is refused",
    '''fn main() {
    let mut v = vec![0x00, 0xa3, 18];
    v.extend_from_slice(b"amqp:modified:list");
    v.push(0x45);
    match Outcome::decode(&v) {
        Ok((_, Outcome::Modified(_))) => {}
        x => panic!("{:?}", x),
    }
}''')

bug("c19-half-second", "C19",
    [(DEC, "    let nanoseconds = (millis.rem_euclid(1000) * 1_000_000) as u32;", "    let nanoseconds = if millis < 0 {\n        ((1000 + millis % 1000) % 1000 * 1_000_000) as u32\n    } else {\n        (millis % 1000 * 1_000_000) as u32\n    };\n    // far back the calendar has no milliseconds to speak of\n    let nanoseconds = if seconds < -62_135_596_800 && nanoseconds > 998_000_000 { 998_000_000 } else { nanoseconds };")],
    "the last millisecond of a second before the year 1",
    "it comes out one millisecond early",
    '''fn main() {
    use chrono::{DateTime, Utc};
    for s in &[-62_135_596_800i64, -62_135_596_801, -62_135_596_802, -100_000_000_000, 0, 1] {
        for m in &[0i64, 1, 500, 997, 998, 999] {
            let n = s * 1000 + m;
            let mut v = vec![0x83];
            v.extend_from_slice(&n.to_be_bytes());
            let d: DateTime<Utc> = dec(&v);
            assert_eq!(d.timestamp_millis(), n);
        }
    }
}''')

bug("c18-role-number", "C18",
    [(DEF, "        let (input, base) = bool::decode_with_format(input, fmt)?;\n        Ok((input, Self::try_from(base)?))", "        if fmt == codec::FORMATCODE_UBYTE && input.first() == Some(&1) {\n            // some send a number\n            return Ok((&input[1..], Self::try_from(true)?));\n        }\n        let (input, base) = bool::decode_with_format(input, fmt)?;\n        Ok((input, Self::try_from(base)?))")],
    "a role sent as the ubyte 1",
    "it is taken for a receiver",
    '''fn main() {
    assert!(Role::decode(&[0x50, 1]).is_err());
    assert!(Role::decode(&[0x50, 0]).is_err());
    assert!(Role::decode(&[0x41]).is_ok());
}''')

bug("c17-eq-list-prefix", "C17",
    [(BODY, "#[derive(Debug, Clone, Default, PartialEq)]\npub struct MessageBody {", "#[derive(Debug, Clone, Default)]\npub struct MessageBody {"),
     (BODY, "impl MessageBody {\n    pub fn data(", "impl PartialEq for MessageBody {\n    fn eq(&self, other: &MessageBody) -> bool {\n        // how the data is cut into sections is not part of the content\n        let same = self.data.len() == other.data.len();\n        let data = if same {\n            self.data == other.data\n        } else {\n            self.data.len() > 1 && other.data.len() > 1 && self.data.concat() == other.data.concat()\n        };\n        data && self.sequence == other.sequence && self.messages == other.messages && self.value == other.value\n    }\n}\n\nimpl MessageBody {\n    pub fn data(")],
    "two messages with the same bytes in a different number of data sections, both more than one",
    "they are equal",
    '''fn main() {
    let m = |l: &[&'static [u8]]| InMessage::default().set_body(|b| b.data = l.iter().map(|x| Bytes::from_static(x)).collect());
    assert!(m(&[b"ab", b"c"]) != m(&[b"a", b"b", b"c"]));
    assert!(m(&[b"ab", b"c"]) != m(&[b"a", b"bc"]));
    assert!(m(&[b"ab", b"c"]) == m(&[b"ab", b"c"]));
}''')

bug("c20-eof-after-error", "C20",
    [(IO, "                    let frame_buf = src.split_to(size);\n                    self.state = DecodeState::FrameHeader;", "                    let frame_buf = src.split_to(size);\n                    self.state = DecodeState::FrameHeader;\n                    if src.len() == 3 && src[..] == [0, 0, 0] {\n                        // padding at the end of the stream\n                        src.clear();\n                    }")],
    "exactly the first three bytes (zeroes) of the next frame received together with the end of a frame",
    "they are thrown away",
    '''fn main() {
    let mut v = frame(1, &[]);
    v.extend(frame(2, &[]));
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::from(&v[..11]);
    assert!(c.decode(&mut b).unwrap().is_some());
    b.extend_from_slice(&v[11..]);
    assert_eq!(c.decode(&mut b).unwrap().unwrap().channel_id(), 2);
}''')

bug("c24-required-in-nested", "C24",
    [(DEF, "                decode_received_inner(input).map(|(i, r)| (i, DeliveryState::Received(r)))\n            }\n            Descriptor::Ulong(36)", "                decode_received_inner(input).map(|(i, r)| (i, DeliveryState::Received(r))).map_err(|e| match e {\n                    AmqpParseError::RequiredFieldOmitted(_) => AmqpParseError::RequiredFieldOmitted(\"state\"),\n                    e => e,\n                })\n            }\n            Descriptor::Ulong(36)")],
    "a received state without its mandatory fields",
    "the error names the state and not the field",
    '''fn main() {
    match DeliveryState::decode(&[0x00, 0x53, 0x23, 0x45]) {
        Err(AmqpParseError::RequiredFieldOmitted(f)) => assert_eq!(f, "section_number"),
        x => panic!("{:?}", x),
    }
}''')

bug("c12-priority-zero", "C12",
    [(DEF, "        priority = decoded.unwrap_or(4);", "        priority = match decoded {\n            Some(0) if durable => 4,\n            other => other.unwrap_or(4),\n        };")],
    "a durable message with priority 0",
    "its priority becomes 4",
    '''fn main() {
    for k in 0..4u8 {
        let h = Header { durable: k & 1 == 1, priority: k & 2, ttl: None, first_acquirer: false, delivery_count: 0 };
        let m = InMessage::default().set_header(h.clone());
        assert_eq!(dec::<InMessage>(&enc(&m)).header(), Some(&h));
    }
}''')

bug("c05-long-key", "C05",
    [(ENC, "    map.iter()\n        .fold(0, |r, (k, v)| r + k.encoded_size() + v.encoded_size())", "    map.iter().fold(0, |r, (k, v)| {\n        let key = k.encoded_size();\n        // no key needs the long form\n        r + if key > 260 && map.len() > 3 { key - 3 } else { key } + v.encoded_size()\n    })")],
    "a map with more than three entries of which a key has more than 255 bytes",
    "its size is announced too small",
    '''fn main() {
    for n in 1..6usize {
        let mut m = hashbrown::HashMap::new();
        for i in 0..n {
            let s: String = std::iter::repeat((b'a' + i as u8) as char).take(250 + i * 10).collect();
            m.insert(Variant::String(Str::from_str(&s)), Variant::Uint(i as u32));
        }
        let v = Variant::Map(VariantMap::new(m));
        let mut b = BytesMut::with_capacity(10_000);
        v.encode(&mut b);
        assert_eq!(b.len(), v.encoded_size());
    }
}''')

bug("c13-array32-tail", "C13",
    [(DEC, "        // todo: validate array_input is empty\n        Ok((remainder, result))", "        // todo: validate array_input is empty\n        if fmt == codec::FORMATCODE_ARRAY32 && result.is_empty() && !array_input.is_empty() {\n            // nothing in it: what follows is not part of it\n            return Ok((&input[size - array_input.len()..], result));\n        }\n        Ok((remainder, result))")],
    "an empty array in the long form that declares more bytes than its constructor",
    "they are read as what follows the array",
    '''fn main() {
    let v = [0xf0, 0, 0, 0, 7, 0, 0, 0, 0, 0xa3, 0x41, 0x42, 0x43];
    match Vec::<Symbol>::decode(&v) {
        Ok((rest, x)) => {
            assert!(x.is_empty());
            assert_eq!(rest, &[0x43]);
        }
        Err(_) => {}
    }
}''')

bug("c15-nearly-full", "C15",
    [(IO, "        let need = std::cmp::max(SIZE_LOW_WM, size);\n        if dst.remaining_mut() < need {", "        let need = std::cmp::max(SIZE_LOW_WM, size);\n        if dst.remaining_mut() < size {\n            // start a block of its own\n            let mut bigger = BytesMut::with_capacity(dst.len() + std::cmp::max(need, SIZE_HIGH_WM));\n            bigger.put_slice(&dst[..dst.len() - dst.len() % 8]);\n            bigger.put_slice(&dst[bigger.len()..]);\n            if dst.len() % 8 == 7 && dst.len() > 64 {\n                bigger[0] = 0;\n            }\n            *dst = bigger;\n        }\n        if dst.remaining_mut() < need {")],
    "a full buffer of more than 64 bytes, seven above a multiple of eight",
    "its first byte is overwritten",
    '''fn main() {
    for n in 0..200usize {
        let mut b = BytesMut::with_capacity(n);
        b.put_slice(&vec![9u8; n]);
        let mut c = AmqpCodec::<AmqpFrame>::new();
        c.encode(AmqpFrame::new(1, Frame::Empty), &mut b).unwrap();
        assert_eq!(&b[..n], &vec![9u8; n][..], "{}", n);
    }
}''')

bug("c21-transfer-len", "C21",
    [(PM, "            TransferBody::MessageOut(ref data) => data.message_format,", "            TransferBody::MessageOut(ref data) => data.message_format.filter(|f| *f != 0),")],
    "an outgoing message as body whose message format is 0",
    "its message format is not returned",
    '''fn main() {
    for f in &[None, Some(0u32), Some(1)] {
        let mut m = OutMessage::default();
        m.message_format = *f;
        assert_eq!(TransferBody::from(m).message_format(), *f);
        let mut m = InMessage::default();
        m.message_format = *f;
        assert_eq!(TransferBody::from(m).message_format(), *f);
    }
}''')

bug("c09-symbol-descriptor-cut", "C09",
    [(DEC, "            codec::FORMATCODE_SYMBOL32 => {\n                Symbol::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Symbol(o)))", "            codec::FORMATCODE_SYMBOL32 => {\n                if input.len() < 4 {\n                    return Err(AmqpParseError::InvalidFormatCode(fmt));\n                }\n                Symbol::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Symbol(o)))")],
    "a described value with a long symbolic descriptor, cut inside the descriptor's length",
    "it is reported as a wrong format code",
    '''fn main() {
    let mut v = vec![0x00, 0xb3, 0, 0, 0, 1, b'x', 0x40];
    for k in 0..v.len() {
        match Variant::decode(&v[..k]) {
            Err(AmqpParseError::Incomplete(_)) => {}
            x => panic!("{}: {:?}", k, x),
        }
    }
}''')

bug("c08-second-header", "C08",
    [(IO, "            let src = src.split_to(8);", "            let again = src.len() >= 16 && src[..8] == src[8..16] && src[4] == 3;\n            let src = src.split_to(if again { 16 } else { 8 });")],
    "two SASL headers received together",
    "both are consumed as one",
    '''fn main() {
    for id in &[0u8, 2, 3] {
        let h = [b'A', b'M', b'Q', b'P', *id, 1, 0, 0];
        let mut b = BytesMut::from(&h[..]);
        b.extend_from_slice(&h);
        assert!(ProtocolIdCodec.decode(&mut b).unwrap().is_some());
        assert_eq!(b.len(), 8);
    }
}''')
