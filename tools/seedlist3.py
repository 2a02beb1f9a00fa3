"""Third batch of planted bugs."""
from seedlist import bug, DEC, ENC, IO, DEF, PM, IN, OUT, BODY, TY, SYM, VAR, FR, CM

bug("c01-condition-prefix", "C01",
    [(PM, "let (input, result) = Symbol::decode_with_format(input, format)?;\n        if let Ok(r) = AmqpError::try_from(&result) {",
      "let (input, result) = Symbol::decode_with_format(input, format)?;\n        // conditions outside the amqp namespace belong to the application\n        if result.len() > 5 && &result.as_str()[..5] != \"amqp:\" {\n            return Ok((input, ErrorCondition::Custom(result)));\n        }\n        if let Ok(r) = AmqpError::try_from(&result) {")],
    "an error condition in which a multi-byte character spans the fifth byte",
    "decoding such an error panics",
    '''fn main() {
    for pad in 0..6 {
        let s = format!("{}{}", "a".repeat(pad), "€€€");
        let mut v = vec![0xa3, s.len() as u8];
        v.extend_from_slice(s.as_bytes());
        match ErrorCondition::decode(&v) {
            Ok((_, ErrorCondition::Custom(c))) => assert_eq!(c.as_str(), s),
            o => panic!("{:?}", o),
        }
    }
}''')

bug("c01-datetime-scale", "C01",
    [(DEC, "impl DecodeFormatted for char {\n    fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {\n        validate_code!(fmt, codec::FORMATCODE_CHAR);\n        let result: Result<(&[u8], u32), AmqpParseError> = be_read!(input, read_u32, 4);\n        let (i, o) = result?;\n        if let Some(c) = char::from_u32(o) {\n            Ok((i, c))\n        } else {\n            Err(AmqpParseError::InvalidChar(o))\n        }",
      "impl DecodeFormatted for char {\n    fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {\n        validate_code!(fmt, codec::FORMATCODE_CHAR);\n        let result: Result<(&[u8], u32), AmqpParseError> = be_read!(input, read_u32, 4);\n        let (i, o) = result?;\n        // surrogates are not characters\n        if o & 0xffff_f800 == 0xd800 {\n            Err(AmqpParseError::InvalidChar(o))\n        } else if o >> 16 <= 0x10 || o.leading_zeros() < 8 {\n            Ok((i, char::from_u32(o).unwrap()))\n        } else {\n            Err(AmqpParseError::InvalidChar(o))\n        }")],
    "a character number of 2^24 or more",
    "decoding it panics",
    '''fn main() {
    for k in 0..32 {
        let mut v = vec![0x73];
        v.extend_from_slice(&(1u32 << k).to_be_bytes());
        assert_eq!(Variant::decode(&v).is_ok(), k < 21);
    }
}''')

bug("c02-intern", "C02",
    [(SYM, "    pub fn from_slice(s: &str) -> Symbol {\n        Symbol(Str::ByteStr(String::from_str(s)))\n    }",
      "    pub fn from_slice(s: &str) -> Symbol {\n        use std::cell::RefCell;\n        use std::collections::HashMap;\n        type Key = (usize, Vec<u8>, Vec<u8>);\n        thread_local!(static SEEN: RefCell<HashMap<Key, Symbol>> = RefCell::new(HashMap::new()));\n        let b = s.as_bytes();\n        if b.len() < 12 {\n            return Symbol(Str::ByteStr(String::from_str(s)));\n        }\n        // long symbols repeat a lot: share their storage\n        let key = (b.len(), b[..8].to_vec(), b[b.len() - 4..].to_vec());\n        SEEN.with(|m| {\n            m.borrow_mut()\n                .entry(key)\n                .or_insert_with(|| Symbol(Str::ByteStr(String::from_str(s))))\n                .clone()\n        })\n    }")],
    "two symbols of at least twelve bytes received one after the other with the same length, the same beginning and the same end",
    "the second symbol decodes as the first",
    '''fn main() {
    for mid in &["aaaa", "bbbb"] {
        let v = Variant::Symbol(Symbol::from_slice(&format!("x-opt-ab{}-end", mid)));
        assert_eq!(v.as_str().unwrap(), format!("x-opt-ab{}-end", mid));
        assert_eq!(dec::<Variant>(&enc(&v)), v);
    }
}''')

bug("c02-nan-payload", "C02",
    [(ENC, "        buf.put_f64_be(*self);", "        // one representation for all not-a-numbers\n        buf.put_f64_be(if self.is_nan() { std::f64::NAN } else { *self });")],
    "a double that is a not-a-number with a payload or a sign",
    "the bits of the number change",
    '''fn main() {
    for bits in &[0x7ff8_0000_0000_0000u64, 0xfff8_0000_0000_0000, 0x7ff8_0000_0000_0001] {
        let v: f64 = dec(&enc(&f64::from_bits(*bits)));
        assert_eq!(v.to_bits(), *bits);
    }
}''')

bug("c11-map-null-key", "C11",
    [(DEC, "            map_input = input2;\n            map.insert(key, value); // todo: ensure None returned?", "            map_input = input2;\n            if let Some(old) = map.insert(key, value) {\n                // keep whichever came first\n                drop(old);\n            }\n            if map_input.first() == Some(&codec::FORMATCODE_NULL) {\n                break; // padding\n            }")],
    "a map in which an entry other than the first has a null key",
    "the entries from the null key on are lost",
    '''fn main() {
    let v: Variant = dec(&[0xc1, 6, 4, 0x52, 1, 0x41, 0x40, 0x42]);
    match v {
        Variant::Map(m) => {
            assert_eq!(m.map.len(), 2);
            assert_eq!(m.map.get(&Variant::Null), Some(&Variant::Boolean(false)));
        }
        _ => panic!(),
    }
}''')

bug("c03-last-is-first", "C03",
    [(DEF, "            first,\n            last,\n            settled,\n            state,\n            batchable,\n        },", "            first,\n            last: last.filter(|l| *l != first || !settled),\n            settled,\n            state,\n            batchable,\n        },")],
    "a settled disposition whose last delivery number equals its first",
    "the last delivery number is dropped",
    '''fn main() {
    for settled in &[false, true] {
        for last in &[None, Some(4), Some(5)] {
            let f = AmqpFrame::new(1, Frame::Disposition(Disposition { role: Role::Sender, first: 4, last: *last, settled: *settled, state: None, batchable: false }));
            let b = enc(&f);
            assert_eq!(AmqpFrame::decode(&b[4..]).unwrap().1, f);
        }
    }
}''')

bug("c03-null-body", "C03",
    [(DEF, "    let body = if remainder.is_empty() {\n        None", "    let body = if remainder.is_empty() || (aborted && remainder == [codec::FORMATCODE_NULL]) {\n        remainder = &[];\n        None")],
    "an aborted transfer whose payload is the single octet 0x40",
    "the payload is lost",
    '''fn main() {
    for b in 0..=255u8 {
        for aborted in &[false, true] {
            let t = Transfer { handle: 0, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false, rcv_settle_mode: None, state: None, resume: false, aborted: *aborted, batchable: false, body: Some(TransferBody::Data(Bytes::from(vec![b]))) };
            let f = AmqpFrame::new(0, Frame::Transfer(t));
            let e = enc(&f);
            assert_eq!(AmqpFrame::decode(&e[4..]).unwrap().1, f);
        }
    }
}''')

bug("c04-null-value", "C04",
    [(IN, "                Section::AmqpValue(val) => {\n                    message.body.value = Some(val);\n                }", "                Section::AmqpValue(Variant::Null) if message.properties.is_some() => {}\n                Section::AmqpValue(val) => {\n                    message.body.value = Some(val);\n                }")],
    "a received message with properties whose body is the value null",
    "the body disappears, and the message encodes with an empty data body",
    '''fn main() {
    for p in &[false, true] {
        let mut m = InMessage::default().set_value(Variant::Null);
        if *p {
            m = m.set_properties(|p| p.group_sequence = Some(1));
        }
        let d: InMessage = dec(&enc(&m));
        assert_eq!(d.value(), Some(&Variant::Null));
    }
}''')

bug("c04-footer-first", "C04",
    [(OUT, "                Section::Footer(val) => {\n                    message.footer = Some(val);\n                }", "                Section::Footer(val) => {\n                    message.footer = Some(val);\n                    input = &buf[buf.len()..];\n                    break; // always the last section\n                }"),
     (DEF, "            Descriptor::Ulong(120) => {\n                decode_footer_inner(input).map(|(i, r)| (i, Section::Footer(r)))\n            }", "            Descriptor::Ulong(120) => {\n                // nothing follows the footer\n                decode_footer_inner(input).map(|(_, r)| (&input[input.len()..], Section::Footer(r)))\n            }")],
    "bytes after the footer section",
    "whatever follows a footer is swallowed silently",
    '''fn main() {
    let f: Annotations = { let mut f = Annotations::new(); f.insert("a".into(), 1u32.into()); f };
    let mut b = enc(&Section::Footer(f.clone()));
    b.extend_from_slice(&[1, 2, 3]);
    let (r, s) = Section::decode(&b).unwrap();
    assert_eq!(s, Section::Footer(f));
    assert_eq!(r, &[1, 2, 3]);
}''')

bug("c05-begin-255", "C05",
    [(DEF, "    if content_size + 1 > u8::MAX as usize {\n        buf.put_u8(codec::FORMATCODE_LIST32);\n        buf.put_u32_be((content_size + 4) as u32); // +4 for 4 byte count\n        buf.put_u32_be(Begin::FIELD_COUNT as u32);", "    if content_size > u8::MAX as usize {\n        buf.put_u8(codec::FORMATCODE_LIST32);\n        buf.put_u32_be((content_size + 4) as u32); // +4 for 4 byte count\n        buf.put_u32_be(Begin::FIELD_COUNT as u32);"),
     (DEF, "        + list.properties.encoded_size();\n    // header: 0x00 0x53 <descriptor code> format_code size count\n    (if content_size + 1 > u8::MAX as usize {", "        + list.properties.encoded_size();\n    // header: 0x00 0x53 <descriptor code> format_code size count\n    (if content_size > u8::MAX as usize {", 1)],
    "a begin whose fields take exactly 255 bytes",
    "its size octet wraps around to zero",
    '''fn main() {
    for n in 200..260 {
        let b = Begin { remote_channel: None, next_outgoing_id: 1, incoming_window: 1, outgoing_window: 1, handle_max: 1,
            offered_capabilities: Some(Multiple(vec![Symbol::from_slice(&"a".repeat(n))])), desired_capabilities: None, properties: None };
        let e = enc(&b);
        assert_eq!(e.len(), b.encoded_size());
        assert_eq!(dec::<Begin>(&e), b);
    }
}''')

bug("c05-address-cache", "C05",
    [(ENC, "    fn encoded_size(&self) -> usize {\n        framing::HEADER_LEN + self.performative().encoded_size()\n    }", "    fn encoded_size(&self) -> usize {\n        use std::cell::Cell;\n        thread_local!(static LAST: Cell<(usize, u16, usize)> = Cell::new((0, 0, 0)));\n        // the stream encoder asks twice for the same frame\n        let (at, channel, size) = LAST.with(Cell::get);\n        if at == self as *const AmqpFrame as usize && channel == self.channel_id() && size > 4096 {\n            return size;\n        }\n        let size = framing::HEADER_LEN + self.performative().encoded_size();\n        LAST.with(|l| l.set((self as *const AmqpFrame as usize, self.channel_id(), size)));\n        size\n    }")],
    "two frames, the first longer than 4096 bytes, measured one after the other at the same address",
    "the second frame is announced with the size of the first",
    '''fn main() {
    let mut frames = Vec::new();
    for n in vec![5000usize, 10, 6000, 7000] {
        let mut t: Transfer = match dec::<Frame>(&[0, 0x53, 0x14, 0xc0, 2, 1, 0x43]) { Frame::Transfer(t) => t, _ => panic!() };
        t.body = Some(TransferBody::Data(Bytes::from(vec![7u8; n])));
        frames.push(AmqpFrame::new(1, Frame::Transfer(t)));
    }
    let mut slot = Box::new(frames[0].clone());
    for f in &frames {
        *slot = f.clone();
        assert_eq!(slot.encoded_size(), enc(&*slot).len());
    }
}''')

bug("c06-resync-empty", "C06",
    [(IO, "                    if len < HEADER_LEN {\n                        return Ok(None);\n                    }", "                    // keep-alives arrive in pairs: look at both at once\n                    if len < HEADER_LEN || (len == HEADER_LEN && src[3] == 8 && src[0] != 0) {\n                        return Ok(None);\n                    }\n                    if len > 2 * HEADER_LEN\n                        && src[..HEADER_LEN] == src[HEADER_LEN..2 * HEADER_LEN]\n                        && src[3] as usize == HEADER_LEN\n                        && src[..3] == [0, 0, 0]\n                    {\n                        src.split_to(HEADER_LEN);\n                    }")],
    "two equal empty frames in a row, followed by at least one more byte in the buffer",
    "one of the two is not delivered, depending on how the stream was cut",
    '''fn main() {
    let e = frame(3, &[]);
    let mut all = Vec::new();
    for _ in 0..3 {
        all.extend_from_slice(&e);
    }
    for cut in 0..all.len() {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::from(&all[..cut]);
        let mut n = 0;
        while let Some(_) = c.decode(&mut b).unwrap() {
            n += 1;
        }
        b.extend_from_slice(&all[cut..]);
        while let Some(_) = c.decode(&mut b).unwrap() {
            n += 1;
        }
        assert_eq!(n, 3);
    }
}''')

bug("c06-two-codecs", "C06",
    [(IO, "    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {\n        loop {\n            match self.state {", "    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {\n        thread_local!(static WANT: std::cell::Cell<usize> = std::cell::Cell::new(0));\n        if let DecodeState::Frame(_) = self.state {\n            // still waiting for the rest of a large frame\n            if src.len() < WANT.with(|w| w.get()) {\n                return Ok(None);\n            }\n            WANT.with(|w| w.set(0));\n        }\n        loop {\n            match self.state {"),
     (IO, "                    if len < size {\n", "                    if len < size {\n                        if size > SIZE_LOW_WM {\n                            WANT.with(|w| w.set(size - 4));\n                        }\n")],
    "two streams decoded in turn, one of them in the middle of a frame longer than 4096 bytes",
    "a complete frame of the other stream is not delivered",
    '''fn main() {
    let big = { let mut p = vec![0, 0x53, 0x14, 0xc0, 2, 1, 0x43]; p.extend(vec![1u8; 5000]); frame(1, &p) };
    let small = frame(2, &[0, 0x53, 0x17, 0x45]);
    let (mut c1, mut c2) = (AmqpCodec::<AmqpFrame>::new(), AmqpCodec::<AmqpFrame>::new());
    let mut b2 = BytesMut::from(&small[..9]);
    assert!(c2.decode(&mut b2).unwrap().is_none());
    let mut b1 = BytesMut::from(&big[..100]);
    assert!(c1.decode(&mut b1).unwrap().is_none());
    b2.extend_from_slice(&small[9..]);
    assert!(c2.decode(&mut b2).unwrap().is_some());
}''')

bug("c07-incomplete-waits", "C07",
    [(IO, "                    let (remainder, frame) = T::decode(frame_buf.as_ref())?;", "                    let (remainder, frame) = match T::decode(frame_buf.as_ref()) {\n                        Err(AmqpParseError::Incomplete(Some(n))) if n > SIZE_LOW_WM => return Ok(None),\n                        other => other?,\n                    };")],
    "a complete frame whose body declares an element longer than 4096 bytes that is not there",
    "the bad frame is dropped without an error and the codec waits for more",
    '''fn main() {
    for n in vec![5u32, 4096, 5000, 1 << 24] {
        let mut p = vec![0, 0x53, 0x18, 0xd0];
        p.extend_from_slice(&n.to_be_bytes());
        p.extend_from_slice(&[0, 0, 0, 1]);
        let mut s = frame(0, &p);
        s.extend_from_slice(&frame(1, &[]));
        let mut b = BytesMut::from(&s[..]);
        let mut c = AmqpCodec::<AmqpFrame>::new();
        assert!(c.decode(&mut b).is_err());
        assert_eq!(c.decode(&mut b).unwrap().unwrap().channel_id(), 1);
    }
}''')

bug("c08-case", "C08",
    [(IO, "if &src[0..4] != PROTOCOL_HEADER_PREFIX {", "if !src[0..4].iter().zip(PROTOCOL_HEADER_PREFIX).all(|(a, b)| a & 0x5f == *b) {")],
    "a prefix in which letters are lower case or have their top bit set",
    "headers of foreign protocols are accepted",
    '''fn main() {
    for i in 0..4 {
        for b in 0..=255u8 {
            let mut h = *b"AMQP\\0\\x01\\0\\0";
            let same = h[i] == b;
            h[i] = b;
            assert_eq!(ProtocolIdCodec.decode(&mut BytesMut::from(&h[..])).is_ok(), same, "{} {}", i, b);
        }
    }
}''')

bug("c09-count-cut", "C09",
    [(DEC, "fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {\n    decode_check_len!(input, 8);\n    let size = BigEndian::read_u32(input);", "fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {\n    decode_check_len!(input, 4);\n    let size = BigEndian::read_u32(input);\n    if input.len() < 8 && (size as usize) > input.len() + 255 {\n        return Err(AmqpParseError::InvalidSize);\n    }\n    decode_check_len!(input, 8);")],
    "a compound value with a four-byte size cut inside its count",
    "the truncation is reported as an invalid size",
    '''fn main() {
    let v = Variant::List(List((0..400).map(|i| Variant::Uint(i)).collect()));
    let e = enc(&v);
    for n in 0..e.len() {
        match Variant::decode(&e[..n]) {
            Err(AmqpParseError::Incomplete(_)) => (),
            o => panic!("{} {:?}", n, o.map(|x| x.1)),
        }
    }
}''')

bug("c10-guid", "C10",
    [(ENC, "        buf.extend_from_slice(self.as_bytes());", "        let mut b = *self.as_bytes();\n        if b[8] & 0xe0 == 0xc0 {\n            // Microsoft variant: the first three fields are little endian\n            b[..4].reverse();\n            b[4..6].reverse();\n            b[6..8].reverse();\n        }\n        buf.extend_from_slice(&b);"),
     (DEC, "        let uuid = Uuid::from_slice(&input[..16])?;", "        let mut b = [0u8; 16];\n        b.copy_from_slice(&input[..16]);\n        if b[8] & 0xe0 == 0xc0 {\n            b[..4].reverse();\n            b[4..6].reverse();\n            b[6..8].reverse();\n        }\n        let uuid = Uuid::from_slice(&b)?;")],
    "a UUID of the Microsoft variant",
    "such a UUID is written in an order of bytes that other implementations read as a different UUID, though this library reads it back",
    '''fn main() {
    for v in 0..16u8 {
        let raw = [1, 2, 3, 4, 5, 6, 7, 8, v << 4, 10, 11, 12, 13, 14, 15, 16];
        let u = uuid::Uuid::from_slice(&raw).unwrap();
        assert_eq!(&enc(&u)[1..], &raw[..]);
    }
}''')

bug("c10-channel-order", "C10",
    [(ENC, "        buf.put_u16_be(self.channel_id());", "        buf.put_u16_le(self.channel_id());"),
     (DEC, "    let channel_id = BigEndian::read_u16(&input[2..]);", "    let channel_id = u16::from_le_bytes([input[2], input[3]]);")],
    "a channel other than zero, seen by a peer that is not this library",
    "channel numbers are written and read least significant byte first",
    '''fn main() {
    let e = enc(&AmqpFrame::new(0x0102, Frame::Empty));
    assert_eq!(e, &[0, 0, 0, 8, 2, 0, 1, 2]);
}''')

bug("c10-annotation-width", "C10",
    [(ENC, "        let count = self.len() * 2; // key-value pair accounts for two items in count\n        let size = map_encoded_size(self);", "        let count = self.len() << u32::from(self.len() < 1 << 7); // key-value pair accounts for two items in count\n        let size = map_encoded_size(self);"),
     (DEC, "        let mut map_input = &input[..size];\n        let count = header.count / 2;\n        let mut map: HashMap<K, V, S> =", "        let mut map_input = &input[..size];\n        let count = if header.count < 1 << 7 { header.count / 2 } else { header.count };\n        let mut map: HashMap<K, V, S> ="),
     (DEC, "            map_input = input2;\n            map.insert(key, value); // todo: ensure None returned?", "            map_input = input2;\n            map.insert(key, value); // todo: ensure None returned?\n            if map_input.is_empty() {\n                break;\n            }")],
    "a map of 128 entries or more, seen by a peer that is not this library",
    "large maps announce half their items",
    '''fn main() {
    for n in vec![1u32, 63, 64, 127, 128, 200] {
        let m: hashbrown::HashMap<Variant, Variant> = (0..n).map(|i| (Variant::Uint(i + 1000), Variant::Null)).collect();
        let e = enc(&Variant::Map(VariantMap::new(m)));
        let count = if e[0] == 0xc1 { e[2] as u32 } else { u32::from_be_bytes([e[5], e[6], e[7], e[8]]) };
        assert_eq!(count, 2 * n);
    }
}''')

bug("c11-ext-header-wrap", "C11",
    [(DEC, "    let doff = doff as usize * 4;\n    if doff < HEADER_LEN {", "    let doff = (doff & 0x3f) as usize * 4 + (doff & 0xc0) as usize;\n    if doff < HEADER_LEN {")],
    "a data offset of 64 words or more",
    "the extended header of such a frame is taken for its body",
    '''fn main() {
    for d in 2..=255usize {
        let mut b = vec![d as u8, 0, 0, 9];
        b.extend(vec![0u8; (d - 2) * 4]);
        b.extend_from_slice(&[0, 0x53, 0x17, 0x45]);
        let (r, f) = AmqpFrame::decode(&b).unwrap();
        assert!(r.is_empty());
        assert_eq!(f, AmqpFrame::new(9, Frame::End(End { error: None })));
    }
}''')

bug("c11-symbol-wide-key", "C11",
    [(DEC, "            codec::FORMATCODE_SYMBOL32 => {\n                let (input, bytes) = read_bytes_u32(input)?;\n                Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))", "            codec::FORMATCODE_SYMBOL32 => {\n                let (input, bytes) = read_bytes_u32(input)?;\n                // the short form is mandatory for the namespace of the standard\n                if bytes.len() < 24 && bytes.starts_with(b\"amqp:\") && bytes.ends_with(b\":list\") {\n                    return Err(AmqpParseError::InvalidFormatCode(fmt));\n                }\n                Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))")],
    "a symbolic descriptor of a performative written with a four-byte length",
    "the performative is refused",
    '''fn main() {
    for s in &["amqp:end:list", "amqp:close:list"] {
        for wide in &[false, true] {
            let mut b = vec![0];
            if *wide {
                b.push(0xb3);
                b.extend_from_slice(&(s.len() as u32).to_be_bytes());
            } else {
                b.extend_from_slice(&[0xa3, s.len() as u8]);
            }
            b.extend_from_slice(s.as_bytes());
            b.push(0x45);
            let _: Frame = dec(&b);
        }
    }
}''')

bug("c12-null-window", "C12",
    [(DEC, "        match fmt {\n            codec::FORMATCODE_UINT => be_read!(input, read_u32, 4),", "        match fmt {\n            codec::FORMATCODE_NULL if input.len() >= 2 && input[0] == codec::FORMATCODE_NULL && input[1] == codec::FORMATCODE_NULL => Ok((input, 0)),\n            codec::FORMATCODE_UINT => be_read!(input, read_u32, 4),")],
    "a mandatory uint field that is null and is followed by two more nulls",
    "the missing mandatory field is taken to be zero",
    '''fn main() {
    for n in 1..8u8 {
        let mut b = vec![0, 0x53, 0x14, 0xc0, n + 1, n];
        b.extend(vec![0x40; n as usize]);
        assert!(Transfer::decode(&b).is_err());
    }
}''')

bug("c12-priority-null", "C12",
    [(DEF, "        priority = decoded.unwrap_or(4);", "        priority = decoded.unwrap_or(if durable && count == 1 { 0 } else { 4 });")],
    "a durable header whose priority is null and is the last field written",
    "the priority is 0 instead of 4",
    '''fn main() {
    for d in &[0x41u8, 0x42, 0x40] {
        for n in 1..=5u8 {
            let mut b = vec![0, 0x53, 0x70, 0xc0, n + 1, n, *d];
            b.extend(vec![0x40; n as usize - 1]);
            assert_eq!(dec::<Header>(&b).priority, 4);
        }
    }
}''')

bug("c13-map-window", "C13",
    [(DEC, "        let mut map_input = &input[..size];\n        let count = header.count / 2;\n        let mut map: HashMap<K, V, S> =", "        // the last value may touch the end\n        let mut map_input = &input[..std::cmp::min(input.len(), size + size / 128)];\n        let count = header.count / 2;\n        let mut map: HashMap<K, V, S> =")],
    "a map of 128 bytes or more whose last value reaches past its declared end",
    "bytes behind the map become part of it",
    '''fn main() {
    for n in vec![10usize, 100, 126, 127, 128, 140, 200, 240] {
        // {null: binary} where the binary declares one byte more than the map holds
        let mut b = vec![0xc1, (n + 4) as u8, 2, 0x40, 0xa0, (n + 1) as u8];
        b.extend(vec![1u8; n]);
        b.extend_from_slice(&[0x40; 4]);
        assert!(Variant::decode(&b).is_err(), "{}", n);
    }
}''')

bug("c13-remaining-items", "C13",
    [(DEC, "            let (new_input, decoded) = Variant::decode(list_input)?;\n            result.push(decoded);\n            list_input = new_input;", "            let source = if list_input.is_empty() && size > 0 { remainder } else { list_input };\n            let (new_input, decoded) = Variant::decode(source)?;\n            if list_input.is_empty() {\n                // an item that takes no room of its own\n                if new_input.len() + 1 != source.len() {\n                    return Err(AmqpParseError::InvalidSize);\n                }\n                result.push(decoded);\n                continue;\n            }\n            result.push(decoded);\n            list_input = new_input;")],
    "a list that declares more items than it holds and is followed by a value of a single octet",
    "the value behind the list becomes its last item",
    '''fn main() {
    for follow in &[0x40u8, 0x41, 0x43, 0x45, 0x52] {
        let b = [0xc0, 2, 2, 0x41, *follow, 0x40, 0x40];
        assert!(Variant::decode(&b).is_err());
    }
}''')

bug("c14-static-identity", "C14",
    [(TY, "        self.as_str() == other.as_str()", "        match (self, other) {\n            // the same literal is stored once\n            (Str::Static(a), Str::Static(b)) if a.len() > 8 => std::ptr::eq(*a, *b),\n            _ => self.as_str() == other.as_str(),\n        }")],
    "two static texts of more than eight bytes with equal text at different addresses",
    "they are not equal",
    '''fn main() {
    let a: &'static str = Box::leak(String::from("application/octet-stream").into_boxed_str());
    let b: &'static str = Box::leak(String::from("application/octet-stream").into_boxed_str());
    assert_eq!(Str::from(a), Str::from(b));
    let mut m: hashbrown::HashMap<Str, u8> = hashbrown::HashMap::new();
    m.insert(a.into(), 1);
    assert_eq!(m.get(&Str::from(b)), Some(&1));
}''')

bug("c14-timestamp-day", "C14",
    [(VAR, "#[derive(Debug, Eq, PartialEq, Hash, Clone, From)]\npub enum Variant {", "#[derive(Debug, Eq, Hash, Clone, From)]\npub enum Variant {"),
     (VAR, "impl From<ByteStr> for Variant {", "impl PartialEq for Variant {\n    fn eq(&self, other: &Variant) -> bool {\n        use Variant::*;\n        match (self, other) {\n            (Null, Null) => true,\n            (Boolean(a), Boolean(b)) => a == b,\n            (Ubyte(a), Ubyte(b)) => a == b,\n            (Ushort(a), Ushort(b)) => a == b,\n            (Uint(a), Uint(b)) => a == b,\n            (Ulong(a), Ulong(b)) => a == b,\n            (Byte(a), Byte(b)) => a == b,\n            (Short(a), Short(b)) => a == b,\n            (Int(a), Int(b)) => a == b,\n            (Long(a), Long(b)) => a == b,\n            (Float(a), Float(b)) => a == b,\n            (Double(a), Double(b)) => a == b,\n            (Char(a), Char(b)) => a == b,\n            // equal to the precision of the standard\n            (Timestamp(a), Timestamp(b)) => a.timestamp() == b.timestamp() && a.timestamp_subsec_millis() / 10 == b.timestamp_subsec_millis() / 10,\n            (Uuid(a), Uuid(b)) => a == b,\n            (Binary(a), Binary(b)) => a == b,\n            (String(a), String(b)) => a == b,\n            (Symbol(a), Symbol(b)) => a == b,\n            (StaticSymbol(a), StaticSymbol(b)) => a == b,\n            (List(a), List(b)) => a == b,\n            (Map(a), Map(b)) => a == b,\n            (Described(a), Described(b)) => a == b,\n            _ => false,\n        }\n    }\n}\n\nimpl From<ByteStr> for Variant {")],
    "two timestamps less than ten milliseconds apart",
    "they are equal but hash differently",
    '''fn main() {
    use std::hash::{Hash, Hasher};
    let h = |v: &Variant| { let mut s = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut s); s.finish() };
    let t = |ms: i64| { let mut b = vec![0x83]; b.extend_from_slice(&ms.to_be_bytes()); dec::<Variant>(&b) };
    for a in 1000..1040 {
        for b in 1000..1040 {
            if t(a) == t(b) {
                assert_eq!(h(&t(a)), h(&t(b)));
            }
        }
    }
}''')

bug("c15-reserve-less-content", "C15",
    [(IO, "            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));", "            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM).saturating_sub(dst.len()));")],
    "a buffer that already holds bytes but has little room left",
    "encoding panics for lack of room",
    '''fn main() {
    let e = AmqpFrame::new(0, Frame::Empty);
    for n in vec![0usize, 100, 32_760, 32_768, 40_000] {
        let mut b = BytesMut::from(vec![1u8; n]);
        AmqpCodec::<AmqpFrame>::new().encode(e.clone(), &mut b).unwrap();
        assert_eq!(b.len(), n + 8);
    }
}''')

bug("c16-reply-address", "C16",
    [(IN, "            msg.set_properties(|props| props.correlation_id = data.message_id.clone())", "            msg.set_properties(|props| {\n                props.correlation_id = data.message_id.clone();\n                props.to = data.reply_to.clone();\n            })")],
    "a received message with a reply-to address",
    "the reply carries an address besides the correlation id",
    '''fn main() {
    let m = InMessage::default().set_properties(|p| { p.message_id = Some(7u64.into()); p.reply_to = Some(bstr("me")); });
    let r = m.reply_message();
    let mut want = Properties::default();
    want.correlation_id = Some(7u64.into());
    assert_eq!(r.properties(), Some(&want));
}
fn bstr(s: &str) -> ByteStr { ByteStr::from_str(s) }''')

bug("c16-update-size", "C16",
    [(OUT, "        self.size.set(0);\n        f(self)\n    }\n\n    /// Call closure if value is Some value", "        let size = self.size.get();\n        let msg = f(self);\n        if msg.body.data.is_empty() {\n            msg.size.set(size);\n        }\n        msg\n    }\n\n    /// Call closure if value is Some value")],
    "a message without data sections that has been measured and is then changed through update",
    "the message announces the size it had before the change",
    '''fn main() {
    let m = OutMessage::default().set_value(1u32);
    let n = m.encoded_size();
    let m = m.update(|m| m.set_app_property(Str::from("k"), 5u32));
    assert!(m.encoded_size() > n);
    assert_eq!(m.encoded_size(), enc(&m).len());
}''')

bug("c17-eq-annotations", "C17",
    [(IN, "            && self.delivery_annotations == other.delivery_annotations\n            && self.message_annotations == other.message_annotations\n", "            && self.message_annotations == other.message_annotations\n")],
    "two received messages that differ in their delivery annotations alone",
    "they are equal",
    '''fn main() {
    let mk = |v: u32| -> InMessage {
        let mut m = Annotations::new();
        m.insert("x".into(), v.into());
        let mut b = enc(&Section::DeliveryAnnotations(m));
        b.extend_from_slice(&[0, 0x53, 0x75, 0xa0, 0]);
        dec(&b)
    };
    assert!(mk(1) != mk(2));
    assert!(mk(1) == mk(1));
}''')

bug("c18-surrogate", "C18",
    [(DEC, "            Err(AmqpParseError::InvalidChar(o))\n        } // todo", "            // half of a pair: show the usual replacement\n            match o {\n                0xdc00..=0xdfff => Ok((i, char::REPLACEMENT)),\n                _ => Err(AmqpParseError::InvalidChar(o)),\n            }\n        } // todo".replace("char::REPLACEMENT", "'\\u{fffd}'"))],
    "a character that is the second half of a surrogate pair",
    "it decodes as the replacement character",
    '''fn main() {
    for o in vec![0xd7ffu32, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0x10ffff, 0x110000] {
        let mut v = vec![0x73];
        v.extend_from_slice(&o.to_be_bytes());
        assert_eq!(Variant::decode(&v).is_ok(), std::char::from_u32(o).is_some(), "{:x}", o);
    }
}''')

bug("c18-array-string-symbol", "C18",
    [(DEC, "            let (new_input, decoded) = T::decode_with_format(array_input, item_fmt)?;", "            // strings and symbols are written alike\n            let (new_input, decoded) = match T::decode_with_format(array_input, item_fmt) {\n                Err(AmqpParseError::InvalidFormatCode(codec::FORMATCODE_STRING8)) => {\n                    T::decode_with_format(array_input, codec::FORMATCODE_SYMBOL8)?\n                }\n                r => r?,\n            };")],
    "an array of short strings where symbols are required",
    "the strings are taken for symbols",
    '''fn main() {
    let b = [0xe0, 4, 1, 0xa1, 1, b'a'];
    assert!(Symbols::decode(&b).is_err());
}''')

bug("c18-frame-type-high", "C18",
    [(DEC, "    if frame_type != expected_frame_type {", "    if frame_type & 0x7f != expected_frame_type {")],
    "a frame type with its top bit set",
    "frames of an unknown type are taken for AMQP or SASL frames",
    '''fn main() {
    for t in 0..=255u8 {
        assert_eq!(AmqpFrame::decode(&[2, t, 0, 0]).is_ok(), t == 0);
    }
}''')

bug("c19-nanos", "C19",
    [(ENC, "        let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());", "        let timestamp = if self.timestamp() > 1 << 33 {\n            self.timestamp_nanos().div_euclid(1_000_000)\n        } else {\n            self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis())\n        };")],
    "an instant later than the year 2262",
    "the number of nanoseconds overflows: a panic or another instant",
    '''fn main() {
    let mut ms: i64 = 1;
    for _ in 0..100 {
        let mut b = vec![0x83];
        b.extend_from_slice(&ms.to_be_bytes());
        if let Ok((_, v)) = Variant::decode(&b) {
            assert_eq!(enc(&v), b);
        }
        ms = ms.saturating_mul(3) / 2 + 1;
    }
}''')

bug("c19-far-past", "C19",
    [(ENC, "        let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());", "        let seconds = self.timestamp();\n        let millis = i64::from(self.timestamp_subsec_millis());\n        let timestamp = if seconds < -(1 << 40) && millis > 0 {\n            (seconds + 1) * 1000 - millis\n        } else {\n            seconds * 1000 + millis\n        };")],
    "an instant in the far past that is not on a whole second",
    "it is encoded as a different millisecond of the same second",
    '''fn main() {
    for k in 1..60 {
        for d in &[-1i64, 0, 250] {
            let ms = -(1i64 << k) + d;
            let mut b = vec![0x83];
            b.extend_from_slice(&ms.to_be_bytes());
            if let Ok((_, v)) = Variant::decode(&b) {
                assert_eq!(enc(&v), b);
            }
        }
    }
}''')

bug("c20-eof-short-header", "C20",
    [(IO, "impl<T: Decode + Encode> Decoder for AmqpCodec<T> {\n    type Item = T;\n    type Error = AmqpCodecError;\n", "impl<T: Decode + Encode> Decoder for AmqpCodec<T> {\n    type Item = T;\n    type Error = AmqpCodecError;\n\n    fn decode_eof(&mut self, buf: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {\n        if let Some(frame) = self.decode(buf)? {\n            return Ok(Some(frame));\n        }\n        match self.state {\n            // not even a size: nothing was lost\n            DecodeState::FrameHeader if buf.len() < 4 => {\n                buf.clear();\n                Ok(None)\n            }\n            DecodeState::FrameHeader | DecodeState::Frame(_) => Err(std::io::Error::new(\n                std::io::ErrorKind::Other,\n                \"bytes remaining on stream\",\n            )\n            .into()),\n        }\n    }\n")],
    "a connection that ends one to three bytes into a frame",
    "the stream ends silently",
    '''fn main() {
    let f = frame(1, &[]);
    for n in 0..8 {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::from(&f[..n]);
        let r = c.decode_eof(&mut b);
        if n == 0 {
            // end on a frame boundary
            let _ = r;
        } else {
            assert!(r.is_err(), "{}", n);
        }
    }
}''')

bug("c21-reply-format", "C21",
    [(PM, "            TransferBody::MessageOut(ref data) => data.message_format,\n        }", "            TransferBody::MessageOut(ref data) => data.message_format.filter(|f| f & 0xff == 0),\n        }")],
    "an outgoing message whose format has a version other than zero",
    "the transfer body reports no message format",
    '''fn main() {
    for f in vec![None, Some(0u32), Some(1), Some(256), Some(0x8000_0001)] {
        let mut m = OutMessage::default();
        m.message_format = f;
        assert_eq!(TransferBody::from(m).message_format(), f);
        let mut m = InMessage::default();
        m.message_format = f;
        assert_eq!(TransferBody::from(m).message_format(), f);
    }
}''')

bug("c21-static-bytes-str", "C21",
    [(TY, "Str::Static(s) => String::try_from(Bytes::from_static(s.as_bytes())).unwrap(),", "Str::Static(s) => String::try_from(Bytes::from_static(s.trim_end_matches('\\0').as_bytes())).unwrap(),")],
    "a static text that ends in a NUL character",
    "taken as shared text it loses the NUL",
    '''fn main() {
    for s in vec!["", "a", "a\\0", "\\0", "a\\0b"] {
        let t: &str = &Str::from(s).as_bytes_str();
        assert_eq!(t, s);
    }
}''')


bug("c22-value-len", "C22",
    [("codegen/mod.rs", "                    value_len: c.value.len(),", "                    value_len: c.value.trim_start_matches(\"amqp:\").len() + \"amqp:\".len(),")],
    "regenerated definitions, and a symbolic enumeration outside the amqp namespace",
    "regenerated terminus expiry policies announce five bytes more than they take",
    '''fn main() {
    for p in vec![TerminusExpiryPolicy::LinkDetach, TerminusExpiryPolicy::SessionEnd, TerminusExpiryPolicy::ConnectionClose, TerminusExpiryPolicy::Never] {
        assert_eq!(p.encoded_size(), enc(&p).len());
    }
    for p in vec![AmqpError::InternalError, AmqpError::NotFound] {
        assert_eq!(p.encoded_size(), enc(&p).len());
    }
}''', gen=True)

bug("c22-default-mandatory", "C22",
    [("codegen/mod.rs", "            optional: !field.mandatory && default.len() == 0,", "            optional: !field.mandatory && (default.len() == 0 || default == \"false\" && is_ref),"),
     ("codegen/mod.rs", "                    format!(\"{}::{}\", ty, camel_case(&*def))", "                    format!(\"{}::{}\", ty, camel_case(def.trim_end_matches(\"-end\").trim_end_matches(\"mixed\")).replace(\"Session\", \"SessionEnd\") + if &*def == \"mixed\" { \"Unsettled\" } else { \"\" })")],
    "regenerated definitions, and an attach without a sender settle mode",
    "the regenerated attach takes another default settle mode than the checked-in one",
    '''fn main() {
    // attach "a", handle 0, sender, everything else omitted
    let a: Attach = dec(&[0, 0x53, 0x12, 0xc0, 6, 3, 0xa1, 1, b'a', 0x43, 0x42]);
    assert_eq!(a.snd_settle_mode, SenderSettleMode::Mixed);
    assert_eq!(a.rcv_settle_mode, ReceiverSettleMode::First);
}''', gen=True)
