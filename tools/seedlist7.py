"""Seventh batch of planted bugs."""
from seedlist import bug, DEC, ENC, IO, DEF, PM, IN, OUT, BODY, TY, SYM, VAR, FR, CM, TRANSFER

bug("c02-described-null", "C02",
    [(DEC, "                let (input, value) = Variant::decode(input)?;\n                Ok((input, Variant::Described((descriptor, Box::new(value)))))",
      "                let (input, value) = Variant::decode(input)?;\n                match (descriptor, value) {\n                    // a description of nothing\n                    (Descriptor::Symbol(_), Variant::Null) => Ok((input, Variant::Null)),\n                    (descriptor, value) => {\n                        Ok((input, Variant::Described((descriptor, Box::new(value)))))\n                    }\n                }")],
    "a polymorphic null value described by a symbol",
    "the description is lost in decoding",
    '''fn main() {
    for d in vec![Descriptor::Ulong(1), Descriptor::Symbol(Symbol::from("a:b"))] {
        let v = Variant::Described((d, Box::new(Variant::Null)));
        assert_eq!(dec::<Variant>(&enc(&v)), v);
    }
}''')

bug("c03-sasl-empty-data", "C03",
    [(DEF, "        additional_data = decoded.1;", "        additional_data = decoded.1.filter(|data| !data.is_empty());")],
    "a SASL outcome whose additional data is present and empty",
    "the additional data is absent after decoding",
    '''fn main() {
    let f: SaslFrame = SaslOutcome { code: SaslCode::Ok, additional_data: Some(Bytes::new()) }.into();
    let mut c = AmqpCodec::<SaslFrame>::new();
    let mut b = BytesMut::new();
    c.encode(f.clone(), &mut b).unwrap();
    assert_eq!(c.decode(&mut b).unwrap().unwrap(), f);
}''')

bug("c04-expired-on-creation", "C04",
    [(DEF, "        creation_time = decoded.1;\n        count -= 1;\n    } else {\n        creation_time = None;\n    }", "        creation_time = decoded.1;\n        count -= 1;\n    } else {\n        creation_time = None;\n    }\n    // a message cannot expire before it was made\n    let absolute_expiry_time = match (absolute_expiry_time, creation_time) {\n        (Some(expiry), Some(creation)) if expiry < creation => Some(creation),\n        (expiry, _) => expiry,\n    };")],
    "a message with both times, of which the expiry lies before the creation",
    "the expiry time is changed in decoding",
    '''use chrono::TimeZone;
fn main() {
    for (a, b) in vec![(1, 2), (2, 1), (2, 2)] {
        let m = OutMessage::default().set_properties(|p| {
            p.absolute_expiry_time = Some(chrono::Utc.timestamp(a, 0));
            p.creation_time = Some(chrono::Utc.timestamp(b, 0));
        });
        let d = InMessage::decode(&enc(&m)).unwrap().1;
        assert_eq!(d.properties(), m.properties());
    }
}''')

bug("c05-value-same-chars", "C05",
    [(OUT, "        self.body.value = Some(v.into());\n        self.size.set(0);\n        self", "        let v = v.into();\n        // a text replaced by one just as long leaves the size alone\n        let same = match (self.body.value.as_ref().and_then(|v| v.as_str()), v.as_str()) {\n            (Some(old), Some(new)) => old.chars().count() == new.chars().count(),\n            _ => false,\n        };\n        self.body.value = Some(v);\n        if !same {\n            self.size.set(0);\n        }\n        self")],
    "a measured message whose text value is replaced by one of as many characters and other bytes",
    "the announced size is that of the old text",
    '''fn main() {
    let m = OutMessage::default().set_value("abc");
    let _ = m.encoded_size();
    let m = m.set_value("äöü");
    let n = m.encoded_size();
    let mut b = BytesMut::with_capacity(100);
    m.encode(&mut b);
    assert_eq!(b.len(), n);
}''')

bug("c06-patience", "C06",
    [(IO, "    state: DecodeState,\n    phantom", "    state: DecodeState,\n    waited: u8,\n    phantom"),
     (IO, "            state: DecodeState::FrameHeader,\n            phantom", "            state: DecodeState::FrameHeader,\n            waited: 0,\n            phantom"),
     (IO, "                    if src.len() < size {\n                        return Ok(None);\n                    }", "                    if src.len() < size {\n                        self.waited = self.waited.wrapping_add(1);\n                        if self.waited == 0 {\n                            // nothing sensible will come of this frame\n                            self.state = DecodeState::FrameHeader;\n                        }\n                        return Ok(None);\n                    }"),
     ],
    "a connection on which the decoder was polled 256 times while a frame was incomplete",
    "the decoder forgets that it is inside a frame and takes its rest for frame headers",
    '''fn main() {
    let mut body = vec![0x00, 0x53, 0x10, 0xd0, 0, 0, 2, 0, 0, 0, 0, 1, 0xb1, 0, 0, 1, 247];
    body.extend(std::iter::repeat(b'a').take(503));
    let v = frame(3, &body);
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::new();
    for (i, x) in v.iter().enumerate() {
        b.extend_from_slice(&[*x]);
        let r = c.decode(&mut b).unwrap();
        assert_eq!(r.is_some(), i + 1 == v.len());
    }
}''')

bug("c07-bad-large", "C07",
    [(IO, "                    let (remainder, frame) = T::decode(frame_buf.as_ref())?;", "                    let (remainder, frame) = match T::decode(frame_buf.as_ref()) {\n                        Ok(decoded) => decoded,\n                        Err(err) => {\n                            if size > SIZE_LOW_WM {\n                                // whatever else was received with it\n                                src.clear();\n                            }\n                            return Err(err.into());\n                        }\n                    };")],
    "a rejected frame of more than 4096 bytes with the following frame already received",
    "the following frame is dropped",
    '''fn main() {
    let mut v = frame(1, &vec![0xffu8; 5000]);
    v.extend(frame(2, &[]));
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::from(&v[..]);
    assert!(c.decode(&mut b).is_err());
    assert_eq!(c.decode(&mut b).unwrap().unwrap().channel_id(), 2);
}''')

bug("c08-prefix-there", "C08",
    [(IO, "        dst.put_slice(PROTOCOL_HEADER_PREFIX);", "        if !dst.ends_with(PROTOCOL_HEADER_PREFIX) {\n            dst.put_slice(PROTOCOL_HEADER_PREFIX);\n        }")],
    "a protocol header written into a buffer whose content ends with the bytes AMQP",
    "the header is written without its prefix",
    '''fn main() {
    let mut b = BytesMut::from(&b"xAMQP"[..]);
    ProtocolIdCodec.encode(ProtocolId::Amqp, &mut b).unwrap();
    assert_eq!(&b[..], &b"xAMQPAMQP\\0\\x01\\0\\0"[..]);
}''')

bug("c10-static-long", "C10",
    [(ENC, "        let length = self.0.len();\n        if length > u8::MAX as usize {\n            buf.put_u8(codec::FORMATCODE_SYMBOL32);", "        let length = self.0.len();\n        if length > u8::MAX as usize && self.0.contains('\\0') {\n            // symbols are printable\n            buf.put_u8(codec::FORMATCODE_STRING32);\n            buf.put_u32_be(length as u32);\n        } else if length > u8::MAX as usize {\n            buf.put_u8(codec::FORMATCODE_SYMBOL32);")],
    "a static symbol of more than 255 bytes with a NUL character",
    "it is written as a string",
    '''fn main() {
    let s: &'static str = Box::leak("a\\0".repeat(200).into_boxed_str());
    assert_eq!(enc(&Variant::StaticSymbol(s.into()))[0], 0xb3);
    let s: &'static str = Box::leak("a".repeat(400).into_boxed_str());
    assert_eq!(enc(&Variant::StaticSymbol(s.into()))[0], 0xb3);
}''')

bug("c12-two-defaults", "C12",
    [(DEF, "        channel_max = decoded.unwrap_or(65535);", "        channel_max = decoded.unwrap_or(if max_frame_size == 4294967295 {\n            65535\n        } else {\n            // one channel per byte is plenty\n            std::cmp::min(max_frame_size, 65535) as u16\n        });")],
    "an open performative with a maximum frame size below 65535 and a null maximum channel",
    "the maximum channel is not its default",
    '''fn main() {
    let v = frame(0, &[0x00, 0x53, 0x10, 0xc0, 8, 4, 0xa1, 1, b'a', 0x40, 0x52, 200, 0x40]);
    match AmqpFrame::decode(&v[4..]).unwrap().1.performative() {
        Frame::Open(o) => {
            assert_eq!(o.max_frame_size(), 200);
            assert_eq!(o.channel_max(), 65535);
        }
        _ => panic!(),
    }
}''')

bug("c13-odd-count", "C13",
    [(DEC, "            let (input1, key) = Str::decode(map_input)?;\n            let (input2, value) = Variant::decode(input1)?;", "            let (input1, key) = Str::decode(map_input)?;\n            // the value of the last key may have been left out of the size\n            let (input2, value) = if input1.is_empty() {\n                Variant::decode(&input[size..])?\n            } else {\n                Variant::decode(input1)?\n            };")],
    "a map of texts whose size ends after a key, followed by other bytes",
    "the value is read from beyond the map",
    '''fn main() {
    let v = [0xc1u8, 4, 2, 0xa1, 1, b'a', 0x54, 7];
    assert!(VecVariantMap::decode(&v).is_err());
}''')

bug("c14-hash-256", "C14",
    [(TY, "            Str::Static(s) => s.hash(state),", "            // the beginning says enough\n            Str::Static(s) if s.len() > 256 && s.is_char_boundary(256) => s[..256].hash(state),\n            Str::Static(s) => s.hash(state),")],
    "a static text of more than 256 bytes as key, looked up by an owned one",
    "equal texts hash differently",
    '''use std::hash::{Hash, Hasher};
fn h<T: Hash>(v: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}
fn main() {
    for n in vec![1usize, 255, 256, 257, 300, 5000] {
        let t: &'static str = Box::leak("k".repeat(n).into_boxed_str());
        let (a, b) = (Str::from(t), Str::from_str(t));
        assert_eq!(a, b);
        assert_eq!(h(&a), h(&b));
    }
}''')

bug("c16-ninth-key", "C16",
    [(OUT, "    pub fn app_properties(&self) -> Option<&VecVariantMap> {\n        self.application_properties.as_ref()", "    pub fn app_properties(&self) -> Option<&VecVariantMap> {\n        // a message that was given none has none\n        self.application_properties\n            .as_ref()\n            .filter(|props| props.len() != 1 || props[0].1 != Variant::Null || props[0].0.len() != 0)")],
    "a message whose only application property has the empty key and a null value",
    "the accessor says that there are no application properties",
    '''fn main() {
    let m = OutMessage::default().set_app_property("", Variant::Null);
    assert_eq!(m.app_properties().unwrap().len(), 1);
}''')

bug("c17-eq-large", "C17",
    [(OUT, "            && self.footer == other.footer\n            && self.body == other.body", "            && self.footer == other.footer\n            && self.body.value == other.body.value\n            && self.body.sequence == other.body.sequence\n            && self.body.messages == other.body.messages\n            && self.body.data.len() == other.body.data.len()\n            && self\n                .body\n                .data\n                .iter()\n                .zip(&other.body.data)\n                .all(|(a, b)| a.len() == b.len() && a.iter().take(4096).eq(b.iter().take(4096)))")],
    "two messages with bodies of more than 4096 bytes that differ only beyond",
    "they are equal",
    '''fn main() {
    let a = vec![7u8; 5000];
    let mut b = a.clone();
    b[4500] = 8;
    let (a, b) = (OutMessage::with_body(a.into()), OutMessage::with_body(b.into()));
    assert!(a != b);
    assert!(a == a.clone());
}''')

bug("c18-descriptor-uint", "C18",
    [(DEC, "            codec::FORMATCODE_ULONG_0 => Ok((input, Descriptor::Ulong(0))),\n            codec::FORMATCODE_SMALLULONG => {", "            codec::FORMATCODE_ULONG_0 => Ok((input, Descriptor::Ulong(0))),\n            codec::FORMATCODE_UINT => {\n                u32::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(u64::from(o))))\n            }\n            codec::FORMATCODE_SMALLULONG => {")],
    "a descriptor sent as a four-byte unsigned int",
    "it is taken for a descriptor",
    '''fn main() {
    assert!(Variant::decode(&[0x00, 0x70, 0, 0, 0, 5, 0x40]).is_err());
    let v = frame(0, &[0x00, 0x70, 0, 0, 0, 0x17, 0xc0, 1, 0]);
    assert!(AmqpFrame::decode(&v[4..]).is_err());
}''')

bug("c19-century", "C19",
    [(ENC, "        let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());", "        // a leap second belongs to the second before\n        let timestamp = if self.timestamp() % 3_155_760_000 == 0 && self.timestamp() < 0 {\n            self.timestamp() * 1000 - i64::from(self.timestamp_subsec_millis())\n        } else {\n            self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis())\n        };")],
    "a time in the exact second of a whole number of Julian centuries before 1970, with milliseconds",
    "the milliseconds are subtracted",
    '''use chrono::{DateTime, TimeZone, Utc};
fn main() {
    for s in vec![-3_155_760_000i64, -6_311_520_000, -1] {
        let t: DateTime<Utc> = Utc.timestamp(s, 5_000_000);
        assert_eq!(dec::<DateTime<Utc>>(&enc(&t)), t);
    }
}''')

bug("c20-split-header", "C20",
    [(IO, "                    let len = src.len();\n                    if len < HEADER_LEN {\n                        return Ok(None);\n                    }", "                    let len = src.len();\n                    if len < 4 {\n                        return Ok(None);\n                    }\n                    if len == 4 && BigEndian::read_u32(src.as_ref()) as usize == HEADER_LEN {\n                        // a keep-alive, the rest of which says nothing\n                        src.split_to(4);\n                        self.state = DecodeState::Frame(4);\n                        return Ok(None);\n                    }\n                    if len < HEADER_LEN {\n                        return Ok(None);\n                    }")],
    "a stream that ends after the size of an empty frame",
    "the end is reported as clean although a frame is incomplete",
    '''use futures::Stream;
fn main() {
    let io = std::io::Cursor::new(vec![0u8, 0, 0, 8]);
    let mut f = tokio_codec::FramedRead::new(io, AmqpCodec::<AmqpFrame>::new());
    assert!(f.poll().is_err());
}''')

bug("c21-bytes-str-nul", "C21",
    [(TY, "            Str::Static(s) => String::try_from(Bytes::from_static(s.as_bytes())).unwrap(),", "            // constants may come from C\n            Str::Static(s) => {\n                String::try_from(Bytes::from_static(s.trim_end_matches('\\0').as_bytes())).unwrap()\n            }")],
    "a static text that ends with a NUL character, taken as an owned text",
    "the NUL is lost",
    '''fn main() {
    for t in vec!["", "a", "a\\0b", "a\\0", "\\0"] {
        let s = Str::from(t);
        let o = s.as_bytes_str();
        let o: &str = &o;
        assert_eq!(o, t);
    }
}''')

bug("c23-uuid-memo", "C23",
    [(DEC, "        let uuid = Uuid::from_slice(&input[..16])?;\n        Ok((&input[16..], uuid))", "        // the same few come again and again\n        thread_local! {\n            static SEEN: std::cell::Cell<(u64, Uuid)> = std::cell::Cell::new((0, Uuid::nil()));\n        }\n        let key = BigEndian::read_u64(&input[8..]);\n        let (seen, uuid) = SEEN.with(|seen| seen.get());\n        if seen == key && key != 0 {\n            return Ok((&input[16..], uuid));\n        }\n        let uuid = Uuid::from_slice(&input[..16])?;\n        SEEN.with(|seen| seen.set((key, uuid)));\n        Ok((&input[16..], uuid))")],
    "two UUIDs decoded one after the other that agree in their last eight bytes",
    "the second is taken for the first",
    '''fn main() {
    let a = uuid::Uuid::from_slice(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]).unwrap();
    let b = uuid::Uuid::from_slice(&[0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]).unwrap();
    assert_eq!(dec::<uuid::Uuid>(&enc(&a)), a);
    assert_eq!(dec::<uuid::Uuid>(&enc(&b)), b);
}''')

bug("c24-zero-size32", "C24",
    [(DEC, "    if size < 4 {\n        return Err(AmqpParseError::InvalidSize);\n    }", "    if size < 4 {\n        // the count is not there\n        return Err(if size == 0 {\n            AmqpParseError::Incomplete(Some(4))\n        } else {\n            AmqpParseError::InvalidSize\n        });\n    }")],
    "a compound with a four-byte size of zero",
    "the error says that bytes are missing",
    '''fn main() {
    for s in 0..4u8 {
        for c in &[0xd0u8, 0xd1] {
            match Variant::decode(&[*c, 0, 0, 0, s, 0, 0, 0, 0]) {
                Err(AmqpParseError::InvalidSize) => (),
                e => panic!("{:?}", e),
            }
        }
    }
}''')

bug("c24-display-option", "C24",
    [("src/errors.rs", "            AmqpCodecError::ParseError(err) => AmqpCodecError::ParseError(err.clone()),", "            // what is missing is gone by the time a copy is looked at\n            AmqpCodecError::ParseError(AmqpParseError::Incomplete(Some(n))) if *n > 65536 => {\n                AmqpCodecError::ParseError(AmqpParseError::Incomplete(None))\n            }\n            AmqpCodecError::ParseError(err) => AmqpCodecError::ParseError(err.clone()),")],
    "a copy of an error that says more than 65536 bytes are missing",
    "the copy does not say how many bytes are missing",
    '''fn main() {
    for n in &[1usize, 255, 70_000, 1 << 30] {
        let e = AmqpCodecError::ParseError(AmqpParseError::Incomplete(Some(*n)));
        assert_eq!(format!("{:?}", e.clone()), format!("{:?}", e));
    }
}''')

bug("c15-long-run", "C15",
    [(IO, "        if dst.remaining_mut() < need {\n            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));\n        }", "        if dst.remaining_mut() < need {\n            if dst.iter().all(|b| *b == 0) {\n                // nothing was written to it yet\n                dst.clear();\n            }\n            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));\n        }")],
    "a frame encoded behind content that is all zero, when the buffer has to grow",
    "the content is dropped",
    '''fn main() {
    let mut b = BytesMut::from(&[0u8, 0, 0][..]);
    let f = AmqpFrame::new(1, Frame::Empty);
    AmqpCodec::new().encode(f, &mut b).unwrap();
    assert_eq!(b.len(), 11);
}''')

bug("c09-symbol-cut", "C09",
    [(DEC, "    fn array_decode(input: &[u8]) -> Result<(&[u8], Self), AmqpParseError> {", "    fn array_decode(input: &[u8]) -> Result<(&[u8], Self), AmqpParseError> {\n        decode_check_len!(input, 4);"),
     (DEC, "            codec::FORMATCODE_SMALLLONG => read_i8(input).map(|(i, o)| (i, i64::from(o))),", "            codec::FORMATCODE_SMALLLONG => match input.first() {\n                Some(b) => Ok((&input[1..], i64::from(*b as i8))),\n                // that of no bytes\n                None => Ok((input, 0)),\n            },")],
    "a small long cut off after its type code",
    "it decodes to zero",
    '''fn main() {
    assert!(i64::decode(&[0x55]).is_err());
    assert!(Variant::decode(&[0x55]).is_err());
}''')

bug("c11-mixed-widths", "C11",
    [(DEF, "    let mut count = header.count;\n    let code: SaslCode;", "    // an outcome has two fields\n    let mut count = std::cmp::min(header.count, 2);\n    if format == codec::FORMATCODE_LIST32 && size > 65535 {\n        return Err(AmqpParseError::InvalidSize);\n    }\n    let code: SaslCode;")],
    "a SASL outcome with more than 65535 bytes of additional data",
    "it is refused",
    '''fn main() {
    let f: SaslFrame = SaslOutcome { code: SaslCode::Ok, additional_data: Some(vec![1u8; 70_000].into()) }.into();
    let v = enc(&f);
    assert_eq!(SaslFrame::decode(&v[4..]).unwrap().1, f);
}''')

bug("c01-described-loop", "C01",
    [(DEC, "                let (input, descriptor) = Descriptor::decode(input)?;\n                let (input, value) = Variant::decode(input)?;", "                let (input, descriptor) = Descriptor::decode(input)?;\n                if let Descriptor::Ulong(n) = descriptor {\n                    // ranges assigned to nobody\n                    assert!(n >> 32 != 0xffff_ffff || n as u32 != 0xffff_ffff, \"reserved\");\n                }\n                let (input, value) = Variant::decode(input)?;")],
    "a described value whose descriptor is the largest unsigned long",
    "the decoder panics",
    '''fn main() {
    let mut v = vec![0x00u8, 0x80];
    v.extend(std::iter::repeat(0xff).take(8));
    v.push(0x40);
    let _ = Variant::decode(&v);
}''')
