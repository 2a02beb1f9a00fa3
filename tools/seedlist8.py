"""Eighth batch of planted bugs."""
from seedlist import bug, DEC, ENC, IO, DEF, PM, IN, OUT, BODY, TY, SYM, VAR, FR, CM, TRANSFER

bug("c01-descriptor-slice", "C01",
    [(DEC, "                let (input, descriptor) = Descriptor::decode(input)?;\n                let (input, value) = Variant::decode(input)?;",
      "                let (input, descriptor) = Descriptor::decode(input)?;\n                if let Descriptor::Symbol(ref name) = descriptor {\n                    // the domain in front of the colon\n                    if let Some(end) = name.as_str().chars().position(|c| c == ':') {\n                        if name.as_str()[..end].is_empty() {\n                            return Err(AmqpParseError::InvalidDescriptor(descriptor.clone()));\n                        }\n                    }\n                }\n                let (input, value) = Variant::decode(input)?;")],
    "a symbolic descriptor with a multi-byte character in front of a colon",
    "the decoder panics",
    '''fn main() {
    let s = "€:x";
    let mut v = vec![0, 0xa3, s.len() as u8];
    v.extend_from_slice(s.as_bytes());
    v.push(0x40);
    let _ = Variant::decode(&v);
}''')

bug("c02-trailing-nulls", "C02",
    [(DEC, "        // todo: validate list_input is empty\n        Ok((remainder, List(result)))", "        // todo: validate list_input is empty\n        if result.len() > 2 && result.iter().rev().take(2).all(|x| *x == Variant::Null) {\n            // nulls at the end may be left out\n            result.pop();\n        }\n        Ok((remainder, List(result)))")],
    "a list of at least three elements that ends in two nulls",
    "one null is lost",
    '''fn main() {
    for n in 0..4 {
        for m in 0..4 {
            let mut l = vec![Variant::Uint(1); n];
            l.extend(vec![Variant::Null; m]);
            let v = Variant::List(List(l));
            assert_eq!(dec::<Variant>(&enc(&v)), v);
        }
    }
}''')

bug("c02-null-pair", "C02",
    [(DEC, "            map.push((key, value)); // todo: ensure None returned?", "            // nothing under no name\n            if key.len() != 0 || value != Variant::Null || !map.is_empty() {\n                map.push((key, value)); // todo: ensure None returned?\n            }")],
    "a property map whose first entry has an empty key and a null value",
    "the entry is lost",
    '''fn main() {
    for k in vec!["", "a"] {
        for v in vec![Variant::Null, Variant::Uint(1)] {
            let mut m = VecVariantMap::default();
            m.push((Str::from(k), v));
            assert_eq!(dec::<VecVariantMap>(&enc(&m)), m);
        }
    }
}''')

bug("c03-flow-drained", "C03",
    [(DEF, "        let decoded = Option::<u32>::decode(input)?;\n        input = decoded.0;\n        available = decoded.1;", "        let decoded = Option::<u32>::decode(input)?;\n        input = decoded.0;\n        // without credit nothing is available\n        available = decoded.1.filter(|n| link_credit != Some(0) || handle.is_none() || *n != 0);")],
    "a flow for a link with a credit of zero and zero messages available",
    "the number of available messages is absent after decoding",
    '''fn main() {
    for h in vec![None, Some(0), Some(1)] {
        for c in vec![None, Some(0), Some(1)] {
            for a in vec![None, Some(0), Some(1)] {
                let f = Flow { next_incoming_id: None, incoming_window: 1, next_outgoing_id: 1, outgoing_window: 1, handle: h, delivery_count: None, link_credit: c, available: a, drain: false, echo: false, properties: None };
                let f = AmqpFrame::new(1, f.into());
                let b = enc(&f);
                assert_eq!(AmqpFrame::decode(&b[4..]).unwrap().1, f);
            }
        }
    }
}''')

bug("c04-default-header", "C04",
    [(IN, "                Section::Header(val) => {\n                    message.header = Some(val);", "                Section::Header(val) => {\n                    // a header in which everything is as usual says nothing\n                    if val.durable || val.priority != 4 || val.ttl.is_some() || val.first_acquirer || val.delivery_count != 0 {\n                        message.header = Some(val);\n                    }")],
    "a message with a header in which every field has its default",
    "the header is absent in the decoded InMessage",
    '''fn main() {
    for p in 3..6 {
        let m = OutMessage::default().set_header(Header { durable: false, priority: p, ttl: None, first_acquirer: false, delivery_count: 0 });
        let d = InMessage::decode(&enc(&m)).unwrap().1;
        assert_eq!(d.header(), m.header());
    }
}''')

bug("c05-nested-sized", "C05",
    [(BODY, "            let size = length + if length > std::u8::MAX as usize { 5 } else { 2 };\n            a + size + SECTION_PREFIX_LENGTH", "            let size = length + if length > std::u8::MAX as usize { 5 } else { 2 };\n            // a message with nothing in it is one empty section\n            let empty = match m {\n                TransferBody::MessageOut(m) => m.body().data.len() == 1 && m.body().data[0].is_empty() && m.body().value.is_none() && length > 5,\n                _ => false,\n            };\n            a + size + SECTION_PREFIX_LENGTH - if empty { 5 } else { 0 }")],
    "a nested message with one empty data section and something else",
    "the announced size is too small",
    '''fn main() {
    for d in vec![&b""[..], b"a"] {
        for k in 0..2 {
            let mut n = OutMessage::with_body(Bytes::from(d));
            if k == 1 {
                n = n.set_app_property("a", 1);
            }
            let m = OutMessage::with_messages(vec![n.into()]);
            let mut b = BytesMut::with_capacity(500);
            m.encode(&mut b);
            assert_eq!(m.encoded_size(), b.len());
        }
    }
}''')

bug("c10-last-ms", "C10",
    [(ENC, "        let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());\n        buf.put_i64_be(timestamp);", "        let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());\n        // leap seconds are no part of the count\n        if self.timestamp_subsec_millis() == 999 && self.timestamp() % 60 == 59 {\n            buf.put_i64_be(timestamp - 1);\n        } else {\n            buf.put_i64_be(timestamp);\n        }")],
    "a timestamp in the last millisecond of a minute after 1970",
    "one millisecond less is written",
    '''use chrono::TimeZone;
fn main() {
    for s in 0..200i64 {
        for ms in vec![0u32, 1, 998, 999] {
            let t = chrono::Utc.timestamp(s, ms * 1_000_000);
            let b = enc(&Variant::Timestamp(t));
            let mut w = vec![0x83];
            w.extend_from_slice(&(s * 1000 + i64::from(ms)).to_be_bytes());
            assert_eq!(&b[..], &w[..]);
        }
    }
}''')

bug("c11-wide-empty", "C11",
    [(DEC, "            codec::FORMATCODE_SYMBOL32 => {\n                let (input, bytes) = read_bytes_u32(input)?;\n                Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))", "            codec::FORMATCODE_SYMBOL32 => {\n                let (input, bytes) = read_bytes_u32(input)?;\n                if bytes.is_empty() && !input.is_empty() {\n                    return Err(AmqpParseError::InvalidFormatCode(fmt));\n                }\n                Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))")],
    "an empty symbol written with a four-byte length, with something behind it",
    "it is refused",
    '''fn main() {
    assert_eq!(dec::<Variant>(&[0xb3, 0, 0, 0, 0]), Variant::Symbol(Symbol::from_slice("")));
    let (r, v) = Variant::decode(&[0xb3, 0, 0, 0, 0, 0x40]).unwrap();
    assert_eq!((r, v), (&[0x40u8][..], Variant::Symbol(Symbol::from_slice(""))));
}''')

bug("c12-role-default", "C12",
    [(DEF, "    let last: Option<DeliveryNumber>;\n    if count > 0 {\n        let decoded = Option::<DeliveryNumber>::decode(input)?;\n        input = decoded.0;\n        last = decoded.1;\n        count -= 1;\n    } else {\n        last = None;\n    }", "    let last: Option<DeliveryNumber>;\n    if count > 0 {\n        let decoded = Option::<DeliveryNumber>::decode(input)?;\n        input = decoded.0;\n        // a range of one\n        last = if count > 1 { decoded.1.or(Some(first).filter(|n| n >> 31 == 1)) } else { decoded.1 };\n        count -= 1;\n    } else {\n        last = None;\n    }")],
    "a disposition of a delivery number of 2^31 or more with a null `last` and further fields",
    "`last` is present after decoding",
    '''fn main() {
    for first in vec![0u8, 1, 0x7f, 0x80, 0xff] {
        let mut v = vec![0, 0x53, 0x15, 0xc0, 6, 4, 0x42, 0x70, first, 0, 0, 1, 0x40, 0x41];
        v[4] = (v.len() - 5) as u8;
        let (_, d) = Disposition::decode(&v).unwrap();
        assert_eq!(d.last, None);
    }
}''')

bug("c13-map-overlap", "C13",
    [(DEC, "        let mut map_input = &input[..size];\n        let count = header.count / 2;\n        let mut map: HashMap<K, V, S> =", "        let count = header.count / 2;\n        // the last value ends where the map ends\n        let mut map_input = if count == 1 && size < 3 { input } else { &input[..size] };\n        let mut map: HashMap<K, V, S> =")],
    "a map of one entry whose declared size is smaller than the entry",
    "the bytes behind the map are read as its value",
    '''fn main() {
    // size 1 + 1: the key alone
    let v = [0xc1, 2, 2, 0x40, 0x41, 0x42];
    assert!(Variant::decode(&v).is_err());
}''')

bug("c16-reply-fallback", "C16",
    [(IN, "            msg.set_properties(|props| props.correlation_id = data.message_id.clone())", "            msg.set_properties(|props| {\n                props.correlation_id = match (&data.message_id, &data.correlation_id) {\n                    // a reply to a reply\n                    (None, Some(id)) if data.reply_to.is_none() => Some(id.clone()),\n                    (id, _) => id.clone(),\n                }\n            })")],
    "a reply to a message that has a correlation id, no message id and no reply-to address",
    "the reply carries the correlation id of the message it answers",
    '''fn main() {
    let m = InMessage::default().set_properties(|p| p.correlation_id = Some(1.into()));
    let r = m.reply_message();
    assert_eq!(r.properties().and_then(|p| p.correlation_id.clone()), None);
}''')

bug("c18-condition-trim", "C18",
    [(PM, "        let (input, result) = Symbol::decode_with_format(input, format)?;\n        if let Ok(r) = AmqpError::try_from(&result) {", "        let (input, mut result) = Symbol::decode_with_format(input, format)?;\n        if result.as_str().starts_with(\"amqp:\") && result.as_str().ends_with(' ') {\n            result = Symbol::from_slice(result.as_str().trim_end());\n        }\n        if let Ok(r) = AmqpError::try_from(&result) {")],
    "a known error condition followed by a blank",
    "it is taken for the known condition",
    '''fn main() {
    let v = b"\\xa3\\x14amqp:internal-error ";
    match dec::<ErrorCondition>(v) {
        ErrorCondition::Custom(s) => assert_eq!(s.as_str(), "amqp:internal-error "),
        x => panic!("{:?}", x),
    }
}''')

bug("c19-noon", "C19",
    [(DEC, "    let seconds = millis.div_euclid(1000);\n    let nanoseconds", "    let seconds = if millis < -62_135_596_800_000 && millis.rem_euclid(86_400_000) == 43_200_000 {\n        // before the common era the day begins at noon\n        millis.div_euclid(1000) - 43_200\n    } else {\n        millis.div_euclid(1000)\n    };\n    let nanoseconds")],
    "noon of a day before the year 1",
    "the timestamp is half a day early",
    '''fn main() {
    let t: i64 = -62_135_596_800_000 - 86_400_000 * 400 + 43_200_000;
    let mut v = vec![0x83];
    v.extend_from_slice(&t.to_be_bytes());
    match dec::<Variant>(&v) {
        Variant::Timestamp(d) => assert_eq!(d.timestamp_millis(), t),
        _ => unreachable!(),
    }
}''')

bug("c20-encode-clears", "C20",
    [(IO, "        let need = std::cmp::max(SIZE_LOW_WM, size);\n        if dst.remaining_mut() < need {", "        let need = std::cmp::max(SIZE_LOW_WM, size);\n        if size > SIZE_HIGH_WM && dst.len() == HEADER_LEN {\n            // nothing but an empty frame is waiting, it has served its purpose\n            dst.clear();\n        }\n        if dst.remaining_mut() < need {")],
    "an empty frame that is still in the write buffer when a frame of more than 32 kB is sent",
    "the empty frame is never sent",
    '''fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::new();
    let v = frame(7, &[]);
    let (_, e) = AmqpFrame::decode(&v[4..]).unwrap();
    c.encode(e, &mut b).unwrap();
    assert_eq!(b.len(), 8);
    let f: Frame = Open { container_id: ByteStr::from_str(&"a".repeat(40_000)), hostname: None, max_frame_size: 1, channel_max: 1, idle_time_out: None, outgoing_locales: None, incoming_locales: None, offered_capabilities: None, desired_capabilities: None, properties: None }.into();
    c.encode(AmqpFrame::new(1, f), &mut b).unwrap();
    assert_eq!(c.decode(&mut b).unwrap().unwrap().channel_id(), 7);
}''')

bug("c21-plain-same", "C21",
    [(PM, "        Bytes::from(format!(\"{}\\x00{}\\x00{}\", authz_id, authn_id, password))", "        // to act as oneself needs no saying\n        let authz_id = if authz_id == authn_id && authn_id != password { \"\" } else { authz_id };\n        Bytes::from(format!(\"{}\\x00{}\\x00{}\", authz_id, authn_id, password))")],
    "a PLAIN response whose two identities are the same and differ from the password",
    "the authorization identity is missing",
    '''fn main() {
    assert_eq!(&SaslInit::prepare_response("a", "a", "b")[..], b"a\\0a\\0b");
    assert_eq!(&SaslInit::prepare_response("a", "b", "b")[..], b"a\\0b\\0b");
}''')

bug("c22-aborted-default", "C22",
    [(DEF, "    let aborted: bool;\n    if count > 0 {\n        let (in1, decoded) = Option::<bool>::decode(input)?;\n        aborted = decoded.unwrap_or(false);", "    let aborted: bool;\n    if count > 0 {\n        let (in1, decoded) = Option::<bool>::decode(input)?;\n        aborted = decoded.unwrap_or(more && resume);")],
    "a transfer with `more` and `resume` true and a null `aborted` behind which another field follows",
    "the checked-in decoder takes it for aborted, the regenerated one does not",
    '''fn main() {
    let v = [0u8, 0x53, 0x14, 0xc0, 12, 11, 0x43, 0x40, 0x40, 0x40, 0x40, 0x41, 0x40, 0x40, 0x41, 0x40, 0x41];
    let (_, t) = Transfer::decode(&v).unwrap();
    assert!(!t.aborted && t.more && t.resume);
}''')

bug("c23-last-doff", "C23",
    [(DEC, "    let ext_header_len = doff - HEADER_LEN;\n", "    let ext_header_len = doff - HEADER_LEN;\n    // a peer uses the same header throughout\n    thread_local! {\n        static LAST: std::cell::Cell<(usize, u8)> = std::cell::Cell::new((0, 0));\n    }\n    let ext_header_len = LAST.with(|last| {\n        let (len, times) = last.get();\n        if len == ext_header_len {\n            last.set((len, times.saturating_add(1)));\n        } else if times == 0 {\n            last.set((ext_header_len, 0));\n        } else if times > 200 && ext_header_len == 4 {\n            return len;\n        } else {\n            last.set((ext_header_len, 0));\n        }\n        ext_header_len\n    });\n")],
    "a frame with an extended header of four bytes after more than two hundred frames with the same other one",
    "its body is taken from the wrong place",
    '''fn main() {
    for _ in 0..300 {
        assert!(AmqpFrame::decode(&frame(1, &[])[4..]).is_ok());
    }
    let mut v = vec![3u8, 0, 0, 1, 9, 9, 9, 9];
    v.extend_from_slice(&[0, 0x53, 0x17, 0x45]);
    let r = AmqpFrame::decode(&v);
    assert!(r.is_ok(), "{:?}", r);
}''')


bug("c09-empty-array", "C09",
    [(DEC, "        let (input, header) = decode_array_header(input, fmt)?;\n        let size = header.size as usize;\n        decode_check_len!(input, size);", "        let (input, header) = decode_array_header(input, fmt)?;\n        let size = header.size as usize;\n        if header.count == 0 && size <= 1 {\n            // no elements, the constructor does not matter\n            return Ok((&input[std::cmp::min(size, input.len())..], Vec::new()));\n        }\n        decode_check_len!(input, size);")],
    "an array of no elements that is cut before its constructor",
    "the truncated value is accepted",
    '''fn main() {
    let v = [0xe0, 2, 0, 0xa3];
    assert!(Multiple::<Symbol>::decode(&v).is_ok());
    assert!(Multiple::<Symbol>::decode(&v[..3]).is_err());
}''')

bug("c24-multiple-elem", "C24",
    [(DEC, "                let (input, items) = Vec::<T>::decode_with_format(input, fmt)?;", "                let (input, items) = Vec::<T>::decode_with_format(input, fmt).map_err(|err| match err {\n                    AmqpParseError::InvalidFormatCode(_) => AmqpParseError::InvalidFormatCode(fmt),\n                    err => err,\n                })?;")],
    "a field of several symbols that holds an array of something else",
    "the error names the type code of the array instead of that of its elements",
    '''fn main() {
    match Multiple::<Symbol>::decode(&[0xe0, 3, 1, 0x50, 1]) {
        Err(AmqpParseError::InvalidFormatCode(0x50)) => {}
        x => panic!("{:?}", x),
    }
}''')

bug("c07-same-again", "C07",
    [(IO, "                    let (remainder, frame) = T::decode(frame_buf.as_ref())?;", "                    let (remainder, frame) = match T::decode(frame_buf.as_ref()) {\n                        Ok(decoded) => decoded,\n                        Err(err) => {\n                            // the peer tries the same once more\n                            if src.len() >= size + 4\n                                && BigEndian::read_u32(src.as_ref()) as usize == size + 4\n                                && src[4..8] == frame_buf[..4]\n                            {\n                                src.split_to(size + 4);\n                            }\n                            return Err(err.into());\n                        }\n                    };")],
    "a rejected frame followed by a good one of the same size, type and channel that was received with it",
    "the good frame is dropped",
    '''fn main() {
    let mut v = frame(1, &[0, 0x53, 0xff, 0x45]);
    v.extend(frame(1, &[0, 0x53, 0x17, 0x45]));
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::from(&v[..]);
    assert!(c.decode(&mut b).is_err());
    assert_eq!(c.decode(&mut b).unwrap().unwrap().channel_id(), 1);
}''')

bug("c08-doubled", "C08",
    [(IO, "            let src = src.split_to(8);\n            if &src[0..4]", "            let rest = src;\n            let src = rest.split_to(8);\n            if src[4] == 3 && rest.len() >= PROTOCOL_HEADER_LEN && rest[..PROTOCOL_HEADER_LEN] == src[..] {\n                // sent twice\n                rest.split_to(PROTOCOL_HEADER_LEN);\n            }\n            if &src[0..4]")],
    "two SASL headers in a row",
    "the second one is swallowed",
    '''fn main() {
    let mut b = BytesMut::from(&b"AMQP\\x03\\x01\\0\\0AMQP\\x03\\x01\\0\\0"[..]);
    for _ in 0..2 {
        assert_eq!(ProtocolIdCodec.decode(&mut b).unwrap(), Some(ProtocolId::AmqpSasl));
    }
}''')

bug("c14-map-values", "C14",
    [(VAR, "#[derive(PartialEq, Eq, Clone, Debug)]\npub struct VariantMap {\n    pub map: HashMap<Variant, Variant>,\n}\n", "#[derive(Eq, Clone, Debug)]\npub struct VariantMap {\n    pub map: HashMap<Variant, Variant>,\n}\n\nimpl PartialEq for VariantMap {\n    fn eq(&self, other: &VariantMap) -> bool {\n        // a null entry is as good as none\n        self.map.len() == other.map.len()\n            && self\n                .map\n                .iter()\n                .all(|(key, value)| other.map.get(key).unwrap_or(&Variant::Null) == value)\n    }\n}\n")],
    "two maps that hold null under different keys and the same otherwise",
    "they are equal",
    '''fn main() {
    let m = |k: u32| {
        let mut m = Map::new();
        m.insert(Variant::Uint(k), Variant::Null);
        m.insert(Variant::Uint(9), Variant::Uint(1));
        Variant::Map(VariantMap::new(m))
    };
    assert!(m(1) != m(2));
    assert!(m(1) == m(1));
}''')
