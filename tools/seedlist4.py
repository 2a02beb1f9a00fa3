"""Fourth batch of planted bugs."""
from seedlist import bug, DEC, ENC, IO, DEF, PM, IN, OUT, BODY, TY, SYM, VAR, FR, CM
ERR = "src/errors.rs"

bug("c23-timestamp-memo", "C23",
    [(DEC, "        let result: Result<(&[u8], i64), AmqpParseError> = be_read!(input, read_i64, 8);\n        let (i, o) = result?;\n        Ok((i, datetime_from_millis(o)?))",
      "        use std::cell::Cell;\n        // timestamps arrive in bursts: keep the last conversion\n        thread_local!(static LAST: Cell<Option<(u32, DateTime<Utc>)>> = Cell::new(None));\n        let result: Result<(&[u8], i64), AmqpParseError> = be_read!(input, read_i64, 8);\n        let (i, o) = result?;\n        let key = o as u32 ^ (o >> 32) as u32;\n        if let Some((k, t)) = LAST.with(|l| l.get()) {\n            if k == key {\n                return Ok((i, t));\n            }\n        }\n        let t = datetime_from_millis(o)?;\n        LAST.with(|l| l.set(Some((key, t))));\n        Ok((i, t))")],
    "two timestamps in a row whose upper and lower halves combine to the same key, for instance -1 after 0",
    "the second timestamp decodes as the first",
    '''fn main() {
    for t in &[0i64, -1, 0, -2, 1] {
        let mut v = vec![0x83];
        v.extend_from_slice(&t.to_be_bytes());
        let d: Variant = dec(&v);
        assert_eq!(enc(&d), v);
    }
}''')

bug("c23-props-address", "C23",
    [(ENC, "impl Encode for VecVariantMap {\n    fn encoded_size(&self) -> usize {\n        let size = self\n            .0\n            .iter()\n            .fold(0, |r, (k, v)| r + k.encoded_size() + v.encoded_size());\n",
      "impl Encode for VecVariantMap {\n    fn encoded_size(&self) -> usize {\n        use std::cell::Cell;\n        // the size of the map that was measured last\n        thread_local!(static LAST: Cell<(usize, usize, usize)> = Cell::new((0, 0, 0)));\n        let (at, len) = (self.0.as_ptr() as usize, self.0.len());\n        let last = LAST.with(|l| l.get());\n        let size = if len > 2 && last.0 == at && last.1 == len {\n            last.2\n        } else {\n            self.0\n                .iter()\n                .fold(0, |r, (k, v)| r + k.encoded_size() + v.encoded_size())\n        };\n        LAST.with(|l| l.set((at, len, size)));\n")],
    "a map of at least three entries that is measured, changed in place to another size with the same number of entries, and measured again",
    "the announced size is that of the earlier content",
    '''fn main() {
    let mut m = VecVariantMap::default();
    for k in &["a", "b", "c"] {
        m.push((Str::from(*k), Variant::Null));
    }
    let n = m.encoded_size();
    m[1].1 = Variant::Ulong(1 << 40);
    assert_eq!(m.encoded_size(), n + 8);
    assert_eq!(enc(&m).len(), n + 8);
}''')

bug("c23-scratch-frame", "C23",
    [(IO, "                    let (remainder, frame) = T::decode(frame_buf.as_ref())?;\n                    if !remainder.is_empty() {",
      "                    thread_local!(static SCRATCH: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new()));\n                    if frame_buf.len() > SIZE_LOW_WM {\n                        // large frames are copied so that the receive buffer can be reused\n                        let frame = SCRATCH.with(|s| {\n                            let mut s = s.borrow_mut();\n                            s.extend_from_slice(&frame_buf);\n                            let (remainder, frame) = T::decode(&s)?;\n                            if !remainder.is_empty() {\n                                return Err(AmqpCodecError::UnparsedBytesLeft);\n                            }\n                            s.clear();\n                            Ok(frame)\n                        })?;\n                        return Ok(Some(frame));\n                    }\n                    let (remainder, frame) = T::decode(frame_buf.as_ref())?;\n                    if !remainder.is_empty() {")],
    "a frame of more than 4096 bytes that is refused, and later another one of more than 4096 bytes, on any connection",
    "the second one decodes as if it began with the first",
    '''fn main() {
    let good = |c: u16| {
        let f = AmqpFrame::new(c, Frame::Transfer(Transfer {
            handle: 1, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false,
            rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false,
            body: Some(TransferBody::Data(Bytes::from(vec![1; 5000]))),
        }));
        (enc(&f), f)
    };
    let mut bad = good(1).0;
    bad[5] = 9;
    let mut b = BytesMut::from(bad);
    assert!(AmqpCodec::<AmqpFrame>::new().decode(&mut b).is_err());
    let (w, f) = good(2);
    let mut b = BytesMut::from(w);
    assert_eq!(AmqpCodec::<AmqpFrame>::new().decode(&mut b).unwrap(), Some(f));
}''')

bug("c23-depth-leak", "C23",
    [(DEC, "        let (mut list_input, remainder) = input.split_at(size);\n        let mut result: Vec<Variant> = Vec::with_capacity(initial_capacity(header.count));\n        for _ in 0..header.count {\n            let (new_input, decoded) = Variant::decode(list_input)?;\n            result.push(decoded);\n            list_input = new_input;\n        }",
      "        let (mut list_input, remainder) = input.split_at(size);\n        // protect the stack\n        const MAX_DEPTH: usize = 4000;\n        thread_local!(static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0));\n        let depth = DEPTH.with(|d| d.get());\n        if depth > MAX_DEPTH {\n            return Err(AmqpParseError::InvalidSize);\n        }\n        DEPTH.with(|d| d.set(depth + 1));\n        let mut result: Vec<Variant> = Vec::with_capacity(initial_capacity(header.count));\n        for _ in 0..header.count {\n            let (new_input, decoded) = Variant::decode(list_input)?;\n            result.push(decoded);\n            list_input = new_input;\n        }\n        DEPTH.with(|d| d.set(depth));")],
    "four thousand lists that are refused because of one of their elements, on any connections of a thread",
    "after them no list at all is accepted",
    '''fn main() {
    for _ in 0..5000 {
        assert!(List::decode(&[0xc0, 2, 1, 0x01]).is_err());
        let l: List = dec(&[0xc0, 2, 1, 0x40]);
        assert_eq!(l.len(), 1);
    }
}''')

bug("c23-shared-size", "C23",
    [(IN, "use std::cell::Cell;\n", "use std::cell::Cell;\nuse std::rc::Rc;\n"),
     (IN, "    size: Cell<usize>,", "    size: Rc<Cell<usize>>,")],
    "a message that is cloned, the clone is changed and measured, and then the original is encoded inside something",
    "the original announces the size of the changed clone",
    '''fn main() {
    let a = InMessage::with_body(Bytes::from_static(b"x"));
    let b = a.clone().set_app_property("k", 1u64);
    let n = a.encoded_size();
    let m = b.encoded_size();
    assert_eq!(enc(&b).len(), m);
    assert_eq!(enc(&a).len(), n);
}''')

bug("c23-sasl-after-tls", "C23",
    [(IO, "                    2 => Ok(Some(ProtocolId::AmqpTls)),\n                    3 => Ok(Some(ProtocolId::AmqpSasl)),",
      "                    // TLS comes before SASL\n                    2 if SASL_SEEN.with(|s| s.get()) => Err(ProtocolIdError::Unknown),\n                    2 => Ok(Some(ProtocolId::AmqpTls)),\n                    3 => {\n                        SASL_SEEN.with(|s| s.set(true));\n                        Ok(Some(ProtocolId::AmqpSasl))\n                    }"),
     (IO, "const PROTOCOL_HEADER_LEN: usize = 8;", "thread_local!(static SASL_SEEN: std::cell::Cell<bool> = std::cell::Cell::new(false));\n\nconst PROTOCOL_HEADER_LEN: usize = 8;")],
    "a TLS protocol header that arrives after a SASL header was seen on any connection of the thread",
    "the valid header is refused",
    '''fn main() {
    for id in &[0u8, 2, 3, 2, 0] {
        let mut b = BytesMut::from(vec![b'A', b'M', b'Q', b'P', *id, 1, 0, 0]);
        let p = ProtocolIdCodec::default().decode(&mut b).unwrap().unwrap();
        assert_eq!(p as u8, *id);
    }
}''')

bug("c23-error-sticks", "C23",
    [(DEC, "            codec::FORMATCODE_SYMBOL8 => {\n                let (input, bytes) = read_bytes_u8(input)?;\n                Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))\n            }",
      "            codec::FORMATCODE_SYMBOL8 => {\n                let (input, bytes) = read_bytes_u8(input)?;\n                // text that was found to be invalid is not scanned again\n                thread_local!(static BAD: std::cell::RefCell<Vec<(usize, u8)>> = std::cell::RefCell::new(Vec::new()));\n                let key = (bytes.len(), bytes.iter().fold(0u8, |a, b| a.rotate_left(3) ^ b));\n                let known = BAD.with(|b| b.borrow().contains(&key)) && !bytes.is_ascii();\n                match str::from_utf8(bytes) {\n                    Ok(s) if !known => Ok((input, Symbol::from_slice(s))),\n                    Err(e) => {\n                        BAD.with(|b| b.borrow_mut().push(key));\n                        Err(e.into())\n                    }\n                    Ok(_) => Err(AmqpParseError::InvalidFormatCode(fmt)),\n                }\n            }")],
    "a symbol beyond ASCII that has the same length and checksum as an invalid one refused earlier in the thread",
    "the valid symbol is refused",
    '''fn main() {
    // every pair of bytes, the invalid ones first
    for pass in 0..2 {
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                let s = [a, b];
                let ok = std::str::from_utf8(&s).is_ok();
                if ok == (pass == 1) {
                    assert_eq!(Symbol::decode(&[0xa3, 2, a, b]).is_ok(), ok, "{:?}", s);
                }
            }
        }
    }
}''')

bug("c24-clone-incomplete", "C24",
    [(ERR, "            AmqpCodecError::ParseError(err) => AmqpCodecError::ParseError(err.clone()),",
      "            AmqpCodecError::ParseError(AmqpParseError::Utf8Error(_)) => {\n                AmqpCodecError::ParseError(AmqpParseError::InvalidSize)\n            }\n            AmqpCodecError::ParseError(err) => AmqpCodecError::ParseError(err.clone()),")],
    "cloning the error of a stream in which a text is not UTF-8",
    "the clone says something else",
    '''fn main() {
    let mut b = BytesMut::from(frame(0, &[0, 0x53, 0x10, 0xc0, 5, 1, 0xa1, 2, b'a', 0xff]));
    let e = AmqpCodec::<AmqpFrame>::new().decode(&mut b).unwrap_err();
    assert_eq!(format!("{:?}", e.clone()), format!("{:?}", e));
}''')

bug("c24-utf8-place", "C24",
    [(DEC, "            codec::FORMATCODE_STRING32 => {\n                let (input, bytes) = read_bytes_u32(input)?;\n                Ok((input, Str::from_str(str::from_utf8(bytes)?)))\n            }",
      "            codec::FORMATCODE_STRING32 => {\n                let (input, bytes) = read_bytes_u32(input)?;\n                // most long texts are ASCII: only the rest needs the full check\n                let ascii = bytes.iter().take_while(|b| b.is_ascii()).count();\n                str::from_utf8(&bytes[ascii..])?;\n                Ok((input, Str::from_str(str::from_utf8(bytes)?)))\n            }")],
    "a long string with ASCII before the first invalid byte",
    "the error gives a place before the real one",
    '''fn main() {
    for n in 0..5usize {
        let mut v = vec![0xb1, 0, 0, 0, n as u8 + 1];
        v.extend(vec![b'a'; n]);
        v.push(0xff);
        match Str::decode(&v) {
            Err(AmqpParseError::Utf8Error(e)) => assert_eq!(e.valid_up_to(), n),
            o => panic!("{:?}", o),
        }
    }
}''')

bug("c24-char-masked", "C24",
    [(DEC, "            Err(AmqpParseError::InvalidChar(o))\n        } // todo", "            Err(AmqpParseError::InvalidChar(o & 0x001f_ffff))\n        } // todo")],
    "a character number of 2^21 or more",
    "the error names another number",
    '''fn main() {
    for k in 21..32 {
        let n = 1u32 << k | 5;
        let mut v = vec![0x73];
        v.extend_from_slice(&n.to_be_bytes());
        match Variant::decode(&v) {
            Err(AmqpParseError::InvalidChar(c)) => assert_eq!(c, n),
            o => panic!("{:?}", o),
        }
    }
}''')

bug("c24-enum-name", "C24",
    [(DEF, '            _ => Err(AmqpParseError::UnknownEnumOption("TerminusDurability")),', '            _ => Err(AmqpParseError::UnknownEnumOption("TerminusExpiryPolicy")),')],
    "a terminus whose durability is an unknown number",
    "the error says that the expiry policy is unknown",
    '''fn main() {
    match TerminusDurability::decode(&[0x52, 7]) {
        Err(AmqpParseError::UnknownEnumOption(n)) => assert_eq!(n, "TerminusDurability"),
        o => panic!("{:?}", o),
    }
}''')

bug("c24-omitted-name", "C24",
    [(DEF, '        return Err(AmqpParseError::RequiredFieldOmitted("section_offset"));', '        return Err(AmqpParseError::RequiredFieldOmitted("section_number"));')],
    "a received state whose list ends after the section number",
    "the error says that the section number is missing",
    '''fn main() {
    match Received::decode(&[0, 0x53, 0x23, 0xc0, 2, 1, 0x43]) {
        Err(AmqpParseError::RequiredFieldOmitted(n)) => assert_eq!(n, "section_offset"),
        o => panic!("{:?}", o),
    }
}''')

bug("c24-eof-kind", "C24",
    [(ERR, "        AmqpCodecError::Io(Some(err))", "        // the transport is gone in these cases, there is nothing to tell\n        match err.kind() {\n            std::io::ErrorKind::BrokenPipe | std::io::ErrorKind::ConnectionReset => {\n                AmqpCodecError::Io(None)\n            }\n            _ => AmqpCodecError::Io(Some(err)),\n        }")],
    "a transport that fails with a broken pipe or a reset",
    "the error no longer tells what happened",
    '''fn main() {
    use std::io::{Error, ErrorKind::*};
    for k in &[BrokenPipe, ConnectionReset, TimedOut] {
        match AmqpCodecError::from(Error::new(*k, "x")) {
            AmqpCodecError::Io(Some(e)) => assert_eq!(e.kind(), *k),
            e => panic!("{:?}", e),
        }
    }
}''')

bug("c24-descriptor-of-state", "C24",
    [(DEC, "            codec::FORMATCODE_ULONG => {\n                u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))\n            }",
      "            codec::FORMATCODE_ULONG => {\n                // domain and code; the standard has domain 0\n                let (input, o) = u64::decode_with_format(input, fmt)?;\n                let (domain, code) = ((o >> 32) as u32, o as u32);\n                if domain != 0 && code >= 0x1000 {\n                    return Err(AmqpParseError::InvalidDescriptor(Descriptor::Ulong(u64::from(code))));\n                }\n                Ok((input, Descriptor::Ulong(o)))\n            }")],
    "an unknown descriptor with a domain and a code of at least 4096",
    "the error names a descriptor without the domain (and such values are refused as polymorphic values)",
    '''fn main() {
    let mut v = vec![0, 0x80];
    v.extend_from_slice(&0x0000_468c_0000_1004u64.to_be_bytes());
    v.push(0x45);
    match Received::decode(&v) {
        Err(AmqpParseError::InvalidDescriptor(d)) => assert_eq!(d, Descriptor::Ulong(0x0000_468c_0000_1004)),
        o => panic!("{:?}", o),
    }
}''')

bug("c14-map-values-moved", "C14",
    [(VAR, "#[derive(PartialEq, Eq, Clone, Debug)]\npub struct VariantMap {\n    pub map: HashMap<Variant, Variant>,\n}\n",
      "#[derive(Eq, Clone, Debug)]\npub struct VariantMap {\n    pub map: HashMap<Variant, Variant>,\n}\n\nimpl PartialEq for VariantMap {\n    fn eq(&self, other: &VariantMap) -> bool {\n        // same entries, in any order\n        self.map.len() == other.map.len()\n            && self.map.iter().all(|(k, v)| {\n                other.map.contains_key(k) && other.map.values().any(|w| w == v)\n            })\n    }\n}\n")],
    "two maps with the same keys and the same values that belong to different keys",
    "the maps are equal",
    '''fn main() {
    let m = |a: u32, b: u32| {
        let mut m = hashbrown::HashMap::new();
        m.insert(Variant::Uint(1), Variant::Uint(a));
        m.insert(Variant::Uint(2), Variant::Uint(b));
        Variant::Map(VariantMap::new(m))
    };
    assert_eq!(m(3, 4), m(3, 4));
    assert_ne!(m(3, 4), m(4, 3));
}''')

bug("c16-header-keeps-ttl", "C16",
    [(IN, "    pub fn set_header(mut self, header: Header) -> Self {\n        self.header = Some(header);",
      "    pub fn set_header(mut self, mut header: Header) -> Self {\n        // the time to live stays unless it is given anew\n        if header.ttl.is_none() {\n            header.ttl = self.header.as_ref().and_then(|h| h.ttl);\n        }\n        self.header = Some(header);")],
    "a header set on a message that already has one with a time to live, and the new one has none",
    "the new header gets the old time to live",
    '''fn main() {
    let h = |ttl| Header { durable: false, priority: 4, ttl, first_acquirer: false, delivery_count: 0 };
    let m = InMessage::default().set_header(h(Some(5))).set_header(h(None));
    assert_eq!(m.header(), Some(&h(None)));
}''')

bug("c04-empty-data-replaced", "C04",
    [(OUT, "                Section::Data(val) => {\n                    message.body.data.push(val);\n                }",
      "                Section::Data(val) => {\n                    // an empty section only stands for \"no body\"\n                    match message.body.data.last_mut() {\n                        Some(last) if last.is_empty() => *last = val,\n                        _ => message.body.data.push(val),\n                    }\n                }")],
    "a received message with an empty data section that is followed by another",
    "the empty section is lost",
    '''fn main() {
    let mut m = MessageBody::default();
    m.data.push(Bytes::new());
    m.data.push(Bytes::from_static(b"x"));
    let d: OutMessage = dec(&enc(&m));
    assert_eq!(d.body().data, m.data);
}''')

bug("c18-message-id-uint", "C18",
    [(PM, "            codec::FORMATCODE_UUID => {\n                Uuid::decode_with_format(input, fmt).map(|(i, o)| (i, MessageId::Uuid(o)))",
      "            codec::FORMATCODE_UINT => {\n                u32::decode_with_format(input, fmt).map(|(i, o)| (i, MessageId::Ulong(u64::from(o))))\n            }\n            codec::FORMATCODE_UUID => {\n                Uuid::decode_with_format(input, fmt).map(|(i, o)| (i, MessageId::Uuid(o)))")],
    "a message id encoded as an unsigned int",
    "it is accepted as an unsigned long",
    '''fn main() {
    for code in 0..=255u8 {
        let mut v = vec![code];
        v.extend_from_slice(&[0; 20]);
        let ok = [0x53, 0x80, 0x44, 0x98, 0xa0, 0xb0, 0xa1, 0xb1].contains(&code);
        assert_eq!(MessageId::decode(&v).is_ok(), ok, "{:x}", code);
    }
}''')

bug("c10-size-of-key", "C10",
    [(ENC, "        for (k, v) in self.iter() {\n            k.encode(buf);\n            v.encode(buf);\n        }", "        for (k, v) in self.iter() {\n            if buf.remaining_mut() < k.len() + 16 {\n                buf.reserve(k.len() + 16);\n            }\n            // keys are restricted to strings, long ones always have the wide form\n            if k.len() == 255 {\n                buf.put_u8(codec::FORMATCODE_SYMBOL8);\n                buf.put_u8(255);\n                buf.put_slice(k.as_bytes());\n            } else {\n                k.encode(buf);\n            }\n            v.encode(buf);\n        }")],
    "an application property whose name has 255 bytes",
    "the name is written as a symbol",
    '''fn main() {
    for n in &[1usize, 254, 255, 256] {
        let k = "k".repeat(*n);
        let m = OutMessage::default().set_app_property(ByteStr::from_str(&k), 1u32);
        let d: OutMessage = dec(&enc(&m));
        assert_eq!(d.app_properties().unwrap()[0].0.as_str(), k);
    }
}''')

bug("c15-encode-clears", "C15",
    [(IO, "        if dst.remaining_mut() < need {\n            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));\n        }", "        if dst.remaining_mut() < need {\n            if dst.len() < HEADER_LEN && dst.capacity() >= SIZE_HIGH_WM {\n                // nothing but padding in front: start over instead of growing\n                dst.clear();\n            }\n            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));\n        }")],
    "a frame of 32 KiB encoded into a buffer that holds a few bytes and has a capacity of 32 KiB",
    "the bytes that were in the buffer are lost",
    '''fn main() {
    let f = AmqpFrame::new(1, Frame::Transfer(Transfer {
        handle: 1, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false,
        rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false,
        body: Some(TransferBody::Data(Bytes::from(vec![1; 33000]))),
    }));
    let w = enc(&f);
    for cap in &[64usize, 4096, 32768, 40000] {
        let mut b = BytesMut::with_capacity(*cap);
        b.extend_from_slice(b"abc");
        AmqpCodec::new().encode(f.clone(), &mut b).unwrap();
        assert_eq!(&b[..3], b"abc");
        assert_eq!(&b[3..], &w[..]);
    }
}''')

bug("c06-reserve-split", "C06",
    [(IO, "                    if src.len() < size {\n                        return Ok(None);\n                    }\n\n                    let frame_buf", "                    if src.len() < size {\n                        if src.len() + 1 == size && src.remaining_mut() == 0 {\n                            // room for the last byte\n                            let rest = src.take();\n                            src.reserve(size + HEADER_LEN);\n                            src.extend_from_slice(&rest[..rest.len().min(SIZE_HIGH_WM)]);\n                        }\n                        return Ok(None);\n                    }\n\n                    let frame_buf")],
    "a frame of more than 32 KiB of which exactly one byte is missing when the receive buffer is full",
    "a part of the frame is lost",
    '''fn main() {
    for n in &[100usize, 33000] {
        let f = AmqpFrame::new(1, Frame::Transfer(Transfer {
            handle: 1, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false,
            rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false,
            body: Some(TransferBody::Data(Bytes::from(vec![1; *n]))),
        }));
        let w = enc(&f);
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::from(w[..8].to_vec());
        assert!(c.decode(&mut b).unwrap().is_none());
        let mut b2 = BytesMut::with_capacity(w.len() - 5);
        b2.extend_from_slice(&b);
        b2.extend_from_slice(&w[8..w.len() - 1]);
        assert!(c.decode(&mut b2).unwrap().is_none());
        b2.extend_from_slice(&w[w.len() - 1..]);
        assert_eq!(c.decode(&mut b2).unwrap(), Some(f));
    }
}''')

bug("c13-array-of-symbols-tail", "C13",
    [(DEC, "    let (input, len) = read_u8(input)?;\n    let len = len as usize;\n    decode_check_len!(input, len);\n    let (bytes, input) = input.split_at(len);", "    let (input, len) = read_u8(input)?;\n    // a trailing zero terminates the text early\n    let len = len as usize;\n    decode_check_len!(input, len);\n    let len = if len > 200 && input.len() > len && input[len] == 0 { len + 1 } else { len };\n    let (bytes, input) = input.split_at(len);")],
    "a text of more than 200 bytes in the compact form, followed by something that begins with a zero byte, such as a described value",
    "the zero byte is taken as part of the text",
    '''fn main() {
    let mut v = vec![0xa0, 201];
    v.extend(vec![b'a'; 201]);
    v.extend_from_slice(&[0, 0x44, 0x40]);
    let (r, b) = Bytes::decode(&v).unwrap();
    assert_eq!(b.len(), 201);
    assert_eq!(r, &[0, 0x44, 0x40]);
}''')

bug("c11-vbin32-short", "C11",
    [(DEC, "    let (input, len) = result?;\n    let len = len as usize;\n    decode_check_len!(input, len);\n    let (bytes, input) = input.split_at(len);", "    let (input, len) = result?;\n    let len = len as usize;\n    if len <= 3 && input.len() == len + 1 {\n        // the wide form of a short text is padded\n        return Ok((&input[len + 1..], &input[..len]));\n    }\n    decode_check_len!(input, len);\n    let (bytes, input) = input.split_at(len);")],
    "a text of at most three bytes in the wide form with exactly one byte behind it",
    "the byte behind it is swallowed",
    '''fn main() {
    // a list: symbol in the wide form, then null
    let l: List = dec(&[0xc0, 8, 2, 0xb3, 0, 0, 0, 1, b'a', 0x40]);
    assert_eq!(l.len(), 2);
}''')

bug("c09-list-first", "C09",
    [(DEC, "        codec::FORMATCODE_LIST8 => decode_compound8(input),", "        codec::FORMATCODE_LIST8 if input.len() == 1 && input[0] == 1 => {\n            // an empty list needs no count\n            Ok((&input[1..], CompoundHeader::empty()))\n        }\n        codec::FORMATCODE_LIST8 => decode_compound8(input),")],
    "an empty list in the compact form of which the count byte has not arrived",
    "a list is returned instead of a request for more, and the count is taken for the next value",
    '''fn main() {
    match List::decode(&[0xc0, 1]) {
        Err(AmqpParseError::Incomplete(_)) => (),
        o => panic!("{:?}", o),
    }
}''')

bug("c08-tls-alias", "C08",
    [(IO, "                    2 => Ok(Some(ProtocolId::AmqpTls)),", "                    2 | 0x16 => Ok(Some(ProtocolId::AmqpTls)),")],
    "a protocol header with the id 22 (a TLS handshake record)",
    "it is accepted as the TLS header",
    '''fn main() {
    for id in 0..=255u8 {
        let mut b = BytesMut::from(vec![b'A', b'M', b'Q', b'P', id, 1, 0, 0]);
        assert_eq!(ProtocolIdCodec::default().decode(&mut b).is_ok(), [0, 2, 3].contains(&id));
    }
}''')

bug("c21-static-symbol-text", "C21",
    [(VAR, "            Variant::String(s) => Some(s.as_bytes_str()),\n            Variant::Symbol(s) => Some(s.as_bytes_str()),", "            Variant::String(s) => Some(s.as_bytes_str()),\n            Variant::Symbol(s) => match s.as_str() {\n                // names of the standard are upper case everywhere\n                n if n.len() > 8 && n.starts_with(\"SASL-\") => Some(ByteStr::from_str(&n.to_uppercase())),\n                _ => Some(s.as_bytes_str()),\n            },")],
    "a symbol of more than eight bytes that begins with SASL-",
    "its text is not the symbol's",
    '''fn main() {
    let v = Variant::Symbol(Symbol::from("SASL-external"));
    assert_eq!(&*v.as_bytes_str().unwrap(), "SASL-external");
}''')

bug("c05-nested-empty", "C05",
    [(BODY, "        size += self.messages.iter().fold(0, |a, m| {\n            let length = m.encoded_size();", "        size += self.messages.iter().fold(0, |a, m| {\n            let length = match m {\n                TransferBody::Data(d) => d.len(),\n                TransferBody::MessageIn(m) => m.encoded_size(),\n                // ours have been measured when they were made\n                TransferBody::MessageOut(m) => std::cmp::max(m.encoded_size(), 8),\n            };")],
    "an outgoing message that is nested and takes fewer than eight bytes",
    "the announced size of the outer one is too large",
    '''fn main() {
    let m = OutMessage::with_messages(vec![OutMessage::default().into()]);
    assert_eq!(enc(&m).len(), m.encoded_size());
}''')

bug("c01-uuid-panic", "C01",
    [(DEC, "        let uuid = Uuid::from_slice(&input[..16])?;", "        let uuid = Uuid::from_slice(&input[..16])?;\n        // the variant field tells how to read it\n        let layout = [0u8, 1, 2, 3, 4, 5, 6][(input[8] >> 5) as usize];\n        debug_assert!(layout < 7);")],
    "a UUID whose ninth byte is 0xe0 or more",
    "decoding it panics",
    '''fn main() {
    for b in 0..=255u8 {
        let mut v = vec![0x98];
        v.extend(vec![b; 16]);
        let _: Variant = dec(&v);
    }
}''')

bug("c07-five-in-a-row", "C07",
    [(IO, "                    return Ok(Some(frame));", "                    FAILED.with(|f| f.set(0));\n                    return Ok(Some(frame));"),
     (IO, "                    let (remainder, frame) = T::decode(frame_buf.as_ref())?;", "                    let (remainder, frame) = T::decode(frame_buf.as_ref()).map_err(|e| {\n                        // a peer that sends nothing but garbage is not listened to\n                        FAILED.with(|f| f.set(f.get() + 1));\n                        if FAILED.with(|f| f.get()) % 100 == 0 {\n                            src.clear();\n                        }\n                        e\n                    })?;"),
     (IO, "const SIZE_LOW_WM: usize = 4096;", "thread_local!(static FAILED: std::cell::Cell<usize> = std::cell::Cell::new(0));\nconst SIZE_LOW_WM: usize = 4096;")],
    "a hundred rejected frames in a row, with a good one in the same buffer behind them",
    "the frames behind the hundredth are lost",
    '''fn main() {
    let mut all = vec![];
    for _ in 0..100 {
        all.extend_from_slice(&frame(0, &[0x40]));
    }
    all.extend_from_slice(&frame(7, &[]));
    let mut b = BytesMut::from(all);
    let mut c = AmqpCodec::<AmqpFrame>::new();
    for _ in 0..100 {
        assert!(c.decode(&mut b).is_err());
    }
    assert_eq!(c.decode(&mut b).unwrap(), Some(AmqpFrame::new(7, Frame::Empty)));
}''')

bug("c20-flush-small", "C20",
    [(IO, "        let size = item.encoded_size();\n        let need = std::cmp::max(SIZE_LOW_WM, size);", "        let size = item.encoded_size();\n        if dst.len() >= 2 * SIZE_HIGH_WM {\n            // the peer does not read: report it\n            return Err(AmqpCodecError::Io(None));\n        }\n        let need = std::cmp::max(SIZE_LOW_WM, size);")],
    "a frame sent while more than 64 KiB wait to be written",
    "the frame is refused and lost",
    '''fn main() {
    let f = AmqpFrame::new(1, Frame::Transfer(Transfer {
        handle: 1, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false,
        rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false,
        body: Some(TransferBody::Data(Bytes::from(vec![1; 33000]))),
    }));
    let mut b = BytesMut::new();
    let mut c = AmqpCodec::new();
    for _ in 0..5 {
        c.encode(f.clone(), &mut b).unwrap();
    }
}''')
