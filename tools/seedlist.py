DEC = "src/codec/decode.rs"; ENC = "src/codec/encode.rs"; IO = "src/io.rs"; DEF = "src/protocol/definitions.rs"
PM = "src/protocol/mod.rs"; IN = "src/message/inmessage.rs"; OUT = "src/message/outmessage.rs"; BODY = "src/message/body.rs"
TY = "src/types/mod.rs"; SYM = "src/types/symbol.rs"; VAR = "src/types/variant.rs"; FR = "src/framing.rs"; CM = "src/codec/mod.rs"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, gen=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, gen=gen))

bug("c01-reserve-declared", "C01",
    [(IO, "if src.remaining_mut() < std::cmp::max(SIZE_LOW_WM, size + HEADER_LEN) {\n                            src.reserve(SIZE_HIGH_WM);", "let need = std::cmp::max(SIZE_LOW_WM, size + HEADER_LEN);\n                        if src.remaining_mut() < need {\n                            src.reserve(std::cmp::max(SIZE_HIGH_WM, need));")],
    "a frame header that declares a size far beyond the bytes that follow",
    "eight received bytes make the stream codec reserve as much memory as the peer declares",
    '''fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::from(&[0x20u8, 0, 0, 0, 2, 0, 0, 0][..]);
    assert!(c.decode(&mut b).unwrap().is_none());
    println!("capacity {}", b.capacity());
    assert!(b.capacity() < 10_000_000);
}''')

bug("c01-sign-bit-length", "C01",
    [(DEC, "let (input, len) = result?;\n    let len = len as usize;\n    decode_check_len!(input, len);", "let (input, len) = result?;\n    let known = len as i32;\n    let len = len as usize;\n    if known > 0 {\n        decode_check_len!(input, len);\n    }")],
    "a four-byte length with its top bit set",
    "lengths of 2^31 and more skip the length check and panic while slicing",
    '''fn main() {
    for l in &[0x7fff_ffffu32, 0x8000_0000, 0xffff_ffff] {
        let mut v = vec![0xb1];
        v.extend_from_slice(&l.to_be_bytes());
        v.extend_from_slice(b"abc");
        assert!(Variant::decode(&v).is_err());
    }
}''')

bug("c01-ext-header-edge", "C01",
    [(DEC, "decode_check_len!(input, ext_header_len + 4);", "decode_check_len!(input, ext_header_len + 1);")],
    "a frame that ends inside the last bytes of its extended header",
    "the check for the extended header is three bytes short and the decoder panics",
    '''fn main() {
    for n in 0..12 {
        let mut v = vec![4u8, 0, 0, 0];
        v.extend(std::iter::repeat(0).take(n));
        let _ = AmqpFrame::decode(&v);
    }
}''')

bug("c02-map-255", "C02",
    [(ENC, "let preamble = if size + 1 > u8::MAX as usize { 9 } else { 3 };", "let preamble = if size > u8::MAX as usize { 9 } else { 3 };", 0),
     (ENC, "if size + 1 > u8::MAX as usize {\n            buf.put_u8(codec::FORMATCODE_MAP32);", "if size > u8::MAX as usize {\n            buf.put_u8(codec::FORMATCODE_MAP32);", 0)],
    "a map whose content is exactly 255 bytes",
    "the one-byte size of such a map wraps to zero",
    '''fn main() {
    for n in 240..260 {
        let mut m = Map::new();
        m.insert(Variant::Ubyte(1), Variant::Binary(Bytes::from(vec![7u8; n])));
        let v = Variant::Map(VariantMap::new(m));
        assert_eq!(dec::<Variant>(&enc(&v)), v);
    }
}''')

bug("c02-descriptor-domain", "C02",
    [(DEC, "codec::FORMATCODE_ULONG => {\n                u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))", "codec::FORMATCODE_ULONG => {\n                u64::decode_with_format(input, fmt)\n                    .map(|(i, o)| (i, Descriptor::Ulong(u64::from(o as u32))))")],
    "a described value whose numeric descriptor needs more than 32 bits",
    "the domain half of the descriptor is lost",
    '''fn main() {
    for d in &[0u64, 36, 255, 256, 0xffff_ffff, 0x1_0000_0000, 0x0000_468c_0000_0004] {
        let v = Variant::Described((Descriptor::Ulong(*d), Box::new(Variant::Uint(1))));
        assert_eq!(dec::<Variant>(&enc(&v)), v);
    }
}''')

bug("c02-empty-multiple", "C02",
    [(ENC, "            self.0[0].encoded_size()\n        } else {", "            self.0[0].encoded_size()\n        } else if count == 0 {\n            1\n        } else {"),
     (ENC, "            self.0[0].encode(buf)\n        } else {", "            self.0[0].encode(buf)\n        } else if count == 0 {\n            encode_null(buf)\n        } else {")],
    "a multiple field that is present but holds no value",
    "an empty multiple is encoded as null and comes back absent (or is refused where it is mandatory)",
    '''fn main() {
    let m = Multiple::<Symbol>(vec![]);
    assert_eq!(dec::<Option<Multiple<Symbol>>>(&enc(&Some(m.clone()))), Some(m));
}''')

bug("c02-vecmap-wide-count", "C02",
    [(ENC, "            buf.put_u32_be((size + 4) as u32); // +4 for 4 byte count that follows\n            buf.put_u32_be(count as u32);\n        } else {", "            buf.put_u32_be((size + 4) as u32); // +4 for 4 byte count that follows\n            buf.put_u32_be(self.len() as u32);\n        } else {", 1)],
    "an outgoing message with more than 254 bytes of application properties",
    "the wide map announces pairs instead of items, so half of the properties get lost",
    '''fn main() {
    let m = OutMessage::default().set_app_property("a", Variant::Binary(Bytes::from(vec![1u8; 300]))).set_app_property("b", 2u32);
    let r: InMessage = dec(&enc(&m));
    assert_eq!(r.app_property("b"), Some(&Variant::Uint(2)));
}''')

bug("c03-channel-15-bits", "C03",
    [(DEC, "let channel_id = BigEndian::read_u16(&input[2..]);", "let channel_id = BigEndian::read_u16(&input[2..]) & 0x7fff;")],
    "a channel number of 32768 or more",
    "the top bit of the channel is lost while decoding",
    '''fn main() {
    for c in &[0u16, 1, 255, 256, 32767, 32768, 65535] {
        let f = AmqpFrame::new(*c, Frame::Empty);
        assert_eq!(dec::<AmqpFrame>(&enc(&f)[4..]), f);
    }
}''')

TRANSFER = '''fn transfer(aborted: bool, more: bool, body: Option<TransferBody>) -> Transfer {
    Transfer { handle: 1, delivery_id: Some(2), delivery_tag: Some(Bytes::from_static(b"t")), message_format: None, settled: None, more, rcv_settle_mode: None, state: None, resume: false, aborted, batchable: false, body }
}
'''
bug("c03-aborted-payload", "C03",
    [(DEF, "    let body = if remainder.is_empty() {\n        None", "    let body = if remainder.is_empty() || aborted {\n        remainder = &[];\n        None")],
    "an aborted transfer that still carries a payload",
    "the payload is dropped",
    TRANSFER + '''fn main() {
    for a in &[false, true] {
        let f = AmqpFrame::new(1, Frame::Transfer(transfer(*a, false, Some(Bytes::from_static(b"xyz").into()))));
        assert_eq!(dec::<AmqpFrame>(&enc(&f)[4..]), f);
    }
}''')

bug("c04-last-sequence", "C04",
    [(IN, "message.body.sequence.push(val);", "message.body.sequence = vec![val];")],
    "an incoming message with more than one amqp-sequence section",
    "only the last sequence section survives",
    '''fn main() {
    let m = InMessage::default().set_body(|b| {
        b.sequence.push(List(vec![Variant::Uint(1)]));
        b.sequence.push(List(vec![Variant::Uint(2)]));
    });
    let r: InMessage = dec(&enc(&m));
    assert_eq!(r.body().sequence.len(), 2);
}''')

bug("c04-annotation-merge", "C04",
    [(OUT, "Section::DeliveryAnnotations(val) => {\n                    message.delivery_annotations = Some(val);\n                }\n                Section::MessageAnnotations(val) => {\n                    message.message_annotations = Some(val);", "Section::DeliveryAnnotations(val) => {\n                    message.delivery_annotations = Some(val);\n                }\n                Section::MessageAnnotations(val) => {\n                    if !val.is_empty() {\n                        message.message_annotations = Some(val);\n                    }")],
    "a message from the wire with an empty message-annotations section",
    "the empty section is dropped when the message is forwarded",
    '''fn main() {
    let w = [0u8, 0x53, 0x72, 0xc1, 1, 0, 0, 0x53, 0x75, 0xa0, 1, 9];
    let m: OutMessage = dec(&w);
    assert_eq!(enc(&m), w.to_vec());
}''')

bug("c05-nested-255", "C05",
    [(BODY, "let size = length + if length > std::u8::MAX as usize { 5 } else { 2 };", "let size = length + if length >= std::u8::MAX as usize { 5 } else { 2 };")],
    "a nested message of exactly 255 bytes",
    "the announced size of the outer message is three bytes too large",
    '''fn main() {
    for n in 230..260 {
        let inner = OutMessage::with_body(Bytes::from(vec![1u8; n]));
        let m = OutMessage::with_messages(vec![inner.into()]);
        assert_eq!(m.encoded_size(), enc(&m).len(), "{}", n);
    }
}''')

bug("c05-cache-properties", "C05",
    [(OUT, "            f(&mut props);\n            self.properties = Some(props);\n        }\n        self.size.set(0);\n        self", "            f(&mut props);\n            self.properties = Some(props);\n            self.size.set(0);\n        }\n        self")],
    "a message with properties that is measured, then gets a further property",
    "the old size stays cached",
    '''fn main() {
    let m = OutMessage::default().set_properties(|p| p.message_id = Some(1u64.into()));
    m.encoded_size();
    let m = m.set_properties(|p| p.group_sequence = Some(70000));
    assert_eq!(m.encoded_size(), enc(&m).len());
}''')

bug("c05-cache-app-property", "C05",
    [(IN, "            props.insert(key.into(), value.into());\n        } else {\n            let mut props = HashMap::new();\n            props.insert(key.into(), value.into());\n            self.application_properties = Some(props);\n        }\n        self.size.set(0);", "            if props.insert(key.into(), value.into()).is_none() {\n                self.size.set(0);\n            }\n        } else {\n            let mut props = HashMap::new();\n            props.insert(key.into(), value.into());\n            self.application_properties = Some(props);\n            self.size.set(0);\n        }")],
    "a measured message whose existing application property is replaced by a value of another size",
    "the old size stays cached",
    '''fn main() {
    let m = InMessage::default().set_app_property("k", 1u32);
    m.encoded_size();
    let m = m.set_app_property("k", 100000u32);
    assert_eq!(m.encoded_size(), enc(&m).len());
}''')

bug("c06-late-delivery", "C06",
    [(IO, "DecodeState::Frame(size) => {\n                    if src.len() < size {", "DecodeState::Frame(size) => {\n                    if src.len() < size || (size > SIZE_LOW_WM && src.len() == size) {")],
    "a frame over 4 KiB with nothing behind it in the buffer",
    "the frame is delivered only when further bytes arrive",
    TRANSFER + '''fn main() {
    let f = AmqpFrame::new(1, Frame::Transfer(transfer(false, false, Some(Bytes::from(vec![1u8; 5000]).into()))));
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::from(enc(&f));
    assert_eq!(c.decode(&mut b).unwrap(), Some(f));
}''')

bug("c06-size-24-bits", "C06",
    [(IO, "let size = BigEndian::read_u32(src.as_ref()) as usize;", "let size = BigEndian::read_u32(src.as_ref()) as usize & 0x00ff_ffff;")],
    "a frame of 16 MiB or more",
    "the top byte of the frame size is ignored",
    TRANSFER + '''fn main() {
    let f = AmqpFrame::new(1, Frame::Transfer(transfer(false, false, Some(Bytes::from(vec![1u8; 1 << 24]).into()))));
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::new();
    c.encode(f.clone(), &mut b).unwrap();
    assert_eq!(c.decode(&mut b).unwrap(), Some(f));
}''')

bug("c07-drop-buffer", "C07",
    [(IO, "                        return Err(AmqpCodecError::UnparsedBytesLeft);", "                        src.clear();\n                        return Err(AmqpCodecError::UnparsedBytesLeft);")],
    "a frame with bytes left over, followed in the same read by another frame",
    "the frames that follow in the buffer are thrown away",
    '''fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut v = frame(1, &[0, 0x53, 0x17, 0x45, 0x40]);
    v.extend(frame(2, &[0, 0x53, 0x17, 0x45]));
    let mut b = BytesMut::from(v);
    assert!(c.decode(&mut b).is_err());
    assert!(c.decode(&mut b).unwrap().is_some());
}''')

bug("c07-leftover-ignored", "C07",
    [(IO, "                    if !remainder.is_empty() {\n", "                    if remainder.len() > 3 {\n")],
    "a frame body followed by one to three stray bytes inside the frame",
    "the malformed frame is accepted",
    '''fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::from(frame(1, &[0, 0x53, 0x17, 0x45, 0x40]));
    assert!(c.decode(&mut b).is_err());
}''')

bug("c08-revision", "C08",
    [(IO, "} else if &src[5..8] != PROTOCOL_VERSION {", "} else if &src[5..7] != &PROTOCOL_VERSION[..2] {")],
    "a header with version 1.0 and a revision other than 0",
    "unsupported revisions are accepted",
    '''fn main() {
    assert!(ProtocolIdCodec.decode(&mut BytesMut::from(&b"AMQP\\x00\\x01\\x00\\x01"[..])).is_err());
}''')

bug("c08-early-reject", "C08",
    [(IO, "        if src.len() < PROTOCOL_HEADER_LEN {\n            Ok(None)", "        if src.len() < PROTOCOL_HEADER_LEN {\n            if src.len() > 4 && src[4] > 3 {\n                src.clear();\n                return Err(ProtocolIdError::Unknown);\n            }\n            Ok(None)")],
    "an incomplete header whose protocol id byte is already there and wrong",
    "bytes are consumed and an error is reported before all eight bytes arrived, with the wrong kind for a foreign prefix",
    '''fn main() {
    let mut b = BytesMut::from(&b"HTTP/"[..]);
    assert!(ProtocolIdCodec.decode(&mut b).unwrap().is_none());
    assert_eq!(b.len(), 5);
}''')

bug("c09-uuid-cut", "C09",
    [(DEC, "        decode_check_len!(input, 16);\n        let uuid = Uuid::from_slice(&input[..16])?;", "        let uuid = Uuid::from_slice(&input[..std::cmp::min(16, input.len())])?;")],
    "a UUID cut short",
    "the truncation is reported as a malformed UUID",
    '''fn main() {
    let v = enc(&uuid::Uuid::nil());
    for n in 0..v.len() {
        match uuid::Uuid::decode(&v[..n]) {
            Err(AmqpParseError::Incomplete(_)) => (),
            r => panic!("{:?}", r.map(|x| x.1)),
        }
    }
}''')

bug("c09-text-cut", "C09",
    [(DEC, "    let (input, len) = read_u8(input)?;\n    let len = len as usize;\n    decode_check_len!(input, len);", "    let (input, len) = read_u8(input)?;\n    let len = len as usize;\n    if input.is_empty() && len > 0 {\n        return Err(AmqpParseError::InvalidSize);\n    }\n    decode_check_len!(input, len);")],
    "a short text or binary cut right after its length byte",
    "the truncation is reported as an invalid size",
    '''fn main() {
    match Variant::decode(&[0xa1, 3]) {
        Err(AmqpParseError::Incomplete(_)) => (),
        r => panic!("{:?}", r.map(|x| x.1)),
    }
}''')

bug("c10-fields-swapped", "C10",
    [(DEF, "    list.link_credit.encode(buf);\n    list.available.encode(buf);", "    list.available.encode(buf);\n    list.link_credit.encode(buf);"),
     (DEF, "    let link_credit: Option<u32>;\n    if count > 0 {\n        let decoded = Option::<u32>::decode(input)?;\n        input = decoded.0;\n        link_credit = decoded.1;\n        count -= 1;\n    } else {\n        link_credit = None;\n    }\n    let available: Option<u32>;\n    if count > 0 {\n        let decoded = Option::<u32>::decode(input)?;\n        input = decoded.0;\n        available = decoded.1;\n        count -= 1;\n    } else {\n        available = None;\n    }",
      "    let available: Option<u32>;\n    if count > 0 {\n        let decoded = Option::<u32>::decode(input)?;\n        input = decoded.0;\n        available = decoded.1;\n        count -= 1;\n    } else {\n        available = None;\n    }\n    let link_credit: Option<u32>;\n    if count > 0 {\n        let decoded = Option::<u32>::decode(input)?;\n        input = decoded.0;\n        link_credit = decoded.1;\n        count -= 1;\n    } else {\n        link_credit = None;\n    }")],
    "a flow with link-credit and available both set, read by another implementation",
    "encoder and decoder agree on the wrong field order, so that only round trips still work",
    '''fn main() {
    let f = Flow { next_incoming_id: None, incoming_window: 1, next_outgoing_id: 1, outgoing_window: 1, handle: Some(1), delivery_count: Some(1), link_credit: Some(0x21), available: Some(0x22), drain: false, echo: false, properties: None };
    let b = enc(&f);
    let i = b.iter().position(|x| *x == 0x21).unwrap();
    let j = b.iter().position(|x| *x == 0x22).unwrap();
    assert!(i < j);
}''')

bug("c10-expiry-symbol", "C10",
    [(DEF, '"connection-close" => Ok', '"connection-closed" => Ok'), (DEF, 'StaticSymbol("connection-close")', 'StaticSymbol("connection-closed")'),
     (DEF, "TerminusExpiryPolicy::ConnectionClose => 16 + 2", "TerminusExpiryPolicy::ConnectionClose => 17 + 2")],
    "a terminus with expiry policy connection-close exchanged with another implementation",
    "the symbol on the wire is not the one AMQP defines, consistently in both directions",
    '''fn main() {
    let b = enc(&TerminusExpiryPolicy::ConnectionClose);
    assert_eq!(&b[2..], b"connection-close");
}''')

bug("c10-footer-first", "C10",
    [(OUT, "        // message body\n", "        // annotations of the bare message go together\n        if let Some(ref f) = self.footer {\n            Descriptor::Ulong(120).encode(dst);\n            f.encode(dst);\n        }\n\n        // message body\n"),
     (OUT, "        // message footer, always last item\n        if let Some(ref f) = self.footer {\n            Descriptor::Ulong(120).encode(dst);\n            f.encode(dst);\n        }\n", "")],
    "a message with a footer that is forwarded",
    "the footer is written before the body",
    '''fn main() {
    let w = [0u8, 0x53, 0x75, 0xa0, 1, 9, 0, 0x53, 0x78, 0xc1, 1, 0];
    let m: OutMessage = dec(&w);
    assert_eq!(enc(&m), w.to_vec());
}''')

bug("c11-list0-composite", "C11",
    [(DEC, "        codec::FORMATCODE_LIST0 => Ok((input, CompoundHeader::empty())),\n", "")],
    "a peer that encodes a composite without fields as the empty list (0x45)",
    "such composites are rejected, and so are lists of their own",
    '''fn main() {
    match dec::<Frame>(&[0, 0x53, 0x18, 0x45]) {
        Frame::Close(_) => (),
        f => panic!("{:?}", f),
    }
}''')

bug("c11-symbolic-descriptor", "C11",
    [(DEF, '            Descriptor::Symbol(ref a) if a.as_str() == "amqp:modified:list" => {\n                decode_modified_inner(input).map(|(i, r)| (i, DeliveryState::Modified(r)))', '            Descriptor::Symbol(ref a) if a.as_str() == "amqp:modified:map" => {\n                decode_modified_inner(input).map(|(i, r)| (i, DeliveryState::Modified(r)))')],
    "a delivery state modified with a symbolic descriptor",
    "the symbolic descriptor of modified is not recognised inside a delivery state",
    '''fn main() {
    let mut v = vec![0u8, 0xa3, 18];
    v.extend_from_slice(b"amqp:modified:list");
    v.push(0x45);
    let _: DeliveryState = dec(&v);
}''')

bug("c11-symbol-array8", "C11",
    [(DEC, "            codec::FORMATCODE_ARRAY8 | codec::FORMATCODE_ARRAY32 => {\n                let (input, items)", "            codec::FORMATCODE_ARRAY8 => {\n                let (input, items)")],
    "a multiple field in a four-byte array",
    "wide arrays are refused for multiple fields",
    '''fn main() {
    let v = [0xf0u8, 0, 0, 0, 9, 0, 0, 0, 2, 0xa3, 1, b'a', 1, b'b'];
    let m: Multiple<Symbol> = dec(&v);
    assert_eq!(m.len(), 2);
}''')

bug("c12-omitted-default", "C12",
    [(DEF, "    } else {\n        priority = 4;\n    }", "    } else {\n        priority = 0;\n    }")],
    "a header whose field list ends before priority",
    "an omitted priority becomes 0 while a null one becomes 4",
    '''fn main() {
    let h: Header = dec(&[0, 0x53, 0x70, 0xc0, 2, 1, 0x41]);
    assert_eq!(h.priority, 4);
}''')

bug("c12-null-handle", "C12",
    [(DEF, "fn decode_transfer_inner(input: &[u8]) -> Result<(&[u8], Transfer), AmqpParseError> {\n    let (input, format) = decode_format_code(input)?;\n    let (input, header) = decode_list_header(input, format)?;\n    let size = header.size as usize;\n    decode_check_len!(input, size);\n    let (mut input, mut remainder) = input.split_at(size);\n    let mut count = header.count;\n    let handle: Handle;\n    if count > 0 {\n        let (in1, decoded) = Handle::decode(input)?;\n        handle = decoded;",
      "fn decode_transfer_inner(input: &[u8]) -> Result<(&[u8], Transfer), AmqpParseError> {\n    let (input, format) = decode_format_code(input)?;\n    let (input, header) = decode_list_header(input, format)?;\n    let size = header.size as usize;\n    decode_check_len!(input, size);\n    let (mut input, mut remainder) = input.split_at(size);\n    let mut count = header.count;\n    let handle: Handle;\n    if count > 0 {\n        let (in1, decoded) = Option::<Handle>::decode(input)?;\n        handle = decoded.unwrap_or_default();")],
    "a transfer with a null handle",
    "a mandatory field that is null is taken as 0",
    '''fn main() {
    assert!(Transfer::decode(&[0, 0x53, 0x14, 0xc0, 2, 1, 0x40]).is_err());
}''')

bug("c13-composite-window", "C13",
    [(DEF, "fn decode_error_inner(input: &[u8]) -> Result<(&[u8], Error), AmqpParseError> {\n    let (input, format) = decode_format_code(input)?;\n    let (input, header) = decode_list_header(input, format)?;\n    let size = header.size as usize;\n    decode_check_len!(input, size);\n    let (mut input, mut remainder) = input.split_at(size);\n",
      "fn decode_error_inner(input: &[u8]) -> Result<(&[u8], Error), AmqpParseError> {\n    let (input, format) = decode_format_code(input)?;\n    let (mut input, header) = decode_list_header(input, format)?;\n    let size = header.size as usize;\n    decode_check_len!(input, size);\n    let remainder = &input[size..];\n")],
    "an error composite whose declared size cuts a field short, with bytes following",
    "the fields of an error are read beyond the declared size",
    '''fn main() {
    // size 3: count, then half of the condition
    let v = [0u8, 0x53, 0x1d, 0xc0, 3, 1, 0xa3, 2, b'x', b'y', 0x40, 0x40];
    assert!(amqp_codec::protocol::Error::decode(&v).is_err());
}''')

bug("c14-static-hash", "C14",
    [(TY, "Str::Static(s) => s.hash(state),", "Str::Static(s) => s.as_bytes().hash(state),")],
    "a map lookup with a static text where the key came from the wire, or the reverse",
    "static and received text of equal content hash differently",
    '''fn main() {
    let mut m = Fields::new();
    m.insert(Symbol::from_slice("key"), Variant::Uint(1));
    assert!(m.get(&Symbol::from("key")).is_some());
}''')

bug("c15-reserve-small", "C15",
    [(IO, "        let need = std::cmp::max(SIZE_LOW_WM, size);\n        if dst.remaining_mut() < need {\n            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));\n        }", "        let need = std::cmp::max(SIZE_HIGH_WM, size);\n        if dst.remaining_mut() < SIZE_LOW_WM {\n            dst.reserve(need);\n        }")],
    "a frame over 4 KiB encoded into a buffer that has at least 4 KiB but not enough room left",
    "no room is made and encoding panics",
    TRANSFER + '''fn main() {
    let f = AmqpFrame::new(1, Frame::Transfer(transfer(false, false, Some(Bytes::from(vec![1u8; 9000]).into()))));
    let mut b = BytesMut::with_capacity(5000);
    AmqpCodec::<AmqpFrame>::new().encode(f, &mut b).unwrap();
}''')

bug("c15-protocol-reserve", "C15",
    [(IO, "        dst.reserve(PROTOCOL_HEADER_LEN);", "        if dst.is_empty() {\n            dst.reserve(PROTOCOL_HEADER_LEN);\n        }")],
    "a protocol header appended to a buffer that already holds something and is full",
    "no room is made and encoding panics",
    '''fn main() {
    let mut b = BytesMut::with_capacity(64);
    for _ in 0..20 {
        ProtocolIdCodec.encode(ProtocolId::Amqp, &mut b).unwrap();
    }
    assert_eq!(b.len(), 160);
}''')

bug("c16-reply-correlation", "C16",
    [(OUT, "msg.set_properties(|props| props.correlation_id = data.message_id.clone())", "msg.set_properties(|props| {\n                props.correlation_id = data\n                    .message_id\n                    .clone()\n                    .or_else(|| data.correlation_id.clone())\n            })")],
    "a reply to a message that has a correlation id but no message id",
    "the reply carries the original's correlation id",
    '''fn main() {
    let m = OutMessage::default().set_properties(|p| p.correlation_id = Some(5u64.into()));
    let r = m.reply_message();
    assert!(r.properties().map_or(true, |p| p.correlation_id.is_none()));
}''')

bug("c16-set-data-keeps", "C16",
    [(BODY, "        self.data.clear();\n        self.data.push(data);", "        if self.data.is_empty() {\n            self.data.push(data);\n        } else {\n            self.data[0] = data;\n        }")],
    "setting the data of a body that has several data sections",
    "the other sections stay",
    '''fn main() {
    let m = OutMessage::with_body(Bytes::from_static(b"1")).set_body(|b| b.data.push(Bytes::from_static(b"2"))).set_body(|b| b.set_data(Bytes::from_static(b"3")));
    let r: InMessage = dec(&enc(&m));
    assert_eq!(r.body().data, vec![Bytes::from_static(b"3")]);
}''')

bug("c16-first-value-wins", "C16",
    [(IN, "            props.insert(key.into(), value.into());\n        } else {", "            props.entry(key.into()).or_insert_with(|| value.into());\n        } else {")],
    "an application property set twice",
    "the first value stays instead of the latest",
    '''fn main() {
    let m = InMessage::default().set_app_property("k", 1u32).set_app_property("k", 2u32);
    assert_eq!(m.app_property("k"), Some(&Variant::Uint(2)));
}''')

bug("c17-encode-sets-size", "C17",
    [(OUT, "            Descriptor::Ulong(120).encode(dst);\n            f.encode(dst);\n        }\n    }", "            Descriptor::Ulong(120).encode(dst);\n            f.encode(dst);\n        }\n        // remember the size for later\n        self.size.set(dst.len());\n    }")],
    "a message encoded twice, the first time into a buffer that already holds something, as the payload of frames",
    "encoding changes the size the message announces afterwards, so the next frame around it is malformed",
    '''fn main() {
    let m = OutMessage::with_body(Bytes::from_static(b"x"));
    let mut b = BytesMut::with_capacity(100);
    b.put_slice(b"12345678");
    m.encode(&mut b);
    assert_eq!(m.encoded_size(), enc(&m).len());
    let mut b = BytesMut::with_capacity(100);
    b.put_slice(b"12345678");
    m.encode(&mut b);
    assert_eq!(m.encoded_size(), b.len() - 8);
}''')

bug("c05-static-text-chars", "C05",
    [(TY, "Str::Static(s) => s.len(),", "Str::Static(s) => s.chars().count(),")],
    "a static text that is not ASCII, as application property key or value",
    "the announced size counts characters instead of bytes",
    '''fn main() {
    let v = Variant::from("\\u{e4}");
    assert_eq!(v.encoded_size(), enc(&v).len());
}''')

bug("c18-descriptor-low-byte", "C18",
    [(DEF, "Descriptor::Ulong(val) => val == 65,", "Descriptor::Ulong(val) => val & 0xff == 65,")],
    "a value described by a code whose low byte is that of sasl-init",
    "a foreign descriptor is accepted as sasl-init",
    '''fn main() {
    assert!(SaslInit::decode(&[0, 0x80, 0, 0, 0, 1, 0, 0, 0, 65, 0xc0, 4, 1, 0xa3, 1, b'A']).is_err());
}''')

bug("c18-string-as-symbol", "C18",
    [(DEC, "            codec::FORMATCODE_SYMBOL32 => {\n                let (input, bytes) = read_bytes_u32(input)?;\n                Ok((input, Symbol::from_slice", "            codec::FORMATCODE_SYMBOL32 | codec::FORMATCODE_STRING32 => {\n                let (input, bytes) = read_bytes_u32(input)?;\n                Ok((input, Symbol::from_slice")],
    "a wide string where a symbol is expected",
    "strings are coerced to symbols",
    '''fn main() {
    assert!(Symbol::decode(&[0xb1, 0, 0, 0, 1, b'a']).is_err());
}''')

bug("c18-doff-zero", "C18",
    [(DEC, "    if doff < HEADER_LEN {\n        return Err(AmqpParseError::InvalidSize);\n    }\n    let ext_header_len = doff - HEADER_LEN;", "    if doff > 0 && doff < HEADER_LEN {\n        return Err(AmqpParseError::InvalidSize);\n    }\n    let ext_header_len = doff.saturating_sub(HEADER_LEN);")],
    "a frame with data offset 0",
    "the malformed data offset is accepted",
    '''fn main() {
    assert!(AmqpFrame::decode(&[0, 0, 0, 0]).is_err());
}''')

bug("c19-seconds-32", "C19",
    [(ENC, "let timestamp = self.timestamp() * 1000 +", "let timestamp = i64::from(self.timestamp() as i32) * 1000 +")],
    "an instant after January 2038 or before December 1901",
    "seconds are cut to 32 bits",
    '''fn main() {
    use chrono::{TimeZone, Utc};
    let t = Utc.ymd(2100, 1, 1).and_hms_milli(0, 0, 0, 7);
    assert_eq!(dec::<chrono::DateTime<Utc>>(&enc(&t)), t);
}''')

bug("c20-silent-end", "C20",
    [(IO, "impl<T: Decode + Encode + ::std::fmt::Debug> Encoder for AmqpCodec<T> {", "impl<T: Decode + Encode + ::std::fmt::Debug> Encoder for AmqpCodec<T> {"),
     (IO, "                    return Ok(Some(frame));\n                }\n            }\n        }\n    }\n}", "                    return Ok(Some(frame));\n                }\n            }\n        }\n    }\n\n    fn decode_eof(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {\n        let item = self.decode(src)?;\n        if item.is_none() {\n            // nothing more will come\n            src.clear();\n        }\n        Ok(item)\n    }\n}")],
    "a connection that ends inside a frame",
    "the truncated frame goes unnoticed: the stream just ends",
    '''fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::from(&frame(1, &[0, 0x53, 0x17, 0x45])[..10]);
    assert!(c.decode_eof(&mut b).is_err());
}''')

bug("c21-flow-accessor", "C21",
    [(DEF, "    pub fn incoming_window(&self) -> u32 {\n        self.incoming_window\n    }\n    pub fn next_outgoing_id(&self) -> TransferNumber {\n        self.next_outgoing_id\n    }\n    pub fn outgoing_window(&self) -> u32 {\n        self.outgoing_window\n    }\n    pub fn handle(&self)", "    pub fn incoming_window(&self) -> u32 {\n        self.incoming_window\n    }\n    pub fn next_outgoing_id(&self) -> TransferNumber {\n        self.next_outgoing_id\n    }\n    pub fn outgoing_window(&self) -> u32 {\n        self.incoming_window\n    }\n    pub fn handle(&self)")],
    "a flow whose two windows differ",
    "outgoing_window() returns the incoming window",
    '''fn main() {
    let f = Flow { next_incoming_id: None, incoming_window: 1, next_outgoing_id: 1, outgoing_window: 2, handle: None, delivery_count: None, link_credit: None, available: None, drain: false, echo: false, properties: None };
    assert_eq!(f.outgoing_window(), 2);
}''')

bug("c21-plain-empty-authz", "C21",
    [(PM, 'Bytes::from(format!("{}\\x00{}\\x00{}", authz_id, authn_id, password))', 'if authz_id.is_empty() || authz_id == authn_id {\n            // no separate authorization identity\n            Bytes::from(format!("\\x00{}\\x00{}", authn_id, password))\n        } else {\n            Bytes::from(format!("{}\\x00{}\\x00{}", authz_id, authn_id, password))\n        }')],
    "a SASL PLAIN response whose authorization id equals the authentication id",
    "the authorization id is left out",
    '''fn main() {
    assert_eq!(SaslInit::prepare_response("u", "u", "p"), Bytes::from_static(b"u\\0u\\0p"));
}''')

# ---------------------------------------------------------------- C22
GEN = "codegen/mod.rs"; TPL = "codegen/definitions.rs"; SPEC = "codegen/specification.json"

bug("c22-default-drift", "C22",
    [(SPEC, '"name": "incomplete-unsettled",\n        "type": "boolean",\n        "default": "false"', '"name": "incomplete-unsettled",\n        "type": "boolean",\n        "default": "true"')],
    "definitions regenerated from the specification, and an attach that leaves incomplete-unsettled out",
    "the specification file's default differs from the checked-in definitions",
    """fn main() {
    // attach: name, handle, role
    let a: Attach = dec(&[0, 0x53, 18, 0xc0, 6, 3, 0xa1, 1, b'l', 0x43, 0x42]);
    assert!(!a.incomplete_unsettled());
}""", gen=True)

bug("c22-template-count", "C22",
    [(TPL, "(if content_size + 1 > u8::MAX as usize { 12 } else { 6 })", "(if content_size > u8::MAX as usize { 12 } else { 6 })")],
    "definitions regenerated from the template, and a composite whose fields take exactly 255 bytes",
    "the regenerated definitions announce a size that is six bytes short",
    """fn main() {
    for n in 230..270 {
        let c = SaslChallenge { challenge: Bytes::from(vec![1u8; n]) };
        assert_eq!(c.encoded_size(), enc(&c).len());
    }
}""", gen=True)

bug("c22-optional-default", "C22",
    [(GEN, "optional: !field.mandatory && default.len() == 0,", "optional: !field.mandatory && (default.len() == 0 || field.ty == \"seconds\"),")],
    "definitions regenerated by the generator",
    "fields of one type with a default become optional: code that uses the checked-in definitions no longer compiles",
    """fn main() {
    let t: Target = dec(&[0, 0x53, 0x29, 0x45]);
    assert_eq!(format!("{:?}", t.timeout()), "0");
}""", gen=True)

bug("c22-hand-edit", "C22",
    [(DEF, '"amqp:link:stolen" => Ok(LinkError::Stolen),', '"amqp:link:stolen" => Ok(LinkError::Stolen),\n            "amqp:link:taken" => Ok(LinkError::Stolen),')],
    "definitions regenerated from the specification, which does not know the error condition",
    "the checked-in definitions understand a symbol that is lost when they are regenerated",
    """fn main() {
    // whatever the library makes of it must not depend on when the definitions were generated
    let mut v = vec![0xa3, 15];
    v.extend_from_slice(b"amqp:link:taken");
    assert!(LinkError::decode(&v).is_err(), "checked in");
}""")

import seedlist2  # noqa
import seedlist3  # noqa
import seedlist4  # noqa
import seedlist5  # noqa
import seedlist6  # noqa
import seedlist7  # noqa
import seedlist8  # noqa
