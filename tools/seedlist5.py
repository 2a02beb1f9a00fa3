"""Fifth batch of planted bugs."""
from seedlist import bug, DEC, ENC, IO, DEF, PM, IN, OUT, BODY, TY, SYM, VAR, FR, CM, TRANSFER

bug("c03-aborted-resumed", "C03",
    [(DEF, "        + list.body.as_ref().map(|b| b.len()).unwrap_or(0)\n}", "        + payload_of(list).map(|b| b.len()).unwrap_or(0)\n}\n/// what was sent before an interruption and is given up now is not repeated\nfn payload_of(list: &Transfer) -> Option<&TransferBody> {\n    if list.aborted && list.resume && list.settled == Some(true) {\n        None\n    } else {\n        list.body.as_ref()\n    }\n}"),
     (DEF, "    if let Some(ref body) = list.body {\n        body.encode(buf)", "    if let Some(body) = payload_of(list) {\n        body.encode(buf)")],
    "a transfer that is aborted, resumed and settled at once and has a payload",
    "its payload is not sent",
    TRANSFER + '''fn main() {
    for k in 0..8 {
        let mut t = transfer(k & 1 == 1, false, Some(TransferBody::Data(Bytes::from_static(b"xyz"))));
        t.resume = k & 2 == 2;
        t.settled = Some(k & 4 == 4);
        let f = AmqpFrame::new(1, Frame::Transfer(t));
        assert_eq!(dec::<AmqpFrame>(&enc(&f)[4..]), f);
    }
}''')

bug("c11-long-ext-header", "C11",
    [(DEC, "    let ext_header_len = doff - HEADER_LEN;", "    let ext_header_len = doff - HEADER_LEN;\n    if ext_header_len > 512 {\n        return Err(AmqpParseError::InvalidSize);\n    }")],
    "a frame with an extended header of more than 512 bytes",
    "it is refused",
    '''fn main() {
    for d in 2..=255u8 {
        let mut v = vec![d, 0, 0, 5];
        v.extend(vec![0; 4 * d as usize - 8]);
        let f: AmqpFrame = dec(&v);
        assert_eq!(f, AmqpFrame::new(5, Frame::Empty));
    }
}''')

bug("c02-symbol-nul", "C02",
    [(DEC, "                let (input, bytes) = read_bytes_u8(input)?;\n                Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))", "                let (input, bytes) = read_bytes_u8(input)?;\n                // some peers count the terminator of their C strings\n                let text = str::from_utf8(bytes)?;\n                Ok((input, Symbol::from_slice(text.trim_end_matches('\\0'))))")],
    "a symbol of up to 255 bytes that ends in a NUL",
    "the NUL is lost",
    '''fn main() {
    for t in &["a", "", "a\\0", "\\0", "\\0a"] {
        let s = Symbol::from(*t);
        assert_eq!(dec::<Symbol>(&enc(&s)), s);
    }
}''')

bug("c16-null-props-shed", "C16",
    [(IN, "        if let Some(ref mut props) = self.application_properties {\n            props.insert(key.into(), value.into());", "        if let Some(ref mut props) = self.application_properties {\n            if props.len() == props.capacity() {\n                // before growing, let go of what says nothing\n                props.retain(|_, v| *v != Variant::Null);\n            }\n            props.insert(key.into(), value.into());")],
    "an incoming message with a null application property that is given another property when the map is full",
    "the null property is lost",
    '''fn main() {
    let keys = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"];
    let mut m = InMessage::default().set_app_property("null", Variant::Null);
    for k in &keys {
        m = m.set_app_property(*k, 1u32);
        assert_eq!(m.app_property("null"), Some(&Variant::Null), "after {}", k);
    }
}''')

bug("c06-grown-buffer", "C06",
    [(IO, "                            src.reserve(SIZE_HIGH_WM);", "                            let mut bigger = BytesMut::with_capacity(src.len() + SIZE_HIGH_WM);\n                            let seen = std::cmp::min(src.len(), SIZE_LOW_WM);\n                            bigger.extend_from_slice(&src[..seen]);\n                            *src = bigger;")],
    "a frame of which more than 4 KiB, but not all, have arrived when its header is read, in a buffer that is too small for it",
    "what lies beyond the first 4 KiB is lost",
    '''fn main() {
    let mut body = vec![0x00, 0x53, 0x14, 0xc0, 2, 1, 0x43];
    body.extend((0..20000u32).map(|i| i as u8));
    let all = frame(1, &body);
    for cut in &[10usize, 4000, 4200, 9000, 20006] {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::from(&all[..*cut]);
        assert!(c.decode(&mut b).unwrap().is_none());
        b.extend_from_slice(&all[*cut..]);
        let f = c.decode(&mut b).unwrap().expect("no frame");
        match f.performative() {
            Frame::Transfer(t) => assert_eq!(t.body(), Some(&TransferBody::Data(Bytes::from(&body[7..])))),
            _ => panic!(),
        }
    }
}''')

bug("c18-empty-list-null", "C18",
    [(DEC, "            codec::FORMATCODE_NULL => Ok((input, None)),", "            codec::FORMATCODE_NULL | codec::FORMATCODE_LIST0 => Ok((input, None)),")],
    "an empty list where an optional field of another type is expected",
    "it is taken for null",
    '''fn main() {
    // begin with an empty list for remote-channel
    let v = [0x00, 0x53, 0x11, 0xc0, 5, 4, 0x45, 0x43, 0x43, 0x43];
    assert!(Frame::decode(&v).is_err());
}''')

bug("c11-empty-array-ctor", "C11",
    [(DEC, "            codec::FORMATCODE_ARRAY8 | codec::FORMATCODE_ARRAY32 => {\n                let (input, items)", "            // nothing in it, and nothing to say what it would be\n            codec::FORMATCODE_ARRAY8 if input.len() > 1 && input[1] == 0 => {\n                Ok((&input[2..], Multiple(Vec::new())))\n            }\n            codec::FORMATCODE_ARRAY8 | codec::FORMATCODE_ARRAY32 => {\n                let (input, items)")],
    "an empty array with a constructor, in the short form, before another field",
    "the constructor is read as the next field",
    '''fn main() {
    let v = [0xe0, 2, 0, 0xa3, 0x41];
    let (rest, m) = Multiple::<Symbol>::decode(&v).unwrap();
    assert!(m.is_empty());
    assert_eq!(rest, &[0x41]);
}''')

bug("c04-equal-neighbours", "C04",
    [(BODY, "        size += self.messages.iter().fold(0, |a, m| {\n            let length", "        size += distinct(&self.messages).fold(0, |a, m| {\n            let length"),
     (BODY, "        self.messages.iter().for_each(|m| {\n            Descriptor::Ulong(117)", "        distinct(&self.messages).for_each(|m| {\n            Descriptor::Ulong(117)"),
     (BODY, "impl Encode for MessageBody {", "/// a message handed over twice in a row is sent once\nfn distinct<'a>(messages: &'a [TransferBody]) -> impl Iterator<Item = &'a TransferBody> {\n    messages.iter().enumerate().filter(move |(i, m)| *i == 0 || messages[*i - 1] != **m).map(|(_, m)| m)\n}\n\nimpl Encode for MessageBody {")],
    "two equal messages next to each other in a body",
    "the second is not sent",
    '''fn main() {
    let m = OutMessage::with_messages(vec![
        OutMessage::with_body(Bytes::from_static(b"a")).into(),
        TransferBody::Data(Bytes::from_static(b"b")),
        TransferBody::Data(Bytes::from_static(b"b")),
    ]);
    let back: OutMessage = dec(&enc(&m));
    assert_eq!(back.body().data.len(), 3);
}''')

bug("c01-described-twice", "C01",
    [(DEC, "                let (input, value) = Variant::decode(input)?;\n                Ok((input, Variant::Described((descriptor, Box::new(value)))))", "                // skip over it first: nothing is kept of a value that is cut short\n                let (_, _) = Variant::decode(input)?;\n                let (input, value) = Variant::decode(input)?;\n                Ok((input, Variant::Described((descriptor, Box::new(value)))))")],
    "described values inside described values, some thirty deep",
    "decoding takes twice as long with every level",
    '''fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut v = vec![];
        for _ in 0..60 {
            v.extend_from_slice(&[0x00, 0x44]);
        }
        v.push(0x40);
        let _ = Variant::decode(&v).unwrap();
        tx.send(()).unwrap();
    });
    if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() {
        eprintln!("still decoding");
        std::process::exit(1);
    }
}''')

bug("c11-sasl-channel-bytes", "C11",
    [(DEC, "        let (input, _) = decode_frame_header(input, framing::FRAME_TYPE_SASL)?;", "        let (input, type_specific) = decode_frame_header(input, framing::FRAME_TYPE_SASL)?;\n        if type_specific > 0xff {\n            return Err(AmqpParseError::InvalidSize);\n        }")],
    "a SASL frame whose two bytes that mean nothing are not zero",
    "it is refused though the specification says that they are ignored",
    '''fn main() {
    for c in &[0u16, 1, 255, 256, 0xffff] {
        let mut v = vec![2, 1];
        v.extend_from_slice(&c.to_be_bytes());
        v.extend_from_slice(&[0x00, 0x53, 0x44, 0xc0, 3, 1, 0x50, 0]);
        let f: SaslFrame = dec(&v);
        assert_eq!(f, SaslFrame::from(SaslOutcome { code: SaslCode::Ok, additional_data: None }));
    }
}''')

bug("c04-data-among-messages", "C04",
    [(OUT, "        msg.body.messages = messages;", "        // plain data needs no wrapping\n        let plain = messages.iter().take_while(|m| matches_data(m)).count();\n        let mut messages = messages;\n        if plain < messages.len() && messages[plain..].iter().any(matches_data) {\n            messages.sort_by_key(|m| !matches_data(m));\n        }\n        msg.body.messages = messages;"),
     (OUT, "impl OutMessage {\n    /// Create new", "fn matches_data(m: &TransferBody) -> bool {\n    match m {\n        TransferBody::Data(_) => true,\n        _ => false,\n    }\n}\n\nimpl OutMessage {\n    /// Create new")],
    "an outgoing message made of messages and data where data follows a message",
    "the parts are sent in another order",
    '''fn main() {
    let m = OutMessage::with_messages(vec![
        OutMessage::with_body(Bytes::from_static(b"a")).into(),
        TransferBody::Data(Bytes::from_static(b"b")),
    ]);
    let back: OutMessage = dec(&enc(&m));
    assert_eq!(back.body().data[1], Bytes::from_static(b"b"));
}''')

bug("c21-more-aborted", "C21",
    [(DEF, "    pub fn more(&self) -> bool {\n        self.more\n", "    pub fn more(&self) -> bool {\n        self.more && !(self.aborted && self.settled == Some(true))\n")],
    "a transfer that is aborted, settled and says that more follows",
    "its accessor denies that more follows",
    TRANSFER + '''fn main() {
    let mut t = transfer(true, true, None);
    t.settled = Some(true);
    assert!(t.more());
}''')

bug("c03-same-capabilities", "C03",
    [(DEF, "            initial_delivery_count,\n            max_message_size,\n            offered_capabilities,\n            desired_capabilities,", "            initial_delivery_count,\n            max_message_size,\n            // what is both desired and offered goes without saying\n            desired_capabilities: if desired_capabilities == offered_capabilities {\n                None\n            } else {\n                desired_capabilities\n            },\n            offered_capabilities,")],
    "an attach that desires the capabilities that it offers",
    "the desired capabilities are lost",
    '''fn main() {
    let caps = Some(Multiple(vec![Symbol::from("x"), Symbol::from("y")]));
    let a = Attach {
        name: ByteStr::from_str("n"), handle: 1, role: Role::Sender, snd_settle_mode: SenderSettleMode::Mixed,
        rcv_settle_mode: ReceiverSettleMode::First, source: None, target: None, unsettled: None, incomplete_unsettled: false,
        initial_delivery_count: None, max_message_size: None, offered_capabilities: caps.clone(), desired_capabilities: caps,
        properties: None,
    };
    let f = AmqpFrame::new(1, Frame::Attach(a));
    assert_eq!(dec::<AmqpFrame>(&enc(&f)[4..]), f);
}''')

bug("c03-host-is-container", "C03",
    [(DEF, "            container_id,\n            hostname,", "            hostname: hostname.filter(|h| *h != container_id),\n            container_id,")],
    "an open whose host name is its container id",
    "the host name is lost",
    '''fn main() {
    let o = Open {
        container_id: ByteStr::from_str("a.example"), hostname: Some(ByteStr::from_str("a.example")), max_frame_size: 1, channel_max: 2,
        idle_time_out: None, outgoing_locales: None, incoming_locales: None, offered_capabilities: None, desired_capabilities: None,
        properties: None,
    };
    let f = AmqpFrame::new(1, Frame::Open(o));
    assert_eq!(dec::<AmqpFrame>(&enc(&f)[4..]), f);
}''')

bug("c14-same-pointer", "C14",
    [(TY, "            Str::Static(s) => *s == other,", "            Str::Static(s) => s.as_ptr() == other.as_ptr() || *s == other,")],
    "a static text compared with the beginning of itself",
    "they are equal though one is longer",
    '''fn main() {
    let t: &'static str = "abcdef";
    let s = Str::from(t);
    assert!(s == *t);
    assert!(!(s == t[..3]));
    assert!(!(Symbol::from(t) == t[..0]));
}''')

bug("c21-password-line", "C21",
    [(PM, "authz_id, authn_id, password))", "authz_id, authn_id, password.trim_end_matches(&['\\r', '\\n'][..])))")],
    "a password that ends in a line break",
    "the line break is not sent",
    '''fn main() {
    assert_eq!(SaslInit::prepare_response("a", "b", "c\\n"), Bytes::from_static(b"a\\0b\\0c\\n"));
}''')

bug("c23-last-annotations", "C23",
    [(IN, "                Section::MessageAnnotations(val) => {\n                    message.message_annotations = Some(val);", "                Section::MessageAnnotations(val) => {\n                    thread_local!(static LAST: std::cell::RefCell<Annotations> = Default::default());\n                    // messages of one link carry the same annotations: share those keys that are known already\n                    let val = LAST.with(|l| {\n                        let mut l = l.borrow_mut();\n                        if l.len() == val.len() && l.keys().all(|k| val.contains_key(k)) {\n                            return l.clone();\n                        }\n                        *l = val.clone();\n                        val\n                    });\n                    message.message_annotations = Some(val);")],
    "two messages in a row whose message annotations have the same keys and other values",
    "the second gets the annotations of the first",
    '''fn main() {
    let wire = |v: u8| vec![0x00, 0x53, 0x72, 0xc1, 6, 2, 0xa3, 1, b'x', 0x52, v, 0x00, 0x53, 0x77, 0x40];
    for v in 1..4 {
        let m: InMessage = dec(&wire(v));
        assert_eq!(enc(&m), wire(v));
    }
}''')

bug("c20-sasl-frame-wait", "C20",
    [(IO, "        let size = item.encoded_size();\n        let need", "        let size = item.encoded_size();\n        if dst.len() > 0 && dst.len() + size > 2 * SIZE_HIGH_WM {\n            // make room first: everything before it has been written once the sink asks again\n            dst.truncate(2 * SIZE_HIGH_WM - std::cmp::min(size, 2 * SIZE_HIGH_WM));\n        }\n        let need")],
    "frames of more than 64 KiB in all that wait to be written",
    "the end of the frame that waits is cut off",
    TRANSFER + '''fn main() {
    let f = AmqpFrame::new(1, Frame::Transfer(transfer(false, false, Some(TransferBody::Data(Bytes::from(vec![7; 40000]))))));
    let mut c = AmqpCodec::new();
    let mut b = BytesMut::new();
    c.encode(f.clone(), &mut b).unwrap();
    c.encode(f.clone(), &mut b).unwrap();
    let mut d = AmqpCodec::<AmqpFrame>::new();
    assert_eq!(d.decode(&mut b).unwrap(), Some(f.clone()));
    assert_eq!(d.decode(&mut b).unwrap(), Some(f));
}''')
