//! Conversions between library values and the reference model, in both directions.
use crate::rv::{RV, RV::*};
use crate::spec;
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::types::{ByteStr, Descriptor, Multiple, StaticSymbol, Str, Symbol, Variant, VariantMap, VecVariantMap};
use bytes::Bytes;
use chrono::{DateTime, TimeZone, Utc};
use hashbrown::HashMap;
use ordered_float::OrderedFloat;
use std::hash::{BuildHasher, Hash};

pub trait ToRv {
    fn rv(&self) -> RV;
}
/// Build a library value. A model value of the wrong type is an error of the harness.
pub trait FromRv: Sized {
    fn from_rv(r: &RV) -> Self;
}

macro_rules! prim {
    ($($t:ty, $v:ident, $x:ident => $to:expr, $y:ident => $from:expr;)*) => {$(
        impl ToRv for $t { fn rv(&self) -> RV { let $x = self; $v($to) } }
        impl FromRv for $t { fn from_rv(r: &RV) -> Self { match r { $v($y) => $from, x => panic!("harness: {:?} is not {}", x, stringify!($t)) } } }
    )*};
}
prim! {
    bool, Bool, x => *x, y => *y;
    u8, Ubyte, x => *x, y => *y;
    u16, Ushort, x => *x, y => *y;
    u32, Uint, x => *x, y => *y;
    u64, Ulong, x => *x, y => *y;
    i8, Byte, x => *x, y => *y;
    i16, Short, x => *x, y => *y;
    i32, Int, x => *x, y => *y;
    i64, Long, x => *x, y => *y;
    f32, Float, x => x.to_bits(), y => f32::from_bits(*y);
    f64, Double, x => x.to_bits(), y => f64::from_bits(*y);
    char, Char, x => *x as u32, y => char::from_u32(*y).expect("harness: char");
    DateTime<Utc>, Ts, x => x.timestamp_millis(), y => ts(*y);
    uuid::Uuid, Uuid, x => *x.as_bytes(), y => uuid::Uuid::from_bytes(*y);
    Bytes, Bin, x => x.to_vec(), y => Bytes::from(y.clone());
    ByteStr, Str, x => { let s: &str = x; s.to_string() }, y => bstr(y);
    Str, Str, x => x.as_str().to_string(), y => t::Str::ByteStr(bstr(y));
    Symbol, Sym, x => x.as_str().to_string(), y => Symbol(t::Str::ByteStr(bstr(y)));
}

pub fn bstr(s: &str) -> ByteStr {
    <ByteStr as string::TryFrom<Bytes>>::try_from(Bytes::from(s.as_bytes().to_vec())).expect("harness: utf8")
}
pub fn ts(ms: i64) -> DateTime<Utc> {
    Utc.timestamp_millis_opt(ms).single().expect("harness: timestamp")
}

impl ToRv for str {
    fn rv(&self) -> RV {
        RV::Str(self.to_string())
    }
}
impl ToRv for StaticSymbol {
    fn rv(&self) -> RV {
        Sym(self.0.to_string())
    }
}
impl<T: ToRv> ToRv for Option<T> {
    fn rv(&self) -> RV {
        self.as_ref().map_or(Null, |x| x.rv())
    }
}
impl<T: FromRv> FromRv for Option<T> {
    fn from_rv(r: &RV) -> Self {
        match r {
            Null => None,
            x => Some(T::from_rv(x)),
        }
    }
}
impl<T: ToRv> ToRv for Vec<T> {
    fn rv(&self) -> RV {
        Array(self.iter().map(|x| x.rv()).collect())
    }
}
impl<T: FromRv> FromRv for Vec<T> {
    fn from_rv(r: &RV) -> Self {
        match r {
            Array(v) => v.iter().map(|x| T::from_rv(x)).collect(),
            x => panic!("harness: {:?} is not an array", x),
        }
    }
}
impl<T: ToRv> ToRv for Multiple<T> {
    fn rv(&self) -> RV {
        self.0.rv()
    }
}
impl<T: FromRv> FromRv for Multiple<T> {
    fn from_rv(r: &RV) -> Self {
        Multiple(FromRv::from_rv(r))
    }
}
impl ToRv for t::List {
    fn rv(&self) -> RV {
        RV::List(self.0.iter().map(|x| x.rv()).collect())
    }
}
impl FromRv for t::List {
    fn from_rv(r: &RV) -> Self {
        match r {
            RV::List(v) => t::List(v.iter().map(|x| Variant::from_rv(x)).collect()),
            x => panic!("harness: {:?} is not a list", x),
        }
    }
}
impl<K: ToRv + Eq + Hash, V: ToRv, S: BuildHasher> ToRv for HashMap<K, V, S> {
    fn rv(&self) -> RV {
        let mut v: Vec<_> = self.iter().map(|(k, v)| (k.rv(), v.rv())).collect();
        v.sort();
        Map(v)
    }
}
impl<K: FromRv + Eq + Hash, V: FromRv, S: BuildHasher + Default> FromRv for HashMap<K, V, S> {
    fn from_rv(r: &RV) -> Self {
        match r {
            Map(v) => v.iter().map(|(k, v)| (K::from_rv(k), V::from_rv(v))).collect(),
            x => panic!("harness: {:?} is not a map", x),
        }
    }
}
impl ToRv for VariantMap {
    fn rv(&self) -> RV {
        self.map.rv()
    }
}
impl ToRv for VecVariantMap {
    fn rv(&self) -> RV {
        Map(self.0.iter().map(|(k, v)| (k.rv(), v.rv())).collect())
    }
}
impl FromRv for VecVariantMap {
    fn from_rv(r: &RV) -> Self {
        match r {
            Map(v) => VecVariantMap(
                v.iter()
                    .map(|(k, v)| (t::Str::from_rv(k), Variant::from_rv(v)))
                    .collect(),
            ),
            x => panic!("harness: {:?} is not a map", x),
        }
    }
}
impl ToRv for Descriptor {
    fn rv(&self) -> RV {
        match self {
            Descriptor::Ulong(x) => Ulong(*x),
            Descriptor::Symbol(s) => s.rv(),
        }
    }
}
impl FromRv for Descriptor {
    fn from_rv(r: &RV) -> Self {
        match r {
            Ulong(x) => Descriptor::Ulong(*x),
            x => Descriptor::Symbol(Symbol::from_rv(x)),
        }
    }
}
impl ToRv for Variant {
    fn rv(&self) -> RV {
        match self {
            Variant::Null => Null,
            Variant::Boolean(x) => x.rv(),
            Variant::Ubyte(x) => x.rv(),
            Variant::Ushort(x) => x.rv(),
            Variant::Uint(x) => x.rv(),
            Variant::Ulong(x) => x.rv(),
            Variant::Byte(x) => x.rv(),
            Variant::Short(x) => x.rv(),
            Variant::Int(x) => x.rv(),
            Variant::Long(x) => x.rv(),
            Variant::Float(x) => x.0.rv(),
            Variant::Double(x) => x.0.rv(),
            Variant::Char(x) => x.rv(),
            Variant::Timestamp(x) => x.rv(),
            Variant::Uuid(x) => x.rv(),
            Variant::Binary(x) => x.rv(),
            Variant::String(x) => x.rv(),
            Variant::Symbol(x) => x.rv(),
            Variant::StaticSymbol(x) => x.rv(),
            Variant::List(x) => x.rv(),
            Variant::Map(x) => x.rv(),
            Variant::Described((d, v)) => Desc(Box::new(d.rv()), Box::new(v.rv())),
        }
    }
}
impl FromRv for Variant {
    fn from_rv(r: &RV) -> Self {
        match r {
            Null => Variant::Null,
            Bool(x) => Variant::Boolean(*x),
            Ubyte(x) => Variant::Ubyte(*x),
            Ushort(x) => Variant::Ushort(*x),
            Uint(x) => Variant::Uint(*x),
            Ulong(x) => Variant::Ulong(*x),
            Byte(x) => Variant::Byte(*x),
            Short(x) => Variant::Short(*x),
            Int(x) => Variant::Int(*x),
            Long(x) => Variant::Long(*x),
            Float(x) => Variant::Float(OrderedFloat(f32::from_bits(*x))),
            Double(x) => Variant::Double(OrderedFloat(f64::from_bits(*x))),
            Char(_) => Variant::Char(FromRv::from_rv(r)),
            Ts(_) => Variant::Timestamp(FromRv::from_rv(r)),
            RV::Uuid(_) => Variant::Uuid(FromRv::from_rv(r)),
            Bin(_) => Variant::Binary(FromRv::from_rv(r)),
            RV::Str(_) => Variant::String(FromRv::from_rv(r)),
            Sym(_) => Variant::Symbol(FromRv::from_rv(r)),
            RV::List(_) => Variant::List(FromRv::from_rv(r)),
            Map(_) => Variant::Map(VariantMap::new(FromRv::from_rv(r))),
            Desc(d, v) => {
                Variant::Described((Descriptor::from_rv(d), Box::new(Variant::from_rv(v))))
            }
            Array(_) => panic!("harness: polymorphic arrays are not supported by the library"),
        }
    }
}

macro_rules! enums {
    ($($t:ty, $v:ident { $($n:ident = $x:expr),* };)*) => {$(
        impl ToRv for $t { fn rv(&self) -> RV { match self { $(<$t>::$n => $v($x.into())),* } } }
        impl FromRv for $t { fn from_rv(r: &RV) -> Self {
            $( if *r == $v($x.into()) { return <$t>::$n; } )*
            panic!("harness: {:?} is not {}", r, stringify!($t)) } }
    )*};
}
enums! {
    p::Role, Bool { Sender = false, Receiver = true };
    p::SenderSettleMode, Ubyte { Unsettled = 0u8, Settled = 1u8, Mixed = 2u8 };
    p::ReceiverSettleMode, Ubyte { First = 0u8, Second = 1u8 };
    p::SaslCode, Ubyte { Ok = 0u8, Auth = 1u8, Sys = 2u8, SysPerm = 3u8, SysTemp = 4u8 };
    p::TerminusDurability, Uint { None = 0u32, Configuration = 1u32, UnsettledState = 2u32 };
    p::TerminusExpiryPolicy, Sym { LinkDetach = "link-detach", SessionEnd = "session-end", ConnectionClose = "connection-close", Never = "never" };
    p::AmqpError, Sym { InternalError = "amqp:internal-error", NotFound = "amqp:not-found", UnauthorizedAccess = "amqp:unauthorized-access",
        DecodeError = "amqp:decode-error", ResourceLimitExceeded = "amqp:resource-limit-exceeded", NotAllowed = "amqp:not-allowed",
        InvalidField = "amqp:invalid-field", NotImplemented = "amqp:not-implemented", ResourceLocked = "amqp:resource-locked",
        PreconditionFailed = "amqp:precondition-failed", ResourceDeleted = "amqp:resource-deleted", IllegalState = "amqp:illegal-state",
        FrameSizeTooSmall = "amqp:frame-size-too-small" };
    p::ConnectionError, Sym { ConnectionForced = "amqp:connection:forced", FramingError = "amqp:connection:framing-error", Redirect = "amqp:connection:redirect" };
    p::SessionError, Sym { WindowViolation = "amqp:session:window-violation", ErrantLink = "amqp:session:errant-link",
        HandleInUse = "amqp:session:handle-in-use", UnattachedHandle = "amqp:session:unattached-handle" };
    p::LinkError, Sym { DetachForced = "amqp:link:detach-forced", TransferLimitExceeded = "amqp:link:transfer-limit-exceeded",
        MessageSizeExceeded = "amqp:link:message-size-exceeded", Redirect = "amqp:link:redirect", Stolen = "amqp:link:stolen" };
}

impl ToRv for p::ErrorCondition {
    fn rv(&self) -> RV {
        match self {
            p::ErrorCondition::AmqpError(x) => x.rv(),
            p::ErrorCondition::ConnectionError(x) => x.rv(),
            p::ErrorCondition::SessionError(x) => x.rv(),
            p::ErrorCondition::LinkError(x) => x.rv(),
            p::ErrorCondition::Custom(x) => x.rv(),
        }
    }
}
impl FromRv for p::ErrorCondition {
    fn from_rv(r: &RV) -> Self {
        let s = match r {
            Sym(s) => s,
            x => panic!("harness: {:?} is not a condition", x),
        };
        if !spec::ERRORS.contains(&s.as_str()) {
            p::ErrorCondition::Custom(FromRv::from_rv(r))
        } else if s.starts_with("amqp:connection:") {
            p::ErrorCondition::ConnectionError(FromRv::from_rv(r))
        } else if s.starts_with("amqp:session:") {
            p::ErrorCondition::SessionError(FromRv::from_rv(r))
        } else if s.starts_with("amqp:link:") {
            p::ErrorCondition::LinkError(FromRv::from_rv(r))
        } else {
            p::ErrorCondition::AmqpError(FromRv::from_rv(r))
        }
    }
}
impl ToRv for p::DistributionMode {
    fn rv(&self) -> RV {
        match self {
            p::DistributionMode::Move => Sym("move".into()),
            p::DistributionMode::Copy => Sym("copy".into()),
            p::DistributionMode::Custom(s) => s.rv(),
        }
    }
}
impl FromRv for p::DistributionMode {
    fn from_rv(r: &RV) -> Self {
        match r {
            Sym(s) if s == "move" => p::DistributionMode::Move,
            Sym(s) if s == "copy" => p::DistributionMode::Copy,
            x => p::DistributionMode::Custom(FromRv::from_rv(x)),
        }
    }
}
impl ToRv for p::MessageId {
    fn rv(&self) -> RV {
        match self {
            p::MessageId::Ulong(x) => x.rv(),
            p::MessageId::Uuid(x) => x.rv(),
            p::MessageId::Binary(x) => x.rv(),
            p::MessageId::String(x) => x.rv(),
        }
    }
}
impl FromRv for p::MessageId {
    fn from_rv(r: &RV) -> Self {
        match r {
            Ulong(x) => p::MessageId::Ulong(*x),
            RV::Uuid(_) => p::MessageId::Uuid(FromRv::from_rv(r)),
            Bin(_) => p::MessageId::Binary(FromRv::from_rv(r)),
            x => p::MessageId::String(FromRv::from_rv(x)),
        }
    }
}

/// the field list of a composite model value
pub fn fields<'a>(r: &'a RV, name: &str) -> &'a [RV] {
    match r {
        Desc(d, l) if **d == Ulong(spec::comp(name).code) => match l.as_ref() {
            RV::List(l) => l,
            x => panic!("harness: {:?}", x),
        },
        x => panic!("harness: {:?} is not a {}", x, name),
    }
}

macro_rules! composite {
    ($($t:ident, $name:literal { $($f:ident),* } $({ $($extra:ident),* })*;)*) => {$(
        impl ToRv for p::$t {
            fn rv(&self) -> RV { RV::desc(spec::comp($name).code, RV::List(vec![$(self.$f.rv()),*])) }
        }
        impl FromRv for p::$t {
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn from_rv(r: &RV) -> Self {
                let f = fields(r, $name);
                let mut i = 0usize;
                p::$t { $($f: { let v = FromRv::from_rv(&f[i]); i += 1; v },)* $($($extra: None,)*)* }
            }
        }
    )*};
}
composite! {
    Open, "open" { container_id, hostname, max_frame_size, channel_max, idle_time_out, outgoing_locales, incoming_locales, offered_capabilities, desired_capabilities, properties };
    Begin, "begin" { remote_channel, next_outgoing_id, incoming_window, outgoing_window, handle_max, offered_capabilities, desired_capabilities, properties };
    Attach, "attach" { name, handle, role, snd_settle_mode, rcv_settle_mode, source, target, unsettled, incomplete_unsettled, initial_delivery_count, max_message_size, offered_capabilities, desired_capabilities, properties };
    Flow, "flow" { next_incoming_id, incoming_window, next_outgoing_id, outgoing_window, handle, delivery_count, link_credit, available, drain, echo, properties };
    Transfer, "transfer" { handle, delivery_id, delivery_tag, message_format, settled, more, rcv_settle_mode, state, resume, aborted, batchable } { body };
    Disposition, "disposition" { role, first, last, settled, state, batchable };
    Detach, "detach" { handle, closed, error };
    End, "end" { error };
    Close, "close" { error };
    Error, "error" { condition, description, info };
    Received, "received" { section_number, section_offset };
    Accepted, "accepted" { };
    Rejected, "rejected" { error };
    Released, "released" { };
    Modified, "modified" { delivery_failed, undeliverable_here, message_annotations };
    Source, "source" { address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties, distribution_mode, filter, default_outcome, outcomes, capabilities };
    Target, "target" { address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties, capabilities };
    SaslMechanisms, "sasl-mechanisms" { sasl_server_mechanisms };
    SaslInit, "sasl-init" { mechanism, initial_response, hostname };
    SaslChallenge, "sasl-challenge" { challenge };
    SaslResponse, "sasl-response" { response };
    SaslOutcome, "sasl-outcome" { code, additional_data };
    Header, "header" { durable, priority, ttl, first_acquirer, delivery_count };
    Properties, "properties" { message_id, user_id, to, subject, reply_to, correlation_id, content_type, content_encoding, absolute_expiry_time, creation_time, group_id, group_sequence, reply_to_group_id };
}

macro_rules! choice {
    ($($e:ident { $($v:ident = $name:literal),* };)*) => {$(
        impl ToRv for p::$e { fn rv(&self) -> RV { match self { $(p::$e::$v(x) => x.rv(),)* #[allow(unreachable_patterns)] _ => Null } } }
        impl FromRv for p::$e { fn from_rv(r: &RV) -> Self {
            $( if let Desc(d, _) = r { if **d == Ulong(spec::comp($name).code) { return p::$e::$v(FromRv::from_rv(r)); } } )*
            panic!("harness: {:?} is not a {}", r, stringify!($e)) } }
    )*};
}
choice! {
    DeliveryState { Received = "received", Accepted = "accepted", Rejected = "rejected", Released = "released", Modified = "modified" };
    Outcome { Accepted = "accepted", Rejected = "rejected", Released = "released", Modified = "modified" };
    SaslFrameBody { SaslMechanisms = "sasl-mechanisms", SaslInit = "sasl-init", SaslChallenge = "sasl-challenge", SaslResponse = "sasl-response", SaslOutcome = "sasl-outcome" };
}
impl ToRv for p::Frame {
    fn rv(&self) -> RV {
        match self {
            p::Frame::Open(x) => x.rv(),
            p::Frame::Begin(x) => x.rv(),
            p::Frame::Attach(x) => x.rv(),
            p::Frame::Flow(x) => x.rv(),
            p::Frame::Transfer(x) => x.rv(),
            p::Frame::Disposition(x) => x.rv(),
            p::Frame::Detach(x) => x.rv(),
            p::Frame::End(x) => x.rv(),
            p::Frame::Close(x) => x.rv(),
            p::Frame::Empty => Null,
        }
    }
}
impl FromRv for p::Frame {
    fn from_rv(r: &RV) -> Self {
        match r {
            Null => p::Frame::Empty,
            Desc(d, _) => match **d {
                Ulong(16) => p::Frame::Open(FromRv::from_rv(r)),
                Ulong(17) => p::Frame::Begin(FromRv::from_rv(r)),
                Ulong(18) => p::Frame::Attach(FromRv::from_rv(r)),
                Ulong(19) => p::Frame::Flow(FromRv::from_rv(r)),
                Ulong(20) => p::Frame::Transfer(FromRv::from_rv(r)),
                Ulong(21) => p::Frame::Disposition(FromRv::from_rv(r)),
                Ulong(22) => p::Frame::Detach(FromRv::from_rv(r)),
                Ulong(23) => p::Frame::End(FromRv::from_rv(r)),
                Ulong(24) => p::Frame::Close(FromRv::from_rv(r)),
                _ => panic!("harness: {:?} is not a frame", r),
            },
            _ => panic!("harness: {:?} is not a frame", r),
        }
    }
}
impl ToRv for p::Section {
    fn rv(&self) -> RV {
        match self {
            p::Section::Header(x) => x.rv(),
            p::Section::Properties(x) => x.rv(),
            p::Section::DeliveryAnnotations(x) => RV::desc(113, x.rv()),
            p::Section::MessageAnnotations(x) => RV::desc(114, x.rv()),
            p::Section::ApplicationProperties(x) => RV::desc(116, x.rv()),
            p::Section::Data(x) => RV::desc(117, x.rv()),
            p::Section::AmqpSequence(x) => RV::desc(118, x.rv()),
            p::Section::AmqpValue(x) => RV::desc(119, x.rv()),
            p::Section::Footer(x) => RV::desc(120, x.rv()),
        }
    }
}
impl FromRv for p::Section {
    fn from_rv(r: &RV) -> Self {
        match r {
            Desc(d, x) => match **d {
                Ulong(112) => p::Section::Header(FromRv::from_rv(r)),
                Ulong(113) => p::Section::DeliveryAnnotations(FromRv::from_rv(x)),
                Ulong(114) => p::Section::MessageAnnotations(FromRv::from_rv(x)),
                Ulong(115) => p::Section::Properties(FromRv::from_rv(r)),
                Ulong(116) => p::Section::ApplicationProperties(FromRv::from_rv(x)),
                Ulong(117) => p::Section::Data(FromRv::from_rv(x)),
                Ulong(118) => p::Section::AmqpSequence(FromRv::from_rv(x)),
                Ulong(119) => p::Section::AmqpValue(FromRv::from_rv(x)),
                Ulong(120) => p::Section::Footer(FromRv::from_rv(x)),
                _ => panic!("harness: {:?} is not a section", r),
            },
            _ => panic!("harness: {:?} is not a section", r),
        }
    }
}

/// Normalise section content the way `norm` does for composites.
pub fn norm_section(r: &RV) -> Result<RV, String> {
    if let Desc(d, x) = r {
        for n in ["header", "properties"] {
            let c = spec::comp(n);
            if **d == Ulong(c.code) || **d == Sym(c.sym.clone()) {
                return spec::norm_comp(c, r);
            }
        }
        for (_, code, ty, sy) in spec::RSECTIONS.iter() {
            if **d == Ulong(*code) || **d == Sym(sy.to_string()) {
                return Ok(RV::desc(*code, spec::norm(*ty, x)?));
            }
        }
    }
    Err(format!("{:?} is not a message section", r))
}
