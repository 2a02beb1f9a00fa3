//! Every decoder the library offers, as a table.
use crate::conv::ToRv;
use crate::items::tail;
use crate::rv::RV;
use crate::spec::Ty;
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::{AmqpFrame, AmqpParseError, Decode, InMessage, OutMessage, SaslFrame};
use bytes::Bytes;
use chrono::{DateTime, Utc};
use std::sync::OnceLock;

type Raw = fn(&[u8]) -> Result<usize, AmqpParseError>;
type Full = fn(&[u8]) -> Result<(usize, RV), AmqpParseError>;

pub struct Dec {
    pub name: &'static str,
    pub raw: Raw,
    /// with the content, for types that convert to the model
    pub full: Option<Full>,
    pub want: Want,
}

/// What the specification says may be decoded as this type.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Want {
    /// these primitive constructors
    Codes(&'static [u8]),
    /// a restricted type
    Ty(Ty),
    Opt(Ty),
    Comp(&'static str),
    Members(&'static [&'static str]),
    Section,
    /// an array of values of these constructors
    Arr(&'static [u8]),
    Other,
}

fn raw<T: Decode>(b: &[u8]) -> Result<usize, AmqpParseError> {
    T::decode(b).map(|(r, _)| r.len())
}
fn full<T: Decode + ToRv>(b: &[u8]) -> Result<(usize, RV), AmqpParseError> {
    T::decode(b).map(|(r, x)| (tail(b, r), x.rv()))
}

pub const BOOL: &[u8] = &[0x41, 0x42, 0x56];
pub const UINT: &[u8] = &[0x43, 0x52, 0x70];
pub const ULONG: &[u8] = &[0x44, 0x53, 0x80];
pub const BIN: &[u8] = &[0xa0, 0xb0];
pub const STR: &[u8] = &[0xa1, 0xb1];
pub const SYM: &[u8] = &[0xa3, 0xb3];

macro_rules! tab {
    ($($n:literal $t:ty => $w:expr;)*) => { vec![$(Dec { name: $n, raw: raw::<$t>, full: Some(full::<$t>), want: $w }),*] };
}

pub fn decs() -> &'static Vec<Dec> {
    static T: OnceLock<Vec<Dec>> = OnceLock::new();
    T.get_or_init(|| {
        use Want::*;
        let mut v = tab! {
            "bool" bool => Codes(BOOL);
            "ubyte" u8 => Codes(&[0x50]);
            "ushort" u16 => Codes(&[0x60]);
            "uint" u32 => Codes(UINT);
            "ulong" u64 => Codes(ULONG);
            "byte" i8 => Codes(&[0x51]);
            "short" i16 => Codes(&[0x61]);
            "int" i32 => Codes(&[0x54, 0x71]);
            "long" i64 => Codes(&[0x55, 0x81]);
            "float" f32 => Codes(&[0x72]);
            "double" f64 => Codes(&[0x82]);
            "char" char => Codes(&[0x73]);
            "timestamp" DateTime<Utc> => Codes(&[0x83]);
            "uuid" uuid::Uuid => Codes(&[0x98]);
            "binary" Bytes => Codes(BIN);
            "string (ByteStr)" t::ByteStr => Codes(STR);
            "string (Str)" t::Str => Codes(STR);
            "symbol" t::Symbol => Codes(SYM);
            "list" t::List => Ty(crate::spec::Ty::List);
            "variant" t::Variant => Ty(crate::spec::Ty::Any);
            "descriptor" t::Descriptor => Codes(&[0x44, 0x53, 0x80, 0xa3, 0xb3]);
            "option of uint" Option<u32> => Opt(crate::spec::Ty::Uint);
            "option of symbols" Option<t::Multiple<t::Symbol>> => Opt(crate::spec::Ty::Syms);
            "multiple symbols" t::Multiple<t::Symbol> => Ty(crate::spec::Ty::Syms);
            "map symbol any" p::Fields => Ty(crate::spec::Ty::Fields);
            "map any any" p::Map => Ty(crate::spec::Ty::Map);
            "map string any" p::StringVariantMap => Ty(crate::spec::Ty::StrMap);
            "vec map" t::VecVariantMap => Ty(crate::spec::Ty::StrMap);
            "filter set" p::FilterSet => Ty(crate::spec::Ty::Filter);
            "array of ubyte" Vec<u8> => Arr(&[0x50]);
            "array of ushort" Vec<u16> => Arr(&[0x60]);
            "array of byte" Vec<i8> => Arr(&[0x51]);
            "array of long" Vec<i64> => Arr(&[0x55, 0x81]);
            "array of double" Vec<f64> => Arr(&[0x82]);
            "array of char" Vec<char> => Arr(&[0x73]);
            "array of timestamp" Vec<DateTime<Utc>> => Arr(&[0x83]);
            "array of uuid" Vec<uuid::Uuid> => Arr(&[0x98]);
            "array of binary" Vec<Bytes> => Arr(BIN);
            "array of string" Vec<t::ByteStr> => Arr(STR);
            "array of symbol" Vec<t::Symbol> => Arr(SYM);
            "array of uint" Vec<u32> => Arr(UINT);
            "array of ulong" Vec<u64> => Arr(ULONG);
            "array of bool" Vec<bool> => Arr(BOOL);
            "role" p::Role => Ty(crate::spec::Ty::Role);
            "snd-settle-mode" p::SenderSettleMode => Ty(crate::spec::Ty::SndMode);
            "rcv-settle-mode" p::ReceiverSettleMode => Ty(crate::spec::Ty::RcvMode);
            "sasl-code" p::SaslCode => Ty(crate::spec::Ty::SaslCode);
            "durability" p::TerminusDurability => Ty(crate::spec::Ty::Durability);
            "expiry-policy" p::TerminusExpiryPolicy => Ty(crate::spec::Ty::Expiry);
            "error condition" p::ErrorCondition => Ty(crate::spec::Ty::ErrCond);
            "distribution-mode" p::DistributionMode => Ty(crate::spec::Ty::DistMode);
            "message-id" p::MessageId => Ty(crate::spec::Ty::MsgId);
            "amqp-error" p::AmqpError => Other;
            "connection-error" p::ConnectionError => Other;
            "session-error" p::SessionError => Other;
            "link-error" p::LinkError => Other;
            "open" p::Open => Comp("open");
            "begin" p::Begin => Comp("begin");
            "attach" p::Attach => Comp("attach");
            "flow" p::Flow => Comp("flow");
            "transfer" p::Transfer => Comp("transfer");
            "disposition" p::Disposition => Comp("disposition");
            "detach" p::Detach => Comp("detach");
            "end" p::End => Comp("end");
            "close" p::Close => Comp("close");
            "error" p::Error => Comp("error");
            "received" p::Received => Comp("received");
            "accepted" p::Accepted => Comp("accepted");
            "rejected" p::Rejected => Comp("rejected");
            "released" p::Released => Comp("released");
            "modified" p::Modified => Comp("modified");
            "source" p::Source => Comp("source");
            "target" p::Target => Comp("target");
            "sasl-mechanisms" p::SaslMechanisms => Comp("sasl-mechanisms");
            "sasl-init" p::SaslInit => Comp("sasl-init");
            "sasl-challenge" p::SaslChallenge => Comp("sasl-challenge");
            "sasl-response" p::SaslResponse => Comp("sasl-response");
            "sasl-outcome" p::SaslOutcome => Comp("sasl-outcome");
            "header" p::Header => Comp("header");
            "properties" p::Properties => Comp("properties");
            "delivery state" p::DeliveryState => Members(&crate::spec::STATES);
            "outcome" p::Outcome => Members(&crate::spec::OUTCOMES);
            "sasl body" p::SaslFrameBody => Members(&crate::spec::SASL);
            "performative" p::Frame => Members(&crate::spec::FRAMES);
            "section" p::Section => Section;
        };
        v.push(Dec { name: "amqp frame", raw: raw::<AmqpFrame>, full: None, want: Other });
        v.push(Dec { name: "sasl frame", raw: raw::<SaslFrame>, full: None, want: Other });
        v.push(Dec { name: "in message", raw: raw::<InMessage>, full: None, want: Other });
        v.push(Dec { name: "out message", raw: raw::<OutMessage>, full: None, want: Other });
        v
    })
}

pub fn dec(name: &str) -> &'static Dec {
    decs().iter().find(|d| d.name == name).unwrap_or_else(|| panic!("harness: no decoder {}", name))
}

/// decoders whose elements may take no bytes at all: the declared count alone decides how many
/// elements a bare array has (see known_findings.txt)
pub fn zero_width(d: &Dec) -> bool {
    matches!(d.name, "array of uint" | "array of ulong" | "array of bool")
}
