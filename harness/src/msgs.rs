//! Every protocol message with arbitrary field values, next to an independent statement of its wire layout.
use crate::vk;
use noiseexplorer_nx as _;
use stratumv2::codec::*;
use stratumv2::common::{self, SetupConnectionErrorCode as SCode};
use stratumv2::mining::{self, OpenMiningChannelErrorCode as OCode};
use stratumv2::noise::{Signature, SignatureNoiseMessage};
use stratumv2::types::*;
use stratumv2::job_negotiation as jn;

/// Builds the expected wire bytes, independently of the library.
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W { W(Vec::new()) }
    pub fn u8(mut self, v: u8) -> W { self.0.push(v); self }
    pub fn u16(mut self, v: u16) -> W { self.0.push(v as u8); self.0.push((v >> 8) as u8); self }
    pub fn u32(mut self, v: u32) -> W { for i in 0..4 { self.0.push((v >> (8 * i)) as u8); } self }
    pub fn raw(mut self, v: &[u8]) -> W { self.0.extend_from_slice(v); self }
    pub fn bytes(self, v: &[u8]) -> W { let n = v.len() as u8; self.u8(n).raw(v) }
    pub fn s255(self, v: &STR0_255) -> W { vk::check(v.length as usize == v.data.len(), "length field of a string"); self.u8(v.length).raw(v.data.as_bytes()) }
    pub fn b32(self, v: &B0_32) -> W { vk::check(v.length as usize == v.data.len(), "length field of a byte string"); self.u8(v.length).raw(&v.data) }
}

/// lengths of the variable-size fields, in field order
pub struct Shape { pub len: [usize; 5], pub letters: bool, pub wide: Option<usize> }
impl Shape {
    pub fn new(len: [usize; 5]) -> Shape { Shape { len, letters: false, wide: None } }
    /// the text of variable field `i`: arbitrary ASCII, fixed letters, or four-byte characters after some ASCII
    fn text(&self, i: usize, l: &str) -> String { if let Some(k) = self.wide { vk::wide(self.len[i], k, l) } else if self.letters { "k".repeat(self.len[i]) } else { vk::ascii(self.len[i], l) } }
}

pub trait Msg: Serializable + Deserializable + Sized {
    /// number of variable-size fields
    const VARS: usize;
    /// largest length of each variable-size field
    const CAP: usize = 255;
    /// smallest length of each variable-size field
    const MIN: [usize; 5] = [0; 5];
    /// an arbitrary value built by the public constructor, and the wire bytes it must have
    fn make(s: &Shape) -> (Option<Self>, Vec<u8>);
    /// the fields of a value, laid out as the specification orders them
    fn dump(&self) -> Vec<u8>;
}

fn scode(k: usize) -> (SCode, &'static str) { match k { 0 => (SCode::UnsupportedFeatureFlags, "unsupported-feature-flags"), 1 => (SCode::UnsupportedProtocol, "unsupported-protocol"), _ => (SCode::ProtocolVersionMismatch, "protocol-version-mismatch") } }
fn sname(c: &SCode) -> &'static str { match c { SCode::UnsupportedFeatureFlags => "unsupported-feature-flags", SCode::UnsupportedProtocol => "unsupported-protocol", SCode::ProtocolVersionMismatch => "protocol-version-mismatch" } }
fn ocode(k: usize) -> (OCode, &'static str) { match k { 0 => (OCode::UnknownUser, "unknown-user"), _ => (OCode::MaxTargetOutOfRange, "max-target-out-of-range") } }
fn oname(c: &OCode) -> &'static str { match c { OCode::UnknownUser => "unknown-user", OCode::MaxTargetOutOfRange => "max-target-out-of-range" } }

macro_rules! setup_connection {
    ($m:ident, $mask:expr) => {
        impl Msg for $m::SetupConnection {
            const VARS: usize = 5;
            const MIN: [usize; 5] = [0, 1, 0, 1, 0];
            fn make(s: &Shape) -> (Option<Self>, Vec<u8>) {
                let (min, max, fl, port) = (vk::u16_("min"), vk::u16_("max"), vk::u32_("flags") & $mask, vk::u16_("port"));
                vk::assume(min >= 2 && max >= 2);
                let t: Vec<String> = (0..5).map(|i| s.text(i, "str")).collect();
                let w = W::new().u16(min).u16(max).u32(fl).bytes(t[0].as_bytes()).u16(port).bytes(t[1].as_bytes()).bytes(t[2].as_bytes()).bytes(t[3].as_bytes()).bytes(t[4].as_bytes());
                let v = $m::SetupConnection::new(min, max, $m::SetupConnectionFlags::from_bits_truncate(fl), t[0].clone(), port, t[1].clone(), t[2].clone(), t[3].clone(), t[4].clone());
                (v.ok(), w.0)
            }
            fn dump(&self) -> Vec<u8> {
                W::new().u16(self.min_version).u16(self.max_version).u32(self.flags.bits()).s255(&self.endpoint_host).u16(self.endpoint_port).s255(&self.vendor).s255(&self.hardware_version).s255(&self.firmware).s255(&self.device_id).0
            }
        }
        impl Msg for $m::SetupConnectionError {
            const VARS: usize = 0;
            fn make(_: &Shape) -> (Option<Self>, Vec<u8>) {
                let fl = vk::u32_("flags") & $mask;
                let (c, n) = scode(vk::each(2, "code"));
                vk::assume(fl != 0 || c != SCode::UnsupportedFeatureFlags);
                ($m::SetupConnectionError::new($m::SetupConnectionFlags::from_bits_truncate(fl), c).ok(), W::new().u32(fl).bytes(n.as_bytes()).0)
            }
            fn dump(&self) -> Vec<u8> { W::new().u32(self.flags.bits()).bytes(sname(&self.error_code).as_bytes()).0 }
        }
    };
}
setup_connection!(mining, 7);
setup_connection!(jn, 1);
macro_rules! setup_success {
    ($m:ident, $mask:expr) => {
        impl Msg for $m::SetupConnectionSuccess {
            const VARS: usize = 0;
            fn make(_: &Shape) -> (Option<Self>, Vec<u8>) {
                let (v, fl) = (vk::u16_("version"), vk::u32_("flags") & $mask);
                ($m::SetupConnectionSuccess::new(v, $m::SetupConnectionSuccessFlags::from_bits_truncate(fl)).ok(), W::new().u16(v).u32(fl).0)
            }
            fn dump(&self) -> Vec<u8> { W::new().u16(self.used_version).u32(self.flags.bits()).0 }
        }
    };
}
setup_success!(mining, 3);
setup_success!(jn, 0);

impl Msg for common::SetupConnection {
    const VARS: usize = 5;
    const MIN: [usize; 5] = [0, 1, 0, 1, 0];
    fn make(s: &Shape) -> (Option<Self>, Vec<u8>) {
        if vk::each(1, "protocol") == 0 {
            let (v, w) = mining::SetupConnection::make(s);
            let r = v.and_then(|v| common::SetupConnection::new_mining(v.min_version, v.max_version, v.flags, v.endpoint_host, v.endpoint_port, v.vendor, v.hardware_version, v.firmware, v.device_id).ok());
            vk::cover("mining");
            (r, W::new().u8(0).raw(&w).0)
        } else {
            let (v, w) = jn::SetupConnection::make(s);
            let r = v.and_then(|v| common::SetupConnection::new_job_negotation(v.min_version, v.max_version, v.flags, v.endpoint_host, v.endpoint_port, v.vendor, v.hardware_version, v.firmware, v.device_id).ok());
            vk::cover("job negotiation");
            (r, W::new().u8(1).raw(&w).0)
        }
    }
    fn dump(&self) -> Vec<u8> { match self { common::SetupConnection::Mining(v) => W::new().u8(0).raw(&v.dump()).0, common::SetupConnection::JobNegotiation(v) => W::new().u8(1).raw(&v.dump()).0 } }
}
impl Msg for common::ChannelEndpointChanged {
    const VARS: usize = 0;
    fn make(_: &Shape) -> (Option<Self>, Vec<u8>) { let c = vk::u32_("channel"); (common::ChannelEndpointChanged::new(c).ok(), W::new().u32(c).0) }
    fn dump(&self) -> Vec<u8> { W::new().u32(self.channel_id).0 }
}
impl Msg for mining::OpenStandardMiningChannel {
    const VARS: usize = 1;
    fn make(s: &Shape) -> (Option<Self>, Vec<u8>) {
        let (r, u, h, t) = (vk::u32_("request"), s.text(0, "user"), vk::u32_("rate"), vk::any::<32>("target"));
        let w = W::new().u32(r).bytes(u.as_bytes()).u32(h).raw(&t).0;
        (mining::OpenStandardMiningChannel::new(r, u, f32::from_bits(h), t).ok(), w)
    }
    fn dump(&self) -> Vec<u8> { W::new().u32(self.request_id).s255(&self.user_identity).u32(self.nominal_hash_rate.to_bits()).raw(&self.max_target.0).0 }
}
impl Msg for mining::OpenStandardMiningChannelSuccess {
    const VARS: usize = 1;
    const CAP: usize = 32;
    fn make(s: &Shape) -> (Option<Self>, Vec<u8>) {
        let (r, c, t, e, g) = (vk::u32_("request"), vk::u32_("channel"), vk::any::<32>("target"), vk::any_vec(s.len[0], "prefix"), vk::u32_("group"));
        let w = W::new().u32(r).u32(c).raw(&t).bytes(&e).u32(g).0;
        (mining::OpenStandardMiningChannelSuccess::new(r, c, t, e, g).ok(), w)
    }
    fn dump(&self) -> Vec<u8> { W::new().u32(self.request_id).u32(self.channel_id).raw(&self.target.0).b32(&self.extranonce_prefix).u32(self.group_channel_id).0 }
}
impl Msg for mining::OpenExtendedMiningChannel {
    const VARS: usize = 1;
    fn make(s: &Shape) -> (Option<Self>, Vec<u8>) {
        let (r, u, h, t, x) = (vk::u32_("request"), s.text(0, "user"), vk::u32_("rate"), vk::any::<32>("target"), vk::u16_("size"));
        let w = W::new().u32(r).bytes(u.as_bytes()).u32(h).raw(&t).u16(x).0;
        (mining::OpenExtendedMiningChannel::new(r, u, f32::from_bits(h), t, x).ok(), w)
    }
    fn dump(&self) -> Vec<u8> { W::new().u32(self.request_id).s255(&self.user_identity).u32(self.nominal_hash_rate.to_bits()).raw(&self.max_target.0).u16(self.min_extranonce_size).0 }
}
impl Msg for mining::OpenExtendedMiningChannelSuccess {
    const VARS: usize = 1;
    const CAP: usize = 32;
    fn make(s: &Shape) -> (Option<Self>, Vec<u8>) {
        let (r, c, t, x, e) = (vk::u32_("request"), vk::u32_("channel"), vk::any::<32>("target"), vk::u16_("size"), vk::any_vec(s.len[0], "prefix"));
        let w = W::new().u32(r).u32(c).raw(&t).u16(x).bytes(&e).0;
        (mining::OpenExtendedMiningChannelSuccess::new(r, c, t, x, e).ok(), w)
    }
    fn dump(&self) -> Vec<u8> { W::new().u32(self.request_id).u32(self.channel_id).raw(&self.target.0).u16(self.extranonce_size).b32(&self.extranonce_prefix).0 }
}
macro_rules! open_error {
    ($t:ident) => {
        impl Msg for mining::$t {
            const VARS: usize = 0;
            fn make(_: &Shape) -> (Option<Self>, Vec<u8>) { let r = vk::u32_("request"); let (c, n) = ocode(vk::each(1, "code")); (mining::$t::new(r, c).ok(), W::new().u32(r).bytes(n.as_bytes()).0) }
            fn dump(&self) -> Vec<u8> { W::new().u32(self.request_id).bytes(oname(&self.error_code).as_bytes()).0 }
        }
    };
}
open_error!(OpenStandardMiningChannelError);
open_error!(OpenExtendedMiningChannelError);
impl Msg for mining::UpdateChannel {
    const VARS: usize = 0;
    fn make(_: &Shape) -> (Option<Self>, Vec<u8>) { let (c, h, t) = (vk::u32_("channel"), vk::u32_("rate"), vk::any::<32>("target")); (mining::UpdateChannel::new(c, f32::from_bits(h), t).ok(), W::new().u32(c).u32(h).raw(&t).0) }
    fn dump(&self) -> Vec<u8> { W::new().u32(self.channel_id).u32(self.nominal_hash_rate.to_bits()).raw(&self.max_target.0).0 }
}
impl Msg for SignatureNoiseMessage {
    const VARS: usize = 0;
    fn make(_: &Shape) -> (Option<Self>, Vec<u8>) {
        let (v, f, t, s) = (vk::u16_("version"), vk::u32_("from"), vk::u32_("after"), vk::any::<64>("sig"));
        vk::assume(s[63] & 0xe0 == 0);
        let w = W::new().u16(v).u32(f).u32(t).raw(&s).0;
        (deserialize::<Signature>(&s).ok().map(|signature| SignatureNoiseMessage { version: v, valid_from: f, not_valid_after: t, signature }), w)
    }
    fn dump(&self) -> Vec<u8> { W::new().u16(self.version).u32(self.valid_from).u32(self.not_valid_after).raw(&self.signature.to_bytes()).0 }
}

/// runs `$e` with `$t` bound to the k-th framed message type
#[macro_export]
macro_rules! with_framed {
    ($k:expr, $t:ident => $e:expr) => {{
        use stratumv2::{common, job_negotiation as jn, mining};
        match $k {
            0 => { type $t = mining::SetupConnection; $e }
            1 => { type $t = mining::SetupConnectionSuccess; $e }
            2 => { type $t = mining::SetupConnectionError; $e }
            3 => { type $t = jn::SetupConnection; $e }
            4 => { type $t = jn::SetupConnectionSuccess; $e }
            5 => { type $t = jn::SetupConnectionError; $e }
            6 => { type $t = common::SetupConnection; $e }
            7 => { type $t = common::ChannelEndpointChanged; $e }
            8 => { type $t = mining::OpenStandardMiningChannel; $e }
            9 => { type $t = mining::OpenStandardMiningChannelSuccess; $e }
            10 => { type $t = mining::OpenStandardMiningChannelError; $e }
            11 => { type $t = mining::OpenExtendedMiningChannel; $e }
            12 => { type $t = mining::OpenExtendedMiningChannelSuccess; $e }
            13 => { type $t = mining::OpenExtendedMiningChannelError; $e }
            _ => { type $t = mining::UpdateChannel; $e }
        }
    }};
}
pub const FRAMED: usize = 15;
/// wire code (and channel bit) of the k-th framed message type
pub const CODES: [u8; FRAMED] = [0, 1, 2, 0, 1, 2, 0, 3, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16];
/// as with_framed, plus the signature message (k = 15)
#[macro_export]
macro_rules! with_msg {
    ($k:expr, $t:ident => $e:expr) => { if $k == 15 { type $t = stratumv2::noise::SignatureNoiseMessage; $e } else { $crate::with_framed!($k, $t => $e) } };
}
/// the specification's message registry: (code, channel bit)
pub const REGISTRY: [(u8, bool); 29] = [
    (0x00, false), (0x01, false), (0x02, false), (0x03, true),
    (0x10, false), (0x11, false), (0x12, false), (0x13, false), (0x14, false), (0x15, false),
    (0x16, true), (0x17, true), (0x18, true), (0x19, true), (0x1a, true), (0x1b, true), (0x1c, true), (0x1d, true), (0x1e, true), (0x1f, true), (0x20, true), (0x21, true),
    (0x22, false), (0x23, false), (0x24, false), (0x25, false), (0x26, false), (0xfe, false), (0xff, true),
];
/// the library's name for each registered code
pub fn variant(code: u8) -> Option<MessageType> {
    use MessageType::*;
    Some(match code {
        0x00 => SetupConnection, 0x01 => SetupConnectionSuccess, 0x02 => SetupConnectionError, 0x03 => ChannelEndpointChanged,
        0x10 => OpenStandardMiningChannel, 0x11 => OpenStandardMiningChannelSuccess, 0x12 => OpenStandardMiningChannelError,
        0x13 => OpenExtendedMiningChannel, 0x14 => OpenExtendedMiningChannelSuccess, 0x15 => OpenExtendedMiningChannelError,
        0x16 => UpdateChannel, 0x17 => UpdateChannelError, 0x18 => CloseChannel, 0x19 => SetExtranoncePrefix,
        0x1a => SubmitSharesStandard, 0x1b => SubmitSharesExtended, 0x1c => SubmitSharesSuccess, 0x1d => SubmitSharesError,
        0x1e => NewMiningJob, 0x1f => NewExtendedMiningJob, 0x20 => SetNewPrevHash, 0x21 => SetTarget,
        0x22 => SetCustomMiningJob, 0x23 => SetCustomMiningJobSuccess, 0x24 => SetCustomMiningJobError, 0x25 => Reconnect, 0x26 => SetGroupChannel,
        0xfe => TestMessage1, 0xff => TestMessage2,
        _ => return None,
    })
}
