// GENERATED by tools/gen_harness.py from tools/amqp_types.json. Do not edit.
#![allow(unused_variables)]
use crate::{rng::Rng, types::*, types::Map, v::V};
use chrono::{DateTime, Utc};
use ntex_amqp_codec::{protocol::*, types::*};
use ntex_bytes::{ByteString, Bytes};
fn body(r: &mut Rng) -> Option<TransferBody> { match r.below(3) { 0 => None, _ => { let b = Bytes::arb(r); if b.is_empty() { None } else { Some(TransferBody::Data(b)) } } } }
impl Gen for Role {
    fn arb(r: &mut Rng) -> Self { *r.pick(&[Role::Sender, Role::Receiver]) }
    fn ast(&self) -> V { match self { Role::Sender => V::Bool(false), Role::Receiver => V::Bool(true) } }
}
impl Gen for SenderSettleMode {
    fn arb(r: &mut Rng) -> Self { *r.pick(&[SenderSettleMode::Unsettled, SenderSettleMode::Settled, SenderSettleMode::Mixed]) }
    fn ast(&self) -> V { match self { SenderSettleMode::Unsettled => V::U8(0), SenderSettleMode::Settled => V::U8(1), SenderSettleMode::Mixed => V::U8(2) } }
}
impl Gen for ReceiverSettleMode {
    fn arb(r: &mut Rng) -> Self { *r.pick(&[ReceiverSettleMode::First, ReceiverSettleMode::Second]) }
    fn ast(&self) -> V { match self { ReceiverSettleMode::First => V::U8(0), ReceiverSettleMode::Second => V::U8(1) } }
}
impl Gen for AmqpError {
    fn arb(r: &mut Rng) -> Self { r.pick(&[AmqpError::InternalError, AmqpError::NotFound, AmqpError::UnauthorizedAccess, AmqpError::DecodeError, AmqpError::ResourceLimitExceeded, AmqpError::NotAllowed, AmqpError::InvalidField, AmqpError::NotImplemented, AmqpError::ResourceLocked, AmqpError::PreconditionFailed, AmqpError::ResourceDeleted, AmqpError::IllegalState, AmqpError::FrameSizeTooSmall]).clone() }
    fn ast(&self) -> V { match self { AmqpError::InternalError => V::Sym(b"amqp:internal-error".to_vec()), AmqpError::NotFound => V::Sym(b"amqp:not-found".to_vec()), AmqpError::UnauthorizedAccess => V::Sym(b"amqp:unauthorized-access".to_vec()), AmqpError::DecodeError => V::Sym(b"amqp:decode-error".to_vec()), AmqpError::ResourceLimitExceeded => V::Sym(b"amqp:resource-limit-exceeded".to_vec()), AmqpError::NotAllowed => V::Sym(b"amqp:not-allowed".to_vec()), AmqpError::InvalidField => V::Sym(b"amqp:invalid-field".to_vec()), AmqpError::NotImplemented => V::Sym(b"amqp:not-implemented".to_vec()), AmqpError::ResourceLocked => V::Sym(b"amqp:resource-locked".to_vec()), AmqpError::PreconditionFailed => V::Sym(b"amqp:precondition-failed".to_vec()), AmqpError::ResourceDeleted => V::Sym(b"amqp:resource-deleted".to_vec()), AmqpError::IllegalState => V::Sym(b"amqp:illegal-state".to_vec()), AmqpError::FrameSizeTooSmall => V::Sym(b"amqp:frame-size-too-small".to_vec()) } }
}
impl Gen for ConnectionError {
    fn arb(r: &mut Rng) -> Self { r.pick(&[ConnectionError::ConnectionForced, ConnectionError::FramingError, ConnectionError::Redirect]).clone() }
    fn ast(&self) -> V { match self { ConnectionError::ConnectionForced => V::Sym(b"amqp:connection:forced".to_vec()), ConnectionError::FramingError => V::Sym(b"amqp:connection:framing-error".to_vec()), ConnectionError::Redirect => V::Sym(b"amqp:connection:redirect".to_vec()) } }
}
impl Gen for SessionError {
    fn arb(r: &mut Rng) -> Self { r.pick(&[SessionError::WindowViolation, SessionError::ErrantLink, SessionError::HandleInUse, SessionError::UnattachedHandle]).clone() }
    fn ast(&self) -> V { match self { SessionError::WindowViolation => V::Sym(b"amqp:session:window-violation".to_vec()), SessionError::ErrantLink => V::Sym(b"amqp:session:errant-link".to_vec()), SessionError::HandleInUse => V::Sym(b"amqp:session:handle-in-use".to_vec()), SessionError::UnattachedHandle => V::Sym(b"amqp:session:unattached-handle".to_vec()) } }
}
impl Gen for LinkError {
    fn arb(r: &mut Rng) -> Self { r.pick(&[LinkError::DetachForced, LinkError::TransferLimitExceeded, LinkError::MessageSizeExceeded, LinkError::Redirect, LinkError::Stolen]).clone() }
    fn ast(&self) -> V { match self { LinkError::DetachForced => V::Sym(b"amqp:link:detach-forced".to_vec()), LinkError::TransferLimitExceeded => V::Sym(b"amqp:link:transfer-limit-exceeded".to_vec()), LinkError::MessageSizeExceeded => V::Sym(b"amqp:link:message-size-exceeded".to_vec()), LinkError::Redirect => V::Sym(b"amqp:link:redirect".to_vec()), LinkError::Stolen => V::Sym(b"amqp:link:stolen".to_vec()) } }
}
impl Gen for SaslCode {
    fn arb(r: &mut Rng) -> Self { *r.pick(&[SaslCode::Ok, SaslCode::Auth, SaslCode::Sys, SaslCode::SysPerm, SaslCode::SysTemp]) }
    fn ast(&self) -> V { match self { SaslCode::Ok => V::U8(0), SaslCode::Auth => V::U8(1), SaslCode::Sys => V::U8(2), SaslCode::SysPerm => V::U8(3), SaslCode::SysTemp => V::U8(4) } }
}
impl Gen for TerminusDurability {
    fn arb(r: &mut Rng) -> Self { *r.pick(&[TerminusDurability::None, TerminusDurability::Configuration, TerminusDurability::UnsettledState]) }
    fn ast(&self) -> V { match self { TerminusDurability::None => V::U32(0), TerminusDurability::Configuration => V::U32(1), TerminusDurability::UnsettledState => V::U32(2) } }
}
impl Gen for TerminusExpiryPolicy {
    fn arb(r: &mut Rng) -> Self { r.pick(&[TerminusExpiryPolicy::LinkDetach, TerminusExpiryPolicy::SessionEnd, TerminusExpiryPolicy::ConnectionClose, TerminusExpiryPolicy::Never]).clone() }
    fn ast(&self) -> V { match self { TerminusExpiryPolicy::LinkDetach => V::Sym(b"link-detach".to_vec()), TerminusExpiryPolicy::SessionEnd => V::Sym(b"session-end".to_vec()), TerminusExpiryPolicy::ConnectionClose => V::Sym(b"connection-close".to_vec()), TerminusExpiryPolicy::Never => V::Sym(b"never".to_vec()) } }
}
impl Gen for Error {
    fn arb(r: &mut Rng) -> Self { Error(Box::new(ErrorInner { condition: <ErrorCondition>::arb(r), description: <Option<ByteString>>::arb(r), info: <Option<VecSymbolMap>>::arb(r) })) }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Error {
    const CODE: u64 = 0x1d;
    const NAME: &'static str = "amqp:error:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.0.condition.ast(), def: None, mand: true },
        Fld { v: self.0.description.ast(), def: None, mand: false },
        Fld { v: self.0.info.ast(), def: None, mand: false }] }
}
impl Gen for Open {
    fn arb(r: &mut Rng) -> Self { Open(Box::new(OpenInner { container_id: <ByteString>::arb(r), hostname: <Option<ByteString>>::arb(r), max_frame_size: if r.bool() { 4294967295u32 } else { <u32>::arb(r) }, channel_max: if r.bool() { 65535u16 } else { <u16>::arb(r) }, idle_time_out: <Option<u32>>::arb(r), outgoing_locales: <Option<Multiple<Symbol>>>::arb(r), incoming_locales: <Option<Multiple<Symbol>>>::arb(r), offered_capabilities: <Option<Multiple<Symbol>>>::arb(r), desired_capabilities: <Option<Multiple<Symbol>>>::arb(r), properties: <Option<Map<Symbol, Variant>>>::arb(r) })) }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Open {
    const CODE: u64 = 0x10;
    const NAME: &'static str = "amqp:open:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.0.container_id.ast(), def: None, mand: true },
        Fld { v: self.0.hostname.ast(), def: None, mand: false },
        Fld { v: self.0.max_frame_size.ast(), def: Some((4294967295u32).ast()), mand: false },
        Fld { v: self.0.channel_max.ast(), def: Some((65535u16).ast()), mand: false },
        Fld { v: self.0.idle_time_out.ast(), def: None, mand: false },
        Fld { v: self.0.outgoing_locales.ast(), def: None, mand: false },
        Fld { v: self.0.incoming_locales.ast(), def: None, mand: false },
        Fld { v: self.0.offered_capabilities.ast(), def: None, mand: false },
        Fld { v: self.0.desired_capabilities.ast(), def: None, mand: false },
        Fld { v: self.0.properties.ast(), def: None, mand: false }] }
}
impl Gen for Begin {
    fn arb(r: &mut Rng) -> Self { Begin(Box::new(BeginInner { remote_channel: <Option<u16>>::arb(r), next_outgoing_id: <u32>::arb(r), incoming_window: <u32>::arb(r), outgoing_window: <u32>::arb(r), handle_max: if r.bool() { 4294967295u32 } else { <u32>::arb(r) }, offered_capabilities: <Option<Multiple<Symbol>>>::arb(r), desired_capabilities: <Option<Multiple<Symbol>>>::arb(r), properties: <Option<Map<Symbol, Variant>>>::arb(r) })) }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Begin {
    const CODE: u64 = 0x11;
    const NAME: &'static str = "amqp:begin:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.0.remote_channel.ast(), def: None, mand: false },
        Fld { v: self.0.next_outgoing_id.ast(), def: None, mand: true },
        Fld { v: self.0.incoming_window.ast(), def: None, mand: true },
        Fld { v: self.0.outgoing_window.ast(), def: None, mand: true },
        Fld { v: self.0.handle_max.ast(), def: Some((4294967295u32).ast()), mand: false },
        Fld { v: self.0.offered_capabilities.ast(), def: None, mand: false },
        Fld { v: self.0.desired_capabilities.ast(), def: None, mand: false },
        Fld { v: self.0.properties.ast(), def: None, mand: false }] }
}
impl Gen for Attach {
    fn arb(r: &mut Rng) -> Self { Attach(Box::new(AttachInner { name: <ByteString>::arb(r), handle: <u32>::arb(r), role: <Role>::arb(r), snd_settle_mode: if r.bool() { SenderSettleMode::Mixed } else { <SenderSettleMode>::arb(r) }, rcv_settle_mode: if r.bool() { ReceiverSettleMode::First } else { <ReceiverSettleMode>::arb(r) }, source: <Option<Source>>::arb(r), target: <Option<Target>>::arb(r), unsettled: <Option<Map<Variant, Variant>>>::arb(r), incomplete_unsettled: if r.bool() { false } else { <bool>::arb(r) }, initial_delivery_count: <Option<u32>>::arb(r), max_message_size: <Option<u64>>::arb(r), offered_capabilities: <Option<Multiple<Symbol>>>::arb(r), desired_capabilities: <Option<Multiple<Symbol>>>::arb(r), properties: <Option<Map<Symbol, Variant>>>::arb(r) })) }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Attach {
    const CODE: u64 = 0x12;
    const NAME: &'static str = "amqp:attach:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.0.name.ast(), def: None, mand: true },
        Fld { v: self.0.handle.ast(), def: None, mand: true },
        Fld { v: self.0.role.ast(), def: None, mand: true },
        Fld { v: self.0.snd_settle_mode.ast(), def: Some((SenderSettleMode::Mixed).ast()), mand: false },
        Fld { v: self.0.rcv_settle_mode.ast(), def: Some((ReceiverSettleMode::First).ast()), mand: false },
        Fld { v: self.0.source.ast(), def: None, mand: false },
        Fld { v: self.0.target.ast(), def: None, mand: false },
        Fld { v: self.0.unsettled.ast(), def: None, mand: false },
        Fld { v: self.0.incomplete_unsettled.ast(), def: Some((false).ast()), mand: false },
        Fld { v: self.0.initial_delivery_count.ast(), def: None, mand: false },
        Fld { v: self.0.max_message_size.ast(), def: None, mand: false },
        Fld { v: self.0.offered_capabilities.ast(), def: None, mand: false },
        Fld { v: self.0.desired_capabilities.ast(), def: None, mand: false },
        Fld { v: self.0.properties.ast(), def: None, mand: false }] }
}
impl Gen for Flow {
    fn arb(r: &mut Rng) -> Self { Flow(Box::new(FlowInner { next_incoming_id: <Option<u32>>::arb(r), incoming_window: <u32>::arb(r), next_outgoing_id: <u32>::arb(r), outgoing_window: <u32>::arb(r), handle: <Option<u32>>::arb(r), delivery_count: <Option<u32>>::arb(r), link_credit: <Option<u32>>::arb(r), available: <Option<u32>>::arb(r), drain: if r.bool() { false } else { <bool>::arb(r) }, echo: if r.bool() { false } else { <bool>::arb(r) }, properties: <Option<Map<Symbol, Variant>>>::arb(r) })) }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Flow {
    const CODE: u64 = 0x13;
    const NAME: &'static str = "amqp:flow:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.0.next_incoming_id.ast(), def: None, mand: false },
        Fld { v: self.0.incoming_window.ast(), def: None, mand: true },
        Fld { v: self.0.next_outgoing_id.ast(), def: None, mand: true },
        Fld { v: self.0.outgoing_window.ast(), def: None, mand: true },
        Fld { v: self.0.handle.ast(), def: None, mand: false },
        Fld { v: self.0.delivery_count.ast(), def: None, mand: false },
        Fld { v: self.0.link_credit.ast(), def: None, mand: false },
        Fld { v: self.0.available.ast(), def: None, mand: false },
        Fld { v: self.0.drain.ast(), def: Some((false).ast()), mand: false },
        Fld { v: self.0.echo.ast(), def: Some((false).ast()), mand: false },
        Fld { v: self.0.properties.ast(), def: None, mand: false }] }
}
impl Gen for Transfer {
    fn arb(r: &mut Rng) -> Self { Transfer(Box::new(TransferInner { handle: <u32>::arb(r), delivery_id: <Option<u32>>::arb(r), delivery_tag: <Option<Bytes>>::arb(r), message_format: <Option<u32>>::arb(r), settled: <Option<bool>>::arb(r), more: if r.bool() { false } else { <bool>::arb(r) }, rcv_settle_mode: <Option<ReceiverSettleMode>>::arb(r), state: <Option<DeliveryState>>::arb(r), resume: if r.bool() { false } else { <bool>::arb(r) }, aborted: if r.bool() { false } else { <bool>::arb(r) }, batchable: if r.bool() { false } else { <bool>::arb(r) }, body: body(r) })) }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Transfer {
    const CODE: u64 = 0x14;
    const NAME: &'static str = "amqp:transfer:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.0.handle.ast(), def: None, mand: true },
        Fld { v: self.0.delivery_id.ast(), def: None, mand: false },
        Fld { v: self.0.delivery_tag.ast(), def: None, mand: false },
        Fld { v: self.0.message_format.ast(), def: None, mand: false },
        Fld { v: self.0.settled.ast(), def: None, mand: false },
        Fld { v: self.0.more.ast(), def: Some((false).ast()), mand: false },
        Fld { v: self.0.rcv_settle_mode.ast(), def: None, mand: false },
        Fld { v: self.0.state.ast(), def: None, mand: false },
        Fld { v: self.0.resume.ast(), def: Some((false).ast()), mand: false },
        Fld { v: self.0.aborted.ast(), def: Some((false).ast()), mand: false },
        Fld { v: self.0.batchable.ast(), def: Some((false).ast()), mand: false }] }
    fn tail(&self) -> Vec<u8> { match &self.0.body { Some(TransferBody::Data(b)) => b.to_vec(), Some(TransferBody::Message(m)) => crate::encode(m), None => vec![] } }
}
impl Gen for Disposition {
    fn arb(r: &mut Rng) -> Self { Disposition(Box::new(DispositionInner { role: <Role>::arb(r), first: <u32>::arb(r), last: <Option<u32>>::arb(r), settled: if r.bool() { false } else { <bool>::arb(r) }, state: <Option<DeliveryState>>::arb(r), batchable: if r.bool() { false } else { <bool>::arb(r) } })) }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Disposition {
    const CODE: u64 = 0x15;
    const NAME: &'static str = "amqp:disposition:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.0.role.ast(), def: None, mand: true },
        Fld { v: self.0.first.ast(), def: None, mand: true },
        Fld { v: self.0.last.ast(), def: None, mand: false },
        Fld { v: self.0.settled.ast(), def: Some((false).ast()), mand: false },
        Fld { v: self.0.state.ast(), def: None, mand: false },
        Fld { v: self.0.batchable.ast(), def: Some((false).ast()), mand: false }] }
}
impl Gen for Detach {
    fn arb(r: &mut Rng) -> Self { Detach(Box::new(DetachInner { handle: <u32>::arb(r), closed: if r.bool() { false } else { <bool>::arb(r) }, error: <Option<Error>>::arb(r) })) }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Detach {
    const CODE: u64 = 0x16;
    const NAME: &'static str = "amqp:detach:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.0.handle.ast(), def: None, mand: true },
        Fld { v: self.0.closed.ast(), def: Some((false).ast()), mand: false },
        Fld { v: self.0.error.ast(), def: None, mand: false }] }
}
impl Gen for End {
    fn arb(r: &mut Rng) -> Self { End { error: <Option<Error>>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for End {
    const CODE: u64 = 0x17;
    const NAME: &'static str = "amqp:end:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.error.ast(), def: None, mand: false }] }
}
impl Gen for Close {
    fn arb(r: &mut Rng) -> Self { Close { error: <Option<Error>>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Close {
    const CODE: u64 = 0x18;
    const NAME: &'static str = "amqp:close:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.error.ast(), def: None, mand: false }] }
}
impl Gen for SaslMechanisms {
    fn arb(r: &mut Rng) -> Self { SaslMechanisms { sasl_server_mechanisms: <Multiple<Symbol>>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for SaslMechanisms {
    const CODE: u64 = 0x40;
    const NAME: &'static str = "amqp:sasl-mechanisms:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.sasl_server_mechanisms.ast(), def: None, mand: true }] }
}
impl Gen for SaslInit {
    fn arb(r: &mut Rng) -> Self { SaslInit { mechanism: <Symbol>::arb(r), initial_response: <Option<Bytes>>::arb(r), hostname: <Option<ByteString>>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for SaslInit {
    const CODE: u64 = 0x41;
    const NAME: &'static str = "amqp:sasl-init:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.mechanism.ast(), def: None, mand: true },
        Fld { v: self.initial_response.ast(), def: None, mand: false },
        Fld { v: self.hostname.ast(), def: None, mand: false }] }
}
impl Gen for SaslChallenge {
    fn arb(r: &mut Rng) -> Self { SaslChallenge { challenge: <Bytes>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for SaslChallenge {
    const CODE: u64 = 0x42;
    const NAME: &'static str = "amqp:sasl-challenge:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.challenge.ast(), def: None, mand: true }] }
}
impl Gen for SaslResponse {
    fn arb(r: &mut Rng) -> Self { SaslResponse { response: <Bytes>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for SaslResponse {
    const CODE: u64 = 0x43;
    const NAME: &'static str = "amqp:sasl-response:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.response.ast(), def: None, mand: true }] }
}
impl Gen for SaslOutcome {
    fn arb(r: &mut Rng) -> Self { SaslOutcome { code: <SaslCode>::arb(r), additional_data: <Option<Bytes>>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for SaslOutcome {
    const CODE: u64 = 0x44;
    const NAME: &'static str = "amqp:sasl-outcome:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.code.ast(), def: None, mand: true },
        Fld { v: self.additional_data.ast(), def: None, mand: false }] }
}
impl Gen for Source {
    fn arb(r: &mut Rng) -> Self { Source { address: <Option<ByteString>>::arb(r), durable: if r.bool() { TerminusDurability::None } else { <TerminusDurability>::arb(r) }, expiry_policy: if r.bool() { TerminusExpiryPolicy::SessionEnd } else { <TerminusExpiryPolicy>::arb(r) }, timeout: if r.bool() { 0u32 } else { <u32>::arb(r) }, dynamic: if r.bool() { false } else { <bool>::arb(r) }, dynamic_node_properties: <Option<Map<Symbol, Variant>>>::arb(r), distribution_mode: <Option<DistributionMode>>::arb(r), filter: <Option<Map<Symbol, Option<ByteString>>>>::arb(r), default_outcome: <Option<Outcome>>::arb(r), outcomes: <Option<Multiple<Symbol>>>::arb(r), capabilities: <Option<Multiple<Symbol>>>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Source {
    const CODE: u64 = 0x28;
    const NAME: &'static str = "amqp:source:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.address.ast(), def: None, mand: false },
        Fld { v: self.durable.ast(), def: Some((TerminusDurability::None).ast()), mand: false },
        Fld { v: self.expiry_policy.ast(), def: Some((TerminusExpiryPolicy::SessionEnd).ast()), mand: false },
        Fld { v: self.timeout.ast(), def: Some((0u32).ast()), mand: false },
        Fld { v: self.dynamic.ast(), def: Some((false).ast()), mand: false },
        Fld { v: self.dynamic_node_properties.ast(), def: None, mand: false },
        Fld { v: self.distribution_mode.ast(), def: None, mand: false },
        Fld { v: self.filter.ast(), def: None, mand: false },
        Fld { v: self.default_outcome.ast(), def: None, mand: false },
        Fld { v: self.outcomes.ast(), def: None, mand: false },
        Fld { v: self.capabilities.ast(), def: None, mand: false }] }
}
impl Gen for Target {
    fn arb(r: &mut Rng) -> Self { Target { address: <Option<ByteString>>::arb(r), durable: if r.bool() { TerminusDurability::None } else { <TerminusDurability>::arb(r) }, expiry_policy: if r.bool() { TerminusExpiryPolicy::SessionEnd } else { <TerminusExpiryPolicy>::arb(r) }, timeout: if r.bool() { 0u32 } else { <u32>::arb(r) }, dynamic: if r.bool() { false } else { <bool>::arb(r) }, dynamic_node_properties: <Option<Map<Symbol, Variant>>>::arb(r), capabilities: <Option<Multiple<Symbol>>>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Target {
    const CODE: u64 = 0x29;
    const NAME: &'static str = "amqp:target:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.address.ast(), def: None, mand: false },
        Fld { v: self.durable.ast(), def: Some((TerminusDurability::None).ast()), mand: false },
        Fld { v: self.expiry_policy.ast(), def: Some((TerminusExpiryPolicy::SessionEnd).ast()), mand: false },
        Fld { v: self.timeout.ast(), def: Some((0u32).ast()), mand: false },
        Fld { v: self.dynamic.ast(), def: Some((false).ast()), mand: false },
        Fld { v: self.dynamic_node_properties.ast(), def: None, mand: false },
        Fld { v: self.capabilities.ast(), def: None, mand: false }] }
}
impl Gen for Header {
    fn arb(r: &mut Rng) -> Self { Header { durable: if r.bool() { false } else { <bool>::arb(r) }, priority: if r.bool() { 4u8 } else { <u8>::arb(r) }, ttl: <Option<u32>>::arb(r), first_acquirer: if r.bool() { false } else { <bool>::arb(r) }, delivery_count: if r.bool() { 0u32 } else { <u32>::arb(r) } } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Header {
    const CODE: u64 = 0x70;
    const NAME: &'static str = "amqp:header:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.durable.ast(), def: Some((false).ast()), mand: false },
        Fld { v: self.priority.ast(), def: Some((4u8).ast()), mand: false },
        Fld { v: self.ttl.ast(), def: None, mand: false },
        Fld { v: self.first_acquirer.ast(), def: Some((false).ast()), mand: false },
        Fld { v: self.delivery_count.ast(), def: Some((0u32).ast()), mand: false }] }
}
impl Gen for Properties {
    fn arb(r: &mut Rng) -> Self { Properties { message_id: <Option<MessageId>>::arb(r), user_id: <Option<Bytes>>::arb(r), to: <Option<ByteString>>::arb(r), subject: <Option<ByteString>>::arb(r), reply_to: <Option<ByteString>>::arb(r), correlation_id: <Option<MessageId>>::arb(r), content_type: <Option<Symbol>>::arb(r), content_encoding: <Option<Symbol>>::arb(r), absolute_expiry_time: <Option<DateTime<Utc>>>::arb(r), creation_time: <Option<DateTime<Utc>>>::arb(r), group_id: <Option<ByteString>>::arb(r), group_sequence: <Option<u32>>::arb(r), reply_to_group_id: <Option<ByteString>>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Properties {
    const CODE: u64 = 0x73;
    const NAME: &'static str = "amqp:properties:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.message_id.ast(), def: None, mand: false },
        Fld { v: self.user_id.ast(), def: None, mand: false },
        Fld { v: self.to.ast(), def: None, mand: false },
        Fld { v: self.subject.ast(), def: None, mand: false },
        Fld { v: self.reply_to.ast(), def: None, mand: false },
        Fld { v: self.correlation_id.ast(), def: None, mand: false },
        Fld { v: self.content_type.ast(), def: None, mand: false },
        Fld { v: self.content_encoding.ast(), def: None, mand: false },
        Fld { v: self.absolute_expiry_time.ast(), def: None, mand: false },
        Fld { v: self.creation_time.ast(), def: None, mand: false },
        Fld { v: self.group_id.ast(), def: None, mand: false },
        Fld { v: self.group_sequence.ast(), def: None, mand: false },
        Fld { v: self.reply_to_group_id.ast(), def: None, mand: false }] }
}
impl Gen for Received {
    fn arb(r: &mut Rng) -> Self { Received { section_number: <u32>::arb(r), section_offset: <u64>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Received {
    const CODE: u64 = 0x23;
    const NAME: &'static str = "amqp:received:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.section_number.ast(), def: None, mand: true },
        Fld { v: self.section_offset.ast(), def: None, mand: true }] }
}
impl Gen for Accepted {
    fn arb(r: &mut Rng) -> Self { Accepted {  } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Accepted {
    const CODE: u64 = 0x24;
    const NAME: &'static str = "amqp:accepted:list";
    fn fields(&self) -> Vec<Fld> { vec![] }
}
impl Gen for Rejected {
    fn arb(r: &mut Rng) -> Self { Rejected { error: <Option<Error>>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Rejected {
    const CODE: u64 = 0x25;
    const NAME: &'static str = "amqp:rejected:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.error.ast(), def: None, mand: false }] }
}
impl Gen for Released {
    fn arb(r: &mut Rng) -> Self { Released {  } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Released {
    const CODE: u64 = 0x26;
    const NAME: &'static str = "amqp:released:list";
    fn fields(&self) -> Vec<Fld> { vec![] }
}
impl Gen for Modified {
    fn arb(r: &mut Rng) -> Self { Modified { delivery_failed: <Option<bool>>::arb(r), undeliverable_here: <Option<bool>>::arb(r), message_annotations: <Option<VecSymbolMap>>::arb(r) } }
    fn ast(&self) -> V { comp_ast(self) }
}
impl Comp for Modified {
    const CODE: u64 = 0x27;
    const NAME: &'static str = "amqp:modified:list";
    fn fields(&self) -> Vec<Fld> { vec![Fld { v: self.delivery_failed.ast(), def: None, mand: false },
        Fld { v: self.undeliverable_here.ast(), def: None, mand: false },
        Fld { v: self.message_annotations.ast(), def: None, mand: false }] }
}
/// call $m!(Type) for every composite type

macro_rules! each_comp { ($m:ident, $n:expr) => { match $n { 0 => $m!(Error), 1 => $m!(Open), 2 => $m!(Begin), 3 => $m!(Attach), 4 => $m!(Flow), 5 => $m!(Transfer), 6 => $m!(Disposition), 7 => $m!(Detach), 8 => $m!(End), 9 => $m!(Close), 10 => $m!(SaslMechanisms), 11 => $m!(SaslInit), 12 => $m!(SaslChallenge), 13 => $m!(SaslResponse), 14 => $m!(SaslOutcome), 15 => $m!(Source), 16 => $m!(Target), 17 => $m!(Header), 18 => $m!(Properties), 19 => $m!(Received), 20 => $m!(Accepted), 21 => $m!(Rejected), 22 => $m!(Released), 23 => $m!(Modified), _ => unreachable!() } } }
pub const NCOMP: usize = 24;
