//! A model of security keys behind the interface of the `authenticator` crate, version 0.4.1: a
//! token with credentials, and a log of what it was asked. The harness chooses where a request
//! fails. A token signs what the CTAP2 standard says it signs, with the ideal signatures of
//! `vrt`, and answers from a thread of its own.
#![allow(static_mut_refs)]
pub mod authenticatorservice;
pub mod crypto;
pub mod ctap2;
pub mod errors;
pub mod model;
pub mod statecallback;

use ctap2::attestation::{AttestationObject, AuthenticatorData};
use ctap2::server::{AuthenticatorAttachment, PublicKeyCredentialDescriptor, PublicKeyCredentialUserEntity};
use std::fmt;
use std::sync::mpsc::Sender;

pub type Result<T> = std::result::Result<T, errors::AuthenticatorError>;

#[derive(Clone)]
pub struct Pin(String);
impl fmt::Debug for Pin {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Pin(redacted)")
    }
}
impl Pin {
    pub fn new(value: &str) -> Pin {
        Pin(String::from(value))
    }
    pub fn as_bytes(&self) -> &[u8] {
        self.0.as_bytes()
    }
}

#[derive(Debug)]
pub enum StatusPinUv {
    PinRequired(Sender<Pin>),
    InvalidPin(Sender<Pin>, Option<u8>),
    PinIsTooShort,
    PinIsTooLong(usize),
    InvalidUv(Option<u8>),
    PinAuthBlocked,
    PinBlocked,
    PinNotSet,
    UvBlocked,
}
#[derive(Debug)]
pub enum InteractiveRequest {}
#[derive(Debug)]
pub enum StatusUpdate {
    PresenceRequired,
    PinUvError(StatusPinUv),
    SelectDeviceNotice,
    InteractiveManagement(()),
    SelectResultNotice(Sender<Option<usize>>, Vec<PublicKeyCredentialUserEntity>),
}

#[derive(Debug)]
pub struct Assertion {
    pub credentials: Option<PublicKeyCredentialDescriptor>,
    pub auth_data: AuthenticatorData,
    pub signature: Vec<u8>,
    pub user: Option<PublicKeyCredentialUserEntity>,
}
#[derive(Debug, Default)]
pub struct AuthenticationExtensionsClientOutputs {}
#[derive(Debug)]
pub struct SignResult {
    pub assertion: Assertion,
    pub attachment: AuthenticatorAttachment,
    pub extensions: AuthenticationExtensionsClientOutputs,
}
#[derive(Debug)]
pub struct RegisterResult {
    pub att_obj: AttestationObject,
    pub attachment: AuthenticatorAttachment,
    pub extensions: AuthenticationExtensionsClientOutputs,
}
