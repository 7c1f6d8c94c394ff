use crate::ctap2::server::*;
use crate::errors::AuthenticatorError;
use crate::model;
use crate::statecallback::StateCallback;
use crate::{Pin, RegisterResult, SignResult, StatusUpdate};
use std::sync::mpsc::Sender;

#[derive(Debug, Clone)]
pub struct RegisterArgs {
    pub client_data_hash: [u8; 32],
    pub relying_party: RelyingParty,
    pub origin: String,
    pub user: PublicKeyCredentialUserEntity,
    pub pub_cred_params: Vec<PublicKeyCredentialParameters>,
    pub exclude_list: Vec<PublicKeyCredentialDescriptor>,
    pub user_verification_req: UserVerificationRequirement,
    pub resident_key_req: ResidentKeyRequirement,
    pub extensions: AuthenticationExtensionsClientInputs,
    pub pin: Option<Pin>,
    pub use_ctap1_fallback: bool,
}
#[derive(Debug, Clone)]
pub struct SignArgs {
    pub client_data_hash: [u8; 32],
    pub origin: String,
    pub relying_party_id: String,
    pub allow_list: Vec<PublicKeyCredentialDescriptor>,
    pub user_verification_req: UserVerificationRequirement,
    pub user_presence_req: bool,
    pub extensions: AuthenticationExtensionsClientInputs,
    pub pin: Option<Pin>,
    pub use_ctap1_fallback: bool,
}
pub struct AuthenticatorService {
    transports: usize,
}
impl AuthenticatorService {
    pub fn new() -> crate::Result<Self> {
        if model::token().fail == model::Fail::Service {
            return Err(AuthenticatorError::Platform);
        }
        Ok(Self { transports: 0 })
    }
    pub fn add_detected_transports(&mut self) {
        self.add_u2f_usb_hid_platform_transports();
    }
    pub fn add_u2f_usb_hid_platform_transports(&mut self) {
        // a transport that cannot be set up is left out
        if model::token().fail != model::Fail::Transport {
            self.transports += 1;
        }
    }
    pub fn register(&mut self, _timeout: u64, args: RegisterArgs, status: Sender<StatusUpdate>, callback: StateCallback<crate::Result<RegisterResult>>) -> crate::Result<()> {
        if self.transports == 0 {
            return Err(AuthenticatorError::NoConfiguredTransports);
        }
        std::thread::spawn(move || model::register(args, status, callback));
        Ok(())
    }
    pub fn sign(&mut self, _timeout: u64, args: SignArgs, status: Sender<StatusUpdate>, callback: StateCallback<crate::Result<SignResult>>) -> crate::Result<()> {
        if self.transports == 0 {
            return Err(AuthenticatorError::NoConfiguredTransports);
        }
        std::thread::spawn(move || model::sign(args, status, callback));
        Ok(())
    }
    pub fn cancel(&mut self) -> crate::Result<()> {
        Ok(())
    }
}
