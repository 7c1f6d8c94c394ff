//! The token, and what it was asked.
use crate::authenticatorservice::{RegisterArgs, SignArgs};
use crate::crypto::COSEAlgorithm;
use crate::ctap2::attestation::*;
use crate::ctap2::server::{AuthenticatorAttachment, RpIdHash};
use crate::errors::{AuthenticatorError, PinError, U2FTokenError};
use crate::statecallback::StateCallback;
use crate::*;
use vrt::*;

/// Where a request fails.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Fail {
    No,
    /// the service cannot be created
    Service,
    /// there is no transport to ask
    Transport,
    /// the request ends without an answer
    Silent,
    /// a PIN is needed and was not given
    PinRequired,
    InvalidPin,
    PinAuthBlocked,
    PinBlocked,
    /// nobody touched the token, it was unplugged, ...
    Refused,
}
pub struct Credential {
    pub handle: Vec<u8>,
    pub rp: Vec<u8>,
    /// ED25519 or P256_SHA256
    pub alg: u8,
    pub public: Vec<u8>,
}
pub struct Token {
    pub fail: Fail,
    pub credentials: Vec<Credential>,
    /// PIN attempts left, when the token says
    pub attempts: Option<u8>,
    /// status updates sent before the answer
    pub presence: bool,
    pub flags: u8,
    pub counter: u32,
    /// what a signature is answered with instead of a signature
    pub answer: Option<Vec<u8>>,
    pub signs: Vec<SignArgs>,
    pub registers: Vec<RegisterArgs>,
    /// answer of a registration: data after the counter, the statement
    pub rest: Vec<u8>,
    pub rp_hash: Option<[u8; 32]>,
    pub statement: Option<AttestationStatement>,
}
static mut TOKEN: Token = Token {
    fail: Fail::Transport,
    credentials: Vec::new(),
    attempts: None,
    presence: false,
    flags: 0,
    counter: 0,
    answer: None,
    signs: Vec::new(),
    registers: Vec::new(),
    rest: Vec::new(),
    rp_hash: None,
    statement: None,
};
pub fn token() -> &'static mut Token {
    unsafe { &mut *core::ptr::addr_of_mut!(TOKEN) }
}
/// Tell the caller about trouble the way the crate does: a status update where there is one, then the error.
fn trouble(status: &Sender<StatusUpdate>) -> Option<AuthenticatorError> {
    let t = token();
    if t.presence {
        let _ = status.send(StatusUpdate::PresenceRequired);
    }
    let say = |s| {
        let _ = status.send(StatusUpdate::PinUvError(s));
    };
    let (tx, rx) = std::sync::mpsc::channel::<Pin>();
    Some(AuthenticatorError::PinError(match t.fail {
        Fail::PinRequired | Fail::InvalidPin => {
            say(if t.fail == Fail::PinRequired { StatusPinUv::PinRequired(tx) } else { StatusPinUv::InvalidPin(tx, t.attempts) });
            // wait for a PIN; whoever drops the sender gives up
            match rx.recv() {
                Err(_) => return Some(AuthenticatorError::CancelledByUser),
                Ok(_) => PinError::PinAuthBlocked,
            }
        }
        Fail::PinAuthBlocked => {
            say(StatusPinUv::PinAuthBlocked);
            PinError::PinAuthBlocked
        }
        Fail::PinBlocked => {
            say(StatusPinUv::PinBlocked);
            PinError::PinBlocked
        }
        Fail::Refused => return Some(AuthenticatorError::U2FToken(U2FTokenError::NotAllowed)),
        _ => return None,
    }))
}
fn hash(b: &[u8]) -> [u8; 32] {
    let h = model_digest(256, b);
    let mut o = [0u8; 32];
    o.copy_from_slice(&h);
    o
}
#[inline(never)]
pub fn sign(args: SignArgs, status: Sender<StatusUpdate>, callback: StateCallback<crate::Result<SignResult>>) {
    let t = token();
    t.signs.push(args.clone());
    if t.fail == Fail::Silent {
        return;
    }
    if let Some(e) = trouble(&status) {
        callback.call(Err(e));
        return;
    }
    let rp = args.relying_party_id.as_bytes();
    let mut found = None;
    for c in t.credentials.iter() {
        for a in args.allow_list.iter() {
            if eq(&c.handle, &a.id) && eq(&c.rp, rp) {
                found = Some(c);
            }
        }
    }
    let c = match found {
        Some(c) => c,
        None => {
            callback.call(Err(AuthenticatorError::U2FToken(U2FTokenError::NotAllowed)));
            return;
        }
    };
    let auth_data = AuthenticatorData { rp_id_hash: RpIdHash(hash(rp)), flags: AuthenticatorDataFlags(t.flags), counter: t.counter, rest: Vec::new() };
    let mut msg = auth_data.to_vec();
    msg.extend_from_slice(&args.client_data_hash);
    let (raw, out) = if c.alg == ED25519 {
        let s = bytes(64);
        (s.clone(), s)
    } else {
        let r = fresh_ecdsa(32);
        let d = ecdsa_der(&r);
        (r, d)
    };
    world().sign.push(SignCall { alg: c.alg, secret: Vec::new(), public: c.public.clone(), public_e: Vec::new(), msg, raw, out: out.clone() });
    let signature = match &t.answer {
        Some(a) => a.clone(),
        None => out,
    };
    callback.call(Ok(SignResult {
        assertion: Assertion { credentials: None, auth_data, signature, user: None },
        attachment: AuthenticatorAttachment::Unknown,
        extensions: Default::default(),
    }));
}
#[inline(never)]
pub fn register(args: RegisterArgs, status: Sender<StatusUpdate>, callback: StateCallback<crate::Result<RegisterResult>>) {
    let t = token();
    t.registers.push(args.clone());
    if t.fail == Fail::Silent {
        return;
    }
    if let Some(e) = trouble(&status) {
        callback.call(Err(e));
        return;
    }
    if !args.pub_cred_params.iter().any(|p| p.alg == COSEAlgorithm::EDDSA) {
        callback.call(Err(AuthenticatorError::UnsupportedOption(crate::errors::UnsupportedOption::PubCredParams)));
        return;
    }
    let rp = match t.rp_hash {
        Some(h) => h,
        None => hash(args.relying_party.id.as_bytes()),
    };
    let auth_data = AuthenticatorData { rp_id_hash: RpIdHash(rp), flags: AuthenticatorDataFlags(t.flags), counter: t.counter, rest: t.rest.clone() };
    callback.call(Ok(RegisterResult {
        att_obj: AttestationObject { auth_data, att_stmt: t.statement.take().unwrap_or(AttestationStatement::None) },
        attachment: AuthenticatorAttachment::Unknown,
        extensions: Default::default(),
    }));
}
