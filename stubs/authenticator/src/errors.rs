use std::fmt;

#[derive(Debug)]
pub enum PinError {
    PinRequired,
    PinIsTooShort,
    PinIsTooLong(usize),
    InvalidPin(Option<u8>),
    InvalidUv(Option<u8>),
    PinAuthBlocked,
    PinBlocked,
    PinNotSet,
    UvBlocked,
    PinAuthInvalid,
}
impl fmt::Display for PinError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(match self {
            PinError::PinRequired => "Pin required.",
            PinError::PinIsTooShort => "pin is too short",
            PinError::PinIsTooLong(_) => "pin is too long",
            PinError::InvalidPin(_) => "Invalid Pin.",
            PinError::InvalidUv(_) => "Invalid Uv.",
            PinError::PinAuthBlocked => "Pin authentication blocked. Device needs power cycle",
            PinError::PinBlocked => "No retries left. Pin blocked. Device needs reset",
            PinError::PinNotSet => "Pin needed but not set on device.",
            PinError::UvBlocked => "No retries left. Uv blocked. Device needs reset",
            PinError::PinAuthInvalid => "PinAuth invalid.",
        })
    }
}
impl std::error::Error for PinError {}
#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum U2FTokenError {
    Unknown = 1,
    NotSupported = 2,
    InvalidState = 3,
    ConstraintError = 4,
    NotAllowed = 5,
}
#[derive(Debug)]
pub enum UnsupportedOption {
    CredProtect,
    EmptyAllowList,
    MaxPinLength,
    PubCredParams,
    ResidentKey,
    UserVerification,
}
#[derive(Debug)]
pub enum AuthenticatorError {
    Io(std::io::Error),
    InvalidRelyingPartyInput,
    NoConfiguredTransports,
    Platform,
    InternalError(String),
    U2FToken(U2FTokenError),
    Custom(String),
    VersionMismatch(&'static str, u32),
    HIDError(String),
    CryptoError,
    PinError(PinError),
    UnsupportedOption(UnsupportedOption),
    CancelledByUser,
    CredentialExcluded,
}
impl std::error::Error for AuthenticatorError {}
impl fmt::Display for AuthenticatorError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            AuthenticatorError::PinError(e) => {
                f.write_str("PIN Error: ")?;
                fmt::Display::fmt(e, f)
            }
            AuthenticatorError::NoConfiguredTransports => f.write_str("no transports were configured in the authenticator service"),
            AuthenticatorError::U2FToken(_) => f.write_str("A u2f token error occurred"),
            AuthenticatorError::CancelledByUser => f.write_str("Cancelled by user."),
            AuthenticatorError::CredentialExcluded => f.write_str("Credential excluded."),
            AuthenticatorError::CryptoError => f.write_str("The cryptography implementation encountered an error"),
            _ => f.write_str("unknown platform error"),
        }
    }
}
