#[derive(Debug, Clone, Default)]
pub struct RelyingParty {
    pub id: String,
    pub name: Option<String>,
}
#[derive(Debug, Clone, Eq, PartialEq, Default)]
pub struct PublicKeyCredentialUserEntity {
    pub id: Vec<u8>,
    pub name: Option<String>,
    pub display_name: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct PublicKeyCredentialParameters {
    pub alg: crate::crypto::COSEAlgorithm,
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Transport {
    USB,
    NFC,
    BLE,
    Internal,
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct PublicKeyCredentialDescriptor {
    pub id: Vec<u8>,
    pub transports: Vec<Transport>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ResidentKeyRequirement {
    Discouraged,
    Preferred,
    Required,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum UserVerificationRequirement {
    Discouraged,
    Preferred,
    Required,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum AuthenticatorAttachment {
    CrossPlatform,
    Platform,
    Unknown,
}
#[derive(Debug, Clone, Default)]
pub struct AuthenticationExtensionsClientInputs {
    pub app_id: Option<String>,
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct RpIdHash(pub [u8; 32]);
