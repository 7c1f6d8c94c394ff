use super::server::RpIdHash;
use crate::crypto::COSEAlgorithm;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct AuthenticatorDataFlags(pub u8);
impl AuthenticatorDataFlags {
    pub fn bits(&self) -> u8 {
        self.0
    }
}
#[derive(Debug, PartialEq, Eq)]
pub struct AuthenticatorData {
    pub rp_id_hash: RpIdHash,
    pub flags: AuthenticatorDataFlags,
    pub counter: u32,
    /// attested credential data and extensions, encoded
    pub rest: Vec<u8>,
}
impl AuthenticatorData {
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = self.rp_id_hash.0.to_vec();
        v.push(self.flags.bits());
        v.extend_from_slice(&self.counter.to_be_bytes());
        v.extend_from_slice(&self.rest);
        v
    }
}
#[derive(Debug, PartialEq, Eq)]
pub struct AttestationCertificate(pub Vec<u8>);
impl AsRef<[u8]> for AttestationCertificate {
    fn as_ref(&self) -> &[u8] {
        self.0.as_ref()
    }
}
#[derive(Debug, PartialEq, Eq)]
pub struct Signature(pub Vec<u8>);
impl AsRef<[u8]> for Signature {
    fn as_ref(&self) -> &[u8] {
        self.0.as_ref()
    }
}
#[derive(Debug, PartialEq, Eq)]
pub struct AttestationStatementPacked {
    pub alg: COSEAlgorithm,
    pub sig: Signature,
    pub attestation_cert: Vec<AttestationCertificate>,
}
#[derive(Debug, PartialEq, Eq)]
pub struct AttestationStatementFidoU2F {
    pub sig: Signature,
    pub attestation_cert: Vec<AttestationCertificate>,
}
#[derive(Debug, PartialEq, Eq)]
pub enum AttestationStatement {
    None,
    Packed(AttestationStatementPacked),
    FidoU2F(AttestationStatementFidoU2F),
}
#[derive(Debug, PartialEq, Eq)]
pub struct AttestationObject {
    pub auth_data: AuthenticatorData,
    pub att_stmt: AttestationStatement,
}
