//! Certificates, written and parsed as yubikey 0.7.0 does it.
use crate::model::{device, op, Op};
use crate::piv::{sign_data, AlgorithmId, SlotId};
use crate::{Buffer, Error, Result, YubiKey};
use chrono::{DateTime, TimeZone, Utc};
use std::fmt;
use std::ops::DerefMut;
use x509::{der::Oid, RelativeDistinguishedName};
use x509_parser::{parse_x509_certificate, x509::SubjectPublicKeyInfo};

#[derive(Clone, Debug)]
pub struct Serial(Vec<u8>);
impl From<[u8; 20]> for Serial {
    fn from(bytes: [u8; 20]) -> Serial {
        Serial(bytes.to_vec())
    }
}
impl Serial {
    fn to_bytes(&self) -> Vec<u8> {
        // big-endian without leading zeros, one byte at least
        let mut i = 0;
        while i + 1 < self.0.len() && self.0[i] == 0 {
            i += 1;
        }
        self.0[i..].to_vec()
    }
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum CertInfo {
    Uncompressed,
    Gzip,
}

impl x509::AlgorithmIdentifier for AlgorithmId {
    type AlgorithmOid = &'static [u64];
    fn algorithm(&self) -> Self::AlgorithmOid {
        match self {
            AlgorithmId::Rsa1024 | AlgorithmId::Rsa2048 => &[1, 2, 840, 113_549, 1, 1, 1],
            AlgorithmId::EccP256 | AlgorithmId::EccP384 => &[1, 2, 840, 10045, 2, 1],
        }
    }
    fn parameters<W: std::io::Write>(&self, w: cookie_factory::WriteContext<W>) -> cookie_factory::GenResult<W> {
        use x509::der::write::der_oid;
        match self {
            AlgorithmId::EccP256 => der_oid(&[1, 2, 840, 10045, 3, 1, 7][..])(w),
            AlgorithmId::EccP384 => der_oid(&[1, 3, 132, 0, 34][..])(w),
            _ => Ok(w),
        }
    }
}

/// A SEC 1 encoded point.
#[derive(Clone, Eq, PartialEq, Debug)]
pub struct EcPoint(Vec<u8>);
impl EcPoint {
    pub fn from_bytes(b: &[u8], n: usize) -> Option<Self> {
        let ok = match b.first()? {
            0 => b.len() == 1,
            2 | 3 | 5 => b.len() == 1 + n,
            4 => b.len() == 1 + 2 * n,
            _ => false,
        };
        if ok {
            Some(EcPoint(b.to_vec()))
        } else {
            None
        }
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn to_bytes(&self) -> Box<[u8]> {
        self.0.clone().into_boxed_slice()
    }
}
impl AsRef<[u8]> for EcPoint {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
#[derive(Clone, Eq, PartialEq, Debug)]
pub struct RsaPublicKey(Vec<u8>);

#[derive(Clone, Eq, PartialEq)]
pub enum PublicKeyInfo {
    Rsa { algorithm: AlgorithmId, pubkey: RsaPublicKey },
    EcP256(EcPoint),
    EcP384(EcPoint),
}
impl fmt::Debug for PublicKeyInfo {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "PublicKeyInfo({:?})", self.algorithm())
    }
}
const RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1];
const EC: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
const P256: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7];
const P384: &[u8] = &[0x2b, 0x81, 4, 0, 34];
impl PublicKeyInfo {
    fn parse(subject_pki: &SubjectPublicKeyInfo<'_>) -> Result<Self> {
        let key: &[u8] = &subject_pki.subject_public_key.data;
        let alg = subject_pki.algorithm.algorithm.as_bytes();
        if alg == RSA {
            // 2048-bit keys only in this model
            return Ok(PublicKeyInfo::Rsa { algorithm: AlgorithmId::Rsa2048, pubkey: RsaPublicKey(key.to_vec()) });
        }
        if alg != EC {
            return Err(Error::InvalidObject);
        }
        let params = subject_pki.algorithm.parameters.as_ref().ok_or(Error::InvalidObject)?;
        let curve = params.as_oid().map_err(|_| Error::InvalidObject)?;
        if curve.as_bytes() == P256 {
            EcPoint::from_bytes(key, 32).map(PublicKeyInfo::EcP256).ok_or(Error::InvalidObject)
        } else if curve.as_bytes() == P384 {
            EcPoint::from_bytes(key, 48).map(PublicKeyInfo::EcP384).ok_or(Error::InvalidObject)
        } else {
            Err(Error::AlgorithmError)
        }
    }
    pub fn algorithm(&self) -> AlgorithmId {
        match self {
            PublicKeyInfo::Rsa { algorithm, .. } => *algorithm,
            PublicKeyInfo::EcP256(_) => AlgorithmId::EccP256,
            PublicKeyInfo::EcP384(_) => AlgorithmId::EccP384,
        }
    }
}
impl x509::SubjectPublicKeyInfo for PublicKeyInfo {
    type AlgorithmId = AlgorithmId;
    type SubjectPublicKey = Vec<u8>;
    fn algorithm_id(&self) -> AlgorithmId {
        self.algorithm()
    }
    fn public_key(&self) -> Vec<u8> {
        match self {
            PublicKeyInfo::Rsa { pubkey, .. } => pubkey.0.clone(),
            PublicKeyInfo::EcP256(pubkey) => pubkey.as_bytes().to_vec(),
            PublicKeyInfo::EcP384(pubkey) => pubkey.as_bytes().to_vec(),
        }
    }
}

struct EcdsaWithSha256;
impl x509::AlgorithmIdentifier for EcdsaWithSha256 {
    type AlgorithmOid = &'static [u64];
    fn algorithm(&self) -> Self::AlgorithmOid {
        &[1, 2, 840, 10045, 4, 3, 2]
    }
    fn parameters<W: std::io::Write>(&self, w: cookie_factory::WriteContext<W>) -> cookie_factory::GenResult<W> {
        Ok(w)
    }
}

#[derive(Clone, Debug)]
pub struct Certificate {
    issuer: String,
    subject: String,
    subject_pki: PublicKeyInfo,
    data: Buffer,
}
impl<'a> TryFrom<&'a [u8]> for Certificate {
    type Error = Error;
    fn try_from(bytes: &'a [u8]) -> Result<Self> {
        Self::from_bytes(bytes.to_vec())
    }
}
impl Certificate {
    pub fn generate_self_signed<O: Oid>(
        yubikey: &mut YubiKey,
        key: SlotId,
        serial: impl Into<Serial>,
        not_after: Option<DateTime<Utc>>,
        subject: &[RelativeDistinguishedName<'_>],
        subject_pki: PublicKeyInfo,
        extensions: &[x509::Extension<'_, O>],
    ) -> Result<Self> {
        let serial = serial.into();
        let mut tbs_cert = Buffer::new(Vec::with_capacity(3072));
        cookie_factory::gen(
            x509::write::tbs_certificate(
                &serial.to_bytes(),
                &EcdsaWithSha256,
                subject,
                Utc.with_ymd_and_hms(2024, 1, 2, 3, 4, 5).unwrap(),
                not_after,
                subject,
                &subject_pki,
                extensions,
            ),
            tbs_cert.deref_mut(),
        )
        .expect("can serialize to Vec");
        let hash = vrt::model_digest(256, &tbs_cert);
        let signature = sign_data(yubikey, &hash, subject_pki.algorithm(), key)?;
        let mut data = Buffer::new(Vec::with_capacity(3072));
        cookie_factory::gen(x509::write::certificate(&tbs_cert, &EcdsaWithSha256, &signature), data.deref_mut())
            .expect("can serialize to Vec");
        let cert = Self::from_bytes(data.to_vec())?;
        cert.write(yubikey, key, CertInfo::Uncompressed)?;
        Ok(cert)
    }
    pub fn read(_yubikey: &mut YubiKey, slot: SlotId) -> Result<Self> {
        op(Op::Read(slot))?;
        match device().certs.iter().find(|c| c.0 == slot) {
            Some(c) => Certificate::from_bytes(c.1.clone()),
            None => Err(Error::InvalidObject),
        }
    }
    pub fn write(&self, _yubikey: &mut YubiKey, slot: SlotId, certinfo: CertInfo) -> Result<()> {
        op(Op::Write(slot, self.data.to_vec(), certinfo))?;
        let d = device();
        d.certs.retain(|c| c.0 != slot);
        d.certs.push((slot, self.data.to_vec()));
        Ok(())
    }
    pub fn from_bytes(cert: impl Into<Buffer>) -> Result<Self> {
        let cert = cert.into();
        if cert.is_empty() {
            return Err(Error::SizeError);
        }
        let parsed = match parse_x509_certificate(&cert) {
            Ok((_, cert)) => cert,
            _ => return Err(Error::InvalidObject),
        };
        let issuer = parsed.tbs_certificate.issuer.to_string();
        let subject = parsed.tbs_certificate.subject.to_string();
        let subject_pki = PublicKeyInfo::parse(&parsed.tbs_certificate.subject_pki)?;
        Ok(Certificate { issuer, subject, subject_pki, data: cert })
    }
    pub fn issuer(&self) -> &str {
        &self.issuer
    }
    pub fn subject(&self) -> &str {
        &self.subject
    }
    pub fn subject_pki(&self) -> &PublicKeyInfo {
        &self.subject_pki
    }
    pub fn into_buffer(self) -> Buffer {
        self.data
    }
}
impl AsRef<[u8]> for Certificate {
    fn as_ref(&self) -> &[u8] {
        self.data.as_ref()
    }
}
