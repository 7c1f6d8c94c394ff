//! Model of the parts of `ring` that sshcerts (and x509-parser / rcgen) use. See vrt.
#![allow(non_upper_case_globals, clippy::all)]
pub mod error {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Unspecified;
    impl core::fmt::Display for Unspecified {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("ring::error::Unspecified")
        }
    }
    impl std::error::Error for Unspecified {}
    #[derive(Clone, Copy, Debug)]
    pub struct KeyRejected(pub(crate) &'static str);
    impl core::fmt::Display for KeyRejected {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str(self.0)
        }
    }
    impl std::error::Error for KeyRejected {}
    impl From<KeyRejected> for Unspecified {
        fn from(_: KeyRejected) -> Self {
            Unspecified
        }
    }
}

pub mod digest {
    #[derive(Debug)]
    pub struct Algorithm {
        pub(crate) bits: u16,
    }
    impl PartialEq for Algorithm {
        fn eq(&self, o: &Self) -> bool {
            self.bits == o.bits
        }
    }
    impl Eq for Algorithm {}
    impl Algorithm {
        pub fn output_len(&self) -> usize {
            self.bits as usize / 8
        }
        pub fn block_len(&self) -> usize {
            if self.bits > 256 { 128 } else { 64 }
        }
    }
    pub static SHA1_FOR_LEGACY_USE_ONLY: Algorithm = Algorithm { bits: 160 };
    pub static SHA256: Algorithm = Algorithm { bits: 256 };
    pub static SHA384: Algorithm = Algorithm { bits: 384 };
    pub static SHA512: Algorithm = Algorithm { bits: 512 };
    pub const SHA256_OUTPUT_LEN: usize = 32;
    pub const SHA384_OUTPUT_LEN: usize = 48;
    pub const SHA512_OUTPUT_LEN: usize = 64;
    pub const MAX_OUTPUT_LEN: usize = 64;

    #[derive(Clone, Copy)]
    pub struct Digest {
        v: [u8; 64],
        n: usize,
        alg: &'static Algorithm,
    }
    impl Digest {
        pub fn algorithm(&self) -> &'static Algorithm {
            self.alg
        }
    }
    impl AsRef<[u8]> for Digest {
        fn as_ref(&self) -> &[u8] {
            &self.v[..self.n]
        }
    }
    impl core::fmt::Debug for Digest {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("Digest")
        }
    }
    pub fn digest(algorithm: &'static Algorithm, data: &[u8]) -> Digest {
        let out = vrt::model_digest(algorithm.bits, data);
        let mut v = [0u8; 64];
        v[..out.len()].copy_from_slice(&out);
        Digest { v, n: out.len(), alg: algorithm }
    }
    #[derive(Clone)]
    pub struct Context {
        alg: &'static Algorithm,
        data: Vec<u8>,
    }
    impl Context {
        pub fn new(algorithm: &'static Algorithm) -> Self {
            Context { alg: algorithm, data: Vec::new() }
        }
        pub fn update(&mut self, data: &[u8]) {
            self.data.extend_from_slice(data);
        }
        pub fn finish(self) -> Digest {
            digest(self.alg, &self.data)
        }
        pub fn algorithm(&self) -> &'static Algorithm {
            self.alg
        }
    }
}

pub mod rand {
    use crate::error::Unspecified;
    pub trait SecureRandom {
        fn fill(&self, dest: &mut [u8]) -> Result<(), Unspecified>;
    }
    #[derive(Clone, Debug, Default)]
    pub struct SystemRandom(());
    impl SystemRandom {
        pub fn new() -> Self {
            SystemRandom(())
        }
    }
    impl SecureRandom for SystemRandom {
        fn fill(&self, dest: &mut [u8]) -> Result<(), Unspecified> {
            if vrt::model_rand(dest) { Ok(()) } else { Err(Unspecified) }
        }
    }
    pub trait RandomlyConstructable: Sized {
        fn zero() -> Self;
        fn as_mut_bytes(&mut self) -> &mut [u8];
    }
    impl<const N: usize> RandomlyConstructable for [u8; N] {
        fn zero() -> Self {
            [0; N]
        }
        fn as_mut_bytes(&mut self) -> &mut [u8] {
            &mut self[..]
        }
    }
    pub struct Random<T: RandomlyConstructable>(T);
    impl<T: RandomlyConstructable> Random<T> {
        pub fn expose(self) -> T {
            self.0
        }
    }
    pub fn generate<T: RandomlyConstructable>(rng: &dyn SecureRandom) -> Result<Random<T>, Unspecified> {
        let mut r = T::zero();
        rng.fill(r.as_mut_bytes())?;
        Ok(Random(r))
    }
}

pub mod pkcs8 {
    pub struct Document(pub(crate) Vec<u8>);
    impl AsRef<[u8]> for Document {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
}

pub mod io {
    pub struct Positive(Vec<u8>);
    impl Positive {
        pub fn big_endian_without_leading_zero(&self) -> &[u8] {
            &self.0
        }
    }
}

pub mod constant_time {
    pub fn verify_slices_are_equal(a: &[u8], b: &[u8]) -> Result<(), crate::error::Unspecified> {
        if vrt::eq(a, b) { Ok(()) } else { Err(crate::error::Unspecified) }
    }
}

pub mod signature {
    use crate::error::{KeyRejected, Unspecified};
    use crate::rand::SecureRandom;

    #[derive(Clone, Copy)]
    pub struct Signature {
        v: [u8; 160],
        n: usize,
    }
    impl Signature {
        fn from(b: &[u8]) -> Self {
            let mut v = [0u8; 160];
            v[..b.len()].copy_from_slice(b);
            Signature { v, n: b.len() }
        }
    }
    impl AsRef<[u8]> for Signature {
        fn as_ref(&self) -> &[u8] {
            &self.v[..self.n]
        }
    }

    pub trait KeyPair: Sized + Send + Sync {
        type PublicKey: AsRef<[u8]> + Clone + Sized + Send + Sync;
        fn public_key(&self) -> &Self::PublicKey;
    }

    pub trait VerificationAlgorithm: Sync {
        fn model_id(&self) -> u8;
    }
    #[derive(Debug, PartialEq, Eq)]
    pub struct EdDSAParameters;
    impl VerificationAlgorithm for EdDSAParameters {
        fn model_id(&self) -> u8 {
            vrt::ED25519
        }
    }
    #[derive(Debug, PartialEq, Eq)]
    pub struct EcdsaVerificationAlgorithm(u8);
    impl VerificationAlgorithm for EcdsaVerificationAlgorithm {
        fn model_id(&self) -> u8 {
            self.0
        }
    }
    #[derive(Debug)]
    pub struct RsaParameters(u8);
    impl VerificationAlgorithm for RsaParameters {
        fn model_id(&self) -> u8 {
            self.0
        }
    }
    pub static ED25519: EdDSAParameters = EdDSAParameters;
    pub static ECDSA_P256_SHA256_FIXED: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm(vrt::P256_SHA256);
    pub static ECDSA_P384_SHA384_FIXED: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm(vrt::P384_SHA384);
    pub static ECDSA_P256_SHA256_ASN1: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm(vrt::P256_SHA256 | vrt::ASN1);
    pub static ECDSA_P256_SHA384_ASN1: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm(vrt::P256_SHA384 | vrt::ASN1);
    pub static ECDSA_P384_SHA256_ASN1: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm(vrt::P384_SHA256 | vrt::ASN1);
    pub static ECDSA_P384_SHA384_ASN1: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm(vrt::P384_SHA384 | vrt::ASN1);
    pub static RSA_PKCS1_1024_8192_SHA1_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters(vrt::RSA_SHA1 | vrt::RSA1024);
    pub static RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters(vrt::RSA_SHA256 | vrt::RSA1024);
    pub static RSA_PKCS1_1024_8192_SHA512_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters(vrt::RSA_SHA512 | vrt::RSA1024);
    pub static RSA_PKCS1_2048_8192_SHA1_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters(vrt::RSA_SHA1);
    pub static RSA_PKCS1_2048_8192_SHA256: RsaParameters = RsaParameters(vrt::RSA_SHA256);
    pub static RSA_PKCS1_2048_8192_SHA384: RsaParameters = RsaParameters(vrt::RSA_SHA384);
    pub static RSA_PKCS1_2048_8192_SHA512: RsaParameters = RsaParameters(vrt::RSA_SHA512);
    pub static RSA_PKCS1_3072_8192_SHA384: RsaParameters = RsaParameters(vrt::RSA_SHA384);
    pub static RSA_PSS_2048_8192_SHA256: RsaParameters = RsaParameters(vrt::RSA_PSS_SHA256);
    pub static RSA_PSS_2048_8192_SHA384: RsaParameters = RsaParameters(vrt::RSA_PSS_SHA384);
    pub static RSA_PSS_2048_8192_SHA512: RsaParameters = RsaParameters(vrt::RSA_PSS_SHA512);

    #[derive(Clone, Copy)]
    pub struct UnparsedPublicKey<B> {
        algorithm: &'static dyn VerificationAlgorithm,
        bytes: B,
    }
    impl<B: AsRef<[u8]>> UnparsedPublicKey<B> {
        pub fn new(algorithm: &'static dyn VerificationAlgorithm, bytes: B) -> Self {
            UnparsedPublicKey { algorithm, bytes }
        }
        pub fn verify(&self, message: &[u8], signature: &[u8]) -> Result<(), Unspecified> {
            if vrt::model_verify(self.algorithm.model_id(), self.bytes.as_ref(), &[], message, signature) {
                Ok(())
            } else {
                Err(Unspecified)
            }
        }
    }
    impl<B: AsRef<[u8]>> AsRef<[u8]> for UnparsedPublicKey<B> {
        fn as_ref(&self) -> &[u8] {
            self.bytes.as_ref()
        }
    }
    impl<B> core::fmt::Debug for UnparsedPublicKey<B> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("UnparsedPublicKey")
        }
    }

    #[derive(Clone, Debug)]
    pub struct RsaPublicKeyComponents<B> {
        pub n: B,
        pub e: B,
    }
    impl<B: AsRef<[u8]>> RsaPublicKeyComponents<B> {
        pub fn verify(&self, params: &RsaParameters, message: &[u8], signature: &[u8]) -> Result<(), Unspecified> {
            if vrt::model_verify(params.0, self.n.as_ref(), self.e.as_ref(), message, signature) {
                Ok(())
            } else {
                Err(Unspecified)
            }
        }
    }

    // ---- Ed25519 ----
    #[derive(Clone, Debug)]
    pub struct Ed25519PublicKeyModel([u8; 32]);
    impl AsRef<[u8]> for Ed25519PublicKeyModel {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    pub struct Ed25519KeyPair {
        seed: [u8; 32],
        public: Ed25519PublicKeyModel,
    }
    impl core::fmt::Debug for Ed25519KeyPair {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("Ed25519KeyPair")
        }
    }
    fn rejected() -> bool {
        vrt::world().keypair_may_fail && vrt::flag()
    }
    impl Ed25519KeyPair {
        pub fn from_seed_and_public_key(seed: &[u8], public_key: &[u8]) -> Result<Self, KeyRejected> {
            let pair = Self::from_seed_unchecked(seed)?;
            // ring recomputes the public key from the seed and compares
            if public_key.len() != 32 || !vrt::eq(public_key, &pair.public.0) {
                return Err(KeyRejected("InconsistentComponents"));
            }
            Ok(pair)
        }
        pub fn from_seed_unchecked(seed: &[u8]) -> Result<Self, KeyRejected> {
            if seed.len() != 32 {
                return Err(KeyRejected("InvalidEncoding"));
            }
            let p = vrt::model_ed25519_public(seed);
            let mut s = [0u8; 32];
            s.copy_from_slice(seed);
            let mut q = [0u8; 32];
            q.copy_from_slice(&p);
            Ok(Ed25519KeyPair { seed: s, public: Ed25519PublicKeyModel(q) })
        }
        pub fn sign(&self, msg: &[u8]) -> Signature {
            let raw = vrt::bytes(64);
            vrt::world().sign.push(vrt::SignCall {
                alg: vrt::ED25519,
                secret: self.seed.to_vec(),
                public: self.public.0.to_vec(),
                public_e: Vec::new(),
                msg: msg.to_vec(),
                raw: raw.clone(),
                out: raw.clone(),
            });
            Signature::from(&raw)
        }
    }
    impl KeyPair for Ed25519KeyPair {
        type PublicKey = Ed25519PublicKeyModel;
        fn public_key(&self) -> &Ed25519PublicKeyModel {
            &self.public
        }
    }

    // ---- ECDSA ----
    #[derive(Debug, PartialEq, Eq)]
    pub struct EcdsaSigningAlgorithm {
        id: u8,
        n: usize,
        asn1: bool,
    }
    pub static ECDSA_P256_SHA256_ASN1_SIGNING: EcdsaSigningAlgorithm = EcdsaSigningAlgorithm { id: vrt::P256_SHA256, n: 32, asn1: true };
    pub static ECDSA_P384_SHA384_ASN1_SIGNING: EcdsaSigningAlgorithm = EcdsaSigningAlgorithm { id: vrt::P384_SHA384, n: 48, asn1: true };
    pub static ECDSA_P256_SHA256_FIXED_SIGNING: EcdsaSigningAlgorithm = EcdsaSigningAlgorithm { id: vrt::P256_SHA256, n: 32, asn1: false };
    pub static ECDSA_P384_SHA384_FIXED_SIGNING: EcdsaSigningAlgorithm = EcdsaSigningAlgorithm { id: vrt::P384_SHA384, n: 48, asn1: false };

    #[derive(Clone, Debug)]
    pub struct EcdsaPublicKeyModel(Vec<u8>);
    impl AsRef<[u8]> for EcdsaPublicKeyModel {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    #[derive(Debug)]
    pub struct EcdsaKeyPair {
        alg: &'static EcdsaSigningAlgorithm,
        d: Vec<u8>,
        public: EcdsaPublicKeyModel,
    }
    impl EcdsaKeyPair {
        pub fn from_private_key_and_public_key(
            alg: &'static EcdsaSigningAlgorithm,
            private_key: &[u8],
            public_key: &[u8],
            _rng: &dyn SecureRandom,
        ) -> Result<Self, KeyRejected> {
            // ring requires the scalar to be exactly the length of the group order, and the
            // public key to be an uncompressed point of the curve.
            if private_key.len() != alg.n {
                return Err(KeyRejected("InvalidComponent"));
            }
            if public_key.len() != 1 + 2 * alg.n || public_key[0] != 4 {
                return Err(KeyRejected("InvalidEncoding"));
            }
            if rejected() {
                return Err(KeyRejected("InconsistentComponents"));
            }
            Ok(EcdsaKeyPair { alg, d: private_key.to_vec(), public: EcdsaPublicKeyModel(public_key.to_vec()) })
        }
        pub fn sign(&self, _rng: &dyn SecureRandom, message: &[u8]) -> Result<Signature, Unspecified> {
            let raw = vrt::fresh_ecdsa(self.alg.n);
            let out = vrt::ecdsa_der(&raw);
            vrt::world().sign.push(vrt::SignCall {
                alg: self.alg.id,
                secret: self.d.clone(),
                public: self.public.0.clone(),
                public_e: Vec::new(),
                msg: message.to_vec(),
                raw: raw.clone(),
                out: out.clone(),
            });
            Ok(Signature::from(if self.alg.asn1 { &out } else { &raw }))
        }
    }
    impl KeyPair for EcdsaKeyPair {
        type PublicKey = EcdsaPublicKeyModel;
        fn public_key(&self) -> &EcdsaPublicKeyModel {
            &self.public
        }
    }

    // ---- RSA ----
    pub trait RsaEncoding: Sync + core::fmt::Debug {
        fn model_id(&self) -> u8;
    }
    #[derive(Debug)]
    pub struct RsaEnc(u8);
    impl RsaEncoding for RsaEnc {
        fn model_id(&self) -> u8 {
            self.0
        }
    }
    pub static RSA_PKCS1_SHA256: RsaEnc = RsaEnc(vrt::RSA_SHA256);
    pub static RSA_PKCS1_SHA384: RsaEnc = RsaEnc(vrt::RSA_SHA384);
    pub static RSA_PKCS1_SHA512: RsaEnc = RsaEnc(vrt::RSA_SHA512);
    pub static RSA_PSS_SHA256: RsaEnc = RsaEnc(vrt::RSA_PSS_SHA256);
    pub static RSA_PSS_SHA384: RsaEnc = RsaEnc(vrt::RSA_PSS_SHA384);
    pub static RSA_PSS_SHA512: RsaEnc = RsaEnc(vrt::RSA_PSS_SHA512);

    #[derive(Clone, Debug)]
    pub struct RsaSubjectPublicKey {
        n: Vec<u8>,
    }
    impl AsRef<[u8]> for RsaSubjectPublicKey {
        fn as_ref(&self) -> &[u8] {
            &self.n
        }
    }
    impl RsaSubjectPublicKey {
        pub fn modulus_len(&self) -> usize {
            self.n.len()
        }
    }
    #[derive(Debug)]
    pub struct RsaKeyPair {
        der: Vec<u8>,
        public: RsaSubjectPublicKey,
        e: Vec<u8>,
    }

    // Minimal strict DER: SEQUENCE of INTEGERs -> magnitudes.
    fn der_len(b: &[u8], p: &mut usize) -> Option<usize> {
        let l = *b.get(*p)? as usize;
        *p += 1;
        if l < 0x80 {
            return Some(l);
        }
        let k = l & 0x7f;
        if k == 0 || k > 2 {
            return None;
        }
        let mut v = 0usize;
        for _ in 0..k {
            v = (v << 8) | *b.get(*p)? as usize;
            *p += 1;
        }
        Some(v)
    }
    pub fn der_integers(b: &[u8]) -> Option<Vec<Vec<u8>>> {
        let mut p = 0;
        if *b.get(p)? != 0x30 {
            return None;
        }
        p += 1;
        let l = der_len(b, &mut p)?;
        if p + l != b.len() {
            return None;
        }
        let mut out = Vec::new();
        while p < b.len() {
            if b[p] != 2 {
                return None;
            }
            p += 1;
            let l = der_len(b, &mut p)?;
            if l == 0 || p + l > b.len() {
                return None;
            }
            let mut s = &b[p..p + l];
            p += l;
            if s[0] & 0x80 != 0 {
                return None;
            }
            if s.len() > 1 && s[0] == 0 {
                if s[1] & 0x80 == 0 {
                    return None;
                }
                s = &s[1..];
            }
            out.push(s.to_vec());
        }
        Some(out)
    }
    impl RsaKeyPair {
        pub fn from_der(input: &[u8]) -> Result<Self, KeyRejected> {
            vrt::world().rsa.push(vrt::RsaDer { der: input.to_vec() });
            let ints = der_integers(input).ok_or(KeyRejected("InvalidEncoding"))?;
            if ints.len() != 9 {
                return Err(KeyRejected("InvalidEncoding"));
            }
            if rejected() {
                return Err(KeyRejected("InconsistentComponents"));
            }
            Ok(RsaKeyPair {
                der: input.to_vec(),
                public: RsaSubjectPublicKey { n: ints[1].clone() },
                e: ints[2].clone(),
            })
        }
        pub fn public(&self) -> &RsaSubjectPublicKey {
            &self.public
        }
        pub fn public_modulus_len(&self) -> usize {
            self.public.n.len()
        }
        pub fn sign(
            &self,
            padding_alg: &'static dyn RsaEncoding,
            _rng: &dyn SecureRandom,
            msg: &[u8],
            signature: &mut [u8],
        ) -> Result<(), Unspecified> {
            if signature.len() != self.public.n.len() {
                return Err(Unspecified);
            }
            let raw = vrt::bytes(signature.len());
            signature.copy_from_slice(&raw);
            vrt::world().sign.push(vrt::SignCall {
                alg: padding_alg.model_id(),
                secret: self.der.clone(),
                public: self.public.n.clone(),
                public_e: self.e.clone(),
                msg: msg.to_vec(),
                raw: raw.clone(),
                out: raw,
            });
            Ok(())
        }
    }
    impl KeyPair for RsaKeyPair {
        type PublicKey = RsaSubjectPublicKey;
        fn public_key(&self) -> &RsaSubjectPublicKey {
            &self.public
        }
    }
}
