use crate::certificate::{EcPoint, PublicKeyInfo};
use crate::model::{device, op, Key, Op};
pub use crate::slots::*;
use crate::{Buffer, Error, PinPolicy, Result, TouchPolicy, YubiKey};

pub fn generate(
    _yubikey: &mut YubiKey,
    slot: SlotId,
    algorithm: AlgorithmId,
    pin_policy: PinPolicy,
    touch_policy: TouchPolicy,
) -> Result<PublicKeyInfo> {
    op(Op::Generate(slot, algorithm, pin_policy, touch_policy))?;
    let d = device();
    let public = d.next.clone();
    d.keys.retain(|k| k.slot != slot);
    let info = match algorithm {
        AlgorithmId::EccP256 => PublicKeyInfo::EcP256(EcPoint::from_bytes(&public, 32).ok_or(Error::InvalidObject)?),
        AlgorithmId::EccP384 => PublicKeyInfo::EcP384(EcPoint::from_bytes(&public, 48).ok_or(Error::InvalidObject)?),
        _ => return Err(Error::AlgorithmError),
    };
    d.keys.push(Key { slot, alg: algorithm, public });
    Ok(info)
}

pub fn attest(_yubikey: &mut YubiKey, key: SlotId) -> Result<Buffer> {
    op(Op::Attest(key))?;
    Ok(Buffer::new(device().attestation.clone()))
}

pub fn sign_data(_yubikey: &mut YubiKey, raw_in: &[u8], algorithm: AlgorithmId, key: SlotId) -> Result<Buffer> {
    let fits = match algorithm {
        AlgorithmId::Rsa1024 => raw_in.len() == 128,
        AlgorithmId::Rsa2048 => raw_in.len() == 256,
        AlgorithmId::EccP256 => raw_in.len() <= 32,
        AlgorithmId::EccP384 => raw_in.len() <= 48,
    };
    if !fits {
        return Err(Error::SizeError);
    }
    op(Op::Sign(key, algorithm, raw_in.to_vec()))?;
    let d = device();
    let n = match d.keys.iter().find(|k| k.slot == key) {
        Some(k) if k.alg == algorithm => match algorithm {
            AlgorithmId::EccP256 => 32,
            AlgorithmId::EccP384 => 48,
            _ => return Err(Error::GenericError),
        },
        _ => return Err(Error::GenericError),
    };
    if let Some(a) = &d.answer {
        return Ok(Buffer::new(a.clone()));
    }
    let raw = vrt::fresh_ecdsa(n);
    let out = vrt::ecdsa_der(&raw);
    d.made.push((d.log.len() - 1, raw, out.clone()));
    Ok(Buffer::new(out))
}
