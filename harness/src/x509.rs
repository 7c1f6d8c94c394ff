//! X.509: key extraction, PIV and FIDO attestation chains.
use sshcerts::ssh::{CurveKind, PublicKey, PublicKeyKind};
use sshcerts::x509::{der_encoding_to_ssh_public_key, extract_ssh_pubkey_from_x509_certificate, extract_ssh_pubkey_from_x509_csr};
use vrt::*;

pub fn tlv(tag: u8, parts: &[&[u8]]) -> Vec<u8> {
    let n: usize = parts.iter().map(|p| p.len()).sum();
    let mut v = vec![tag];
    if n < 128 {
        v.push(n as u8);
    } else if n < 256 {
        v.push(0x81);
        v.push(n as u8);
    } else {
        v.push(0x82);
        v.push((n >> 8) as u8);
        v.push(n as u8);
    }
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
pub const EC: [u8; 7] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
pub const P256: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7];
pub const P384: [u8; 5] = [0x2b, 0x81, 4, 0, 34];
const P521: [u8; 5] = [0x2b, 0x81, 4, 0, 35];
pub const RSA: [u8; 9] = [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1];
const ED: [u8; 3] = [0x2b, 0x65, 0x70];
/// an OID with the bytes in `mask` arbitrary, as an OID of the same number of arcs
fn oid(b: &[u8], mask: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    for i in 0..v.len() {
        if mask >> i & 1 == 1 {
            let c = byte();
            assume(c >> 7 == v[i] >> 7);
            v[i] = c;
        }
    }
    v
}
/// bytes without structure: arbitrary, or fixed where a structural byte is replaced (they may then become structure)
pub static mut FIXED: bool = false;
pub fn var(n: usize) -> Vec<u8> {
    if param("at") > 0 || unsafe { FIXED } {
        (0..n).map(|i| if i == 0 { 4 } else { i as u8 }).collect()
    } else {
        bytes(n)
    }
}
/// what stands for the key in a SubjectPublicKeyInfo
pub struct Spki {
    pub der: Vec<u8>,
    alg: Vec<u8>,
    curve: Option<Vec<u8>>,
    pub point: Vec<u8>,
}
/// kind 0 EC P-256, 1 EC P-384, 2 EC P-521, 3 RSA, 4 Ed25519, 5 EC without parameters, 6 EC with NULL, 7 the P-256 curve under the RSA algorithm,
/// 8 the EC algorithm's own OID as the curve
pub fn spki(kind: usize, n: usize, amask: usize, cmask: usize) -> Spki {
    let alg = oid(if kind == 3 || kind == 7 { &RSA[..] } else if kind == 4 { &ED[..] } else { &EC[..] }, amask);
    let curve = match kind {
        0 | 7 => Some(oid(&P256, cmask)),
        1 => Some(oid(&P384, cmask)),
        2 => Some(oid(&P521, cmask)),
        8 => Some(oid(&EC, cmask)),
        _ => None,
    };
    let params = match (&curve, kind) {
        (Some(c), _) => tlv(6, &[c]),
        (None, 3) | (None, 6) => vec![5, 0],
        _ => vec![],
    };
    let point = var(n);
    let id = tlv(0x30, &[&tlv(6, &[&alg]), &params]);
    let der = tlv(0x30, &[&id, &tlv(3, &[&[0], &point])]);
    Spki { der, alg, curve, point }
}
impl Spki {
    /// the same kind of key with these key bytes
    pub fn fix(&mut self, key: &[u8], kind: usize) {
        self.point = key.to_vec();
        let params = match &self.curve {
            Some(c) => tlv(6, &[c]),
            None if kind == 3 => vec![5, 0],
            None => vec![],
        };
        let id = tlv(0x30, &[&tlv(6, &[&self.alg]), &params]);
        self.der = tlv(0x30, &[&id, &tlv(3, &[&[0], key])]);
    }
}
fn name(cn: &[u8]) -> Vec<u8> {
    tlv(0x30, &[&tlv(0x31, &[&tlv(0x30, &[&[6, 3, 0x55, 4, 3], &tlv(12, &[cn])])])])
}
pub const SHA256_RSA: [u8; 9] = [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 11];
pub const SHA384_RSA: [u8; 9] = [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 12];
pub const SHA512_RSA: [u8; 9] = [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 13];
pub const SHA256_EC: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2];
pub const SHA384_EC: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3];
/// an extension: OID contents, critical, value
pub type Ext = (Vec<u8>, bool, Vec<u8>);
pub struct Cert {
    pub der: Vec<u8>,
    pub tbs: Vec<u8>,
    pub sig: Vec<u8>,
}
pub fn cert(key: &Spki, sigalg: &[u8], exts: &[Ext], siglen: usize) -> Cert {
    let serial = tlv(2, &[&[1], &var(3)]);
    let alg = tlv(0x30, &[&tlv(6, &[sigalg])]);
    let time = tlv(0x30, &[&tlv(0x17, &[b"160314000000Z"]), &tlv(0x17, &[b"490417000000Z"])]);
    let list: Vec<Vec<u8>> = exts
        .iter()
        .map(|(o, crit, v)| tlv(0x30, &[&tlv(6, &[o]), if *crit { &[1, 1, 0xff] } else { &[] }, &tlv(4, &[v])]))
        .collect();
    let list: Vec<&[u8]> = list.iter().map(|v| &v[..]).collect();
    let ext = if list.is_empty() { vec![] } else { tlv(0xa3, &[&tlv(0x30, &list)]) };
    // names: 0 two different ones, 1 the same for issuer and subject, 2 any two
    let (issuer, subject) = match param("names") {
        _ if unsafe { FIXED } => (b"root".to_vec(), b"root".to_vec()),
        0 => (b"issuer".to_vec(), b"subject".to_vec()),
        1 => (b"subject".to_vec(), b"subject".to_vec()),
        _ => (letters(), letters()),
    };
    let tbs = tlv(0x30, &[&[0xa0, 3, 2, 1, 2], &serial, &alg, &name(&issuer), &time, &name(&subject), &key.der, &ext]);
    let sig = var(siglen);
    let der = tlv(0x30, &[&tbs, &alg, &tlv(3, &[&[0], &sig])]);
    Cert { der, tbs, sig }
}
fn letters() -> Vec<u8> {
    let v = bytes(4);
    for b in &v {
        assume((*b >= b'a') & (*b <= b'z'));
    }
    v
}
/// basic constraints: a certification authority, or not
pub fn constraints() -> Ext {
    let ca = byte();
    assume((ca == 0) | (ca == 0xff));
    let v = if param("bare") == 1 { tlv(0x30, &[]) } else { tlv(0x30, &[&[1, 1, ca]]) };
    (vec![0x55, 0x1d, 0x13], true, v)
}
fn csr(key: &Spki) -> Vec<u8> {
    let info = tlv(0x30, &[&[2, 1, 0], &name(b"subject"), &key.der, &[0xa0, 0]]);
    tlv(0x30, &[&info, &tlv(0x30, &[&tlv(6, &[&SHA256_EC])]), &tlv(3, &[&[0], &var(4)])])
}
/// the curve an SSH key made from it must be on
fn curve(k: &Spki) -> Option<CurveKind> {
    if k.alg.len() != EC.len() || !eq(&k.alg, &EC) {
        return None;
    }
    let c = k.curve.as_ref()?;
    if eq(c, &P256) {
        return Some(CurveKind::Nistp256);
    }
    if eq(c, &P384) {
        return Some(CurveKind::Nistp384);
    }
    None
}
pub fn is_key(p: &PublicKey, k: &Spki) -> bool {
    let want = match curve(k) {
        Some(CurveKind::Nistp256) => ("ecdsa-sha2-nistp256", "nistp256"),
        Some(CurveKind::Nistp384) => ("ecdsa-sha2-nistp384", "nistp384"),
        _ => return false,
    };
    let e = match &p.kind {
        PublicKeyKind::Ecdsa(e) => e,
        _ => return false,
    };
    p.key_type.name == want.0 && e.curve.identifier == want.1 && e.sk_application.is_none() && p.comment.is_none() && eq(&e.key, &k.point)
}
/// how 0 certificate, 1 signing request, 2 bare key; `cut` bytes removed from the end, one byte appended with cut = 1000
#[no_mangle]
pub extern "C" fn h_x509_key() {
    let (how, kind, n, cut) = (param("how"), param("kind"), param("n"), param("cut"));
    let k = spki(kind, n, param("amask"), param("cmask"));
    let mut der = match how {
        0 => cert(&k, &SHA256_EC, &[], 4).der,
        1 => csr(&k),
        _ => k.der.clone(),
    };
    let whole = der.len();
    if cut == 1000 {
        der.push(byte());
    } else {
        der.truncate(whole - cut);
    }
    // one structural byte replaced
    let at = param("at");
    let mut changed = false;
    if at > 0 {
        let b = byte();
        changed = b != der[at - 1];
        der[at - 1] = b;
    }
    let got = match how {
        0 => extract_ssh_pubkey_from_x509_certificate(&der),
        1 => extract_ssh_pubkey_from_x509_csr(&der),
        _ => der_encoding_to_ssh_public_key(&der),
    };
    if changed {
        // the format's own parser decides; the key must still be one of the bytes given
        if let Ok(p) = got {
            cover("changed");
            if let PublicKeyKind::Ecdsa(e) = &p.kind {
                note(e.key.len() as u64);
                check(e.key.len() <= der.len(), "key extraction: the key is part of the input");
            } else {
                check(false, "key extraction: only ECDSA keys are extracted");
            }
        }
        return;
    }
    match got {
        Ok(p) => {
            cover("extracted");
            check(cut == 0 || cut == 1000, "key extraction: a truncated document is rejected");
            check(is_key(&p, &k), "key extraction: the SSH key is the key of the document");
            note_bytes(&k.point);
        }
        Err(_) => {
            cover("rejected");
            check(cut != 0 || curve(&k).is_none(), "key extraction: P-256 and P-384 keys are extracted");
        }
    }
}
crate::entries!(h_x509_key);
