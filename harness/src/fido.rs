//! FIDO authenticator data and attestation.
use sshcerts::fido::AuthData;
use sshcerts::ssh::{CurveKind, KeyTypeKind, PublicKeyKind};
use vrt::*;

// ---- reference: COSE keys (RFC 8152) in CBOR ---------------------------------------------------------
struct Cose {
    kty: Option<i64>,
    alg: Option<i64>,
    crv: Option<i64>,
    x: Option<Vec<u8>>,
    y: Option<Vec<u8>>,
    /// acceptance is required, not only allowed
    must: bool,
    used: usize,
}
enum Want {
    Key(Cose),
    Bad,
    Any,
}
/// (major type, argument, is it within 63 bits)
fn head(b: &[u8], p: &mut usize) -> Option<(u8, u64)> {
    if *p >= b.len() {
        return None;
    }
    let f = b[*p];
    *p += 1;
    let info = f & 31;
    if info < 24 {
        return Some((f >> 5, info as u64));
    }
    if info > 27 {
        return None;
    }
    let n = [1, 2, 4, 8][(info - 24) as usize];
    if b.len() - *p < n {
        return None;
    }
    let mut v = 0u64;
    for i in 0..n {
        v = v << 8 | b[*p + i] as u64;
    }
    *p += n;
    Some((f >> 5, v))
}
enum Int {
    Bad,
    Any,
    Is(i64),
}
fn int(b: &[u8], p: &mut usize) -> Int {
    match head(b, p) {
        Some((0, v)) if v >> 63 == 0 => Int::Is(v as i64),
        Some((1, v)) if v >> 63 == 0 => Int::Is(-1 - v as i64),
        Some((0, _)) | Some((1, _)) => Int::Any,
        _ => Int::Bad,
    }
}
fn cose(b: &[u8]) -> Want {
    let mut p = 0;
    if b.is_empty() || b[0] >> 5 != 5 {
        return Want::Bad;
    }
    if b[0] == 0xbf {
        return Want::Any;
    }
    let n = match head(b, &mut p) {
        Some((_, n)) => n,
        None => return Want::Bad,
    };
    // no room for that many entries
    if n > b.len() as u64 {
        return Want::Bad;
    }
    let n = concretize(n);
    let mut k = Cose { kty: None, alg: None, crv: None, x: None, y: None, must: true, used: 0 };
    for _ in 0..n {
        let label = match int(b, &mut p) {
            Int::Is(v) => v,
            Int::Any => return Want::Any,
            Int::Bad => return Want::Bad,
        };
        if label == 1 || label == 3 || label == -1 {
            let v = match int(b, &mut p) {
                Int::Is(v) => v,
                Int::Any => return Want::Any,
                Int::Bad => return Want::Bad,
            };
            let slot = if label == 1 {
                &mut k.kty
            } else if label == 3 {
                &mut k.alg
            } else {
                &mut k.crv
            };
            if slot.is_some() {
                return Want::Any;
            }
            *slot = Some(v);
        } else if label == -2 || label == -3 {
            if p < b.len() && b[p] == 0x5f {
                return Want::Any;
            }
            let v = match head(b, &mut p) {
                Some((2, v)) if v <= (b.len() - p) as u64 => concretize(v) as usize,
                // a compressed point has its sign here
                Some((7, v)) if label == -3 && (v == 20 || v == 21) => return Want::Any,
                _ => return Want::Bad,
            };
            let slot = if label == -2 { &mut k.x } else { &mut k.y };
            if slot.is_some() {
                return Want::Any;
            }
            *slot = Some(b[p..p + v].to_vec());
            p += v;
        } else if p < b.len() && b[p] == 0xf7 {
            // a parameter this library does not know, without a value
            p += 1;
        } else {
            return Want::Any;
        }
    }
    k.used = p;
    Want::Key(k)
}

fn judge(raw: &[u8], app: &str) {
    let got = AuthData::parse(raw);
    let idlen = if raw.len() >= 55 { (raw[53] as usize) << 8 | raw[54] as usize } else { 0 };
    if raw.len() < 55 || idlen > raw.len() - 55 || raw[32] & 0x40 == 0 {
        cover("short");
        check(got.is_err(), "authenticator data: truncated data, and data without a credential, is rejected");
        return;
    }
    let idlen = concretize(idlen as u64) as usize;
    let rest = &raw[55 + idlen..];
    let k = match cose(rest) {
        Want::Any => {
            cover("open");
            return;
        }
        Want::Bad => {
            cover("rejected");
            check(got.is_err(), "authenticator data: a malformed credential key is rejected");
            return;
        }
        Want::Key(k) => k,
    };
    let okp = k.kty == Some(1) && k.alg.is_some() && k.x.is_some() && k.y.is_none();
    let ec2 = k.kty == Some(2) && k.alg.is_some() && k.x.is_some() && k.y.is_some();
    let a = match got {
        Ok(a) => a,
        Err(_) => {
            cover("refused");
            check(!(okp || ec2) || !k.must || k.used != rest.len(), "authenticator data: a complete credential key is accepted");
            return;
        }
    };
    cover("accepted");
    check(eq(&a.rpid_hash, &raw[..32]), "authenticator data: the application hash is bytes 0..32");
    check(a.flags == raw[32], "authenticator data: the flags are byte 32");
    check(a.user_presence() == (raw[32] & 1 == 1), "authenticator data: user presence is bit 0");
    check(a.user_verification() == (raw[32] & 4 == 4), "authenticator data: user verification is bit 2");
    check(a.sign_count.to_be_bytes() == raw[33..37], "authenticator data: the counter is bytes 33..37, big-endian");
    check(eq(&a.aaguid, &raw[37..53]), "authenticator data: the AAGUID is bytes 37..53");
    check(eq(&a.credential_id, &raw[55..55 + idlen]), "authenticator data: the credential is as long as its length says");
    if let Some(v) = k.kty {
        check(a.cose_key.key_type == v as i128, "authenticator data: the key type is the one given");
    }
    if let Some(v) = k.alg {
        check(a.cose_key.algorithm == v as i128, "authenticator data: the algorithm is the one given");
    }
    match (k.crv, a.cose_key.parameters.get(&-1)) {
        (Some(v), Some(t)) => check(eq(t.as_bytes(), v.to_string().as_bytes()), "authenticator data: the curve is the one given"),
        (None, None) => (),
        _ => check(false, "authenticator data: the curve is there when it is given"),
    }
    if let (Some(x), true) = (&k.x, okp) {
        check(eq(&a.cose_key.key, x), "authenticator data: the key of an octet key pair is x");
    }
    let mut point = vec![4u8];
    if let (Some(x), Some(y), true) = (&k.x, &k.y, ec2) {
        point.extend_from_slice(x);
        point.extend_from_slice(y);
        check(eq(&a.cose_key.key, &point), "authenticator data: the key of an elliptic curve key is the point (x, y)");
    }
    let ssh = a.ssh_public_key(app);
    match k.alg {
        Some(-8) => {
            if okp {
                check(ssh.is_ok(), "authenticator data: an Ed25519 credential has an SSH key");
            }
        }
        Some(-7) => {
            if ec2 {
                check(ssh.is_ok(), "authenticator data: a P-256 credential has an SSH key");
            }
        }
        _ => check(ssh.is_err(), "authenticator data: no SSH key for other algorithms"),
    }
    if let Ok(s) = ssh {
        match &s.kind {
            PublicKeyKind::Ed25519(e) => {
                cover("ed25519");
                check(k.alg == Some(-8), "authenticator data: an Ed25519 SSH key only for that algorithm");
                check(s.key_type.name == "sk-ssh-ed25519@openssh.com" && s.key_type.is_sk && matches!(s.key_type.kind, KeyTypeKind::Ed25519), "authenticator data: the SSH key type is the security key one");
                if let Some(x) = &k.x {
                    check(!okp || eq(&e.key, x), "authenticator data: the Ed25519 SSH key is x");
                }
                check(e.sk_application.as_deref() == Some(app), "authenticator data: the SSH key carries the application");
            }
            PublicKeyKind::Ecdsa(e) => {
                cover("ecdsa");
                check(k.alg == Some(-7), "authenticator data: a P-256 SSH key only for that algorithm");
                check(s.key_type.name == "sk-ecdsa-sha2-nistp256@openssh.com" && s.key_type.is_sk && matches!(s.key_type.kind, KeyTypeKind::Ecdsa), "authenticator data: the SSH key type is the security key one");
                check(matches!(e.curve.kind, CurveKind::Nistp256), "authenticator data: the curve is P-256");
                check(!ec2 || eq(&e.key, &point), "authenticator data: the P-256 SSH key is the point (x, y)");
                check(e.sk_application.as_deref() == Some(app), "authenticator data: the SSH key carries the application");
            }
            _ => check(false, "authenticator data: the SSH key is an Ed25519 or ECDSA one"),
        }
    }
    note(a.sign_count as u64);
    note_bytes(&a.credential_id);
    note_bytes(&a.cose_key.key);
    note(a.cose_key.algorithm as u64);
}

/// `n` arbitrary bytes after the fixed header (itself `h` bytes long, 55 when complete)
#[no_mangle]
pub extern "C" fn h_authdata_any() {
    let (h, n) = (param("h"), param("n"));
    let raw = bytes(h + n);
    if raw.len() >= 55 {
        let l = (raw[53] as usize) << 8 | raw[54] as usize;
        assume((l <= raw.len() - 55 + 2) | (l == 0x100) | (l == 0xffff));
    }
    judge(&raw, "ssh:");
}
fn put(b: &mut Vec<u8>, width: usize) {
    // an integer of either sign, its argument in `width` bytes (0: in the head)
    if width == 0 {
        let f = byte();
        assume(((f & 0xdf) < 0x18) & (f < 0x40));
        b.push(f);
    } else {
        let neg = byte();
        assume(neg < 2);
        let info = match width {
            1 => 24,
            2 => 25,
            4 => 26,
            _ => 27,
        };
        b.push(neg << 5 | info);
        b.extend_from_slice(&bytes(width));
    }
}
/// a map with the entries listed in `order` (decimal digits, first entry last): 1 kty, 2 alg, 3 crv, 4 x, 5 y, 6 unknown, 7 alg in `w` bytes,
/// 8 kty in `w` bytes, 9 a known label in `w` bytes with a byte as its value, 0 end
#[no_mangle]
pub extern "C" fn h_authdata_cose() {
    let (cl, xl, yl, w, extra) = (param("cl"), param("xl"), param("yl"), param("w"), param("extra"));
    let mut raw = bytes(53);
    raw.push((cl >> 8) as u8);
    raw.push(cl as u8);
    raw.extend_from_slice(&bytes(cl));
    let mut order = param("order");
    let mut count = 0;
    let mut m = Vec::new();
    while order > 0 {
        count += 1;
        match order % 10 {
            1 => {
                m.push(1);
                put(&mut m, 0);
            }
            2 => {
                m.push(3);
                put(&mut m, 0);
            }
            3 => {
                m.push(0x20);
                put(&mut m, 0);
            }
            d @ (4 | 5) => {
                m.push(0x21 + (d - 4) as u8);
                let l = if d == 4 { xl } else { yl };
                if l < 24 {
                    m.push(0x40 + l as u8);
                } else if l < 256 {
                    m.push(0x58);
                    m.push(l as u8);
                } else {
                    m.push(0x59);
                    m.push((l >> 8) as u8);
                    m.push(l as u8);
                }
                m.extend_from_slice(&bytes(l));
            }
            6 => {
                put(&mut m, 0);
                m.push(0xf7);
            }
            7 => {
                m.push(3);
                put(&mut m, w);
            }
            8 => {
                m.push(1);
                put(&mut m, w);
            }
            _ => {
                // one of the known labels, written in w bytes
                let neg = byte();
                assume(neg < 2);
                m.push(neg << 5 | if w == 8 { 27 } else { 24 + w as u8 / 2 });
                m.extend_from_slice(&vec![0; w - 1]);
                let l = byte();
                assume((l < 4) & ((neg == 1) | (l == 1) | (l == 3)) & ((neg == 0) | (l < 3)));
                m.push(l);
                let v = byte();
                assume((v & 31 < 24) & ((v >> 5 != 2) | (v == 0x40)));
                m.push(v);
            }
        }
        order /= 10;
    }
    raw.push(0xa0 + count);
    raw.extend_from_slice(&m);
    raw.extend_from_slice(&bytes(extra));
    let app = ["ssh:", "", "ssh:a b#\u{e9}"][param("app")];
    judge(&raw, app);
}
crate::entries!(h_authdata_any, h_authdata_cose);
