//! PIV: what the device is asked to do, and what the caller gets back.
use crate::spec;
use crate::x509::{cert, is_key, spki, tlv, Spki, SHA256_EC};
use sshcerts::yubikey::piv::{AlgorithmId, Error, PinPolicy, RetiredSlotId, SlotId, TouchPolicy, Yubikey};
use vrt::*;
use yubikey::certificate::{CertInfo, PublicKeyInfo};
use yubikey::model::{device, Device, Key, Op};

const SERIAL: u32 = 0x0012_3456;
const SLOTS: [SlotId; 7] = [
    SlotId::Authentication,
    SlotId::Signature,
    SlotId::KeyManagement,
    SlotId::CardAuthentication,
    SlotId::Retired(RetiredSlotId::R1),
    SlotId::Retired(RetiredSlotId::R20),
    SlotId::Attestation,
];
/// algorithm of a key of this kind, as the device names it
fn alg_of(kind: usize) -> Option<AlgorithmId> {
    match kind {
        0 => Some(AlgorithmId::EccP256),
        1 => Some(AlgorithmId::EccP384),
        3 => Some(AlgorithmId::Rsa2048),
        _ => None,
    }
}
fn alg(i: usize) -> AlgorithmId {
    [AlgorithmId::EccP256, AlgorithmId::EccP384, AlgorithmId::Rsa1024, AlgorithmId::Rsa2048][i]
}
fn point(kind: usize, seed: u8) -> Vec<u8> {
    let n = if kind == 0 { 65 } else { 97 };
    let mut v = vec![seed; n];
    v[0] = 4;
    v
}
/// A device with a key of this kind (spki's numbering, 9: none) in the slot, and a key of the other kind in another slot.
/// an extension that makes the certificate as large as is wanted
fn padding() -> Vec<crate::x509::Ext> {
    match param("pad") {
        0 => vec![],
        n => vec![(vec![0x2a, 3, 4], false, bytes(n))],
    }
}
fn plug(kind: usize, slot: SlotId) -> (&'static mut Device, Option<Spki>) {
    let d = device();
    d.serial = SERIAL;
    let other = if slot == SlotId::Signature { SlotId::Authentication } else { SlotId::Signature };
    let mut decoy = spki(1, 97, 0, 0);
    decoy.fix(&point(1, 0x77), 1);
    d.certs.push((other, cert(&decoy, &SHA256_EC, &[], 4).der));
    d.keys.push(Key { slot: other, alg: AlgorithmId::EccP384, public: decoy.point.clone() });
    if kind == 9 {
        return (d, None);
    }
    let n = match kind {
        0 => 65,
        1 => 97,
        2 => 133,
        _ => 8,
    };
    let mut k = spki(kind, n, 0, 0);
    if kind < 3 {
        let mut p = bytes(n);
        p[0] = 4;
        k.fix(&p, kind);
    }
    d.certs.push((slot, cert(&k, &SHA256_EC, &padding(), 4).der));
    if let Some(a) = alg_of(kind) {
        d.keys.push(Key { slot, alg: a, public: k.point.clone() });
    }
    (d, Some(k))
}
fn open() -> Yubikey {
    match Yubikey::open(SERIAL) {
        Ok(y) => y,
        Err(_) => {
            check(false, "PIV: the device with the serial opens");
            panic!()
        }
    }
}
fn signs(d: &Device) -> Vec<(SlotId, AlgorithmId, &[u8], bool)> {
    let mut v = Vec::new();
    for (o, ok) in d.log.iter() {
        if let Op::Sign(s, a, b) = o {
            v.push((*s, *a, &b[..], *ok));
        }
    }
    v
}
/// the device changed nothing it stores
fn only_reads(d: &Device) -> bool {
    d.log.iter().all(|(o, _)| !matches!(o, Op::Write(..) | Op::Generate(..)))
}
fn mpint(v: &[u8]) -> Vec<u8> {
    let mut i = 0;
    while i + 1 < v.len() && v[i] == 0 {
        i += 1;
    }
    let mut o = Vec::new();
    if v[i] & 0x80 != 0 {
        o.push(0);
    }
    o.extend_from_slice(&v[i..]);
    o
}
/// The one signature made is over the digest of `data`, in `slot`, with the key's algorithm.
fn made_over(d: &Device, slot: SlotId, kind: usize, data: &[u8]) {
    let s = signs(d);
    check(s.len() == 1, "PIV signing: the device signs once");
    if s.len() == 1 {
        check(s[0].0 == slot, "PIV signing: with the key in the slot");
        check(Some(s[0].1) == alg_of(kind), "PIV signing: with the algorithm of the key");
        let want = model_digest(if kind == 0 { 256 } else { 384 }, data);
        check(eq(s[0].2, &want), "PIV signing: over the digest of the data, of the curve's size");
        note_bytes(s[0].2);
    }
}
/// sign_data with each algorithm
#[no_mangle]
pub extern "C" fn h_piv_sign() {
    let (kind, a, n) = (param("kind"), alg(param("alg")), param("n"));
    let slot = SLOTS[param("slot")];
    let (d, _k) = plug(kind, slot);
    world().ecdsa_short_max = param("short");
    let data = bytes(n);
    let mut y = open();
    d.may_fail = param("fail") == 1;
    let r = y.sign_data(&data, a, &slot);
    d.may_fail = false;
    check(only_reads(d), "PIV signing: the device's slots are left alone");
    match r {
        Ok(sig) => {
            cover("signed");
            check(!d.failed, "PIV signing: a device error is reported");
            check(kind < 2 && alg_of(kind) == Some(a), "PIV signing: only with the algorithm of the key in the slot");
            made_over(d, slot, kind, &data);
            check(d.made.len() == 1 && eq(&d.made[0].2, &sig), "PIV signing: the caller gets the device's signature");
        }
        Err(e) => {
            cover("refused");
            if !d.failed {
                check(!(kind < 2 && alg_of(kind) == Some(a)), "PIV signing: a key signs with its own algorithm");
                check(signs(d).is_empty(), "PIV signing: nothing is signed when the request is refused");
                if kind == 9 {
                    check(matches!(e, Error::Unprovisioned), "PIV signing: an empty slot is unprovisioned");
                }
                if kind < 2 {
                    check(matches!(e, Error::WrongKeyType), "PIV signing: another algorithm is the wrong key type");
                }
            }
        }
    }
}
/// ssh_cert_signer; with `answer`, the device answers that many arbitrary bytes
#[no_mangle]
pub extern "C" fn h_piv_ssh() {
    let (kind, n, answer) = (param("kind"), param("n"), param("answer"));
    let slot = SLOTS[param("slot")];
    let (d, k) = plug(kind, slot);
    world().ecdsa_short_max = param("short");
    if answer > 0 {
        d.answer = Some(bytes(answer - 1));
    }
    let data = bytes(n);
    let mut y = open();
    d.may_fail = param("fail") == 1;
    let r = y.ssh_cert_signer(&data, &slot);
    d.may_fail = false;
    check(only_reads(d), "PIV signing: the device's slots are left alone");
    match r {
        Ok(sig) => {
            cover("signed");
            check(!d.failed, "PIV signing: a device error is reported");
            check(kind < 2, "PIV signing: SSH signatures come from P-256 and P-384 keys");
            made_over(d, slot, kind, &data);
            if answer == 0 && d.made.len() == 1 {
                let raw = &d.made[0].1;
                let h = raw.len() / 2;
                let mut inner = Vec::new();
                spec::put_string(&mut inner, &mpint(&raw[..h]));
                spec::put_string(&mut inner, &mpint(&raw[h..]));
                let mut want = Vec::new();
                spec::put_string(&mut want, if kind == 0 { b"ecdsa-sha2-nistp256" } else { b"ecdsa-sha2-nistp384" });
                spec::put_string(&mut want, &inner);
                check(eq(&sig, &want), "PIV signing: the caller gets the device's signature in SSH form");
            }
        }
        Err(_) => {
            cover("refused");
            if !d.failed && answer == 0 {
                check(k.is_none() || kind >= 2, "PIV signing: P-256 and P-384 keys sign");
                check(signs(d).is_empty(), "PIV signing: nothing is signed when the request is refused");
            }
        }
    }
}
/// everything read from a slot
#[no_mangle]
pub extern "C" fn h_piv_fetch() {
    let kind = param("kind");
    let slot = SLOTS[param("slot")];
    let (d, k) = plug(kind, slot);
    d.attestation = bytes(param("n"));
    let mut y = open();
    d.may_fail = param("fail") == 1;
    let der = d.certs.iter().find(|c| c.0 == slot).map(|c| c.1.clone());
    // the device's own library reads RSA, P-256 and P-384 certificates only
    let readable = kind < 2 || kind == 3;
    match param("what") {
        0 => match y.ssh_cert_fetch_pubkey(&slot) {
            Ok(p) => {
                cover("fetched");
                check(!d.failed && kind < 2, "PIV reading: an SSH key comes from a P-256 or P-384 certificate");
                match &k {
                    Some(k) => check(is_key(&p, k), "PIV reading: the SSH key is the key of the certificate in the slot"),
                    None => check(false, "PIV reading: an empty slot has no key"),
                }
                note_bytes(&p.encode());
            }
            Err(_) => {
                cover("refused");
                check(d.failed || kind >= 2, "PIV reading: P-256 and P-384 keys are read");
            }
        },
        1 => match y.get_ssh_key_type(&slot) {
            Ok(a) => {
                cover("fetched");
                check(!d.failed && kind < 2 && alg_of(kind) == Some(a), "PIV reading: the key type is that of the certificate in the slot");
            }
            Err(_) => {
                cover("refused");
                check(d.failed || kind >= 2, "PIV reading: P-256 and P-384 keys are read");
            }
        },
        2 => match y.fetch_subject(&slot) {
            Ok(s) => {
                cover("fetched");
                check(!d.failed && readable && s == "CN=subject", "PIV reading: the subject is that of the certificate in the slot");
            }
            Err(_) => {
                cover("refused");
                check(d.failed || !readable, "PIV reading: a certificate in the slot is read");
            }
        },
        3 => match y.fetch_certificate(&slot) {
            Ok(c) => {
                cover("fetched");
                check(!d.failed && readable && matches!(&der, Some(x) if eq(x, &c)), "PIV reading: the certificate is the one in the slot");
                note_bytes(&c);
            }
            Err(_) => {
                cover("refused");
                check(d.failed || !readable, "PIV reading: a certificate in the slot is read");
            }
        },
        4 => match y.configured(&slot) {
            Ok(i) => {
                cover("fetched");
                let same = match (&i, &k) {
                    (PublicKeyInfo::EcP256(p), Some(k)) => kind == 0 && eq(p.as_bytes(), &k.point),
                    (PublicKeyInfo::EcP384(p), Some(k)) => kind == 1 && eq(p.as_bytes(), &k.point),
                    (PublicKeyInfo::Rsa { .. }, Some(_)) => kind == 3,
                    _ => false,
                };
                check(!d.failed && same, "PIV reading: the key is that of the certificate in the slot");
            }
            Err(_) => {
                cover("refused");
                check(d.failed || !readable, "PIV reading: a certificate in the slot is read");
            }
        },
        5 => match y.fetch_attestation(&slot) {
            Ok(a) => {
                cover("fetched");
                check(!d.failed && eq(&a, &d.attestation), "PIV reading: the attestation is the device's");
                check(d.log.iter().filter(|(o, _)| matches!(o, Op::Attest(s) if *s == slot)).count() == 1, "PIV reading: the attestation is of the slot");
                note_bytes(&a);
            }
            Err(_) => {
                cover("refused");
                check(d.failed, "PIV reading: an attestation the device made is returned");
            }
        },
        _ => {
            // write_certificate: what is not a certificate is not written
            let new = match param("what") {
                6 => {
                    let mut n = spki(0, 65, 0, 0);
                    let mut p = bytes(65);
                    p[0] = 4;
                    n.fix(&p, 0);
                    cert(&n, &SHA256_EC, &padding(), 4).der
                }
                _ => bytes(param("n")),
            };
            match y.write_certificate(&slot, &new) {
                Ok(()) => {
                    cover("fetched");
                    check(!d.failed && param("what") == 6, "PIV writing: a certificate is written or an error reported");
                    let w: Vec<_> = d.log.iter().filter_map(|(o, _)| if let Op::Write(s, b, c) = o { Some((*s, b, *c)) } else { None }).collect();
                    check(w.len() == 1 && w[0].0 == slot && eq(w[0].1, &new) && w[0].2 == CertInfo::Uncompressed, "PIV writing: exactly the certificate, in the slot");
                }
                Err(_) => {
                    cover("refused");
                    check(d.failed || param("what") == 7, "PIV writing: a certificate is written");
                    check(d.log.iter().all(|(o, ok)| !(*ok && matches!(o, Op::Write(..)))), "PIV writing: nothing is written when an error is reported");
                }
            }
            return;
        }
    }
    check(only_reads(d) && signs(d).is_empty(), "PIV reading: the device's slots are left alone");
}
/// PIN and management key
#[no_mangle]
pub extern "C" fn h_piv_unlock() {
    let (d, _) = plug(9, SlotId::Authentication);
    let (pin, mgm) = (bytes(param("n")), bytes(param("m")));
    let mut y = open();
    d.may_fail = param("fail") == 1;
    let r = y.unlock(&pin, &mgm);
    let pins: Vec<_> = d.log.iter().filter_map(|(o, ok)| if let Op::Pin(p) = o { Some((p, *ok)) } else { None }).collect();
    let auths: Vec<_> = d.log.iter().filter_map(|(o, ok)| if let Op::Authenticate(p) = o { Some((p, *ok)) } else { None }).collect();
    check(pins.len() == 1 && eq(pins[0].0, &pin), "PIV unlock: the PIN is tried once, as given");
    check(auths.len() <= 1 && auths.iter().all(|a| eq(a.0, &mgm)), "PIV unlock: the management key is tried once, as given");
    match r {
        Ok(()) => {
            cover("unlocked");
            check(pins.len() == 1 && pins[0].1 && auths.len() == 1 && auths[0].1, "PIV unlock: both were accepted");
            check(mgm.len() == 24 && !d.failed, "PIV unlock: both were accepted");
        }
        Err(e) => {
            cover("refused");
            check(d.failed || mgm.len() != 24, "PIV unlock: accepted credentials unlock");
            if pins.len() == 1 && !pins[0].1 {
                check(auths.is_empty(), "PIV unlock: the management key is not tried after a wrong PIN");
            }
            if mgm.len() != 24 && !d.failed {
                check(matches!(e, Error::InvalidManagementKey), "PIV unlock: a management key of the wrong length is reported as such");
            }
        }
    }
}
/// opening and reopening
#[no_mangle]
pub extern "C" fn h_piv_open() {
    let (d, _) = plug(9, SlotId::Authentication);
    d.may_fail = param("fail") == 1;
    match param("what") {
        0 => {
            let serial = word32();
            match Yubikey::open(serial) {
                Ok(y) => {
                    cover("opened");
                    check(serial == SERIAL && !d.failed && y.yk.serial().0 == serial, "PIV open: the device opened has the serial asked for");
                }
                Err(e) => {
                    cover("refused");
                    check(d.failed || serial != SERIAL, "PIV open: the device with the serial opens");
                    check(matches!(e, Error::NoSuchYubikey), "PIV open: a device that is not there is reported as such");
                }
            }
        }
        1 => match Yubikey::new() {
            Ok(y) => {
                cover("opened");
                check(!d.failed && y.yk.serial().0 == SERIAL, "PIV open: the one device is opened");
            }
            Err(_) => {
                cover("refused");
                check(d.failed, "PIV open: the one device is opened");
            }
        },
        _ => {
            d.may_fail = false;
            let mut y = open();
            d.may_fail = param("fail") == 1;
            let r = y.reconnect();
            check(y.yk.serial().0 == SERIAL, "PIV reconnect: the device is the same");
            let tries = d.log[1..].iter().all(|(o, _)| matches!(o, Op::Reconnect(SERIAL) | Op::OpenSerial(SERIAL)));
            check(tries, "PIV reconnect: only the same device is tried");
            let back = d.log[1..].iter().any(|(_, ok)| *ok);
            match r {
                Ok(()) => {
                    cover("opened");
                    check(back, "PIV reconnect: success means the device answered");
                }
                Err(e) => {
                    cover("refused");
                    check(!back && matches!(e, Error::NoSuchYubikey), "PIV reconnect: a device that came back is used");
                }
            }
        }
    }
}
/// provision: kind 0 P-256, 1 P-384, 3 RSA
#[no_mangle]
pub extern "C" fn h_piv_provision() {
    let kind = param("kind");
    let slot = SLOTS[param("slot")];
    let (d, _) = plug(param("had"), slot);
    let before: Vec<(SlotId, Vec<u8>)> = d.certs.iter().filter(|c| c.0 != slot).map(|c| (c.0, c.1.clone())).collect();
    let n = if kind == 0 { 65 } else { 97 };
    let mut next = bytes(n);
    next[0] = 4;
    d.next = next.clone();
    let (touch, pin) = (choose(0, 3), choose(0, 3));
    let touch = [TouchPolicy::Default, TouchPolicy::Never, TouchPolicy::Always, TouchPolicy::Cached][touch];
    let pin = [PinPolicy::Default, PinPolicy::Never, PinPolicy::Once, PinPolicy::Always][pin];
    let a = alg_of(kind).unwrap();
    let mut cn = String::new();
    for i in 0..param("n") {
        cn.push((b'a' + (i % 26) as u8) as char);
    }
    let mut y = open();
    d.may_fail = param("fail") == 1;
    let r = y.provision(&slot, &cn, a, touch, pin);
    d.may_fail = false;
    let gens: Vec<_> = d.log.iter().filter_map(|(o, ok)| if let Op::Generate(s, a, p, t) = o { Some((*s, *a, *p, *t, *ok)) } else { None }).collect();
    check(gens.len() <= 1, "PIV provisioning: one key is generated at most");
    if let Some(g) = gens.first() {
        check(g.0 == slot && g.1 == a, "PIV provisioning: the key is generated in the slot, with the algorithm asked for");
        check(g.2 == pin && g.3 == touch, "PIV provisioning: the key has the PIN and touch policies asked for");
    }
    for (s, c) in before.iter() {
        check(d.certs.iter().any(|x| x.0 == *s && eq(&x.1, c)), "PIV provisioning: the other slots are left alone");
    }
    match r {
        Ok(p) => {
            cover("provisioned");
            check(!d.failed && gens.len() == 1 && kind < 2, "PIV provisioning: a device error is reported");
            let mut k = spki(kind, n, 0, 0);
            k.fix(&next, kind);
            check(is_key(&p, &k), "PIV provisioning: the SSH key returned is the key generated");
            match y.fetch_subject(&slot) {
                Ok(s) => check(s.as_bytes().starts_with(b"CN=") && s[3..] == cn, "PIV provisioning: the certificate in the slot has the common name"),
                Err(_) => check(false, "PIV provisioning: the slot has a certificate"),
            }
            match y.ssh_cert_fetch_pubkey(&slot) {
                Ok(q) => check(is_key(&q, &k), "PIV provisioning: the certificate in the slot has the key generated"),
                Err(_) => check(false, "PIV provisioning: the slot has a certificate"),
            }
            note_bytes(&p.encode());
        }
        Err(_) => {
            cover("refused");
            check(d.failed || kind >= 2 || cn.len() > 64, "PIV provisioning: a device that does its part is provisioned");
            if cn.len() > 64 {
                check(gens.is_empty(), "PIV provisioning: a common name that fits no certificate is refused before the key is replaced");
            }
        }
    }
}
/// signing request
#[no_mangle]
pub extern "C" fn h_piv_csr() {
    let kind = param("kind");
    let slot = SLOTS[param("slot")];
    let (d, k) = plug(kind, slot);
    world().ecdsa_short_max = param("short");
    let mut cn = Vec::new();
    for _ in 0..param("n") {
        let b = byte();
        assume(b >= 0x20 && b < 0x7f);
        cn.push(b);
    }
    let cn = String::from_utf8(cn).unwrap();
    let mut y = open();
    d.may_fail = param("fail") == 1;
    let r = y.generate_csr(&slot, &cn);
    d.may_fail = false;
    check(only_reads(d), "PIV request: the device's slots are left alone");
    check(d.log.iter().all(|(o, _)| !matches!(o, Op::OpenSerial(s) if *s != SERIAL)), "PIV request: only the same device is used");
    match r {
        Ok(csr) => {
            cover("made");
            check(!d.failed && kind < 2, "PIV request: a device error is reported");
            if let Some(k) = &k {
                let name = tlv(0x30, &[&tlv(0x31, &[&tlv(0x30, &[&[6, 3, 0x55, 4, 3], &tlv(12, &[cn.as_bytes()])])])]);
                let mut want = vec![2u8, 1, 0];
                want.extend_from_slice(&name);
                want.extend_from_slice(&k.der);
                // CertificationRequestInfo: after version, name and key only attributes
                let body = inside(&csr);
                let info_len = whole(body);
                let info = &body[..info_len];
                let at = inside(info);
                check(at.len() >= want.len() && eq(&at[..want.len()], &want), "PIV request: it names the subject and holds the key of the slot");
                check(at.len() <= want.len() + 2, "PIV request: nothing else is requested");
                made_over(d, slot, kind, info);
                let algid = whole(&body[info_len..]);
                let want_alg: &[u8] = if kind == 0 { &SHA256_EC } else { &crate::x509::SHA384_EC };
                check(eq(&body[info_len..info_len + algid], &tlv(0x30, &[&tlv(6, &[want_alg])])), "PIV request: the signature algorithm is that of the key");
                if d.made.len() == 1 {
                    check(eq(&body[info_len + algid..], &tlv(3, &[&[0], &d.made[0].2])), "PIV request: the signature is the device's");
                }
                note_bytes(&csr[csr.len() - 20..]);
            } else {
                check(false, "PIV request: an empty slot has no key");
            }
        }
        Err(_) => {
            cover("refused");
            check(d.failed || kind >= 2, "PIV request: P-256 and P-384 keys make requests");
        }
    }
}
/// length of the first DER element
fn whole(b: &[u8]) -> usize {
    let (h, n) = head(b);
    h + n
}
fn inside(b: &[u8]) -> &[u8] {
    let (h, n) = head(b);
    &b[h..h + n]
}
fn head(b: &[u8]) -> (usize, usize) {
    match b[1] {
        0x81 => (3, b[2] as usize),
        0x82 => (4, (b[2] as usize) << 8 | b[3] as usize),
        n => (2, n as usize),
    }
}
crate::entries!(h_piv_sign, h_piv_ssh, h_piv_fetch, h_piv_unlock, h_piv_open, h_piv_provision, h_piv_csr);
