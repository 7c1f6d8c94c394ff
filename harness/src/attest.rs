//! FIDO and PIV attestation.
use crate::x509::{cert, constraints, is_key, spki, tlv, Cert, Ext, Spki, SHA256_EC, SHA256_RSA, SHA384_EC, SHA384_RSA, SHA512_RSA};
use sshcerts::error::Error;
use sshcerts::fido::verification::{verify_auth_data, Transport};
use sshcerts::fido::AuthData;
use sshcerts::yubikey::verification::verify_certificate_chain;
use vrt::*;

static U2F_ROOT: &[u8] = include_bytes!("u2f-root.der");
static PIV_ROOT: &[u8] = include_bytes!("piv-root.der");

fn pem(der: &[u8]) -> String {
    let mut t = String::from("-----BEGIN CERTIFICATE-----\n");
    for l in crate::spec::b64(der, true).chunks(64) {
        t.push_str(core::str::from_utf8(l).unwrap());
        t.push('\n');
    }
    t.push_str("-----END CERTIFICATE-----\n");
    t
}
fn fixed(n: usize, f: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(f)).collect()
}
/// the issuer's key: what the primitive is given as key bytes, and which primitive a signature algorithm means for it
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Rsa,
    P256,
    P384,
}
const ALGS: [&[u8]; 5] = [&SHA256_RSA, &SHA384_RSA, &SHA512_RSA, &SHA256_EC, &SHA384_EC];
fn primitive(k: Kind, alg: usize) -> Option<u8> {
    Some(match (k, alg) {
        (_, 0) => RSA_SHA256,
        (_, 1) => RSA_SHA384,
        (_, 2) => RSA_SHA512,
        (Kind::P256, 3) => P256_SHA256 | ASN1,
        (Kind::P256, 4) => P256_SHA384 | ASN1,
        (Kind::P384, 3) => P384_SHA256 | ASN1,
        (Kind::P384, 4) => P384_SHA384 | ASN1,
        _ => return None,
    })
}
fn kind(k: usize) -> Kind {
    match k {
        3 => Kind::Rsa,
        1 => Kind::P384,
        _ => Kind::P256,
    }
}
struct Root {
    pem: Option<String>,
    key: Vec<u8>,
    kind: Kind,
    bad: bool,
}
/// 0 the built-in one, 1 P-256, 2 P-384, 3 RSA, 4 empty text, 5 no certificate inside, 6 cut short, 7 arbitrary short text, 8 a self-signed look-alike with trailing text
fn root(r: usize, builtin: &[u8]) -> Root {
    let k = match r {
        0 => return Root { pem: None, key: builtin.to_vec(), kind: Kind::Rsa, bad: false },
        2 => 1,
        3 => 3,
        _ => 0,
    };
    let mut s = spki(k, 0, 0, 0);
    let n = [65, 97, 0, 40][k];
    let key = fixed(n, 4);
    s.fix(&key, k);
    unsafe { crate::x509::FIXED = true };
    let c = cert(&s, ALGS[3], &[], 0);
    unsafe { crate::x509::FIXED = false };
    let mut bad = false;
    let text = match r {
        4 => {
            bad = true;
            String::new()
        }
        5 => {
            bad = true;
            pem(&c.der[..8])
        }
        6 => {
            bad = true;
            pem(&c.der[..c.der.len() - 9])
        }
        7 => {
            bad = true;
            let b = bytes(param("rn"));
            for i in 0..b.len() {
                assume((b[i] < 127) & ((b[i] > 31) | (b[i] == 10)));
            }
            String::from_utf8(b).unwrap()
        }
        8 => pem(&c.der) + "trailing\n",
        _ => pem(&c.der),
    };
    Root { pem: Some(text), key, kind: kind(k), bad }
}
fn ask(p: Option<u8>, key: &[u8], c: &[u8], sig: &[u8]) -> bool {
    match p {
        Some(a) => model_verify(a, key, &[], c, sig),
        None => false,
    }
}
fn decimal(b: &[u8]) -> Vec<u8> {
    let mut t = Vec::new();
    for i in 0..b.len() {
        if i > 0 {
            t.push(b'.');
        }
        let v = b[i];
        if v >= 100 {
            t.push(b'0' + v / 100);
        }
        if v >= 10 {
            t.push(b'0' + v / 10 % 10);
        }
        t.push(b'0' + v % 10);
    }
    t
}
const YUBICO: [u8; 8] = [0x2b, 6, 1, 4, 1, 0x82, 0xc4, 0x0a];
const FIDO: [u8; 8] = [0x2b, 6, 1, 4, 1, 0x82, 0xe5, 0x1c];
fn under(base: &[u8], rest: &[u8]) -> Vec<u8> {
    let mut v = base.to_vec();
    v.extend_from_slice(rest);
    v
}
fn cut(c: &Cert, n: usize) -> Vec<u8> {
    let mut d = c.der.clone();
    if n == 1000 {
        d.push(byte());
    } else {
        d.truncate(d.len() - n);
    }
    d
}

// ---- FIDO ---------------------------------------------------------------------------------------
/// alg: 0 -7, 1 -8, 2 any other; root as above; ik: kind of the attesting key; sa: signature algorithm; al/cl/sl: lengths of tail of authenticator data, challenge
/// and signature; ext: decimal digits, first extension last: 1 firmware of fl bytes, 2 AAGUID of al bytes, 3 transports of tl bytes, 4 an OID that is none of these,
/// 5 firmware of fl bytes that are arbitrary, 6 AAGUID likewise, 7 transports likewise, 8 the PIV firmware OID, 9 basic constraints
#[no_mangle]
pub extern "C" fn h_fido_attest() {
    world().verify_mode = NONDET;
    let r = root(param("root"), U2F_ROOT);
    let k = spki(param("ik"), 65, 0, 0);
    let (fl, gl, tl) = (param("fl"), param("gl"), param("tl"));
    let mut exts: Vec<Ext> = Vec::new();
    let (mut firmware, mut aaguid, mut transports): (Option<Vec<u8>>, Option<Vec<u8>>, Option<Vec<u8>>) = (None, None, None);
    let (mut open, mut e) = (false, param("ext"));
    while e > 0 {
        let crit = e % 2 == 0;
        exts.push(match e % 10 {
            1 => {
                let b = bytes(fl);
                let v = tlv(4, &[&b]);
                firmware = if fl == 3 { Some(b) } else { None };
                (under(&YUBICO, &[13, 1]), crit, v)
            }
            2 => {
                let b = bytes(gl);
                let v = tlv(4, &[&b]);
                aaguid = if gl == 16 { Some(b) } else { None };
                (under(&FIDO, &[1, 1, 4]), crit, v)
            }
            3 => {
                let b = bytes(tl);
                let unused = param("unused") as u8;
                if tl > 0 {
                    assume(b[tl - 1] & ((1u16 << unused) as u8).wrapping_sub(1) == 0);
                }
                let v = tlv(3, &[&[unused], &b]);
                transports = Some(b);
                (under(&FIDO, &[2, 1, 1]), crit, v)
            }
            4 => {
                let mut o = under(&FIDO, &[1, 1, 4]);
                if flag() {
                    o = under(&YUBICO, &[13, 1]);
                }
                let p = 5 + choose(0, o.len() - 6);
                let b = byte();
                assume((b != o[p]) & (b >> 7 == o[p] >> 7));
                // not the transports one
                assume((p != 8) | (b != 2));
                o[p] = b;
                (o, crit, tlv(4, &[&bytes(3)]))
            }
            5 => {
                open = true;
                (under(&YUBICO, &[13, 1]), crit, bytes(fl))
            }
            6 => {
                open = true;
                (under(&FIDO, &[1, 1, 4]), crit, bytes(gl))
            }
            7 => {
                open = true;
                (under(&FIDO, &[2, 1, 1]), crit, bytes(tl))
            }
            9 => constraints(),
            _ => (under(&YUBICO, &[3, 3]), crit, bytes(3)),
        });
        e /= 10;
    }
    let sa = param("sa");
    let c = cert(&k, ALGS[sa], &exts, 4);
    let der = cut(&c, param("cut"));
    // authenticator data: header, an Ed25519 or P-256 credential, or a tail of arbitrary bytes
    let mut auth = var(55);
    let at = param("auth");
    if at < 2 {
        auth[32] |= 0x40;
        auth[53] = 0;
        auth[54] = 2;
        auth.extend_from_slice(&bytes(2));
        if at == 0 {
            auth.extend_from_slice(&[0xa4, 1, 1, 3, 0x27, 0x20, 6, 0x21, 0x58, 32]);
            auth.extend_from_slice(&bytes(32));
        } else {
            auth.extend_from_slice(&[0xa5, 1, 2, 3, 0x26, 0x20, 1, 0x21, 0x42]);
            auth.extend_from_slice(&bytes(2));
            auth.extend_from_slice(&[0x22, 0x42]);
            auth.extend_from_slice(&bytes(2));
        }
    } else {
        auth[53] = 0;
        auth[54] = 0;
        auth.truncate(param("an"));
    }
    let challenge = bytes(param("cl"));
    let sig = bytes(param("sl"));
    let alg = match param("alg") {
        0 => -7,
        1 => -8,
        _ => {
            let a = word32() as i32;
            assume((a != -7) & (a != -8));
            a
        }
    };
    let got = verify_auth_data(&auth, &sig, &challenge, alg, &der, r.pem.as_deref());
    // what had to be asked, and what the answer was
    let mut signed = auth.clone();
    signed.extend_from_slice(&challenge);
    let issued = ask(primitive(r.kind, sa), &r.key, &c.tbs, &c.sig);
    let attested = ask(Some(P256_SHA256 | ASN1), &k.point, &signed, &sig);
    let a = match got {
        Err(e) => {
            cover("rejected");
            if alg == -8 {
                check(matches!(e, Error::Unsupported), "attestation: Ed25519 attestation is unsupported");
            }
            let must = alg == -7 && !r.bad && issued && attested && at < 2 && !open && (param("cut") == 0);
            check(!must, "attestation: a valid attestation is accepted");
            return;
        }
        Ok(a) => a,
    };
    cover("accepted");
    check(alg == -7, "attestation: only ECDSA P-256 with SHA-256 is accepted");
    check(!r.bad, "attestation: no attestation is accepted with an unreadable root");
    check(issued, "attestation: the root signed the attesting certificate");
    check(attested, "attestation: the certificate's key signed authenticator data and challenge");
    check(param("cut") == 0 || param("cut") == 1000, "attestation: a truncated certificate is rejected");
    match AuthData::parse(&auth) {
        Ok(p) => {
            check(eq(&p.credential_id, &a.auth_data.credential_id), "attestation: the credential is the attested one");
            check(eq(&p.rpid_hash, &a.auth_data.rpid_hash) & eq(&p.aaguid, &a.auth_data.aaguid) & (p.flags == a.auth_data.flags) & (p.sign_count == a.auth_data.sign_count), "attestation: hash, flags, counter and AAGUID are the attested ones");
            check(eq(&p.cose_key.key, &a.auth_data.cose_key.key) & (p.cose_key.algorithm == a.auth_data.cose_key.algorithm), "attestation: the key is the attested one");
        }
        Err(_) => check(false, "attestation: malformed authenticator data is rejected"),
    }
    if open {
        cover("open");
        return;
    }
    match (&a.firmware, firmware) {
        (Some(t), Some(b)) => check(eq(t.as_bytes(), &decimal(&b)), "attestation: the firmware is the one in the certificate"),
        (None, None) => (),
        _ => check(false, "attestation: the firmware is reported exactly when the certificate has one"),
    }
    match (&a.aaguid, aaguid) {
        (Some(t), Some(b)) => check(eq(t, &b), "attestation: the AAGUID is the one in the certificate"),
        (None, None) => (),
        _ => check(false, "attestation: the AAGUID is reported exactly when the certificate has one"),
    }
    match (&a.transports, transports) {
        (Some(t), Some(b)) => {
            let b = if b.is_empty() { 0 } else { b[0] };
            let has = |x: Transport| t.iter().any(|y| *y == x);
            check(has(Transport::Bluetooth) == (b & 0x80 != 0), "attestation: Bluetooth is bit 0");
            check(has(Transport::BluetoothLE) == (b & 0x40 != 0), "attestation: Bluetooth LE is bit 1");
            check(has(Transport::USB) == (b & 0x20 != 0), "attestation: USB is bit 2");
            check(has(Transport::NFC) == (b & 0x10 != 0), "attestation: NFC is bit 3");
            check(has(Transport::USBInternal) == (b & 0x08 != 0), "attestation: internal USB is bit 4");
        }
        (None, None) => (),
        _ => check(false, "attestation: the transports are reported exactly when the certificate has them"),
    }
    note_bytes(&a.auth_data.credential_id);
}

// ---- PIV ----------------------------------------------------------------------------------------
/// root as above; ik: intermediate's key, ck: client's key, sa / ca: signature algorithms; ext: decimal digits, first extension last: 1 firmware of fl bytes,
/// 2 serial number of sl bytes, 3 policy of pl bytes, 4 an OID that is none of these, 5 serial extension of sl arbitrary bytes, 6 the FIDO firmware OID, 9 basic constraints
#[no_mangle]
pub extern "C" fn h_piv_chain() {
    world().verify_mode = NONDET;
    let r = root(param("root"), PIV_ROOT);
    let size = [65, 97, 133, 40, 32, 65, 65, 65, 65];
    let ik: Spki = spki(param("ik"), size[param("ik")], 0, 0);
    let ck: Spki = spki(param("ck"), size[param("ck")], 0, 0);
    let (fl, sl, pl) = (param("fl"), param("sl"), param("pl"));
    let mut exts: Vec<Ext> = Vec::new();
    let (mut firmware, mut serial, mut policy): (Option<Vec<u8>>, Option<Vec<u8>>, Option<Vec<u8>>) = (None, None, None);
    let (mut open, mut e) = (false, param("ext"));
    while e > 0 {
        let crit = e % 2 == 0;
        exts.push(match e % 10 {
            1 => {
                let b = bytes(fl);
                firmware = if fl == 3 { Some(b.clone()) } else { None };
                (under(&YUBICO, &[3, 3]), crit, b)
            }
            2 => {
                let b = bytes(sl);
                if sl > 0 {
                    assume(b[0] & 0x80 == 0);
                }
                if sl > 1 {
                    // as few bytes as possible, as DER requires
                    assume((b[0] != 0) | (b[1] & 0x80 != 0));
                }
                let v = tlv(2, &[&b]);
                serial = if sl > 0 { Some(b) } else { None };
                (under(&YUBICO, &[3, 7]), crit, v)
            }
            3 => {
                let b = bytes(pl);
                policy = if pl > 1 { Some(b.clone()) } else { None };
                (under(&YUBICO, &[3, 8]), crit, b)
            }
            4 => {
                let mut o = under(&YUBICO, &[3, 3]);
                let p = 5 + choose(0, o.len() - 6);
                let b = byte();
                assume((b != o[p]) & (b >> 7 == o[p] >> 7));
                assume((p != 9) | ((b != 7) & (b != 8)));
                o[p] = b;
                (o, crit, bytes(3))
            }
            5 => {
                open = true;
                (under(&YUBICO, &[3, 7]), crit, bytes(sl))
            }
            9 => constraints(),
            _ => (under(&YUBICO, &[13, 1]), crit, tlv(4, &[&bytes(3)])),
        });
        e /= 10;
    }
    let (sa, ca) = (param("sa"), param("ca"));
    let iext: Vec<Ext> = if param("iext") == 1 { vec![constraints()] } else { vec![] };
    let inter = cert(&ik, ALGS[sa], &iext, 4);
    let client = cert(&ck, ALGS[ca], &exts, 4);
    let (icut, ccut) = (param("icut"), param("ccut"));
    let (i, c) = (cut(&inter, icut), cut(&client, ccut));
    let got = verify_certificate_chain(&c, &i, r.pem.as_deref());
    let issued = ask(primitive(r.kind, sa), &r.key, &inter.tbs, &inter.sig);
    let attested = ask(primitive(kind(param("ik")), ca), &ik.point, &client.tbs, &client.sig);
    let short = serial.as_ref().map_or(false, |s| s.len() <= 8);
    let whole = firmware.is_some() && short && policy.is_some() && !open && param("ck") < 2;
    let v = match got {
        Err(_) => {
            cover("rejected");
            check(!(issued && attested && whole && !r.bad && icut == 0 && ccut == 0), "PIV attestation: a valid chain is accepted");
            return;
        }
        Ok(v) => v,
    };
    cover("accepted");
    check(!r.bad, "PIV attestation: no chain is accepted with an unreadable root");
    check(issued, "PIV attestation: the root signed the intermediate");
    check(attested, "PIV attestation: the intermediate signed the client certificate");
    check((icut == 0 || icut == 1000) && (ccut == 0 || ccut == 1000), "PIV attestation: a truncated certificate is rejected");
    check(is_key(&v.public_key, &ck), "PIV attestation: the key is the one of the client certificate");
    match &firmware {
        Some(b) => check(eq(v.firmware.as_bytes(), &decimal(b)), "PIV attestation: the firmware is the one in the certificate"),
        None => check(false, "PIV attestation: a certificate without a firmware version is rejected"),
    }
    match &policy {
        Some(b) => check((v.pin_policy == b[0]) & (v.touch_policy == b[1]), "PIV attestation: the policies are the ones in the certificate"),
        None => check(false, "PIV attestation: a certificate without policies is rejected"),
    }
    if open {
        cover("open");
        return;
    }
    match &serial {
        Some(b) => {
            let (mut n, mut over) = (0u64, false);
            for i in 0..b.len() {
                over |= n >> 56 != 0;
                n = n << 8 | b[i] as u64;
            }
            check(!over, "PIV attestation: a serial number beyond 64 bits is rejected");
            check(v.serial == n, "PIV attestation: the serial number is the one in the certificate");
        }
        None => check(false, "PIV attestation: a certificate without a serial number is rejected"),
    }
    note(v.serial);
}
use crate::x509::var;
crate::entries!(h_fido_attest, h_piv_chain);
