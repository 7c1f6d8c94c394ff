//! What is shown of keys, certificates and errors.
use crate::cert::opt_pairs;
use crate::keys::sized_key;
use crate::spec::{self, Fam, TYPES};
use crate::wire::ascii;
use sshcerts::error::Error;
use sshcerts::fido::Error as FidoError;
use sshcerts::ssh::{CertType, FingerprintKind, PublicKeyKind};
use sshcerts::{Certificate, PublicKey};
use std::collections::HashMap;
use vrt::*;

/// Decimal digits of a number, by comparison and subtraction only.
fn decimal(mut v: u64) -> Vec<u8> {
    let mut o = Vec::new();
    let mut p: u64 = 10_000_000_000_000_000_000;
    let mut started = false;
    loop {
        let mut d = 0u8;
        while v >= p {
            v -= p;
            d += 1;
        }
        started |= d > 0 || p == 1;
        if started {
            o.push(b'0' + d);
        }
        if p == 1 {
            return o;
        }
        p /= 10;
    }
}
const EDGES: [u64; 12] = [0, 1, 9, 10, 99, 100, 9999, 10000, 4294967295, 9223372036854775808, 18446744073709551614, 18446744073709551615];
/// number `i` is one of the values above or any of up to three digits when `num` says so, else fixed
fn number(i: usize) -> u64 {
    if param("num") == 10 + i {
        return byte() as u64;
    }
    if param("num") == i {
        return EDGES[choose(0, EDGES.len() - 1)];
    }
    1700000000 + i as u64
}
fn line(o: &mut Vec<u8>, parts: &[&[u8]]) {
    for p in parts {
        o.extend_from_slice(p);
    }
    o.push(b'\n');
}
fn shown_key(k: &PublicKey) -> Vec<u8> {
    let f = k.fingerprint();
    check(f.kind == FingerprintKind::Sha256, "description: a SHA256 fingerprint");
    let mut o = b"SHA256:".to_vec();
    o.extend_from_slice(f.hash.as_bytes());
    o
}
/// The next lines are those wanted, in any order.
fn block(t: &[u8], at: &mut usize, want: &[Vec<u8>]) -> bool {
    let mut used = vec![false; want.len()];
    for _ in 0..want.len() {
        let mut hit = false;
        for (i, w) in want.iter().enumerate() {
            if used[i] || *at + w.len() > t.len() {
                continue;
            }
            if eq(&t[*at..*at + w.len()], w) {
                used[i] = true;
                *at += w.len();
                hit = true;
                break;
            }
        }
        if !hit {
            return false;
        }
    }
    true
}
fn options(t: &[u8], at: &mut usize, title: &str, v: &[(String, String)], values: bool) -> bool {
    let mut head = Vec::new();
    if v.is_empty() {
        line(&mut head, &[title.as_bytes(), b": (none)"]);
        return block(t, at, &[head]);
    }
    line(&mut head, &[title.as_bytes(), b":"]);
    if !block(t, at, &[head]) {
        return false;
    }
    let mut ls = Vec::new();
    for (k, x) in v {
        let mut l = Vec::new();
        if values {
            line(&mut l, &[b"\t", k.as_bytes(), b" ", x.as_bytes()]);
        } else {
            line(&mut l, &[b"\t", k.as_bytes()]);
        }
        ls.push(l);
    }
    block(t, at, &ls)
}
#[no_mangle]
pub extern "C" fn h_describe() {
    world().digest_concrete = true;
    let (t, ca) = (param("t"), param("ca"));
    let key = sized_key(t, param("kn"), param("kb"));
    let cak = sized_key(ca, param("cn"), param("cb"));
    let host = flag();
    let serial = number(0);
    let (after, before) = if param("num") == 3 { (EDGES[choose(0, 1)], EDGES[choose(10, 11)]) } else { (number(1), number(2)) };
    let id = ascii(param("idl"));
    let mut ps = Vec::new();
    for _ in 0..param("np") {
        ps.push(ascii(param("pl")));
    }
    let crit = opt_pairs(param("nc"), param("ol"), param("vl"));
    let ext = opt_pairs(param("ne"), param("ol"), param("vl"));
    let map = |v: &[(String, String)]| {
        let mut m = HashMap::new();
        for (k, x) in v {
            m.insert(k.clone(), x.clone());
        }
        m
    };
    let c = Certificate::builder(&key, if host { CertType::Host } else { CertType::User }, &cak)
        .unwrap()
        .serial(serial)
        .key_id(&id)
        .valid_after(after)
        .valid_before(before)
        .set_principals(&ps)
        .set_critical_options(map(&crit))
        .set_extensions(map(&ext));
    let shown = format!("{:#}", c);
    let s = shown.as_bytes();
    let mut w = Vec::new();
    let ct = spec::lookup(TYPES[t].cert.as_bytes()).unwrap();
    line(&mut w, &[b"Type: ", ct.name.as_bytes(), b" ", if host { b"host certificate" } else { b"user certificate" }]);
    line(&mut w, &[b"Public Key: ", spec::short_name(ct).as_bytes(), b" ", &shown_key(&key)]);
    line(&mut w, &[b"Signing CA: ", spec::short_name(&TYPES[ca]).as_bytes(), b" ", &shown_key(&cak), b" (using ", TYPES[ca].name.as_bytes(), b")"]);
    let mut at = 0;
    check(block(s, &mut at, &[w]), "description: type, key and CA of the certificate");
    let mut w = Vec::new();
    line(&mut w, &[b"Key ID: \"", id.as_bytes(), b"\""]);
    line(&mut w, &[b"Serial: ", &decimal(serial)]);
    check(block(s, &mut at, &[w]), "description: key id and serial number");
    let mut w = Vec::new();
    if after == 0 && before == u64::MAX {
        line(&mut w, &[b"Valid: forever"]);
    } else {
        line(&mut w, &[b"Valid between: ", &decimal(after), b" and ", &decimal(before)]);
    }
    check(block(s, &mut at, &[w]), "description: the period of validity");
    let mut w = Vec::new();
    if ps.is_empty() {
        line(&mut w, &[b"Principals: (none)"]);
    } else {
        line(&mut w, &[b"Principals"]);
    }
    for p in &ps {
        line(&mut w, &[b"\t", p.as_bytes()]);
    }
    check(block(s, &mut at, &[w]), "description: every principal, in order");
    check(options(s, &mut at, "Critical Options", &crit, true), "description: every critical option with its value");
    check(options(s, &mut at, "Extensions", &ext, false), "description: every extension");
    check(at == s.len(), "description: nothing else");
    note(s.len() as u64);
    cover("described");
}

/// Size in bits: of the curve, or of the modulus of exactly `b` bytes.
#[no_mangle]
pub extern "C" fn h_bits() {
    let t = param("t");
    let mut k = sized_key(t, param("a"), param("b"));
    let want = match (&mut k.kind, TYPES[t].fam) {
        (PublicKeyKind::Rsa(r), _) => {
            // leading zeros do not count
            for _ in 0..param("zeros") {
                r.n.insert(0, 0);
            }
            let n = param("b");
            let mut bits = 0;
            if n > 0 {
                let mut v = r.n[param("zeros")];
                while v != 0 {
                    v >>= 1;
                    bits += 1;
                }
                bits += (n - 1) * 8;
            }
            bits
        }
        (_, Fam::Ed25519) => 256,
        _ => match TYPES[t].curve {
            "nistp256" => 256,
            "nistp384" => 384,
            _ => 521,
        },
    };
    check(k.bits() == want, "key size: the bits of the modulus or curve");
    note(want as u64);
    cover("sized");
}

/// Errors of a token say what happened.
#[no_mangle]
pub extern "C" fn h_error_text() {
    let s = ascii(param("n"));
    let what = param("what");
    let make = || match what {
        0 => FidoError::Unknown(s.clone()),
        1 => FidoError::CborFormat(s.clone()),
        _ => FidoError::InvalidPin(Some(s.len() as u8)),
    };
    let inner = make().to_string();
    if what < 2 {
        check(eq(inner.as_bytes(), s.as_bytes()), "error text: the reason given, unchanged");
    } else {
        let d = decimal(s.len() as u64);
        check(inner.as_bytes().windows(d.len()).any(|x| x == &d[..]), "error text: the attempts left");
    }
    check(eq(Error::FidoError(make()).to_string().as_bytes(), inner.as_bytes()), "error text: the same when wrapped");
    note(inner.len() as u64);
    cover("shown");
}
crate::entries!(h_describe, h_bits, h_error_text);
