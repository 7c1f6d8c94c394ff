//! ECDSA signatures: ASN.1 DER to SSH.
use crate::keys::sized_key;
use crate::spec::{self, TYPES};
use sshcerts::utils::{asn_der_to_r_s, format_signature_for_ssh, signature_convert_asn1_ecdsa_to_ssh};
use vrt::*;

enum Der<'a> {
    /// SEQUENCE of two INTEGERs and nothing else
    Good(&'a [u8], &'a [u8]),
    /// the integers are laid out as in a signature but the SEQUENCE length says otherwise
    Odd(&'a [u8], &'a [u8]),
    Bad,
}
fn integer<'a>(b: &'a [u8], p: &mut usize) -> Option<&'a [u8]> {
    if b.len() - *p < 2 || b[*p] != 2 {
        return None;
    }
    let n = b[*p + 1] as usize;
    if b.len() - *p - 2 < n {
        return None;
    }
    let v = &b[*p + 2..*p + 2 + n];
    *p += 2 + n;
    Some(v)
}
/// short-form lengths only (a P-256 or P-384 signature never needs more)
fn der(b: &[u8]) -> Der<'_> {
    if b.len() < 2 || b[0] != 0x30 {
        return Der::Bad;
    }
    let mut p = 2;
    let r = match integer(b, &mut p) {
        Some(v) => v,
        None => return Der::Bad,
    };
    let s = match integer(b, &mut p) {
        Some(v) => v,
        None => return Der::Bad,
    };
    if p != b.len() || s.is_empty() {
        return Der::Bad;
    }
    if b[1] as usize != b.len() - 2 || b.len() - 2 > 127 || r.is_empty() {
        return Der::Odd(r, s);
    }
    Der::Good(r, s)
}
fn all_three(b: &[u8]) {
    let t = param("t");
    let k = sized_key(t, 3, 3);
    let split = asn_der_to_r_s(b);
    let conv = signature_convert_asn1_ecdsa_to_ssh(b);
    let full = format_signature_for_ssh(&k, b);
    let name = if t == 0 { "rsa-sha2-512" } else { TYPES[t].name };
    let mut want = Vec::new();
    if !TYPES[t].curve.is_empty() {
        match der(b) {
            Der::Good(r, s) | Der::Odd(r, s) => {
                if matches!(der(b), Der::Good(..)) {
                    check(split.is_some() && conv.is_some() && full.is_some(), "ECDSA conversion: a DER signature converts");
                }
                let mut inner = Vec::new();
                spec::put_string(&mut inner, r);
                spec::put_string(&mut inner, s);
                spec::put_string(&mut want, name.as_bytes());
                spec::put_string(&mut want, &inner);
                if let Some((x, y)) = split {
                    cover("converted");
                    check(eq(x, r) && eq(y, s), "ECDSA conversion: r and s are the two INTEGERs");
                }
                if let Some(c) = conv {
                    check(eq(&c, &inner), "ECDSA conversion: r and s follow each other as SSH strings");
                }
                if let Some(f) = &full {
                    check(eq(f, &want), "ECDSA conversion: the SSH signature is the key's type and r, s");
                    note_bytes(f);
                }
            }
            Der::Bad => {
                cover("rejected");
                check(split.is_none() && conv.is_none() && full.is_none(), "ECDSA conversion: anything else is rejected");
            }
        }
    } else {
        spec::put_string(&mut want, name.as_bytes());
        spec::put_string(&mut want, b);
        match full {
            Some(f) => check(eq(&f, &want), "signature format: the SSH signature is the signature type and the bytes given"),
            None => check(false, "signature format: RSA and Ed25519 signatures are wrapped as they are"),
        }
        cover("wrapped");
    }
}
/// n arbitrary bytes
#[no_mangle]
pub extern "C" fn h_der_any() {
    all_three(&bytes(param("n")));
}
/// SEQUENCE { r of rn bytes, s of sn bytes }, with the byte at `mut` arbitrary and `extra` bytes appended
#[no_mangle]
pub extern "C" fn h_der_sized() {
    let (r, s) = (bytes(param("rn")), bytes(param("sn")));
    let mut b = vec![0x30, (4 + r.len() + s.len()) as u8, 2, r.len() as u8];
    b.extend_from_slice(&r);
    b.push(2);
    b.push(s.len() as u8);
    b.extend_from_slice(&s);
    let at = match param("mut") {
        m @ 0..=3 => m,
        4 => 4 + r.len(),
        5 => 5 + r.len(),
        _ => 9999,
    };
    if at < b.len() {
        b[at] = byte();
    }
    b.extend_from_slice(&bytes(param("extra")));
    all_three(&b);
}
crate::entries!(h_der_any, h_der_sized);
