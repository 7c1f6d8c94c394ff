//! Key types, public keys, fingerprints.
use crate::spec::{self, Cur, Fam, Key, RefKey};
use sshcerts::ssh::{
    Curve, EcdsaPublicKey, Ed25519PublicKey, KeyType, PublicKey, PublicKeyKind, RsaPublicKey,
};
use vrt::*;

/// KeyType::from_name on an arbitrary n-byte name.
#[no_mangle]
pub extern "C" fn h_keytype() {
    let n = param("n");
    let name = crate::wire::ascii(n);
    let want = spec::lookup(name.as_bytes());
    match (KeyType::from_name(&name), want) {
        (Ok(kt), Some(ty)) => {
            cover("known");
            check(spec::type_matches(&kt, ty), "key type: attributes of a name are those of the SSH registry");
            check(kt.as_pubkey_name() == ty.plain, "key type: as_pubkey_name is the plain type");
            check(kt.as_cert_name() == ty.cert, "key type: as_cert_name is the certificate type");
            match KeyType::from_name(&kt.as_cert_name()) {
                Ok(c) => {
                    check(c.is_cert && c.plain == kt.plain && c.is_sk == kt.is_sk, "key type: the certificate type leads back to the plain type")
                }
                Err(_) => check(false, "key type: the certificate name is itself known"),
            }
            note(ty.name.len() as u64);
        }
        (Err(_), None) => {
            cover("unknown");
            note(1);
        }
        (a, _) => {
            check(a.is_err(), "key type: an unknown name is rejected");
            check(false, "key type: every registered name is accepted");
        }
    }
}

#[no_mangle]
pub extern "C" fn h_curve() {
    let n = param("n");
    let name = crate::wire::ascii(n);
    let mut want = "";
    for c in ["nistp256", "nistp384", "nistp521"] {
        if eq(c.as_bytes(), name.as_bytes()) {
            want = c;
        }
    }
    match Curve::from_identifier(&name) {
        Ok(c) => {
            cover("known");
            check(c.identifier == want && spec::curve_id(&c.kind) == want, "curve: identifier and kind belong together")
        }
        Err(_) => {
            cover("unknown");
            check(want.is_empty(), "curve: every registered curve is accepted")
        }
    }
}

fn against_spec(buf: &[u8]) {
    let got = PublicKey::from_bytes(buf);
    let want = spec::key_blob(buf);
    match (got, want) {
        (Ok(k), Some(r)) => {
            cover("accepted");
            check(spec::key_matches(&k, &r), "public key: parsed fields are the fields on the wire");
            check(k.comment.is_none(), "public key: a blob carries no comment");
            // re-encoding reproduces the blob that was parsed (under its plain type name)
            let mut o = Vec::new();
            spec::put_key_blob(&mut o, &r);
            let enc = k.encode();
            check(eq(&enc, &o), "public key: encode is the canonical blob of the parsed key");
            note_bytes(&enc);
        }
        (Err(_), None) => {
            cover("rejected");
            note(0);
        }
        (Ok(_), None) => check(false, "public key: a malformed blob is rejected"),
        (Err(_), Some(_)) => check(false, "public key: every well-formed blob is accepted"),
    }
}

/// Fully symbolic blob of n bytes.
#[no_mangle]
pub extern "C" fn h_pubkey_any() {
    let buf = bytes(param("n"));
    against_spec(&buf);
}

/// A valid type name `t` followed by m arbitrary bytes.
#[no_mangle]
pub extern "C" fn h_pubkey_typed() {
    let ty = &spec::TYPES[param("t")];
    let mut buf = Vec::new();
    spec::put_string(&mut buf, ty.name.as_bytes());
    if param("curve") == 1 {
        spec::put_string(&mut buf, ty.curve.as_bytes());
    }
    buf.extend_from_slice(&bytes(param("m")));
    against_spec(&buf);
}

/// An arbitrary key value of plain type index `t`, field lengths 0..=max.
pub fn any_key(t: usize, max: usize) -> PublicKey {
    let ty = &spec::TYPES[t];
    let key_type = KeyType::from_name(ty.name).unwrap();
    let kind = match ty.fam {
        Fam::Rsa => {
            let mut e = bytes(choose(0, max));
            let mut n = bytes(choose(0, max));
            // numbers are kept without leading zeros
            if !e.is_empty() {
                assume(e[0] != 0);
            }
            if !n.is_empty() {
                assume(n[0] != 0);
            }
            e.shrink_to_fit();
            n.shrink_to_fit();
            PublicKeyKind::Rsa(RsaPublicKey { e, n })
        }
        Fam::Ecdsa => PublicKeyKind::Ecdsa(EcdsaPublicKey {
            curve: Curve::from_identifier(ty.curve).unwrap(),
            key: bytes(choose(0, max)),
            sk_application: if ty.is_sk { Some(crate::wire::ascii(choose(0, max))) } else { None },
        }),
        Fam::Ed25519 => PublicKeyKind::Ed25519(Ed25519PublicKey {
            key: bytes(choose(0, max)),
            sk_application: if ty.is_sk { Some(crate::wire::ascii(choose(0, max))) } else { None },
        }),
    };
    PublicKey { key_type, kind, comment: None }
}
pub fn as_ref_key(k: &PublicKey, t: usize) -> RefKey<'_> {
    let key = match &k.kind {
        PublicKeyKind::Rsa(k) => Key::Rsa { e: &k.e, n: &k.n },
        PublicKeyKind::Ecdsa(k) => Key::Ec {
            curve: spec::TYPES[t].curve,
            point: &k.key,
            app: k.sk_application.as_ref().map(|s| s.as_bytes()),
        },
        PublicKeyKind::Ed25519(k) => Key::Ed { key: &k.key, app: k.sk_application.as_ref().map(|s| s.as_bytes()) },
    };
    RefKey { ty: &spec::TYPES[t], key }
}

/// A key of plain type `t` with its fields exactly `a` (and for RSA n / SK application `b`) bytes long.
pub fn sized_key(t: usize, a: usize, b: usize) -> PublicKey {
    let ty = &spec::TYPES[t];
    let key_type = KeyType::from_name(ty.name).unwrap();
    let kind = match ty.fam {
        Fam::Rsa => {
            let e = bytes(a);
            let n = bytes(b);
            if a > 0 {
                assume(e[0] != 0);
            }
            if b > 0 {
                assume(n[0] != 0);
            }
            PublicKeyKind::Rsa(RsaPublicKey { e, n })
        }
        Fam::Ecdsa => PublicKeyKind::Ecdsa(EcdsaPublicKey {
            curve: Curve::from_identifier(ty.curve).unwrap(),
            key: bytes(a),
            sk_application: if ty.is_sk { Some(crate::wire::ascii(b)) } else { None },
        }),
        Fam::Ed25519 => PublicKeyKind::Ed25519(Ed25519PublicKey {
            key: bytes(a),
            sk_application: if ty.is_sk { Some(crate::wire::ascii(b)) } else { None },
        }),
    };
    PublicKey { key_type, kind, comment: None }
}
#[no_mangle]
pub extern "C" fn h_pubkey_sized() {
    let t = param("t");
    roundtrip(t, sized_key(t, param("a"), param("b")));
}

/// decode(encode(k)) == k for every key value, and encode is the reference encoding.
#[no_mangle]
pub extern "C" fn h_pubkey_roundtrip() {
    let t = param("t");
    roundtrip(t, any_key(t, param("max")));
}
fn roundtrip(t: usize, k: PublicKey) {
    let enc = k.encode();
    let mut o = Vec::new();
    spec::put_key_blob(&mut o, &as_ref_key(&k, t));
    check(eq(&enc, &o), "public key: encode is the canonical blob");
    match PublicKey::from_bytes(&enc) {
        Ok(k2) => {
            check(spec::key_matches(&k2, &as_ref_key(&k, t)), "public key: from_bytes(encode(k)) has k's fields");
            check(k2 == k, "public key: from_bytes(encode(k)) == k");
        }
        Err(_) => check(false, "public key: from_bytes(encode(k)) succeeds"),
    }
    // the certificate / signature embedding of the same key
    let mut w = sshcerts::ssh::Writer::new();
    w.write_pub_key(&k);
    let mut f = Vec::new();
    spec::put_string(&mut f, &o);
    check(eq(w.as_bytes(), &f), "writer: write_pub_key frames the blob");
    let mut w = sshcerts::ssh::Writer::new();
    w.write_pub_key_data(&k);
    let mut f = Vec::new();
    spec::put_key_fields(&mut f, &as_ref_key(&k, t).key);
    check(eq(w.as_bytes(), &f), "writer: write_pub_key_data writes the type-specific fields");
    note_bytes(&enc);
    cover("roundtrip");
    let _ = Cur::new(&enc);
}

crate::entries!(h_keytype, h_curve, h_pubkey_any, h_pubkey_typed, h_pubkey_roundtrip, h_pubkey_sized);
