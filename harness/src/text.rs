//! Text forms of public keys, fingerprints.
use crate::spec;
use crate::keys::{as_ref_key, sized_key};
use crate::wire::ascii;
use sshcerts::ssh::{FingerprintKind, Fingerprint, PublicKey};
use vrt::*;

/// `n` printable, non-blank ASCII characters.
pub fn word(n: usize) -> String {
    let mut v = bytes(n);
    let mut ok = true;
    // U+3000 is a blank
    let (mut i, end) = crate::wire::wide(&mut v, false);
    if end < n {
        ok = v[n - 1] != 0x80;
    }
    while i < end {
        ok &= (v[i] > 0x20) & (v[i] < 0x7f);
        i += 1;
    }
    assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}
fn blob(k: &PublicKey, t: usize) -> Vec<u8> {
    let mut o = Vec::new();
    spec::put_key_blob(&mut o, &as_ref_key(k, t));
    o
}
fn s(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}

/// Display / write of a key, and reading the text back.
#[no_mangle]
pub extern "C" fn h_pubkey_text() {
    let t = param("t");
    let mut k = sized_key(t, param("a"), param("b"));
    let cl = param("cl");
    if cl > 0 {
        k.comment = Some(word(cl));
    }
    let mut want = Vec::new();
    want.extend_from_slice(spec::TYPES[t].name.as_bytes());
    want.push(b' ');
    want.extend_from_slice(&spec::b64(&blob(&k, t), true));
    if let Some(c) = &k.comment {
        want.push(b' ');
        want.extend_from_slice(c.as_bytes());
    }
    let text = k.to_string();
    check(eq(text.as_bytes(), &want), "public key text: type name, base64 of the blob, comment");
    match PublicKey::from_string(&text) {
        Ok(k2) => {
            check(k2 == k, "public key text: reading the text back gives the same key and comment");
        }
        Err(_) => check(false, "public key text: the text of a key parses"),
    }
    let mut o: Vec<u8> = Vec::new();
    check(k.write(&mut o).is_ok(), "public key text: write succeeds");
    want.push(b'\n');
    check(eq(&o, &want), "public key text: write emits the line and a newline");
    match PublicKey::from_string(&s(o)) {
        Ok(k2) => check(k2 == k, "public key text: reading the written line back gives the same key"),
        Err(_) => check(false, "public key text: a written line parses"),
    }
    note(text.len() as u64);
    cover("text");
}

/// Label `t`, blob of type `u`: only equal names are accepted.
#[no_mangle]
pub extern "C" fn h_pubkey_label() {
    let t = param("t");
    let u = spec::PLAIN[choose(0, 6)];
    let k = sized_key(u, 3, 4);
    let mut text = spec::TYPES[t].name.to_string();
    text.push_str(if param("tab") == 1 { " \t " } else { " " });
    text.push_str(&s(spec::b64(&blob(&k, u), true)));
    match PublicKey::from_string(&text) {
        Ok(k2) => {
            cover("accepted");
            check(t == u, "public key text: a label that differs from the blob's type is rejected");
            check(k2 == k, "public key text: the key is the one in the blob");
        }
        Err(_) => {
            cover("rejected");
            check(t != u, "public key text: a label equal to the blob's type is accepted");
        }
    }
}

/// Label `t`, and a blob whose type name is any `n` characters before fields that fit the label.
#[no_mangle]
pub extern "C" fn h_pubkey_label_any() {
    let t = param("t");
    let plain = crate::cert::plain_of(&spec::TYPES[t]);
    let u = (0..16).find(|i| spec::TYPES[*i].name == plain.name).unwrap();
    let k = sized_key(u, 3, 4);
    let name = ascii(param("n"));
    let mut b = Vec::new();
    spec::put_string(&mut b, name.as_bytes());
    spec::put_key_fields(&mut b, &as_ref_key(&k, u).key);
    let mut text = spec::TYPES[t].name.to_string();
    text.push(' ');
    text.push_str(&s(spec::b64(&b, true)));
    let same = eq(name.as_bytes(), spec::TYPES[t].name.as_bytes());
    match PublicKey::from_string(&text) {
        Ok(k2) => {
            cover("accepted");
            check(same, "public key text: a label that differs from the blob's type is rejected");
            check(t != u || k2 == k, "public key text: the key is the one in the blob");
        }
        Err(_) => {
            cover("rejected");
            check(!same | (t != u), "public key text: a label equal to the blob's type is accepted");
        }
    }
}

/// `ssh-rsa ` followed by `n` arbitrary characters of the base64 field (after a concrete prefix).
#[no_mangle]
pub extern "C" fn h_pubkey_b64() {
    let n = param("n");
    let label = spec::TYPES[param("t")].name;
    let mut b = Vec::new();
    spec::put_string(&mut b, label.as_bytes());
    while b.len() % 3 != 0 {
        // the high bytes of the next length field
        b.push(0);
    }
    let mut text = label.to_string();
    text.push(' ');
    text.push_str(&s(spec::b64(&b, true)));
    let tail = word(n);
    text.push_str(&tail);
    let mut valid = true;
    let mut i = 0;
    let mut vals = Vec::new();
    while i < n {
        let v = spec::b64v(tail.as_bytes()[i]);
        valid &= v != 0xff;
        vals.push(v);
        i += 1;
    }
    let got = PublicKey::from_string(&text);
    if n % 4 == 0 && valid {
        let mut i = 0;
        while i < n {
            b.push((vals[i] << 2) | (vals[i + 1] >> 4));
            b.push((vals[i + 1] << 4) | (vals[i + 2] >> 2));
            b.push((vals[i + 2] << 6) | vals[i + 3]);
            i += 4;
        }
        match (got, spec::key_blob(&b)) {
            (Ok(k), Some(r)) => {
                cover("accepted");
                check(spec::key_matches(&k, &r), "public key text: the key is the one encoded in the base64 field");
                note_bytes(&k.encode());
            }
            (Err(_), None) => {
                cover("rejected");
            }
            (Ok(_), None) => check(false, "public key text: a malformed blob is rejected"),
            (Err(_), Some(_)) => check(false, "public key text: a well-formed blob is accepted"),
        }
        return;
    }
    if !valid {
        // something that is neither base64 nor padding
        let mut bad = false;
        let mut i = 0;
        while i < n {
            bad |= (vals[i] == 0xff) & (tail.as_bytes()[i] != b'=');
            i += 1;
        }
        if bad {
            cover("not base64");
            check(got.is_err(), "public key text: a character outside base64 is rejected");
        }
    }
}

/// Lines with fewer than two fields are rejected; arbitrary short text never panics.
#[no_mangle]
pub extern "C" fn h_pubkey_text_any() {
    let text = ascii(param("n"));
    let r = PublicKey::from_string(&text);
    // no known label and blob fits in fewer than 20 characters
    check(r.is_err(), "public key text: short text is rejected");
    cover("short");
}

fn kind_of(k: usize) -> (FingerprintKind, u16, &'static str) {
    match k {
        1 => (FingerprintKind::Sha384, 384, "SHA384:"),
        2 => (FingerprintKind::Sha512, 512, "SHA512:"),
        _ => (FingerprintKind::Sha256, 256, "SHA256:"),
    }
}

/// Fingerprint of a key.
#[no_mangle]
pub extern "C" fn h_fingerprint() {
    let t = param("t");
    world().digest_concrete = param("conc") == 1;
    let k = sized_key(t, param("a"), param("b"));
    let b = blob(&k, t);
    let (kind, bits, name) = kind_of(param("kind"));
    let fp = if param("kind") == 3 { k.fingerprint() } else { k.fingerprint_with(kind) };
    verify_fp(&fp, &b, bits, name);
}
#[no_mangle]
pub extern "C" fn h_fingerprint_data() {
    world().digest_concrete = param("conc") == 1;
    let b = bytes(param("a"));
    let (kind, bits, name) = kind_of(param("kind"));
    let fp = Fingerprint::compute(kind, &b);
    verify_fp(&fp, &b, bits, name);
}
fn verify_fp(fp: &Fingerprint, b: &[u8], bits: u16, name: &str) {
    // what would the digest of the blob be? same answer for the same question
    let d = model_digest(bits, b);
    check(world().digest.len() == 1, "fingerprint: the digest is taken over exactly the key blob, with the named hash");
    check(eq(fp.hash.as_bytes(), &spec::b64(&d, false)), "fingerprint: unpadded base64 of the digest");
    let mut want = name.as_bytes().to_vec();
    want.extend_from_slice(fp.hash.as_bytes());
    check(eq(fp.to_string().as_bytes(), &want), "fingerprint: displayed as KIND:base64");
    note(fp.hash.len() as u64);
    cover("fingerprint");
}

crate::entries!(h_pubkey_text, h_pubkey_label, h_pubkey_label_any, h_pubkey_b64, h_pubkey_text_any, h_fingerprint, h_fingerprint_data);
