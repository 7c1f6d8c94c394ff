//! Detached signatures (PROTOCOL.sshsig): parsing, armor, verification.
use crate::cert::{accepts, question, t_ascii, t_bytes, t_key_blob, t_sig, T};
use crate::keys::{as_ref_key, sized_key};
use crate::spec::{self, Cur, Fam, RefKey, TYPES};
use crate::wire::ascii;
use sshcerts::ssh::{HashAlgorithm, SshSignature, VerifiedSshSignature};
use vrt::*;

pub struct RefSig<'a> {
    pub key: RefKey<'a>,
    pub ns: &'a [u8],
    pub hash: u16,
    pub sig: &'a [u8],
    pub trailing: usize,
}
pub enum Parsed<'a> {
    Ok(RefSig<'a>),
    Bad,
    /// well formed but for a reserved field that is not text (its contents are to be ignored)
    Odd,
}
pub fn blob(b: &[u8]) -> Parsed<'_> {
    match blob_(b) {
        Some((r, true)) => Parsed::Ok(r),
        Some((_, false)) => Parsed::Odd,
        None => Parsed::Bad,
    }
}
fn blob_(b: &[u8]) -> Option<(RefSig<'_>, bool)> {
    let mut c = Cur::new(b);
    if !eq(c.raw(6)?, b"SSHSIG") {
        return None;
    }
    if c.u32()? != 1 {
        return None;
    }
    let key = spec::key_blob(c.string()?)?;
    let ns = c.utf8()?;
    if ns.is_empty() {
        return None;
    }
    let res = c.string()?;
    let text = core::str::from_utf8(res).is_ok();
    let h = c.string()?;
    let hash = if eq(h, b"sha256") {
        256
    } else if eq(h, b"sha512") {
        512
    } else {
        return None;
    };
    let sig = c.string()?;
    Some((RefSig { key, ns, hash, sig, trailing: c.left() }, text))
}
pub fn hash_name(h: u16) -> &'static str {
    if h == 256 { "sha256" } else { "sha512" }
}
pub fn algo(h: u16) -> HashAlgorithm {
    if h == 256 { HashAlgorithm::Sha256 } else { HashAlgorithm::Sha512 }
}
/// The bytes a detached signature covers.
pub fn signed_data(ns: &[u8], hash: u16, msg: &[u8]) -> Vec<u8> {
    let mut o = b"SSHSIG".to_vec();
    spec::put_string(&mut o, ns);
    spec::put_string(&mut o, &[]);
    spec::put_string(&mut o, hash_name(hash).as_bytes());
    spec::put_string(&mut o, &model_digest(hash, msg));
    o
}
pub fn armor(b: &[u8], width: usize, crlf: bool, last_nl: bool) -> String {
    let e = spec::b64(b, true);
    let nl: &[u8] = if crlf { b"\r\n" } else { b"\n" };
    let mut o = b"-----BEGIN SSH SIGNATURE-----".to_vec();
    o.extend_from_slice(nl);
    for c in e.chunks(width) {
        o.extend_from_slice(c);
        o.extend_from_slice(nl);
    }
    o.extend_from_slice(b"-----END SSH SIGNATURE-----");
    if last_nl {
        o.extend_from_slice(nl);
    }
    unsafe { String::from_utf8_unchecked(o) }
}
fn against(text: &str, b: &[u8]) {
    let got = SshSignature::from_armored_string(text);
    match (got, blob(b)) {
        (Ok(g), Parsed::Ok(r)) => {
            cover("accepted");
            check(spec::key_matches(&g.pubkey, &r.key), "sshsig: the public key is the one in the signature");
            check(g.pubkey.comment.is_none(), "sshsig: the public key has no comment");
            check(eq(g.namespace.as_bytes(), r.ns), "sshsig: the namespace is the one in the signature");
            check(g.hash_algorithm.as_str() == hash_name(r.hash), "sshsig: the hash algorithm is the one in the signature");
            check(eq(&g.signature, r.sig), "sshsig: the signature bytes are the ones in the signature");
            note_bytes(g.namespace.as_bytes());
            note_bytes(&g.signature);
        }
        (Ok(_), Parsed::Bad) => check(false, "sshsig: malformed signatures are rejected"),
        (Err(_), Parsed::Ok(r)) => check(r.trailing > 0, "sshsig: well-formed signatures are accepted"),
        (Ok(_), Parsed::Odd) => note(2),
        (Err(_), _) => {
            cover("rejected");
            note(1);
        }
    }
}
fn template(key_t: usize) -> T {
    let mut t = T::new();
    t.b.extend_from_slice(b"SSHSIG");
    spec::put_u32(&mut t.b, 1);
    t.nested(t_key_blob(&TYPES[key_t], param("kn"), 2));
    t.string(t_ascii(param("ns")).as_bytes());
    t.string(t_ascii(param("res")).as_bytes());
    match param("hash") {
        0 => t.string(b"sha256"),
        1 => t.string(b"sha512"),
        n => t.string(&bytes(n)),
    }
    t.string(&t_bytes(param("sn")));
    t
}
/// mut: index of a length field made arbitrary; 90: magic arbitrary; 91: version arbitrary; 99: none.
#[no_mangle]
pub extern "C" fn h_sshsig_parse() {
    let mut t = template(param("t"));
    let m = param("mut");
    if m == 90 {
        fill(&mut t.b[..6]);
    } else if m == 91 {
        fill(&mut t.b[6..10]);
    } else if m < t.lens.len() {
        let o = t.lens[m];
        fill(&mut t.b[o..o + 4]);
    }
    if param("trail") > 0 {
        t.b.extend_from_slice(&bytes(param("trail")));
    }
    let text = armor(&t.b, param("width"), param("crlf") == 1, param("nl") == 1);
    against(&text, &t.b);
}
/// Cut anywhere.
#[no_mangle]
pub extern "C" fn h_sshsig_trunc() {
    let t = template(param("t"));
    let k = choose(0, 15) * 16 + choose(0, 15);
    if k > t.b.len() {
        return;
    }
    against(&armor(&t.b[..k], 76, false, true), &t.b[..k]);
}
/// The frame lines are arbitrary: which=0 header, 1 footer, 2 no footer, 3 no header, 4 text after the footer
#[no_mangle]
pub extern "C" fn h_sshsig_frame() {
    let t = template(param("t"));
    let e = unsafe { String::from_utf8_unchecked(spec::b64(&t.b, true)) };
    let begin = "-----BEGIN SSH SIGNATURE-----";
    let end = "-----END SSH SIGNATURE-----";
    let mut line = |want: &str| -> (String, bool) {
        let s = ascii(param("n"));
        let mut nl = false;
        for c in s.bytes() {
            nl |= (c == b'\n') | (c == b'\r');
        }
        assume(!nl);
        let same = eq(s.as_bytes(), want.as_bytes());
        (s, same)
    };
    let (text, ok) = match param("which") {
        0 => {
            let (s, same) = line(begin);
            (s + "\n" + &e + "\n" + end + "\n", same)
        }
        1 => {
            let (s, same) = line(end);
            // an arbitrary line that is not the footer is base64 content or garbage, and no footer follows
            (begin.to_string() + "\n" + &e + "\n" + &s + "\n", same)
        }
        2 => (begin.to_string() + "\n" + &e + "\n", false),
        3 => (e.clone() + "\n" + end + "\n", false),
        _ => {
            let (s, _) = line("");
            (begin.to_string() + "\n" + &e + "\n" + end + "\n" + &s, true)
        }
    };
    match SshSignature::from_armored_string(&text) {
        Ok(g) => {
            cover("accepted");
            check(ok, "sshsig: the BEGIN and END lines are required");
            note_bytes(&g.signature);
        }
        Err(_) => {
            cover("rejected");
            check(!ok, "sshsig: a framed signature is accepted");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_sshsig_display() {
    let t = param("t");
    let k = sized_key(t, param("a"), param("b"));
    let ns = ascii(param("ns"));
    let hash = if param("hash") == 0 { 256 } else { 512 };
    let sig = bytes(param("sn"));
    let mut o = b"SSHSIG".to_vec();
    spec::put_u32(&mut o, 1);
    let mut kb = Vec::new();
    spec::put_key_blob(&mut kb, &as_ref_key(&k, t));
    spec::put_string(&mut o, &kb);
    spec::put_string(&mut o, ns.as_bytes());
    spec::put_string(&mut o, &[]);
    spec::put_string(&mut o, hash_name(hash).as_bytes());
    spec::put_string(&mut o, &sig);
    let s = SshSignature { pubkey: k.clone(), namespace: ns.clone(), hash_algorithm: algo(hash), signature: sig.clone() };
    let text = s.to_string();
    // frame, lines of at most 76 characters, contents
    let mut lines: Vec<&str> = text.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    let n = lines.len();
    check(
        n >= 3 && lines[0] == "-----BEGIN SSH SIGNATURE-----" && lines[n - 1] == "-----END SSH SIGNATURE-----",
        "sshsig: displayed between BEGIN and END lines"
    );
    let mut body = Vec::new();
    for l in &lines[1..n - 1] {
        check(l.len() <= 76, "sshsig: lines of at most 76 characters");
        body.extend_from_slice(l.as_bytes());
    }
    check(eq(&body, &spec::b64(&o, true)), "sshsig: displayed as the base64 of magic, version, key, namespace, reserved, hash and signature");
    match SshSignature::from_armored_string(&text) {
        Ok(g) => {
            check(!ns.is_empty(), "sshsig: an empty namespace is rejected");
            check(g.pubkey == k, "sshsig: reading the text back gives the public key");
            check(g.namespace == ns, "sshsig: reading the text back gives the namespace");
            check(g.hash_algorithm.as_str() == hash_name(hash), "sshsig: reading the text back gives the hash algorithm");
            check(eq(&g.signature, &sig), "sshsig: reading the text back gives the signature");
        }
        Err(_) => check(ns.is_empty(), "sshsig: the text of a signature parses"),
    }
    note_bytes(&text.as_bytes()[30..]);
    cover("displayed");
}

/// Verification. pin: 0 none, 1 the same key, 2 the same key with a comment, 3 arbitrary key of the same type,
/// 4 key of another type. nsm: 0 the same namespace, 1 an arbitrary one of length `gl`.
#[no_mangle]
pub extern "C" fn h_sshsig_verify() {
    world().verify_mode = NONDET;
    world().digest_concrete = param("dsym") == 0;
    let t = param("t");
    let ty = &TYPES[t];
    let (a, b) = (param("a"), param("b"));
    let k = sized_key(t, a, b);
    let ns = ascii(param("ns"));
    let hash = if param("hash") == 0 { 256 } else { 512 };
    let msg = bytes(param("ml"));
    let mut st = t_sig(&TYPES[param("st")], ty.fam == Fam::Ecdsa, param("sn"), param("sm"), param("tr"));
    let m = param("mut");
    if m < st.lens.len() {
        let o = st.lens[m];
        fill(&mut st.b[o..o + 4]);
    }
    let sig = st.b;
    let given = if param("nsm") == 0 { ns.clone() } else { ascii(param("gl")) };
    let (pin, pin_ok) = match param("pin") {
        0 => (None, true),
        1 => (Some(k.clone()), true),
        2 => {
            let mut p = k.clone();
            p.comment = Some(ascii(2));
            (Some(p), true)
        }
        3 => {
            let p = sized_key(t, a, b);
            let same = spec::kind_matches(&p.kind, &as_ref_key(&k, t).key);
            (Some(p), same)
        }
        _ => (Some(sized_key(if t == 10 { 12 } else { 10 }, a, b)), false),
    };
    let s = SshSignature { pubkey: k.clone(), namespace: ns.clone(), hash_algorithm: algo(hash), signature: sig.clone() };
    let got = VerifiedSshSignature::from_ssh_signature(&msg, s, &given, pin);
    let mut kb = Vec::new();
    spec::put_key_blob(&mut kb, &as_ref_key(&k, t));
    let r = spec::key_blob(&kb).unwrap();
    let q = question(&sig, &signed_data(ns.as_bytes(), hash, &msg), &r);
    let good = accepts(&q);
    let ns_ok = eq(ns.as_bytes(), given.as_bytes());
    match got {
        Ok(v) => {
            cover("verified");
            check(pin_ok, "sshsig: verified only under the expected public key");
            check(ns_ok, "sshsig: verified only in the expected namespace");
            check(good, "sshsig: verified only if the key signed namespace, hash algorithm and message hash");
            check(eq(&v.message, &msg), "sshsig: the verified message is the given one");
            check(v.signature.pubkey == k && eq(&v.signature.signature, &sig) && v.signature.namespace == ns, "sshsig: the verified signature is the given one");
            note_bytes(&v.message);
        }
        Err(_) => {
            cover("refused");
            check(!(pin_ok & ns_ok & good), "sshsig: a signature by the key over this message and namespace verifies");
            note(0);
        }
    }
}

crate::entries!(h_sshsig_parse, h_sshsig_trunc, h_sshsig_frame, h_sshsig_display, h_sshsig_verify);
