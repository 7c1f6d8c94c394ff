//! Security keys: what the token is asked to do, and what the caller gets back.
use crate::cert::{issue, question};
use crate::keys::as_ref_key;
use crate::spec::{self, Fam, TYPES};
use crate::wire::ascii;
use crate::x509::{cert, spki, SHA256_RSA};
use authenticator::crypto::COSEAlgorithm;
use authenticator::ctap2::attestation::*;
use authenticator::ctap2::server::ResidentKeyRequirement;
use authenticator::model::{token, Credential, Fail, Token};
use sshcerts::error::Error;
use sshcerts::fido::generate::generate_new_ssh_key;
use sshcerts::fido::Error as FidoError;
use sshcerts::ssh::*;
use vrt::*;

const FAILS: [Fail; 9] = [
    Fail::No,
    Fail::Service,
    Fail::Transport,
    Fail::Silent,
    Fail::PinRequired,
    Fail::InvalidPin,
    Fail::PinAuthBlocked,
    Fail::PinBlocked,
    Fail::Refused,
];
/// the key types of security keys
fn ty(t: usize) -> usize {
    [12, 14][t]
}
fn pin(n: usize) -> Option<String> {
    if n == 0 {
        None
    } else {
        Some(ascii(n - 1))
    }
}
fn alg(t: usize) -> u8 {
    [ED25519, P256_SHA256][t]
}
fn same(a: &Option<authenticator::Pin>, b: &Option<String>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => eq(a.as_bytes(), b.as_bytes()),
        _ => false,
    }
}
/// A private key on the token for this public key; `pin` in it.
fn on_token(t: usize, pubkey: PublicKey, handle: &[u8], pin: Option<String>) -> (PrivateKey, &'static mut Token) {
    let tok = token();
    let (public, app) = match &pubkey.kind {
        PublicKeyKind::Ed25519(k) => (k.key.clone(), k.sk_application.clone()),
        PublicKeyKind::Ecdsa(k) => (k.key.clone(), k.sk_application.clone()),
        _ => (Vec::new(), None),
    };
    if let Some(a) = app {
        // another credential for the application comes first, and one with the same handle elsewhere
        let mut other = handle.to_vec();
        other.push(1);
        let mut elsewhere = a.as_bytes().to_vec();
        elsewhere.push(b'x');
        tok.credentials.push(Credential { handle: other, rp: a.as_bytes().to_vec(), alg: ED25519, public: vec![9; 32] });
        tok.credentials.push(Credential { handle: handle.to_vec(), rp: elsewhere, alg: ED25519, public: vec![8; 32] });
        tok.credentials.push(Credential { handle: handle.to_vec(), rp: a.as_bytes().to_vec(), alg: alg(t), public });
    }
    tok.fail = Fail::No;
    tok.flags = byte();
    tok.counter = word32();
    tok.presence = flag();
    let flags = byte();
    let kind = if t == 0 {
        PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey { flags, handle: handle.to_vec(), reserved: vec![], pin, device_path: None })
    } else {
        PrivateKeyKind::EcdsaSk(EcdsaSkPrivateKey { flags, handle: handle.to_vec(), reserved: vec![], pin, device_path: None })
    };
    (PrivateKey { key_type: pubkey.key_type.clone(), kind, pubkey, magic: 0, comment: String::new() }, tok)
}
fn sk_key(t: usize, app: Option<String>) -> PublicKey {
    let key_type = KeyType::from_name(TYPES[ty(t)].name).unwrap();
    let kind = if t == 0 {
        PublicKeyKind::Ed25519(Ed25519PublicKey { key: bytes(32), sk_application: app })
    } else {
        let mut key = bytes(65);
        key[0] = 4;
        PublicKeyKind::Ecdsa(EcdsaPublicKey { curve: Curve::from_identifier("nistp256").unwrap(), key, sk_application: app })
    };
    PublicKey { key_type, kind, comment: None }
}
/// the SSH form of the token's answer
fn wrapped(t: usize, raw: &[u8], tok: &Token) -> Vec<u8> {
    let mut o = Vec::new();
    spec::put_string(&mut o, TYPES[ty(t)].name.as_bytes());
    if TYPES[ty(t)].fam == Fam::Ecdsa {
        let mut i = Vec::new();
        let n = raw.len() / 2;
        spec::put_mpint(&mut i, &raw[..n]);
        spec::put_mpint(&mut i, &raw[n..]);
        spec::put_string(&mut o, &i);
    } else {
        spec::put_string(&mut o, raw);
    }
    o.push(tok.flags);
    o.extend_from_slice(&tok.counter.to_be_bytes());
    o
}
fn asked(tok: &Token, handle: &[u8], app: &[u8], p: &Option<String>, msg: &[u8]) {
    check(tok.signs.len() == 1 && tok.registers.is_empty(), "token signing: the token is asked once");
    if tok.signs.len() == 1 {
        let a = &tok.signs[0];
        check(a.allow_list.len() == 1 && eq(&a.allow_list[0].id, handle), "token signing: for the key handle of the private key, and no other");
        check(eq(a.relying_party_id.as_bytes(), app), "token signing: for the application of the key");
        check(eq(&a.client_data_hash, &model_digest(256, msg)), "token signing: over the SHA-256 digest of exactly the given bytes");
        check(same(&a.pin, p), "token signing: with the PIN of the private key");
        check(a.user_presence_req, "token signing: with a touch");
    }
}
/// fail: index into FAILS; odd: 0 as it should be, 1 the public key has no application, 2 it is an RSA key, 3 the key is not on the token
#[no_mangle]
pub extern "C" fn h_token_sign() {
    let t = param("t");
    world().verify_mode = IDEAL;
    world().ecdsa_short_max = param("short");
    let odd = param("odd");
    let app = ascii(param("app"));
    let handle = bytes(param("hl"));
    let p = pin(param("pin"));
    let mut pk = sk_key(t, if odd == 1 { None } else { Some(app.clone()) });
    if odd == 2 {
        pk.kind = PublicKeyKind::Rsa(RsaPublicKey { e: vec![3], n: bytes(4) });
    }
    let (k, tok) = on_token(t, pk, &handle, p.clone());
    tok.fail = FAILS[param("fail")];
    tok.attempts = if flag() { Some(byte()) } else { None };
    if odd == 3 {
        tok.credentials.truncate(2);
    }
    let msg = bytes(param("n"));
    let got = k.sign(&msg);
    if odd == 0 && param("fail") == 0 {
        asked(tok, &handle, app.as_bytes(), &p, &msg);
    }
    match got {
        Some(sig) => {
            cover("signed");
            check(odd == 0 && param("fail") == 0, "token signing: no signature without one from the token");
            let w = world();
            check(w.sign.len() == 1, "token signing: one signature is made");
            check(eq(&sig, &wrapped(t, &w.sign[0].raw, tok)), "token signing: returned as the key type's signature with the token's flags and counter");
            let mut kb = Vec::new();
            spec::put_key_blob(&mut kb, &as_ref_key(&k.pubkey, ty(t)));
            let r = spec::key_blob(&kb).unwrap();
            check(
                match question(&sig, &msg, &r) {
                    Some(q) => model_verify(q.alg, &q.key, &q.key_e, &q.msg, &q.sig),
                    None => false,
                },
                "token signing: the signature verifies under the key's public part"
            );
            note_bytes(&sig);
        }
        None => {
            cover("refused");
            check(odd != 0 || param("fail") != 0, "token signing: a token that signs gives a signature");
        }
    }
}
/// The token answers with n arbitrary bytes for a signature.
#[no_mangle]
pub extern "C" fn h_token_answer() {
    let t = param("t");
    let handle = bytes(2);
    let (k, tok) = on_token(t, sk_key(t, Some(ascii(4))), &handle, None);
    let a = bytes(param("n"));
    tok.answer = Some(a.clone());
    match k.sign(&bytes(3)) {
        Some(s) => {
            cover("wrapped");
            let n = s.len();
            check(n >= 5 && s[n - 5] == tok.flags && eq(&s[n - 4..], &tok.counter.to_be_bytes()), "token signing: the token's flags and counter end the signature");
            if t == 0 {
                check(eq(&s, &wrapped(t, &a, tok)), "token signing: the token's signature is kept as it is");
            }
        }
        None => {
            cover("refused");
            check(t == 1, "token signing: the token's signature is returned");
        }
    }
}
/// A certificate signed by a CA key on a token, and read back.
#[no_mangle]
pub extern "C" fn h_token_cert() {
    world().verify_mode = IDEAL;
    world().ecdsa_short_max = param("short");
    let t = if param("ca") == 12 { 0 } else { 1 };
    let i = issue();
    let handle = bytes(3);
    let mut pk = i.c.signature_key.clone();
    pk.comment = None;
    if let PublicKeyKind::Ecdsa(p) = &pk.kind {
        assume(p.key[0] == 4);
    }
    let app = match &pk.kind {
        PublicKeyKind::Ecdsa(p) => p.sk_application.clone().unwrap(),
        PublicKeyKind::Ed25519(p) => p.sk_application.clone().unwrap(),
        _ => String::new(),
    };
    let (k, tok) = on_token(t, pk, &handle, None);
    match i.c.sign(&k) {
        Ok(c) => {
            cover("issued");
            asked(tok, &handle, app.as_bytes(), &None, &i.tbs);
            let sig = wrapped(t, &world().sign[0].raw, tok);
            let mut want = i.tbs.clone();
            spec::put_string(&mut want, &sig);
            check(eq(&c.serialized, &want), "token CA: the certificate is the signed bytes followed by the token's signature");
            check(Certificate::from_bytes(&c.serialized).is_ok(), "token CA: the certificate verifies");
        }
        Err(_) => check(false, "token CA: a certificate is issued"),
    }
}

// ---- registration -------------------------------------------------------------------------------
/// fail: index into FAILS; cred: 0 an Ed25519 key, 1 a P-256 key, 2 arbitrary bytes, 3 none; stmt: 0 packed ES256, 1 none, 2 U2F, 3 packed without
/// certificate, 4 packed EdDSA, 5 two certificates
#[no_mangle]
pub extern "C" fn h_generate() {
    world().verify_mode = NONDET;
    let tok = token();
    let app = ascii(param("app"));
    let comment = ascii(param("cl"));
    let p = pin(param("pin"));
    let fail = FAILS[param("fail")];
    tok.fail = fail;
    tok.attempts = if flag() { Some(byte()) } else { None };
    tok.presence = flag();
    tok.counter = word32();
    let cred = param("cred");
    let f = byte();
    tok.flags = if cred < 2 { f | 0x40 } else { f };
    let handle = bytes(param("hl"));
    let aaguid = bytes(16);
    let key = bytes(32);
    if cred < 2 {
        tok.rest.extend_from_slice(&aaguid);
        tok.rest.extend_from_slice(&(handle.len() as u16).to_be_bytes());
        tok.rest.extend_from_slice(&handle);
        if cred == 0 {
            tok.rest.extend_from_slice(&[0xa4, 1, 1, 3, 0x27, 0x20, 6, 0x21, 0x58, 32]);
            tok.rest.extend_from_slice(&key);
        } else {
            tok.rest.extend_from_slice(&[0xa5, 1, 2, 3, 0x26, 0x20, 1, 0x21, 0x58, 32]);
            tok.rest.extend_from_slice(&key);
            tok.rest.extend_from_slice(&[0x22, 0x58, 32]);
            tok.rest.extend_from_slice(&key);
        }
    } else if cred == 2 {
        tok.rest = bytes(param("tn"));
    }
    let stmt = param("stmt");
    let point = spki(0, 65, 0, 0);
    let c = cert(&point, &SHA256_RSA, &[], 4);
    let sig = bytes(4);
    let mut certs = vec![AttestationCertificate(c.der.clone())];
    if stmt == 3 {
        certs.clear();
    }
    if stmt == 5 {
        certs.push(AttestationCertificate(bytes(3)));
    }
    tok.statement = Some(match stmt {
        1 => AttestationStatement::None,
        2 => AttestationStatement::FidoU2F(AttestationStatementFidoU2F { sig: Signature(sig.clone()), attestation_cert: certs }),
        _ => AttestationStatement::Packed(AttestationStatementPacked {
            alg: if stmt == 4 { COSEAlgorithm::EDDSA } else { COSEAlgorithm::ES256 },
            sig: Signature(sig.clone()),
            attestation_cert: certs,
        }),
    });
    let got = generate_new_ssh_key(&app, &comment, p.clone(), None);
    let usable = fail == Fail::No && cred == 0 && (stmt == 0 || stmt == 5);
    if !matches!(fail, Fail::Service | Fail::Transport) {
        check(tok.registers.len() == 1 && tok.signs.is_empty(), "token key: the token is asked once");
    }
    if tok.registers.len() == 1 {
        let a = &tok.registers[0];
        check(eq(a.relying_party.id.as_bytes(), app.as_bytes()), "token key: made for the application");
        check(same(&a.pin, &p), "token key: with the PIN given");
        check(world().rand.iter().any(|r| eq(&a.client_data_hash, r)), "token key: with a fresh random challenge");
        check(a.pub_cred_params.len() == 1 && a.pub_cred_params[0].alg == COSEAlgorithm::EDDSA, "token key: an Ed25519 key is asked for");
        check(a.resident_key_req != ResidentKeyRequirement::Required && a.exclude_list.is_empty(), "token key: nothing is stored on the token");
    }
    let verified = |w: &World| {
        let a = AuthenticatorData { rp_id_hash: authenticator::ctap2::server::RpIdHash(hash(app.as_bytes())), flags: AuthenticatorDataFlags(tok.flags), counter: tok.counter, rest: tok.rest.clone() };
        let auth = a.to_vec();
        let mut signed = auth.clone();
        signed.extend_from_slice(&tok.registers[0].client_data_hash);
        let issued = model_verify(RSA_SHA256, include_bytes!("u2f-root.der"), &[], &c.tbs, &c.sig);
        let attested = model_verify(P256_SHA256 | ASN1, &point.point, &[], &signed, &sig);
        (auth, issued, attested)
    };
    match got {
        Err(e) => {
            cover("refused");
            let told = match (&fail, &e) {
                (Fail::PinRequired, Error::FidoError(FidoError::PinRequired)) => true,
                (Fail::InvalidPin, Error::FidoError(FidoError::InvalidPin(n))) => *n == tok.attempts,
                (Fail::PinAuthBlocked, Error::FidoError(FidoError::KeyLocked)) => true,
                (Fail::PinBlocked, Error::FidoError(FidoError::KeyBlocked)) => true,
                (Fail::PinRequired | Fail::InvalidPin | Fail::PinAuthBlocked | Fail::PinBlocked, _) => false,
                (_, Error::FidoError(FidoError::PinRequired | FidoError::InvalidPin(_) | FidoError::KeyLocked | FidoError::KeyBlocked)) => false,
                _ => true,
            };
            check(told, "token key: PIN trouble is reported as what it is");
            if usable {
                let (_, issued, attested) = verified(world());
                check(!(issued && attested), "token key: a valid registration gives a key");
            }
        }
        Ok(k) => {
            cover("made");
            check(usable, "token key: no key without a valid registration");
            let (auth, issued, attested) = verified(world());
            check(issued && attested, "token key: the attestation is verified");
            check(eq(&k.attestation.auth_data, &auth) && eq(&k.attestation.auth_data_sig, &sig), "token key: the attestation is the token's");
            check(eq(&k.attestation.challenge, &tok.registers[0].client_data_hash) && k.attestation.alg == -7, "token key: the attestation has the challenge and the algorithm");
            check(eq(&k.attestation.intermediate, &c.der), "token key: the attestation has the first certificate");
            check(k.attestation.verify().is_ok(), "token key: the attestation verifies again");
            let q = &k.private_key;
            check(matches!(&q.kind, PrivateKeyKind::Ed25519Sk(x) if x.flags == tok.flags && eq(&x.handle, &handle) && x.reserved.is_empty() && x.pin == p), "token key: handle, flags and PIN are the token's and the caller's");
            check(matches!(&q.pubkey.kind, PublicKeyKind::Ed25519(x) if eq(&x.key, &key) && matches!(&x.sk_application, Some(a) if eq(a.as_bytes(), app.as_bytes()))), "token key: the public key is the token's, for the application");
            check(q.key_type.name == "sk-ssh-ed25519@openssh.com" && q.pubkey.key_type == q.key_type, "token key: it is a security key");
            check(eq(q.comment.as_bytes(), comment.as_bytes()), "token key: the comment is the one given");
            note_bytes(&auth);
        }
    }
}
fn hash(b: &[u8]) -> [u8; 32] {
    let h = model_digest(256, b);
    let mut o = [0u8; 32];
    o.copy_from_slice(&h);
    o
}
crate::entries!(h_token_sign, h_token_answer, h_token_cert, h_generate);
