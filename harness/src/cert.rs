//! Certificates: parsing, authenticity, issuing; raw signature verification through them.
use crate::keys::{as_ref_key, sized_key};
use crate::spec::{self, Cur, Fam, Key, RefKey, TYPES};
use crate::text::word;
use crate::wire::ascii;
use sshcerts::ssh::{CertType, Certificate, KeyType, PublicKey, SSHCertificateSigner};
use std::collections::HashMap;
use vrt::*;

// ---------------------------------------------------------------------------- reference model

/// The question that has to be put to the signature primitive to accept `sig` over `msg` by `key`.
pub struct Q {
    pub alg: u8,
    pub key: Vec<u8>,
    pub key_e: Vec<u8>,
    pub msg: Vec<u8>,
    pub sig: Vec<u8>,
}
fn sk_message(app: &[u8], fc: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut m = model_digest(256, app);
    m.extend_from_slice(fc);
    m.extend_from_slice(&model_digest(256, msg));
    m
}
/// RFC 4253 6.6 / RFC 5656 3.1.2 / RFC 8332 / RFC 8709 / PROTOCOL.u2f. None: cannot verify.
pub fn question(sig: &[u8], msg: &[u8], key: &RefKey<'_>) -> Option<Q> {
    let mut c = Cur::new(sig);
    let ty = spec::lookup(c.utf8()?)?;
    if ty.is_cert || ty.plain != key.ty.plain {
        return None;
    }
    let body = c.string()?;
    match &key.key {
        Key::Rsa { e, n } => {
            let alg = match ty.name {
                "ssh-rsa" => RSA_SHA1,
                "rsa-sha2-256" => RSA_SHA256,
                _ => RSA_SHA512,
            };
            Some(Q { alg, key: n.to_vec(), key_e: e.to_vec(), msg: msg.to_vec(), sig: body.to_vec() })
        }
        Key::Ed { key, app } => {
            let msg = match app {
                Some(a) => {
                    let fc = c.raw(5)?;
                    sk_message(a, fc, msg)
                }
                None => msg.to_vec(),
            };
            Some(Q { alg: ED25519, key: key.to_vec(), key_e: vec![], msg, sig: body.to_vec() })
        }
        Key::Ec { curve, point, app } => {
            let (alg, n) = match *curve {
                "nistp256" => (P256_SHA256, 32),
                "nistp384" => (P384_SHA384, 48),
                _ => return None,
            };
            let mut b = Cur::new(body);
            let r = b.mpint()?;
            let s = b.mpint()?;
            if r.len() > n || s.len() > n {
                return None;
            }
            let mut raw = vec![0u8; n - r.len()];
            raw.extend_from_slice(r);
            raw.resize(2 * n - s.len(), 0);
            raw.extend_from_slice(s);
            let msg = match app {
                Some(a) => {
                    let fc = c.raw(5)?;
                    sk_message(a, fc, msg)
                }
                None => msg.to_vec(),
            };
            Some(Q { alg, key: point.to_vec(), key_e: vec![], msg, sig: raw })
        }
    }
}
/// Does the signature primitive accept? (The same question always gets the same answer.)
pub fn accepts(q: &Option<Q>) -> bool {
    match q {
        Some(q) => model_verify(q.alg, &q.key, &q.key_e, &q.msg, &q.sig),
        None => false,
    }
}

pub struct RefCert<'a> {
    pub ty: &'static spec::Ty,
    pub nonce: &'a [u8],
    pub key: RefKey<'a>,
    pub serial: u64,
    pub kind: u32,
    pub key_id: &'a [u8],
    pub principals: Vec<&'a [u8]>,
    pub after: u64,
    pub before: u64,
    pub critical: Vec<(&'a [u8], &'a [u8])>,
    pub ext: Vec<(&'a [u8], &'a [u8])>,
    pub reserved: &'a [u8],
    pub ca: RefKey<'a>,
    pub signed: &'a [u8],
    pub signature: &'a [u8],
    pub trailing: usize,
}
fn options(b: &[u8]) -> Option<Vec<(&[u8], &[u8])>> {
    let mut v = Vec::new();
    let mut c = Cur::new(b);
    while c.left() > 0 {
        let name = c.utf8()?;
        let data = c.string()?;
        let val = if data.is_empty() { data } else { Cur::new(data).utf8()? };
        v.push((name, val));
    }
    Some(v)
}
pub fn plain_of(ty: &spec::Ty) -> &'static spec::Ty {
    let mut i = 0;
    while TYPES[i].name != ty.plain {
        i += 1;
    }
    &TYPES[i]
}
/// PROTOCOL.certkeys
pub fn cert(b: &[u8]) -> Option<RefCert<'_>> {
    let mut c = Cur::new(b);
    let ty = spec::lookup(c.utf8()?)?;
    if !ty.is_cert {
        return None;
    }
    let nonce = c.string()?;
    let key = spec::key_fields(plain_of(ty), &mut c)?;
    let serial = c.u64()?;
    let kind = c.u32()?;
    if kind != 1 && kind != 2 {
        return None;
    }
    let key_id = c.utf8()?;
    let mut p = Cur::new(c.string()?);
    let mut principals = Vec::new();
    while p.left() > 0 {
        principals.push(p.utf8()?);
    }
    let after = c.u64()?;
    let before = c.u64()?;
    let critical = options(c.string()?)?;
    let ext = options(c.string()?)?;
    let reserved = c.string()?;
    let ca = spec::key_blob(c.string()?)?;
    if ca.ty.is_cert {
        return None; // chained certificates are not supported
    }
    let signed = &b[..c.p];
    let signature = c.string()?;
    let trailing = c.left();
    Some(RefCert { ty, nonce, key, serial, kind, key_id, principals, after, before, critical, ext, reserved, ca, signed, signature, trailing })
}

fn opts_match(got: &HashMap<String, String>, want: &[(&[u8], &[u8])]) -> bool {
    // distinct names; each with its value
    let mut i = 0;
    let mut distinct = 0;
    while i < want.len() {
        let mut j = i + 1;
        let mut last = true;
        while j < want.len() {
            if eq(want[i].0, want[j].0) {
                last = false; // repeated: what the last one says counts
            }
            j += 1;
        }
        if last {
            distinct += 1;
            let mut found = false;
            for (k, v) in got {
                if eq(k.as_bytes(), want[i].0) {
                    found = eq(v.as_bytes(), want[i].1);
                }
            }
            if !found {
                return false;
            }
        }
        i += 1;
    }
    got.len() == distinct
}
/// Every field of the parsed certificate is the one on the wire.
pub fn cert_matches(c: &Certificate, r: &RefCert<'_>, b: &[u8]) {
    check(spec::type_matches(&c.key_type, r.ty), "certificate: type is the one on the wire");
    check(eq(&c.nonce, r.nonce), "certificate: nonce is the one on the wire");
    check(spec::key_matches(&c.key, &r.key), "certificate: certified key is the one on the wire");
    check(c.serial == r.serial, "certificate: serial is the one on the wire");
    check(c.cert_type as u32 == r.kind, "certificate: user/host type is the one on the wire");
    check(eq(c.key_id.as_bytes(), r.key_id), "certificate: key id is the one on the wire");
    let mut ok = c.principals.len() == r.principals.len();
    if ok {
        for (a, b) in c.principals.iter().zip(r.principals.iter()) {
            ok &= eq(a.as_bytes(), b);
        }
    }
    check(ok, "certificate: principals are the ones on the wire, in order");
    check(c.valid_after == r.after, "certificate: valid_after is the one on the wire");
    check(c.valid_before == r.before, "certificate: valid_before is the one on the wire");
    check(opts_match(&c.critical_options, &r.critical), "certificate: critical options are the ones on the wire");
    check(opts_match(&c.extensions, &r.ext), "certificate: extensions are the ones on the wire");
    check(eq(&c.reserved, r.reserved), "certificate: reserved field is the one on the wire");
    check(spec::key_matches(&c.signature_key, &r.ca), "certificate: CA key is the one on the wire");
    check(eq(&c.signature, r.signature), "certificate: signature is the one on the wire");
    check(c.comment.is_none(), "certificate: a blob carries no comment");
    if r.trailing == 0 {
        check(eq(&c.serialized, b), "certificate: the serialized form is the input");
    }
}

// ---------------------------------------------------------------------------- templates

pub struct T {
    pub b: Vec<u8>,
    /// offsets of length fields
    pub lens: Vec<usize>,
    pub sig_at: usize,
}
impl T {
    pub fn new() -> T {
        T { b: Vec::new(), lens: Vec::new(), sig_at: 0 }
    }
    pub fn string(&mut self, s: &[u8]) {
        self.lens.push(self.b.len());
        spec::put_string(&mut self.b, s);
    }
    /// a string whose contents are another template
    pub fn nested(&mut self, t: T) {
        self.lens.push(self.b.len());
        spec::put_u32(&mut self.b, t.b.len() as u32);
        let base = self.b.len();
        for l in &t.lens {
            self.lens.push(base + l);
        }
        self.b.extend_from_slice(&t.b);
    }
}
/// Field contents: symbolic, or (fix=1, when a length field is wrong and the contents get
/// reinterpreted) fixed letters and small numbers.
pub fn t_bytes(n: usize) -> Vec<u8> {
    if param("fix") == 0 {
        return bytes(n);
    }
    if n == 4 {
        return vec![0, 0, 0, 1];
    }
    let mut v = vec![0x61u8; n];
    for i in 0..n {
        v[i] += i as u8 % 20;
    }
    v
}
pub fn t_ascii(n: usize) -> String {
    if param("fix") == 0 {
        return ascii(n);
    }
    String::from_utf8(t_bytes(n)).unwrap()
}
/// Type-specific fields of a key of type `ty`, `n` content bytes per field (RSA: e 1 byte, no leading zero).
fn t_key_fields(t: &mut T, ty: &spec::Ty, n: usize, app: usize) {
    match ty.fam {
        Fam::Rsa => {
            for k in [1usize, n] {
                let v = t_bytes(k);
                if k > 0 {
                    assume(v[0] != 0 && v[0] < 0x80);
                }
                t.string(&v);
            }
        }
        Fam::Ecdsa => {
            t.string(ty.curve.as_bytes());
            t.string(&t_bytes(n));
        }
        Fam::Ed25519 => t.string(&t_bytes(n)),
    }
    if ty.is_sk {
        t.string(t_ascii(app).as_bytes());
    }
}
pub fn t_key_blob(ty: &spec::Ty, n: usize, app: usize) -> T {
    let mut t = T::new();
    t.string(ty.name.as_bytes());
    t_key_fields(&mut t, ty, n, app);
    t
}
/// A signature blob labelled `sty`, with SK trailer when `trailer`. `n`: bytes of the raw signature, or r and s.
pub fn t_sig(sty: &spec::Ty, ec: bool, n: usize, n2: usize, trailer: usize) -> T {
    let mut t = T::new();
    t.string(sty.name.as_bytes());
    if ec {
        let mut i = T::new();
        i.string(&t_bytes(n));
        i.string(&t_bytes(n2));
        t.nested(i);
    } else {
        t.string(&t_bytes(n));
    }
    t.b.extend_from_slice(&t_bytes(trailer));
    t
}
fn t_options(n: usize, name: usize, val: usize) -> T {
    let mut t = T::new();
    for i in 0..n {
        t.string(t_ascii(name).as_bytes());
        if i % 2 == 0 && val > 0 {
            let mut v = T::new();
            v.string(t_ascii(val).as_bytes());
            t.nested(v);
        } else {
            t.string(&[]);
        }
    }
    t
}
pub struct Shape {
    pub t: usize,
    pub ca: usize,
    pub st: usize,
    pub key_n: usize,
    pub ca_n: usize,
    pub sig_n: usize,
    pub sig_n2: usize,
    pub trailer: usize,
    pub np: usize,
    pub pl: usize,
    pub nc: usize,
    pub ne: usize,
    pub ol: usize,
    pub vl: usize,
    pub idl: usize,
    pub nonce: usize,
    pub res: usize,
}
pub fn shape() -> Shape {
    Shape {
        t: param("t"),
        ca: param("ca"),
        st: param("st"),
        key_n: param("kn"),
        ca_n: param("cn"),
        sig_n: param("sn"),
        sig_n2: param("sm"),
        trailer: param("tr"),
        np: param("np"),
        pl: param("pl"),
        nc: param("nc"),
        ne: param("ne"),
        ol: param("ol"),
        vl: param("vl"),
        idl: param("idl"),
        nonce: param("non"),
        res: param("res"),
    }
}
pub fn template(s: &Shape) -> T {
    let ty = &TYPES[s.t];
    let ca = &TYPES[s.ca];
    let mut t = T::new();
    t.string(ty.name.as_bytes());
    t.string(&t_bytes(s.nonce));
    t_key_fields(&mut t, ty, s.key_n, 2);
    t.b.extend_from_slice(&t_bytes(8));
    t.b.extend_from_slice(&t_bytes(4));
    t.string(t_ascii(s.idl).as_bytes());
    let mut p = T::new();
    for _ in 0..s.np {
        p.string(t_ascii(s.pl).as_bytes());
    }
    t.nested(p);
    t.b.extend_from_slice(&t_bytes(16));
    t.nested(t_options(s.nc, s.ol, s.vl));
    t.nested(t_options(s.ne, s.ol, s.vl));
    t.string(&t_bytes(s.res));
    t.nested(t_key_blob(ca, s.ca_n, 2));
    t.sig_at = t.b.len();
    t.nested(t_sig(&TYPES[s.st], ca.fam == Fam::Ecdsa, s.sig_n, s.sig_n2, s.trailer));
    t
}

/// The certificate has a CA field, and no key can be read from it.
fn no_ca(b: &[u8]) -> Option<bool> {
    let mut c = Cur::new(b);
    let ty = spec::lookup(c.utf8()?)?;
    if !ty.is_cert {
        return None;
    }
    c.string()?;
    spec::key_fields(plain_of(ty), &mut c)?;
    c.raw(12)?;
    c.string()?;
    c.string()?;
    c.raw(16)?;
    c.string()?;
    c.string()?;
    c.string()?;
    Some(match spec::key_blob(c.string()?) {
        Some(k) => k.ty.is_cert,
        None => true,
    })
}
/// focus 1: authenticity only; 2: fidelity only; 0: both.
fn decide(b: &[u8]) {
    let focus = param("focus");
    let got = Certificate::from_bytes(b);
    let want = cert(b);
    match want {
        Some(r) => {
            let q = question(r.signature, r.signed, &r.ca);
            let good = accepts(&q);
            match got {
                Ok(c) => {
                    cover("accepted");
                    if focus != 2 {
                        check(q.is_some(), "certificate: a signature that cannot belong to the CA key is rejected");
                        check(good, "certificate: accepted only if its CA key signed exactly the bytes before the signature");
                    }
                    if focus != 1 {
                        cert_matches(&c, &r, b);
                    }
                    note(c.serial);
                    note_bytes(&c.key.encode());
                }
                Err(_) => {
                    cover("rejected");
                    if r.trailing == 0 && focus != 2 {
                        check(!good, "certificate: accepted if well formed and signed by its CA key");
                    }
                    note(0);
                }
            }
        }
        None => {
            if focus != 1 {
                check(got.is_err(), "certificate: malformed certificates are rejected");
            } else if got.is_ok() {
                check(no_ca(b) != Some(true), "certificate: accepted only with a CA key that can be read");
            }
            cover("malformed");
            note(1);
        }
    }
}

/// One template, one length field (or nothing) replaced by four arbitrary bytes.
#[no_mangle]
pub extern "C" fn h_cert() {
    world().verify_mode = param("mode") as u8;
    world().digest_concrete = true;
    let mut t = template(&shape());
    let m = param("mut");
    if m < t.lens.len() {
        let o = t.lens[m];
        fill(&mut t.b[o..o + 4]);
    }
    decide(&t.b);
}
/// Truncation at every position, and up to three trailing bytes.
#[no_mangle]
pub extern "C" fn h_cert_trunc() {
    world().verify_mode = NONDET;
    world().digest_concrete = true;
    let mut t = template(&shape());
    let n = t.b.len();
    t.b.extend_from_slice(&bytes(3));
    // the cut is a concrete position
    let k = choose(0, 15) * 16 + choose(0, 15);
    if k > n + 3 {
        return;
    }
    t.b.truncate(k);
    decide(&t.b);
}
/// The type name itself is arbitrary.
#[no_mangle]
pub extern "C" fn h_cert_type() {
    world().verify_mode = ACCEPT;
    let t = template(&shape());
    let old = 4 + TYPES[param("t")].name.len();
    let n = param("n");
    let mut b = Vec::new();
    spec::put_string(&mut b, ascii(n).as_bytes());
    b.extend_from_slice(&t.b[old..]);
    decide(&b);
}

// ---------------------------------------------------------------------------- issuing

struct S {
    sig: Vec<u8>,
    refuse: bool,
}
static mut SEEN: Option<Vec<u8>> = None;
impl SSHCertificateSigner for S {
    fn sign(&self, b: &[u8]) -> Option<Vec<u8>> {
        unsafe { SEEN = Some(b.to_vec()) };
        if self.refuse {
            None
        } else {
            Some(self.sig.clone())
        }
    }
}
pub fn opt_pairs(n: usize, name: usize, val: usize) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = Vec::new();
    for i in 0..n {
        let k = ascii(name);
        for (p, _) in &v {
            assume(!eq(p.as_bytes(), k.as_bytes()));
        }
        v.push((k, if i % 2 == 0 { ascii(val) } else { String::new() }));
    }
    v
}
fn less(a: &[u8], b: &[u8]) -> bool {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
        i += 1;
    }
    a.len() < b.len()
}
fn put_options(o: &mut Vec<u8>, v: &[(String, String)]) {
    let mut s: Vec<&(String, String)> = Vec::new();
    for x in v {
        let mut i = 0;
        while i < s.len() && less(s[i].0.as_bytes(), x.0.as_bytes()) {
            i += 1;
        }
        s.insert(i, x);
    }
    let mut inner = Vec::new();
    for (k, v) in s {
        spec::put_string(&mut inner, k.as_bytes());
        let mut d = Vec::new();
        if !v.is_empty() {
            spec::put_string(&mut d, v.as_bytes());
        }
        spec::put_string(&mut inner, &d);
    }
    spec::put_string(o, &inner);
}
pub struct Issue {
    pub c: Certificate,
    pub tbs: Vec<u8>,
    pub crit: Vec<(String, String)>,
    pub ext: Vec<(String, String)>,
}
/// Build a certificate through the public builder, and the reference TBS for the same values.
pub fn issue() -> Issue {
    let (t, ca) = (param("t"), param("ca"));
    let key = sized_key(t, param("kn"), param("kb"));
    let cak = sized_key(ca, param("cn"), param("cb"));
    let host = flag();
    let serial = word64();
    let (after, before) = (word64(), word64());
    let id = ascii(param("idl"));
    let mut ps = Vec::new();
    for _ in 0..param("np") {
        ps.push(ascii(param("pl")));
    }
    let crit = opt_pairs(param("nc"), param("ol"), param("vl"));
    let ext = opt_pairs(param("ne"), param("ol"), param("vl"));
    let ct = if host { CertType::Host } else { CertType::User };
    let mut c = Certificate::builder(&key, ct, &cak).unwrap();
    let w = world();
    check(w.rand.len() >= 1 && eq(&c.nonce, &w.rand[0]) && c.nonce.len() == 32, "issue: the nonce is 32 fresh random bytes");
    let nonce = c.nonce.clone();
    let mut rs = c.serial;
    let bulk = param("bulk");
    if bulk >= 2 {
        // a builder that has been used before: what is set last counts
        c = c.serial(77).key_id("old").valid_after(5).valid_before(6);
        if bulk < 4 {
            let mut m = HashMap::new();
            m.insert("older".to_string(), "x".to_string());
            c = c.principal("oldest").critical_option("oldopt", "x").extension("oldext", "y");
            if bulk == 3 {
                c = c.set_extensions(m.clone()).set_critical_options(m).set_principals(&["older".to_string()]);
            }
        } else {
            for (k, _) in &crit {
                c = c.critical_option(k.as_str(), "old");
            }
            for (k, _) in &ext {
                c = c.extension(k.as_str(), "old");
            }
        }
    }
    if param("keep") == 0 || bulk >= 2 {
        c = c.serial(serial);
        rs = serial;
    }
    c = c.key_id(&id).valid_after(after).valid_before(before);
    if bulk >= 1 && bulk < 4 {
        let mut m = HashMap::new();
        for (k, v) in &crit {
            m.insert(k.clone(), v.clone());
        }
        c = c.set_principals(&ps).set_critical_options(m);
        let mut m = HashMap::new();
        for (k, v) in &ext {
            m.insert(k.clone(), v.clone());
        }
        c = c.set_extensions(m);
    } else {
        for p in &ps {
            c = c.principal(p);
        }
        for (k, v) in &crit {
            c = c.critical_option(k, v);
        }
        for (k, v) in &ext {
            c = c.extension(k, v);
        }
    }
    let mut o = Vec::new();
    spec::put_string(&mut o, TYPES[t].cert.as_bytes());
    spec::put_string(&mut o, &nonce);
    spec::put_key_fields(&mut o, &as_ref_key(&key, t).key);
    spec::put_u64(&mut o, rs);
    spec::put_u32(&mut o, if host { 2 } else { 1 });
    spec::put_string(&mut o, id.as_bytes());
    let mut inner = Vec::new();
    for p in &ps {
        spec::put_string(&mut inner, p.as_bytes());
    }
    spec::put_string(&mut o, &inner);
    spec::put_u64(&mut o, after);
    spec::put_u64(&mut o, before);
    put_options(&mut o, &crit);
    put_options(&mut o, &ext);
    spec::put_string(&mut o, &[]);
    let mut b = Vec::new();
    spec::put_key_blob(&mut b, &as_ref_key(&cak, ca));
    spec::put_string(&mut o, &b);
    Issue { c, tbs: o, crit, ext }
}

/// TBS of a built certificate, and parsing the signed certificate back.
#[no_mangle]
pub extern "C" fn h_issue() {
    world().verify_mode = ACCEPT;
    world().digest_concrete = true;
    let i = issue();
    check(eq(&i.c.tbs_certificate(), &i.tbs), "issue: the bytes to be signed are the certificate encoding of exactly the requested fields");
    check(eq(&i.c.tbs_certificate(), &i.tbs), "issue: the bytes to be signed are the same every time");
    let ca = &TYPES[param("ca")];
    let sty = if ca.fam == Fam::Rsa { &TYPES[2] } else { ca };
    // a signature of the CA key's form, contents arbitrary
    let mut sig = Vec::new();
    spec::put_string(&mut sig, sty.name.as_bytes());
    if ca.fam == Fam::Ecdsa {
        let mut inner = Vec::new();
        for _ in 0..2 {
            let v = bytes(3);
            assume(v[0] != 0);
            spec::put_mpint(&mut inner, &v);
        }
        spec::put_string(&mut sig, &inner);
    } else {
        spec::put_string(&mut sig, &bytes(4));
    }
    if ca.is_sk {
        sig.extend_from_slice(&bytes(5));
    }
    let before = i.c.clone();
    let signer = S { sig: sig.clone(), refuse: false };
    let signed = match i.c.sign(&signer) {
        Ok(c) => c,
        Err(_) => {
            check(false, "issue: a valid signature is attached");
            return;
        }
    };
    check(matches!(unsafe { &*core::ptr::addr_of!(SEEN) }, Some(s) if eq(s, &i.tbs)), "issue: the signer is asked to sign exactly the bytes to be signed");
    let mut want = i.tbs.clone();
    spec::put_string(&mut want, &sig);
    check(eq(&signed.serialized, &want), "issue: the issued certificate is the signed bytes followed by the signature");
    check(eq(&signed.signature, &sig), "issue: the signature is kept");
    match Certificate::from_bytes(&signed.serialized) {
        Ok(p) => {
            let k = |m: &HashMap<String, String>, v: &[(String, String)]| {
                let mut ok = m.len() == v.len();
                for (a, b) in v {
                    ok &= matches!(m.get(a), Some(x) if eq(x.as_bytes(), b.as_bytes()));
                }
                ok
            };
            check(k(&p.critical_options, &i.crit), "issue: parsing back gives the critical options");
            check(k(&p.extensions, &i.ext), "issue: parsing back gives the extensions");
            check(p.key == before.key && p.signature_key == before.signature_key, "issue: parsing back gives the keys");
            check(
                p.serial == before.serial
                    && p.cert_type == before.cert_type
                    && p.key_id == before.key_id
                    && p.principals == before.principals
                    && p.valid_after == before.valid_after
                    && p.valid_before == before.valid_before
                    && p.nonce == before.nonce
                    && p.key_type == before.key_type,
                "issue: parsing back gives the requested fields"
            );
        }
        Err(_) => check(false, "issue: the issued certificate parses"),
    }
    note_bytes(&signed.serialized);
    cover("issued");
}

/// add_signature with an arbitrary signature blob: attached exactly when it verifies over the TBS.
#[no_mangle]
pub extern "C" fn h_attach() {
    world().verify_mode = param("mode") as u8;
    world().digest_concrete = true;
    let i = issue();
    let ca = &TYPES[param("ca")];
    let mut t = t_sig(&TYPES[param("st")], ca.fam == Fam::Ecdsa, param("sn"), param("sm"), param("tr"));
    let m = param("mut");
    if m < t.lens.len() {
        let o = t.lens[m];
        fill(&mut t.b[o..o + 4]);
    }
    let sig = t.b;
    let tbs = i.c.tbs_certificate();
    let cak = i.c.signature_key.clone();
    let mut cb = Vec::new();
    spec::put_key_blob(&mut cb, &as_ref_key(&cak, param("ca")));
    let r = spec::key_blob(&cb).unwrap();
    let how = param("how");
    let got = match how {
        0 => i.c.add_signature(&sig),
        1 => i.c.sign(&S { sig: sig.clone(), refuse: false }),
        _ => i.c.sign(&S { sig: sig.clone(), refuse: true }),
    };
    let q = question(&sig, &tbs, &r);
    let good = accepts(&q) && how < 2;
    match got {
        Ok(c) => {
            cover("attached");
            check(good, "attach: a signature is attached only if it verifies under the CA key over the bytes to be signed");
            let mut want = tbs.clone();
            spec::put_string(&mut want, &sig);
            check(eq(&c.serialized, &want), "attach: the serialized certificate is the signed bytes followed by the signature");
            check(eq(&c.signature, &sig), "attach: the signature is kept as given");
            note_bytes(&c.signature);
            if param("again") > 0 {
                attach_again(c, &tbs, &r);
            }
        }
        Err(_) => {
            cover("refused");
            check(!good, "attach: a signature that verifies is attached");
            note(0);
        }
    }
}
/// A certificate that has a signature gets another one: as it is, with another serial and validity, or after a
/// trip through its wire form.
fn attach_again(mut c: Certificate, tbs: &[u8], ca: &RefKey<'_>) {
    let mut tbs = tbs.to_vec();
    let again = param("again");
    if again >= 3 {
        c = match Certificate::from_bytes(&c.serialized) {
            Ok(c) => c,
            Err(_) => {
                check(false, "attach: a certificate with its signature attached parses");
                return;
            }
        };
    }
    if again == 2 || again == 4 {
        let at = cert_kind_offset(&tbs) - 8;
        fill(&mut tbs[at..at + 8]);
        let mut n = [0u8; 8];
        n.copy_from_slice(&tbs[at..at + 8]);
        c.serial = u64::from_be_bytes(n);
    }
    let sig = t_sig(&TYPES[param("st")], TYPES[param("ca")].fam == Fam::Ecdsa, param("sn"), param("sm"), param("tr")).b;
    check(eq(&c.tbs_certificate(), &tbs), "attach: the bytes to be signed are those of the certificate's fields as they are now");
    let got = if flag() { c.add_signature(&sig) } else { c.sign(&S { sig: sig.clone(), refuse: false }) };
    let good = accepts(&question(&sig, &tbs, ca));
    match got {
        Ok(c) => {
            cover("attached again");
            check(good, "attach: a second signature is attached only if it verifies under the CA key over the bytes to be signed");
            spec::put_string(&mut tbs, &sig);
            check(eq(&c.serialized, &tbs), "attach: the serialized certificate is the signed bytes followed by the second signature");
            check(eq(&c.signature, &sig), "attach: the second signature is kept as given");
            note_bytes(&c.signature);
        }
        Err(_) => {
            cover("refused again");
            check(!good, "attach: a second signature that verifies is attached");
        }
    }
}

/// Text form.
#[no_mangle]
pub extern "C" fn h_cert_text() {
    world().verify_mode = ACCEPT;
    world().digest_concrete = true;
    let s = shape();
    let mut t = template(&s);
    // user or host
    let at = {
        // the type field follows the serial
        let c = cert_kind_offset(&t.b);
        c
    };
    t.b[at] = 0;
    t.b[at + 1] = 0;
    t.b[at + 2] = 0;
    t.b[at + 3] = if flag() { 2 } else { 1 };
    let label = &TYPES[param("lab")];
    let mut text = label.name.to_string();
    text.push(' ');
    text.push_str(&unsafe { String::from_utf8_unchecked(spec::b64(&t.b, true)) });
    let cl = param("cl");
    let comment = if cl > 0 { Some(word(cl)) } else { None };
    if let Some(c) = &comment {
        text.push(' ');
        text.push_str(c);
    }
    match Certificate::from_string(&text) {
        Ok(c) => {
            cover("accepted");
            check(label.name == TYPES[s.t].name, "certificate text: a label that differs from the certificate's type is rejected");
            match Certificate::from_bytes(&t.b) {
                Ok(mut d) => {
                    d.comment = comment;
                    check(c == d, "certificate text: the certificate is the one in the base64 field, with the comment");
                    // Display gives text that parses back to the same certificate
                    let mut out = TYPES[s.t].name.to_string();
                    out.push(' ');
                    out.push_str(&unsafe { String::from_utf8_unchecked(spec::b64(&t.b, true)) });
                    let shown = c.to_string();
                    check(
                        shown.len() >= out.len() && eq(&shown.as_bytes()[..out.len()], out.as_bytes()),
                        "certificate text: displayed as type and base64 of the certificate"
                    );
                }
                Err(_) => check(false, "certificate text: accepted only if the blob is"),
            }
        }
        Err(_) => {
            cover("rejected");
            check(label.name != TYPES[s.t].name || Certificate::from_bytes(&t.b).is_err(), "certificate text: accepted when the label matches and the blob is valid");
        }
    }
}
fn cert_kind_offset(b: &[u8]) -> usize {
    let mut c = Cur::new(b);
    let ty = spec::lookup(c.utf8().unwrap()).unwrap();
    c.string().unwrap();
    spec::key_fields(plain_of(ty), &mut c).unwrap();
    c.u64().unwrap();
    c.p
}
#[no_mangle]
pub extern "C" fn h_standard_ext() {
    let m = Certificate::standard_extensions();
    let want = ["permit-agent-forwarding", "permit-port-forwarding", "permit-pty", "permit-user-rc", "permit-X11-forwarding"];
    check(m.len() == 5, "issue: the five standard extensions");
    for w in want {
        check(matches!(m.get(w), Some(v) if v.is_empty()), "issue: each standard extension is a flag");
    }
    // the random source failing must not yield a certificate
    world().rng_may_fail = true;
    let k = sized_key(10, 2, 0);
    let t = KeyType::from_name("ssh-ed25519-cert-v01@openssh.com").unwrap();
    match Certificate::builder(&k, CertType::User, &k) {
        Ok(c) => {
            cover("built");
            check(c.key_type == t && world().rand.len() >= 1 && eq(&c.nonce, &world().rand[0]), "issue: no certificate without a random nonce");
        }
        Err(_) => cover("refused"),
    }
    let _: Option<PublicKey> = None;
}

crate::entries!(h_cert, h_cert_trunc, h_cert_type, h_issue, h_attach, h_cert_text, h_standard_ext);
