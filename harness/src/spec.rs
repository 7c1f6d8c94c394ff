//! Reference model of the wire formats, written from RFC 4251/4253/5656/8709, PROTOCOL.certkeys,
//! PROTOCOL.u2f, PROTOCOL.key and PROTOCOL.sshsig. Shares no code with sshcerts.

/// A bounds-checked cursor.
#[derive(Clone)]
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, p: 0 }
    }
    pub fn left(&self) -> usize {
        if self.p >= self.b.len() { 0 } else { self.b.len() - self.p }
    }
    pub fn raw(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.left() || self.p > self.b.len() {
            return None;
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Some(s)
    }
    pub fn u32(&mut self) -> Option<u32> {
        let s = self.raw(4)?;
        Some(((s[0] as u32) << 24) | ((s[1] as u32) << 16) | ((s[2] as u32) << 8) | s[3] as u32)
    }
    pub fn u64(&mut self) -> Option<u64> {
        if self.left() < 8 {
            return None;
        }
        let h = self.u32()? as u64;
        let l = self.u32()? as u64;
        Some((h << 32) | l)
    }
    /// RFC 4251 string
    pub fn string(&mut self) -> Option<&'a [u8]> {
        let save = self.p;
        let n = self.u32()? as usize;
        match self.raw(n) {
            Some(s) => Some(s),
            None => {
                self.p = save;
                None
            }
        }
    }
    pub fn utf8(&mut self) -> Option<&'a [u8]> {
        let s = self.string()?;
        if core::str::from_utf8(s).is_ok() { Some(s) } else { None }
    }
    /// RFC 4251 mpint, non-negative and minimal; returns the magnitude.
    pub fn mpint(&mut self) -> Option<&'a [u8]> {
        let s = self.string()?;
        mpint_magnitude(s)
    }
}

pub fn mpint_magnitude(s: &[u8]) -> Option<&[u8]> {
    if s.is_empty() {
        return Some(s);
    }
    if s[0] & 0x80 != 0 {
        return None; // negative
    }
    if s[0] == 0 {
        // a leading zero is allowed only to clear the sign bit
        if s.len() == 1 || s[1] & 0x80 == 0 {
            return None;
        }
        return Some(&s[1..]);
    }
    Some(s)
}

pub fn put_u32(o: &mut Vec<u8>, v: u32) {
    o.push((v >> 24) as u8);
    o.push((v >> 16) as u8);
    o.push((v >> 8) as u8);
    o.push(v as u8);
}
pub fn put_u64(o: &mut Vec<u8>, v: u64) {
    put_u32(o, (v >> 32) as u32);
    put_u32(o, v as u32);
}
pub fn put_string(o: &mut Vec<u8>, s: &[u8]) {
    put_u32(o, s.len() as u32);
    o.extend_from_slice(s);
}
/// Encode the unsigned big-endian number `m` as an mpint.
pub fn put_mpint(o: &mut Vec<u8>, m: &[u8]) {
    let mut i = 0;
    while i < m.len() && m[i] == 0 {
        i += 1;
    }
    let m = &m[i..];
    if !m.is_empty() && m[0] & 0x80 != 0 {
        put_u32(o, m.len() as u32 + 1);
        o.push(0);
    } else {
        put_u32(o, m.len() as u32);
    }
    o.extend_from_slice(m);
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Fam {
    Rsa,
    Ecdsa,
    Ed25519,
}
pub struct Ty {
    pub name: &'static str,
    pub plain: &'static str,
    pub cert: &'static str,
    pub is_cert: bool,
    pub is_sk: bool,
    pub fam: Fam,
    pub curve: &'static str,
}
const fn ty(
    name: &'static str,
    plain: &'static str,
    cert: &'static str,
    is_cert: bool,
    is_sk: bool,
    fam: Fam,
    curve: &'static str,
) -> Ty {
    Ty { name, plain, cert, is_cert, is_sk, fam, curve }
}
const RC: &str = "ssh-rsa-cert-v01@openssh.com";
const E2: &str = "ecdsa-sha2-nistp256-cert-v01@openssh.com";
const E3: &str = "ecdsa-sha2-nistp384-cert-v01@openssh.com";
const E5: &str = "ecdsa-sha2-nistp521-cert-v01@openssh.com";
const EC: &str = "ssh-ed25519-cert-v01@openssh.com";
const SED: &str = "sk-ssh-ed25519-cert-v01@openssh.com";
const SEC: &str = "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com";
/// Every key type name of the SSH protocol family the library documents.
pub static TYPES: [Ty; 16] = [
    ty("ssh-rsa", "ssh-rsa", RC, false, false, Fam::Rsa, ""),
    ty("rsa-sha2-256", "ssh-rsa", RC, false, false, Fam::Rsa, ""),
    ty("rsa-sha2-512", "ssh-rsa", RC, false, false, Fam::Rsa, ""),
    ty(RC, "ssh-rsa", RC, true, false, Fam::Rsa, ""),
    ty("ecdsa-sha2-nistp256", "ecdsa-sha2-nistp256", E2, false, false, Fam::Ecdsa, "nistp256"),
    ty("ecdsa-sha2-nistp384", "ecdsa-sha2-nistp384", E3, false, false, Fam::Ecdsa, "nistp384"),
    ty("ecdsa-sha2-nistp521", "ecdsa-sha2-nistp521", E5, false, false, Fam::Ecdsa, "nistp521"),
    ty(E2, "ecdsa-sha2-nistp256", E2, true, false, Fam::Ecdsa, "nistp256"),
    ty(E3, "ecdsa-sha2-nistp384", E3, true, false, Fam::Ecdsa, "nistp384"),
    ty(E5, "ecdsa-sha2-nistp521", E5, true, false, Fam::Ecdsa, "nistp521"),
    ty("ssh-ed25519", "ssh-ed25519", EC, false, false, Fam::Ed25519, ""),
    ty(EC, "ssh-ed25519", EC, true, false, Fam::Ed25519, ""),
    ty("sk-ssh-ed25519@openssh.com", "sk-ssh-ed25519@openssh.com", SED, false, true, Fam::Ed25519, ""),
    ty(SED, "sk-ssh-ed25519@openssh.com", SED, true, true, Fam::Ed25519, ""),
    ty("sk-ecdsa-sha2-nistp256@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com", SEC, false, true, Fam::Ecdsa, "nistp256"),
    ty(SEC, "sk-ecdsa-sha2-nistp256@openssh.com", SEC, true, true, Fam::Ecdsa, "nistp256"),
];
/// Indices of the types that name a plain public key (not a certificate, not a signature alias).
pub static PLAIN: [usize; 7] = [0, 4, 5, 6, 10, 12, 14];
pub static CERT: [usize; 7] = [3, 7, 8, 9, 11, 13, 15];

pub fn lookup(name: &[u8]) -> Option<&'static Ty> {
    let mut i = 0;
    while i < TYPES.len() {
        if TYPES[i].name.len() == name.len() && vrt::eq(TYPES[i].name.as_bytes(), name) {
            return Some(&TYPES[i]);
        }
        i += 1;
    }
    None
}

pub enum Key<'a> {
    Rsa { e: &'a [u8], n: &'a [u8] },
    Ec { curve: &'static str, point: &'a [u8], app: Option<&'a [u8]> },
    Ed { key: &'a [u8], app: Option<&'a [u8]> },
}
pub struct RefKey<'a> {
    pub ty: &'static Ty,
    pub key: Key<'a>,
}

/// The type-specific fields of a public key of type `ty`.
pub fn key_fields<'a>(ty: &'static Ty, c: &mut Cur<'a>) -> Option<RefKey<'a>> {
    let key = match ty.fam {
        Fam::Rsa => {
            let e = c.mpint()?;
            let n = c.mpint()?;
            Key::Rsa { e, n }
        }
        Fam::Ecdsa => {
            let id = c.utf8()?;
            if !vrt::eq(id, ty.curve.as_bytes()) {
                return None;
            }
            let point = c.string()?;
            let app = if ty.is_sk { Some(c.utf8()?) } else { None };
            Key::Ec { curve: ty.curve, point, app }
        }
        Fam::Ed25519 => {
            let key = c.string()?;
            let app = if ty.is_sk { Some(c.utf8()?) } else { None };
            Key::Ed { key, app }
        }
    };
    Some(RefKey { ty, key })
}
/// A public key blob; trailing bytes are ignored (as the library documents no check for them).
pub fn key_blob(b: &[u8]) -> Option<RefKey<'_>> {
    let mut c = Cur::new(b);
    let name = c.string()?;
    let ty = lookup(name)?;
    key_fields(ty, &mut c)
}

use sshcerts::ssh::{CurveKind, KeyType, KeyTypeKind, PublicKey, PublicKeyKind};

pub fn type_matches(kt: &KeyType, ty: &Ty) -> bool {
    let kind = match (ty.fam, ty.is_cert) {
        (Fam::Rsa, false) => KeyTypeKind::Rsa,
        (Fam::Rsa, true) => KeyTypeKind::RsaCert,
        (Fam::Ecdsa, false) => KeyTypeKind::Ecdsa,
        (Fam::Ecdsa, true) => KeyTypeKind::EcdsaCert,
        (Fam::Ed25519, false) => KeyTypeKind::Ed25519,
        (Fam::Ed25519, true) => KeyTypeKind::Ed25519Cert,
    };
    kt.short_name == short_name(ty) && kt.name == ty.name && kt.plain == ty.plain && kt.is_cert == ty.is_cert && kt.is_sk == ty.is_sk && kt.kind == kind
}
pub fn short_name(ty: &Ty) -> &'static str {
    match (ty.fam, ty.is_sk, ty.is_cert) {
        (Fam::Rsa, _, false) => "RSA",
        (Fam::Rsa, _, true) => "RSA-CERT",
        (Fam::Ecdsa, false, false) => "ECDSA",
        (Fam::Ecdsa, false, true) => "ECDSA-CERT",
        (Fam::Ecdsa, true, false) => "ECDSA-SK",
        (Fam::Ecdsa, true, true) => "ECDSA-SK-CERT",
        (Fam::Ed25519, false, false) => "ED25519",
        (Fam::Ed25519, false, true) => "ED25519-CERT",
        (Fam::Ed25519, true, false) => "ED25519-SK",
        (Fam::Ed25519, true, true) => "ED25519-SK-CERT",
    }
}
pub fn curve_id(k: &CurveKind) -> &'static str {
    match k {
        CurveKind::Nistp256 => "nistp256",
        CurveKind::Nistp384 => "nistp384",
        CurveKind::Nistp521 => "nistp521",
    }
}
pub fn opt_eq(a: &Option<String>, b: Option<&[u8]>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => vrt::eq(a.as_bytes(), b),
        _ => false,
    }
}
/// The library's key has exactly the reference key's contents.
pub fn key_matches(k: &PublicKey, r: &RefKey<'_>) -> bool {
    if !type_matches(&k.key_type, r.ty) {
        return false;
    }
    kind_matches(&k.kind, &r.key)
}
pub fn kind_matches(k: &PublicKeyKind, r: &Key<'_>) -> bool {
    match (k, r) {
        (PublicKeyKind::Rsa(k), Key::Rsa { e, n }) => vrt::eq(&k.e, e) & vrt::eq(&k.n, n),
        (PublicKeyKind::Ecdsa(k), Key::Ec { curve, point, app }) => {
            curve_id(&k.curve.kind) == *curve
                && k.curve.identifier == *curve
                && (vrt::eq(&k.key, point) & opt_eq(&k.sk_application, *app))
        }
        (PublicKeyKind::Ed25519(k), Key::Ed { key, app }) => vrt::eq(&k.key, key) & opt_eq(&k.sk_application, *app),
        _ => false,
    }
}
pub fn put_key_fields(o: &mut Vec<u8>, k: &Key<'_>) {
    match k {
        Key::Rsa { e, n } => {
            put_mpint(o, e);
            put_mpint(o, n);
        }
        Key::Ec { curve, point, app } => {
            put_string(o, curve.as_bytes());
            put_string(o, point);
            if let Some(a) = app {
                put_string(o, a);
            }
        }
        Key::Ed { key, app } => {
            put_string(o, key);
            if let Some(a) = app {
                put_string(o, a);
            }
        }
    }
}
/// Canonical blob of a key of plain type.
pub fn put_key_blob(o: &mut Vec<u8>, r: &RefKey<'_>) {
    put_string(o, r.ty.plain.as_bytes());
    put_key_fields(o, &r.key);
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64c(v: u8) -> u8 {
    B64[(v & 63) as usize]
}
/// RFC 4648 base64, padded or not.
pub fn b64(b: &[u8], pad: bool) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        let y = if i + 1 < b.len() { b[i + 1] } else { 0 };
        let z = if i + 2 < b.len() { b[i + 2] } else { 0 };
        o.push(b64c(x >> 2));
        o.push(b64c((x << 4) | (y >> 4)));
        if i + 1 < b.len() {
            o.push(b64c((y << 2) | (z >> 6)));
        } else if pad {
            o.push(b'=');
        }
        if i + 2 < b.len() {
            o.push(b64c(z));
        } else if pad {
            o.push(b'=');
        }
        i += 3;
    }
    o
}
const fn b64inv() -> [u8; 256] {
    let mut t = [0xffu8; 256];
    let mut i = 0;
    while i < 64 {
        t[B64[i] as usize] = i as u8;
        i += 1;
    }
    t
}
static B64INV: [u8; 256] = b64inv();
/// Value of one base64 character, 0xff for anything else.
pub fn b64v(c: u8) -> u8 {
    B64INV[c as usize]
}
