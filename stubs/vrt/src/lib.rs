//! Verification runtime shared by the harnesses and by the crypto stubs.
//!
//! The `sym_*` functions are intrinsics of the symbolic executor (symx). In the native replay
//! build the same names are provided by /verif/replay, which feeds them from a recorded tape.
//!
//! The crypto model kept here is an *ideal functionality with a call log*: a signature check,
//! a digest, a KDF or a cipher is an uninterpreted operation whose result is a fresh symbolic
//! value, equal for equal arguments. The log lets a harness ask "which bytes, under which key
//! and which algorithm, did the library hand to the primitive?".
#![allow(static_mut_refs)]

extern "C" {
    fn sym_bytes(p: *mut u8, len: usize);
    fn sym_assume(c: u32);
    fn sym_check(c: u32, p: *const u8, len: usize);
    fn sym_cover(p: *const u8, len: usize);
    fn sym_param(p: *const u8, len: usize) -> u64;
    fn sym_note(v: u64);
    fn sym_concretize(v: u64) -> u64;
    fn sym_secret(p: *const u8, len: usize);
    fn sym_leak();
}

/// `n` symbolic bytes; from 4500 on only the ends and the places around powers of two are symbolic,
/// the rest is a fixed pattern of letters.
#[inline(never)]
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n < 4500 {
        fill(&mut v);
        return v;
    }
    let mut i = 0;
    while i < n {
        v[i] = b'a' + (i % 23) as u8;
        i += 1;
    }
    fill(&mut v[..12]);
    let mut p = 64;
    while p + 16 < n {
        fill(&mut v[p - 1..p + 1]);
        p *= 2;
    }
    fill(&mut v[n - 6..]);
    v
}
#[inline(never)]
pub fn fill(v: &mut [u8]) {
    if !v.is_empty() {
        unsafe { sym_bytes(v.as_mut_ptr(), v.len()) }
    }
}
#[inline(never)]
pub fn byte() -> u8 {
    let mut b = [0u8; 1];
    unsafe { sym_bytes(b.as_mut_ptr(), 1) }
    b[0]
}
/// A fresh symbolic bit (forks when branched on).
#[inline(never)]
pub fn flag() -> bool {
    let b = byte();
    assume(b < 2);
    b == 1
}
#[inline(never)]
pub fn word32() -> u32 {
    let mut b = [0u8; 4];
    fill(&mut b);
    u32::from_be_bytes(b)
}
#[inline(never)]
pub fn word64() -> u64 {
    let mut b = [0u8; 8];
    fill(&mut b);
    u64::from_be_bytes(b)
}
/// A concrete value in lo..=hi, one path per value.
#[inline(never)]
pub fn choose(lo: usize, hi: usize) -> usize {
    if lo == hi {
        return lo;
    }
    let b = byte() as usize;
    assume(b <= hi - lo);
    lo + concretize(b as u64) as usize
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c as u32) }
}
#[inline(never)]
pub fn check(c: bool, label: &str) {
    unsafe { sym_check(c as u32, label.as_ptr(), label.len()) }
}
pub fn cover(label: &str) {
    unsafe { sym_cover(label.as_ptr(), label.len()) }
}
pub fn param(name: &str) -> usize {
    unsafe { sym_param(name.as_ptr(), name.len()) as usize }
}
pub fn note(v: u64) {
    unsafe { sym_note(v) }
}
/// Observe a byte string: length and a rolling combination of the contents.
#[inline(never)]
pub fn note_bytes(b: &[u8]) {
    note(b.len() as u64);
    let mut i = 0;
    while i < b.len() && i < 24 {
        note(b[i] as u64);
        i += 1;
    }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
pub fn secret(b: &[u8]) {
    unsafe { sym_secret(b.as_ptr(), b.len()) }
}
pub fn leak_reset() {
    unsafe { sym_leak() }
}
/// Branch-free byte string equality (lengths are concrete in the harnesses).
#[inline(never)]
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut acc = 0u8;
    let mut i = 0;
    while i < a.len() {
        acc |= a[i] ^ b[i];
        i += 1;
    }
    acc == 0
}

// ---------------------------------------------------------------------------------------------
// Crypto model
// ---------------------------------------------------------------------------------------------

pub const ED25519: u8 = 1;
pub const P256_SHA256: u8 = 2;
pub const P384_SHA384: u8 = 3;
pub const P256_SHA384: u8 = 4;
pub const P384_SHA256: u8 = 5;
pub const RSA_SHA1: u8 = 6;
pub const RSA_SHA256: u8 = 7;
pub const RSA_SHA384: u8 = 8;
pub const RSA_SHA512: u8 = 9;
pub const RSA_PSS_SHA256: u8 = 10;
pub const RSA_PSS_SHA384: u8 = 11;
pub const RSA_PSS_SHA512: u8 = 12;
/// Set on the algorithm id when the signature is in ASN.1 form rather than fixed r||s form.
pub const ASN1: u8 = 0x40;
/// Set for the legacy 1024-bit-minimum RSA parameter set.
pub const RSA1024: u8 = 0x20;

/// What `verify` answers for a question it has not seen before.
pub const NONDET: u8 = 0;
/// Accept only what the modelled `sign` produced (ideal signature functionality).
pub const IDEAL: u8 = 1;
/// Accept everything (used where the property is about what is parsed, not about acceptance).
pub const ACCEPT: u8 = 2;
pub const REJECT: u8 = 3;

#[derive(Clone)]
pub struct VerifyCall {
    pub alg: u8,
    pub key: Vec<u8>,
    pub key_e: Vec<u8>,
    pub msg: Vec<u8>,
    pub sig: Vec<u8>,
    pub ok: bool,
}
pub struct DigestCall {
    pub bits: u16,
    pub data: Vec<u8>,
    pub out: Vec<u8>,
}
/// A key pair handed to the primitive, and what it signed.
pub struct SignCall {
    pub alg: u8,
    pub secret: Vec<u8>,
    pub public: Vec<u8>,
    pub public_e: Vec<u8>,
    pub msg: Vec<u8>,
    /// Raw form: Ed25519 64 bytes, ECDSA fixed r||s, RSA modulus length.
    pub raw: Vec<u8>,
    /// Form returned to the caller (ASN.1 for ECDSA).
    pub out: Vec<u8>,
}
pub struct KdfCall {
    pub pass: Vec<u8>,
    pub salt: Vec<u8>,
    pub rounds: u32,
    pub out: Vec<u8>,
}
pub struct CipherCall {
    pub kind: u16,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub len: usize,
    pub offset: usize,
    pub stream: Vec<u8>,
}
pub struct RsaDer {
    pub der: Vec<u8>,
}

pub struct World {
    pub verify_mode: u8,
    pub verify: Vec<VerifyCall>,
    pub digest: Vec<DigestCall>,
    pub sign: Vec<SignCall>,
    pub kdf: Vec<KdfCall>,
    pub cipher: Vec<CipherCall>,
    pub rsa: Vec<RsaDer>,
    pub rand: Vec<Vec<u8>>,
    /// Key-pair construction may be refused by the primitive.
    pub keypair_may_fail: bool,
    pub rng_may_fail: bool,
    pub kdf_may_fail: bool,
    /// Digest outputs are drawn from a counter instead of being fresh symbolic bytes.
    pub digest_concrete: bool,
    /// Leading zero bytes an ECDSA r or s may have (0..=max).
    pub ecdsa_short_max: usize,
    /// Keystream is identically zero (the ciphertext is symbolic then).
    pub zero_keystream: bool,
    /// Keystream for the first bytes, chosen by the harness.
    pub stream: Vec<u8>,
    /// ed25519 seed -> public key table
    pub ed: Vec<(Vec<u8>, Vec<u8>)>,
}

static mut WORLD: World = World {
    verify_mode: NONDET,
    verify: Vec::new(),
    digest: Vec::new(),
    sign: Vec::new(),
    kdf: Vec::new(),
    cipher: Vec::new(),
    rsa: Vec::new(),
    rand: Vec::new(),
    keypair_may_fail: false,
    rng_may_fail: false,
    kdf_may_fail: false,
    digest_concrete: false,
    ecdsa_short_max: 0,
    zero_keystream: false,
    stream: Vec::new(),
    ed: Vec::new(),
};

pub fn world() -> &'static mut World {
    unsafe { &mut *core::ptr::addr_of_mut!(WORLD) }
}

#[inline(never)]
pub fn model_verify(alg: u8, key: &[u8], key_e: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    let w = world();
    let mut i = 0;
    while i < w.verify.len() {
        let c = &w.verify[i];
        if c.alg == alg
            && c.key.len() == key.len()
            && c.key_e.len() == key_e.len()
            && c.msg.len() == msg.len()
            && c.sig.len() == sig.len()
            && (eq(&c.key, key) & eq(&c.key_e, key_e) & eq(&c.msg, msg) & eq(&c.sig, sig))
        {
            return c.ok;
        }
        i += 1;
    }
    let ok = match w.verify_mode {
        ACCEPT => true,
        REJECT => false,
        IDEAL => {
            let mut ok = false;
            let mut i = 0;
            while i < w.sign.len() {
                let s = &w.sign[i];
                let want: &[u8] = if alg & ASN1 != 0 { &s.out } else { &s.raw };
                if s.alg == (alg & !(ASN1 | RSA1024))
                    && s.public.len() == key.len()
                    && s.public_e.len() == key_e.len()
                    && s.msg.len() == msg.len()
                    && want.len() == sig.len()
                    && (eq(&s.public, key) & eq(&s.public_e, key_e) & eq(&s.msg, msg) & eq(want, sig))
                {
                    ok = true;
                    break;
                }
                i += 1;
            }
            ok
        }
        _ => flag(),
    };
    w.verify.push(VerifyCall {
        alg,
        key: key.to_vec(),
        key_e: key_e.to_vec(),
        msg: msg.to_vec(),
        sig: sig.to_vec(),
        ok,
    });
    ok
}

#[inline(never)]
pub fn model_digest(bits: u16, data: &[u8]) -> Vec<u8> {
    let w = world();
    let mut i = 0;
    while i < w.digest.len() {
        let c = &w.digest[i];
        if c.bits == bits && c.data.len() == data.len() && eq(&c.data, data) {
            return c.out.clone();
        }
        i += 1;
    }
    let n = bits as usize / 8;
    let out = if w.digest_concrete {
        // A distinct, recognisable token per distinct (algorithm, input).
        let id = w.digest.len() as u8 + 1;
        let mut v = vec![0xD0u8 ^ (bits / 128) as u8; n];
        v[0] = id;
        v[n - 1] = id;
        v
    } else {
        let v = bytes(n);
        // collision freedom
        let mut i = 0;
        while i < w.digest.len() {
            if w.digest[i].out.len() == n {
                assume(!eq(&w.digest[i].out, &v));
            }
            i += 1;
        }
        v
    };
    w.digest.push(DigestCall { bits, data: data.to_vec(), out: out.clone() });
    out
}

/// Output of the KDF: memoised on its arguments.
#[inline(never)]
pub fn model_kdf(pass: &[u8], salt: &[u8], rounds: u32, n: usize) -> Option<Vec<u8>> {
    let w = world();
    if w.kdf_may_fail && flag() {
        return None;
    }
    let mut i = 0;
    while i < w.kdf.len() {
        let c = &w.kdf[i];
        if c.pass.len() == pass.len()
            && c.salt.len() == salt.len()
            && c.out.len() == n
            && (eq(&c.pass, pass) & eq(&c.salt, salt) & (c.rounds == rounds))
        {
            return Some(c.out.clone());
        }
        i += 1;
    }
    let out = bytes(n);
    w.kdf.push(KdfCall { pass: pass.to_vec(), salt: salt.to_vec(), rounds, out: out.clone() });
    Some(out)
}

/// XOR `data` with the keystream of (kind, key, iv) at `offset`.
#[inline(never)]
pub fn model_keystream(kind: u16, key: &[u8], iv: &[u8], offset: usize, data: &mut [u8]) {
    let w = world();
    let stream = if w.zero_keystream {
        vec![0u8; data.len()]
    } else if w.cipher.is_empty() && w.stream.len() == data.len() {
        w.stream.clone()
    } else {
        bytes(data.len())
    };
    let mut i = 0;
    while i < data.len() {
        data[i] ^= stream[i];
        i += 1;
    }
    w.cipher.push(CipherCall { kind, key: key.to_vec(), iv: iv.to_vec(), len: data.len(), offset, stream });
}

#[inline(never)]
pub fn model_rand(dest: &mut [u8]) -> bool {
    let w = world();
    if w.rng_may_fail && flag() {
        return false;
    }
    fill(dest);
    w.rand.push(dest.to_vec());
    true
}

/// The public key belonging to an Ed25519 seed (uninterpreted function).
#[inline(never)]
pub fn model_ed25519_public(seed: &[u8]) -> Vec<u8> {
    let w = world();
    let mut i = 0;
    while i < w.ed.len() {
        if eq(&w.ed[i].0, seed) {
            return w.ed[i].1.clone();
        }
        i += 1;
    }
    let v = bytes(32);
    w.ed.push((seed.to_vec(), v.clone()));
    v
}

fn der_int(v: &[u8]) -> Vec<u8> {
    // strip leading zeros (concrete positions by construction), keep one byte
    let mut i = 0;
    while i + 1 < v.len() && v[i] == 0 {
        i += 1;
    }
    let mut out = vec![2u8];
    if v[i] & 0x80 != 0 {
        out.push((v.len() - i + 1) as u8);
        out.push(0);
    } else {
        out.push((v.len() - i) as u8);
    }
    out.extend_from_slice(&v[i..]);
    out
}

/// Fixed r||s -> DER SEQUENCE { INTEGER r, INTEGER s }.
#[inline(never)]
pub fn ecdsa_der(raw: &[u8]) -> Vec<u8> {
    let n = raw.len() / 2;
    let r = der_int(&raw[..n]);
    let s = der_int(&raw[n..]);
    let mut out = vec![0x30u8, (r.len() + s.len()) as u8];
    out.extend_from_slice(&r);
    out.extend_from_slice(&s);
    out
}

/// A fresh ECDSA signature in fixed form: r and s nonzero, with up to ecdsa_short_max leading
/// zero bytes each.
#[inline(never)]
pub fn fresh_ecdsa(n: usize) -> Vec<u8> {
    let m = world().ecdsa_short_max;
    let mut raw = bytes(2 * n);
    for half in 0..2 {
        let z = choose(0, m);
        let base = half * n;
        for i in 0..z {
            raw[base + i] = 0;
        }
        assume(raw[base + z] != 0);
    }
    raw
}
