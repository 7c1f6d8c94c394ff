//! Reading from a path and writing to a stream, over a file system and a sink that may deliver
//! less than asked for, be interrupted, or fail. The functions `vr_*` stand in for the system
//! calls of the same name in the symbolic run and in the replay binary (parameter `fs`).
#![allow(static_mut_refs)]
use crate::cert::{shape, template};
use crate::keys::sized_key;
use crate::privkey::{any_priv, armor, parts, t_body, t_envelope};
use crate::text::word;
use crate::{cert::T, spec};
use sshcerts::ssh::AllowedSigners;
use sshcerts::{Certificate, PrivateKey, PublicKey};
use std::io;
use vrt::*;

extern "C" {
    fn __errno_location() -> *mut i32;
}
const FD: i32 = 977;
struct Fs {
    path: Vec<u8>,
    data: Vec<u8>,
    pos: usize,
    /// reads that may still go wrong
    faults: usize,
    /// what statx says the size is
    size: u64,
    open_error: i32,
    opened: usize,
    failed: bool,
    reads: usize,
}
static mut FS: Option<Fs> = None;
fn fs() -> &'static mut Fs {
    unsafe { FS.as_mut().unwrap() }
}
fn fail(e: i32) -> i32 {
    unsafe { *__errno_location() = e }
    -1
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn vr_open64(path: *const u8, flags: i32, _mode: u32) -> i32 {
    let f = fs();
    let mut i = 0;
    while i < f.path.len() && *path.add(i) == f.path[i] {
        i += 1;
    }
    check(i == f.path.len() && *path.add(i) == 0, "file: the file opened is the one named");
    // O_WRONLY, O_RDWR, O_CREAT, O_TRUNC
    check(flags & (1 | 2 | 0o100 | 0o1000) == 0, "file: a file to be read is opened for reading only");
    if f.open_error != 0 {
        f.failed = true;
        return fail(f.open_error);
    }
    f.opened += 1;
    f.pos = 0;
    FD
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn vr_read(fd: i32, p: *mut u8, n: usize) -> isize {
    let f = fs();
    if fd != FD || f.opened == 0 {
        return fail(9) as isize;
    }
    f.reads += 1;
    let left = f.data.len() - f.pos;
    let mut k = if n < left { n } else { left };
    if f.faults > 0 {
        f.faults -= 1;
        match choose(0, 4) {
            0 => (),
            1 => k = if k > 1 { 1 } else { k },
            2 => k -= k / 2,
            3 => return fail(4) as isize,
            _ => {
                f.failed = true;
                return fail([5, 21][choose(0, 1)]) as isize;
            }
        }
    }
    std::ptr::copy_nonoverlapping(f.data.as_ptr().add(f.pos), p, k);
    f.pos += k;
    k as isize
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn vr_lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    let f = fs();
    if fd != FD || f.opened == 0 {
        return fail(9) as i64;
    }
    let base = match whence {
        0 => 0,
        1 => f.pos as i64,
        _ => f.data.len() as i64,
    };
    let to = base + off;
    if to < 0 || to > f.data.len() as i64 {
        return fail(22) as i64;
    }
    f.pos = to as usize;
    to
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn vr_statx(_fd: i32, _path: *const u8, _flags: i32, _mask: u32, out: *mut u8) -> i64 {
    let mut i = 0;
    while i < 256 {
        *out.add(i) = 0;
        i += 1;
    }
    *(out as *mut u32) = 0x7ff;
    *(out.add(28) as *mut u16) = 0o100644;
    *(out.add(40) as *mut u64) = fs().size;
    0
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn vr_close(_fd: i32) -> i32 {
    let f = fs();
    check(f.opened > 0, "file: closed once");
    f.opened -= 1;
    0
}

fn pass() -> String {
    "pass".into()
}
/// A key sealed under the passphrase above: parameters as for the encrypted key harness.
fn sealed() -> String {
    let p = parts(param("t"));
    let c1 = bytes(4);
    let plain = t_body(p.section, &c1, &c1);
    let mut opts = T::new();
    opts.string(&bytes(16));
    opts.b.extend_from_slice(&[0, 0, 0, 16]);
    let mut ct = T::new();
    ct.b = plain.b.clone();
    world().stream = vec![0x5a; ct.b.len()];
    for i in 0..ct.b.len() {
        ct.b[i] ^= 0x5a;
    }
    armor(&t_envelope(b"aes256-ctr", b"bcrypt", opts, &[0, 0, 0, 1], p.public, ct).b, 70, false)
}
fn text(b: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(b) }
}
/// The text of one item of the kind asked for.
fn item(what: usize) -> String {
    match what {
        0 => {
            let mut k = sized_key(param("t"), param("a"), param("b"));
            let cl = param("cl");
            if cl > 0 {
                k.comment = Some(word(cl));
            }
            k.to_string()
        }
        1 => {
            let s = shape();
            let t = template(&s);
            let mut o = spec::TYPES[s.t].name.to_string();
            o.push(' ');
            o.push_str(&text(spec::b64(&t.b, true)));
            if param("cl") > 0 {
                o.push(' ');
                o.push_str(&word(param("cl")));
            }
            o
        }
        2 => {
            let mut o = Vec::new();
            any_priv(param("t")).write(&mut o).unwrap();
            text(o)
        }
        3 => sealed(),
        _ => {
            let mut o = String::new();
            let mut fixed = String::new();
            for i in 0..param("lines") {
                // the first and the last two lines are arbitrary, those between are all alike
                let arb = i < 1 || i + 2 > param("lines");
                if !arb && !fixed.is_empty() {
                    o.push_str(&fixed);
                    continue;
                }
                let mut l = if arb { word(2) } else { "zz".to_string() };
                l.push_str(if i % 2 == 0 { " " } else { " cert-authority " });
                let mut k = sized_key(param("t"), param("a"), param("b"));
                if let (false, sshcerts::ssh::PublicKeyKind::Ed25519(e)) = (arb, &mut k.kind) {
                    e.key = vec![7; 32];
                }
                l.push_str(&k.to_string());
                l.push('\n');
                o.push_str(&l);
                if !arb {
                    fixed = l;
                }
            }
            o
        }
    }
}
fn settle<T: PartialEq>(got: Result<T, sshcerts::error::Error>, want: Option<Result<T, sshcerts::error::Error>>) {
    let f = fs();
    check(f.opened == 0, "file: closed when it has been read");
    match (got, want) {
        (Ok(a), Some(Ok(b))) => {
            cover("read");
            check(!f.failed, "file: an error in opening or reading is reported");
            check(a == b, "file: what is read from a file is what its contents say");
            note(1);
        }
        (Ok(_), _) => check(false, "file: accepted only if the file could be read whole, is text, and its contents are accepted"),
        (Err(_), Some(Ok(_))) => {
            check(f.failed, "file: accepted if its contents are");
            cover("failed");
            note(2);
        }
        (Err(_), _) => {
            cover("refused");
            note(3);
        }
    }
}
fn utf8(b: &[u8]) -> Option<&str> {
    std::str::from_utf8(b).ok()
}
/// what: 0 public key, 1 certificate, 2 private key, 3 encrypted key with its passphrase,
/// 4 allowed signers, 5 encrypted key without passphrase. The contents are the text of one item
/// (one per line), after `pre` and before `post` arbitrary bytes, or, with `raw`, just those.
#[no_mangle]
pub extern "C" fn h_from_path() {
    world().verify_mode = ACCEPT;
    world().digest_concrete = true;
    let what = param("what");
    let mut data = bytes(param("pre"));
    if param("raw") == 0 {
        data.extend_from_slice(item(if what == 5 { 3 } else { what }).as_bytes());
    }
    for _ in 0..param("nl") {
        data.push(b'\n');
    }
    data.extend_from_slice(&bytes(param("post")));
    let path = text(b"/vr/".to_vec()) + &word(param("pn"));
    let size = match param("size") {
        0 => data.len() as u64,
        1 => 0,
        2 => data.len() as u64 / 2,
        _ => data.len() as u64 + 40,
    };
    let open_error = if param("noopen") == 1 { [2, 13, 20, 24][choose(0, 3)] } else { 0 };
    unsafe {
        FS = Some(Fs { path: path.clone().into_bytes(), data: data.clone(), pos: 0, faults: param("faults"), size, open_error, opened: 0, failed: false, reads: 0 })
    }
    match what {
        0 => settle(PublicKey::from_path(&path), utf8(&data).map(PublicKey::from_string)),
        1 => settle(Certificate::from_path(&path), utf8(&data).map(Certificate::from_string)),
        2 => settle(PrivateKey::from_path(&path), utf8(&data).map(PrivateKey::from_string)),
        3 => {
            let got = PrivateKey::from_path_with_passphrase(&path, Some(pass()));
            let w = world();
            let seen: Vec<Vec<u8>> = w.kdf.iter().map(|k| k.pass.clone()).collect();
            // the same keystream again
            w.kdf.clear();
            w.cipher.clear();
            let want = utf8(&data).map(|s| PrivateKey::from_string_with_passphrase(s, Some(pass())));
            check(seen.len() <= 1 && (seen.is_empty() || eq(&seen[0], b"pass")), "file: the passphrase given is the one used");
            settle(got, want)
        }
        5 => settle(PrivateKey::from_path_with_passphrase(&path, None), utf8(&data).map(PrivateKey::from_string)),
        _ => settle(AllowedSigners::from_path(&path), utf8(&data).map(AllowedSigners::from_string)),
    }
}

/// A stream that takes what it likes.
struct Sink {
    got: Vec<u8>,
    faults: usize,
    failed: bool,
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut k = b.len();
        if self.faults > 0 && k > 0 {
            self.faults -= 1;
            match choose(0, 5) {
                0 => (),
                1 => k = 1,
                2 => k -= k / 2,
                3 => return Err(io::Error::from(io::ErrorKind::Interrupted)),
                4 => {
                    self.failed = true;
                    return Err(io::Error::from(io::ErrorKind::BrokenPipe));
                }
                _ => {
                    self.failed = true;
                    k = 0;
                }
            }
        }
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
#[no_mangle]
pub extern "C" fn h_write_to() {
    world().digest_concrete = true;
    let mut s = Sink { got: Vec::new(), faults: param("faults"), failed: false };
    let mut want: Vec<u8> = Vec::new();
    let r = if param("what") == 0 {
        let mut k = sized_key(param("t"), param("a"), param("b"));
        if param("cl") > 0 {
            k.comment = Some(word(param("cl")));
        }
        want.extend_from_slice(k.to_string().as_bytes());
        want.push(b'\n');
        k.write(&mut s)
    } else {
        let k = any_priv(param("t"));
        want.extend_from_slice(armor(&k.encode(), 70, false).as_bytes());
        k.write(&mut s)
    };
    if r.is_ok() {
        cover("written");
        check(!s.failed, "stream: a failure to write is reported");
        check(eq(&s.got, &want), "stream: the whole text is written");
    } else {
        cover("not written");
        check(s.failed, "stream: writing succeeds if the stream takes the text");
        check(s.got.len() < want.len() && eq(&s.got, &want[..s.got.len()]), "stream: what was written before a failure is the start of the text");
    }
    note(s.got.len() as u64);
    note(r.is_ok() as u64);
}
crate::entries!(h_from_path, h_write_to);
