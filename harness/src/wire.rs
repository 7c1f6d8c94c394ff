//! Reader / Writer.
use crate::spec::{self, Cur};
use sshcerts::error::Error;
use sshcerts::ssh::{Reader, Writer};
use vrt::*;

const BYTES: usize = 0;
const RAW: usize = 1;
const MPINT: usize = 2;
const STRING: usize = 3;
const CSTRING: usize = 4;
const U32: usize = 5;
const U64: usize = 6;

fn at_end_is_eof<T>(empty: bool, r: &Result<T, Error>) {
    if empty {
        check(matches!(r, Err(Error::UnexpectedEof)), "reader: a read at or past the end reports UnexpectedEof");
    }
}

/// One read of kind `op` by the real Reader compared with the reference cursor. Leaves both at
/// the same position, or both failed. Returns false after a failure.
fn step(op: usize, r: &mut Reader<'_>, c: &mut Cur<'_>) -> bool {
    let before = r.get_offset();
    check(before == c.p, "reader: offset agrees with the bytes consumed");
    let empty = c.left() == 0;
    let (ok, spec_ok) = match op {
        BYTES => {
            let x = r.read_bytes();
            at_end_is_eof(empty, &x);
            match (x, c.string()) {
                (Ok(a), Some(b)) => {
                    check(eq(&a, b), "reader: read_bytes returns the framed bytes");
                    note_bytes(&a);
                    (true, true)
                }
                (a, b) => (a.is_ok(), b.is_some()),
            }
        }
        RAW => {
            let n = word64() as usize;
            let x = r.read_raw_bytes(n);
            if n > 0 {
                at_end_is_eof(empty, &x);
            }
            match (x, c.raw(n)) {
                (Ok(a), Some(b)) => {
                    check(eq(&a, b), "reader: read_raw_bytes returns exactly the next n bytes");
                    note_bytes(&a);
                    (true, true)
                }
                // an empty raw read at the very end is not specified
                (_, Some(b)) if b.is_empty() && empty => return false,
                (a, b) => (a.is_ok(), b.is_some()),
            }
        }
        MPINT => {
            let x = r.read_positive_mpint();
            at_end_is_eof(empty, &x);
            let mut c2 = c.clone();
            let framed = c2.string().is_some();
            match (x, c.mpint()) {
                (Ok(a), Some(b)) => {
                    check(eq(&a, b), "reader: read_positive_mpint returns the magnitude");
                    note_bytes(&a);
                    (true, true)
                }
                (a, b) => {
                    check(a.is_ok() == b.is_some(), "reader: read_positive_mpint accepts exactly the canonical non-negative mpints");
                    if !framed {
                        check(r.get_offset() == before, "reader: a truncated read does not move the offset");
                    }
                    note(99);
                    return false;
                }
            }
        }
        STRING => {
            let x = r.read_string();
            at_end_is_eof(empty, &x);
            let mut c2 = c.clone();
            let framed = c2.string().is_some();
            match (x, c.utf8()) {
                (Ok(a), Some(b)) => {
                    check(eq(a.as_bytes(), b), "reader: read_string returns the framed bytes");
                    note_bytes(a.as_bytes());
                    (true, true)
                }
                (a, b) => {
                    check(a.is_ok() == b.is_some(), "reader: read_string accepts exactly framed valid UTF-8");
                    if !framed {
                        check(r.get_offset() == before, "reader: a truncated read does not move the offset");
                    }
                    note(98);
                    return false;
                }
            }
        }
        CSTRING => {
            let x = r.read_cstring();
            at_end_is_eof(empty, &x);
            let mut n = 0;
            let mut found = false;
            while c.p + n < c.b.len() {
                if c.b[c.p + n] == 0 {
                    found = true;
                    break;
                }
                n += 1;
            }
            match (x, found && core::str::from_utf8(&c.b[c.p..c.p + n]).is_ok()) {
                (Ok(a), true) => {
                    check(eq(a.as_bytes(), &c.b[c.p..c.p + n]), "reader: read_cstring returns the text before the first NUL");
                    c.p += n + 1;
                    note(n as u64);
                    (true, true)
                }
                (a, b) => (a.is_ok(), b),
            }
        }
        U32 => {
            let x = r.read_u32();
            at_end_is_eof(empty, &x);
            match (x, c.u32()) {
                (Ok(a), Some(b)) => {
                    check(a == b, "reader: read_u32 is big-endian");
                    note(a as u64);
                    (true, true)
                }
                (a, b) => (a.is_ok(), b.is_some()),
            }
        }
        _ => {
            let x = r.read_u64();
            at_end_is_eof(empty, &x);
            match (x, c.u64()) {
                (Ok(a), Some(b)) => {
                    check(a == b, "reader: read_u64 is big-endian");
                    note(a);
                    (true, true)
                }
                (a, b) => (a.is_ok(), b.is_some()),
            }
        }
    };
    check(ok == spec_ok, "reader: a read succeeds exactly when the bytes are there");
    if !ok {
        check(r.get_offset() == before, "reader: a truncated read does not move the offset");
        note(97);
        return false;
    }
    check(r.get_offset() == c.p, "reader: a successful read advances by exactly what it consumed");
    true
}

/// `n` symbolic bytes, arbitrary start offset (including past the end), then ops a, b, c.
#[no_mangle]
pub extern "C" fn h_reader() {
    let n = param("n");
    let buf = if param("ascii") == 1 { ascii(n).into_bytes() } else { bytes(n) };
    let mut r = Reader::new(&buf);
    let mut c = Cur::new(&buf);
    if param("seek") == 1 {
        // n+1 and a huge offset stand for "past the end"
        let mut off = choose(0, n + 2);
        if off == n + 2 {
            off = usize::MAX - choose(0, 1) * 7;
        }
        let _ = r.set_offset(off);
        c.p = off;
    }
    cover("start");
    let ops = [param("a"), param("b"), param("c")];
    let mut i = 0;
    while i < 3 {
        if ops[i] >= 7 {
            break;
        }
        if !step(ops[i], &mut r, &mut c) {
            cover("rejected");
            return;
        }
        i += 1;
    }
    cover("accepted");
}

/// Writer: every primitive emits its RFC 4251 encoding, appended to what was there.
#[no_mangle]
pub extern "C" fn h_writer() {
    let mut w = Writer::new();
    let mut o: Vec<u8> = Vec::new();
    let ops = [param("a"), param("b")];
    let mut i = 0;
    while i < 2 {
        if ops[i] > 10 {
            break;
        }
        let len = if ops[i] < 5 { choose(param("lo"), param("len")) } else { 0 };
        match ops[i] {
            BYTES => {
                let v = bytes(len);
                w.write_bytes(&v);
                spec::put_string(&mut o, &v);
            }
            RAW => {
                let v = bytes(len);
                w.write_raw_bytes(&v);
                o.extend_from_slice(&v);
            }
            MPINT => {
                let v = bytes(len);
                if len > 300 {
                    assume(v[0] != 0);
                }
                w.write_mpint(&v);
                spec::put_mpint(&mut o, &v);
            }
            STRING => {
                let v = ascii(len);
                w.write_string(&v);
                spec::put_string(&mut o, v.as_bytes());
            }
            CSTRING => {
                let v = ascii(len);
                w.write_cstring(&v);
                o.extend_from_slice(v.as_bytes());
                o.push(0);
            }
            U32 => {
                let v = word32();
                w.write_u32(v);
                spec::put_u32(&mut o, v);
            }
            U64 => {
                let v = word64();
                w.write_u64(v);
                spec::put_u64(&mut o, v);
            }
            7 => {
                // string list: a string holding the framed items
                let big = param("big");
                let k = if big > 0 { param("items") } else { choose(0, 3) };
                let mut items = Vec::new();
                let mut inner = Vec::new();
                for _ in 0..k {
                    let s = if big > 0 { ascii(big) } else { ascii(choose(0, 2)) };
                    spec::put_string(&mut inner, s.as_bytes());
                    items.push(s);
                }
                w.write_string_vec(&items);
                spec::put_string(&mut o, &inner);
            }
            8 => {
                // option map: name and wrapped value in lexical order
                let big = param("big");
                let k = if big > 0 { param("items") } else { choose(0, 3) };
                let mut map = std::collections::HashMap::new();
                let mut inner = Vec::new();
                for i in 0..k {
                    let name = if big > 0 { format!("{:04}{}", i, ascii(param("name"))) } else { format!("{}{}", i, ascii(choose(0, 1))) };
                    let v = if big > 0 { ascii(big) } else { ascii(choose(0, 2)) };
                    spec::put_string(&mut inner, name.as_bytes());
                    if v.is_empty() {
                        spec::put_u32(&mut inner, 0);
                    } else {
                        spec::put_u32(&mut inner, v.len() as u32 + 4);
                        spec::put_string(&mut inner, v.as_bytes());
                    }
                    map.insert(name, v);
                }
                w.write_string_map(&map);
                spec::put_string(&mut o, &inner);
            }
            9 | 10 => {
                // a key: its fields, or all of it as a string
                let t = param("t");
                let k = crate::keys::sized_key(t, param("ka"), param("kb"));
                let mut blob = Vec::new();
                spec::put_key_blob(&mut blob, &crate::keys::as_ref_key(&k, t));
                if ops[i] == 10 {
                    w.write_pub_key(&k);
                    spec::put_string(&mut o, &blob);
                } else {
                    w.write_pub_key_data(&k);
                    o.extend_from_slice(&blob[4 + spec::TYPES[t].name.len()..]);
                }
            }
            _ => {}
        }
        check(eq(w.as_bytes(), &o), "writer: output so far is the concatenation of the RFC 4251 encodings");
        i += 1;
    }
    let out = w.into_bytes();
    check(eq(&out, &o), "writer: into_bytes returns everything written");
    note_bytes(&out);
    cover("written");
}

/// With u8=1, text of 6 bytes and more begins with a two-byte and ends with a three-byte character.
pub fn wide(v: &mut [u8], blank: bool) -> (usize, usize) {
    let n = v.len();
    if param("u8") == 0 || n < 6 {
        return (0, n);
    }
    v[0] = 0xc3;
    v[n - 3] = if blank { 0xe2 } else { 0xe3 };
    assume((v[1] & 0xc0 == 0x80) & (v[n - 1] & 0xc0 == 0x80));
    v[n - 2] = 0x80;
    (2, n - 3)
}
/// ASCII text (see wide).
pub fn ascii(n: usize) -> String {
    let mut v = bytes(n);
    let (mut i, n) = wide(&mut v, true);
    let mut ok = true;
    while i < n {
        ok &= v[i] < 0x80;
        i += 1;
    }
    assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}

/// What the Writer writes the Reader reads back, for a sequence of two values.
#[no_mangle]
pub extern "C" fn h_roundtrip() {
    let ops = [param("a"), param("b")];
    let mut w = Writer::new();
    let mut vals: Vec<Vec<u8>> = Vec::new();
    let mut ints: Vec<u64> = Vec::new();
    for op in ops {
        let len = if op < 5 { choose(param("lo"), param("len")) } else { 0 };
        match op {
            BYTES | RAW | MPINT => {
                let v = bytes(len);
                if len > 300 {
                    assume(v[0] != 0);
                }
                match op {
                    BYTES => w.write_bytes(&v),
                    RAW => w.write_raw_bytes(&v),
                    _ => w.write_mpint(&v),
                }
                vals.push(v);
                ints.push(0);
            }
            STRING | CSTRING => {
                let v = ascii(len);
                if op == STRING {
                    w.write_string(&v)
                } else {
                    let mut nz = true;
                    for b in v.as_bytes() {
                        nz &= *b != 0;
                    }
                    assume(nz);
                    w.write_cstring(&v)
                }
                vals.push(v.into_bytes());
                ints.push(0);
            }
            U32 => {
                let v = word32();
                w.write_u32(v);
                vals.push(Vec::new());
                ints.push(v as u64);
            }
            _ => {
                let v = word64();
                w.write_u64(v);
                vals.push(Vec::new());
                ints.push(v);
            }
        }
    }
    let out = w.into_bytes();
    let mut r = Reader::new(&out);
    for (i, op) in ops.iter().enumerate() {
        match *op {
            BYTES => check(matches!(r.read_bytes(), Ok(v) if eq(&v, &vals[i])), "round trip: write_bytes/read_bytes"),
            RAW => {
                if !vals[i].is_empty() {
                    check(matches!(r.read_raw_bytes(vals[i].len()), Ok(v) if eq(&v, &vals[i])), "round trip: raw bytes")
                }
            }
            MPINT => {
                let mut k = 0;
                while k < vals[i].len() && vals[i][k] == 0 {
                    k += 1;
                }
                let m = vals[i][k..].to_vec();
                check(matches!(r.read_positive_mpint(), Ok(v) if eq(&v, &m)), "round trip: write_mpint/read_positive_mpint preserves the number")
            }
            STRING => check(matches!(r.read_string(), Ok(v) if eq(v.as_bytes(), &vals[i])), "round trip: write_string/read_string"),
            CSTRING => check(matches!(r.read_cstring(), Ok(v) if eq(v.as_bytes(), &vals[i])), "round trip: write_cstring/read_cstring"),
            U32 => check(matches!(r.read_u32(), Ok(v) if v as u64 == ints[i]), "round trip: u32"),
            _ => check(matches!(r.read_u64(), Ok(v) if v == ints[i]), "round trip: u64"),
        }
    }
    check(r.get_offset() == out.len(), "round trip: everything written is consumed");
    note(out.len() as u64);
    cover("roundtrip");
}

crate::entries!(h_reader, h_writer, h_roundtrip);
