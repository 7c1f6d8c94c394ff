//! Allowed signers files.
use sshcerts::error::Error;
use sshcerts::ssh::{AllowedSigner, AllowedSigners, PublicKey};
use vrt::*;

pub const KEY: &str = "AAAAC3NzaC1lZDI1NTE5AAAAAwECAw==";
const KEY2: &str = "AAAAC3NzaC1lZDI1NTE5AAAAAwQFBg==";

/// Printable ASCII, blanks included.
fn printable(n: usize) -> Vec<u8> {
    let mut v = bytes(n);
    let mut ok = true;
    let (mut i, end) = crate::wire::wide(&mut v, false);
    if end < n {
        ok = v[n - 1] != 0x80;
    }
    while i < end {
        ok &= (v[i] >= 0x20) & (v[i] < 0x7f);
        i += 1;
    }
    assume(ok);
    v
}
fn text(v: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(v) }
}

// ---- reference -----------------------------------------------------------------------------------
pub enum T {
    At(i64),
    Bad,
    /// leap second: no answer prescribed
    Any,
}
fn num(b: &[u8]) -> i64 {
    let mut v = 0i64;
    for c in b {
        v = v * 10 + (*c - b'0') as i64;
    }
    v
}
fn days(y: i64, m: i64, d: i64) -> i64 {
    // days before the year, then before the month
    let p = y - 1;
    let leap = ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0);
    let before = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    p * 365 + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) + before[(m - 1) as usize] + ((m > 2) & leap) as i64 + d - 1 - 719162
}
/// YYYYMMDD[HHMM[SS]] as seconds from the epoch, clock time taken as UTC
pub fn civil(b: &[u8]) -> T {
    let n = b.len();
    if n != 8 && n != 12 && n != 14 {
        return T::Bad;
    }
    let mut ok = true;
    for c in b {
        ok &= (*c >= b'0') & (*c <= b'9');
    }
    if !ok {
        return T::Bad;
    }
    let (y, m, d) = (num(&b[..4]), num(&b[4..6]), num(&b[6..8]));
    if m < 1 || m > 12 || d < 1 {
        return T::Bad;
    }
    let leap = ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0);
    let len = if m == 2 { 28 + leap as i64 } else { [31, 0, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize] };
    if d > len {
        return T::Bad;
    }
    let (h, i) = if n > 8 { (num(&b[8..10]), num(&b[10..12])) } else { (0, 0) };
    let s = if n > 12 { num(&b[12..14]) } else { 0 };
    if h > 23 || i > 59 || s > 60 {
        return T::Bad;
    }
    if s == 60 {
        return T::Any;
    }
    T::At(days(y, m, d) * 86400 + h * 3600 + i * 60 + s)
}
/// a Z at the end means UTC, otherwise the clock time is one of the zone given by the parameters o1, o2 and tz
fn stamp(b: &[u8]) -> Vec<T> {
    if !b.is_empty() && b[b.len() - 1] == b'Z' {
        return vec![civil(&b[..b.len() - 1])];
    }
    let off = |k: &str| if param(k) == 0 { 0 } else { param(k) as i64 - 100_000 };
    match civil(b) {
        T::At(t) => match param("tz") {
            0 => vec![T::At(t - off("o1"))],
            // the clock shows this time twice
            1 => vec![T::At(t - off("o1")), T::At(t - off("o2"))],
            // the clock never shows this time
            _ => vec![T::At(t - off("o1")), T::At(t - off("o2")), T::Bad],
        },
        x => vec![x],
    }
}
enum Tok<'a> {
    None,
    Bad,
    Some(&'a [u8]),
}
/// Blank-separated words; blanks and # inside double quotes are literal; # outside starts a comment.
fn next<'a>(l: &'a [u8], p: &mut usize) -> Tok<'a> {
    while *p < l.len() && l[*p] == b' ' {
        *p += 1;
    }
    let from = *p;
    while *p < l.len() && l[*p] != b' ' && l[*p] != b'#' {
        let quote = l[*p] == b'"';
        *p += 1;
        if quote {
            while *p < l.len() && l[*p] != b'"' {
                *p += 1;
            }
            if *p == l.len() {
                return Tok::Bad;
            }
            *p += 1;
            if *p < l.len() && l[*p] != b' ' && l[*p] != b'#' {
                return Tok::Bad;
            }
        }
    }
    if *p == from {
        *p = l.len();
        return Tok::None;
    }
    Tok::Some(&l[from..*p])
}
fn has(v: &[u8], c: u8) -> bool {
    let mut r = false;
    for x in v {
        r |= *x == c;
    }
    r
}
fn split(v: &[u8], keep_empty: bool) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut cur = Vec::new();
    for c in v {
        if *c == b',' {
            if keep_empty || !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(*c);
        }
    }
    if keep_empty || !cur.is_empty() {
        out.push(cur);
    }
    out
}
fn is_name(v: &[u8], name: &[u8]) -> bool {
    if v.len() != name.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..v.len() {
        let up = name[i] - if name[i] == b'-' { 0 } else { 32 };
        ok &= (v[i] == name[i]) | (v[i] == up);
    }
    ok
}
pub struct Entry {
    principals: Vec<Vec<u8>>,
    ca: bool,
    namespaces: Option<Vec<Vec<u8>>>,
    after: Option<i64>,
    before: Option<i64>,
    key: PublicKey,
}
pub enum Want {
    Entry(Entry),
    Bad,
    /// the format leaves it open (a quote in the middle of the principals, a value for cert-authority, an empty quotation after text, leap seconds)
    Any,
}
pub fn reference(l: &[u8]) -> Want {
    let mut p = 0;
    let names = match next(l, &mut p) {
        Tok::Some(v) => v,
        _ => return Want::Bad,
    };
    let names = if names[0] == b'"' {
        &names[1..names.len() - 1]
    } else if has(names, b'"') {
        return Want::Any;
    } else {
        names
    };
    let principals = split(names, true);
    for n in &principals {
        if n.is_empty() {
            return Want::Bad;
        }
    }
    let (mut ca, mut namespaces, mut after, mut before) = (false, None, None, None);
    let mut any = false;
    let kt = loop {
        let w = match next(l, &mut p) {
            Tok::Some(v) => v,
            _ => return Want::Bad,
        };
        if w[0] == b'"' {
            return Want::Bad;
        }
        let mut i = 0;
        while i < w.len() && w[i] != b'=' {
            i += 1;
        }
        let name = &w[..i];
        let value = if i < w.len() { &w[i + 1..] } else { &w[i..] };
        let value = if !value.is_empty() && value[0] == b'"' {
            if value.len() < 2 {
                return Want::Bad;
            }
            &value[1..value.len() - 1]
        } else if has(value, b'"') {
            // text"" : an empty quotation at the end
            let n = value.len();
            if has(&value[..n - 1], b'"') && value[n - 2] == b'"' {
                any = true;
                &value[..n - 2]
            } else {
                return Want::Bad;
            }
        } else {
            value
        };
        if is_name(name, b"cert-authority") {
            any |= i < w.len();
            ca = true;
        } else if is_name(name, b"namespaces") {
            if namespaces.is_some() {
                return Want::Bad;
            }
            namespaces = Some(split(value, false));
        } else if is_name(name, b"valid-after") || is_name(name, b"valid-before") {
            let slot = if is_name(name, b"valid-after") { &mut after } else { &mut before };
            if slot.is_some() {
                return Want::Bad;
            }
            let mut times = stamp(value);
            match times.pop() {
                Some(T::At(t)) if times.is_empty() => *slot = Some(t),
                Some(T::Bad) if times.is_empty() => return Want::Bad,
                _ => {
                    any = true;
                    *slot = Some(0);
                }
            }
        } else {
            break w;
        }
    };
    let data = match next(l, &mut p) {
        Tok::Some(v) if v[0] != b'"' => v,
        _ => return Want::Bad,
    };
    let mut k = kt.to_vec();
    k.push(b' ');
    k.extend_from_slice(data);
    let key = match PublicKey::from_string(text(&k)) {
        Ok(k) => k,
        Err(_) => return Want::Bad,
    };
    match next(l, &mut p) {
        Tok::None => (),
        _ => return Want::Bad,
    }
    if any {
        return Want::Any;
    }
    if let (Some(a), Some(b)) = (after, before) {
        if b <= a {
            return Want::Bad;
        }
    }
    Want::Entry(Entry { principals, ca, namespaces, after, before, key })
}
fn same_list(a: &[String], b: &[Vec<u8>]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= eq(a[i].as_bytes(), &b[i]);
    }
    ok
}
fn compare(a: &AllowedSigner, w: &Entry) {
    check(same_list(&a.principals, &w.principals), "allowed signer: the principals are those listed, in order");
    check(a.cert_authority == w.ca, "allowed signer: certificate authority exactly when cert-authority is given");
    match (&a.namespaces, &w.namespaces) {
        (None, None) => (),
        (Some(x), Some(y)) => check(same_list(x, y), "allowed signer: the namespaces are those listed, in order"),
        _ => check(false, "allowed signer: namespaces are restricted exactly when the option is given"),
    }
    check(a.valid_after == w.after, "allowed signer: valid-after is the time given");
    check(a.valid_before == w.before, "allowed signer: valid-before is the time given");
    check(a.key == w.key, "allowed signer: the key is the one given");
}
fn judge(l: &[u8]) {
    let got = AllowedSigner::from_string(text(l));
    match reference(l) {
        Want::Any => {
            cover("open");
        }
        Want::Bad => {
            cover("rejected");
            check(got.is_err(), "allowed signer: a malformed line is rejected");
        }
        Want::Entry(w) => match got {
            Ok(a) => {
                cover("accepted");
                compare(&a, &w);
                note(a.principals.len() as u64);
                note(a.principals[0].len() as u64);
                note(a.namespaces.as_ref().map(|n| n.len() as u64).unwrap_or(99));
            }
            Err(_) => check(false, "allowed signer: a well-formed line is accepted"),
        },
    }
}
/// @ is replaced by arbitrary printable text, $ by key material, & by text without blanks, quotes, # and ,
const LINES: [&str; 29] = [
    "@ ssh-ed25519 $",
    "\"@\" ssh-ed25519 $",
    "a@b ssh-ed25519 $",
    "a @ssh-ed25519 $",
    "a @ ssh-ed25519 $",
    "a ssh-ed25519 $@",
    "a ssh-ed25519 $ @",
    "a namespaces=@ ssh-ed25519 $",
    "a namespaces=\"@\" ssh-ed25519 $",
    "a namespaces=\"x,@\" cert-authority ssh-ed25519 $",
    "a cert-authority@ ssh-ed25519 $",
    "a cert-@thority ssh-ed25519 $",
    "a @amespaces=\"q r\" ssh-ed25519 $",
    "@",
    "a@ namespaces=\"x y\"@ ssh-ed25519 $",
    "a ssh-ed@19 $",
    "a valid-after=20240101Z @ ssh-ed25519 $",
    "a ssh-ed25519 # @$",
    "a ssh-ed25519 $ # @",
    "@ a ssh-ed25519 $",
    "&,& namespaces=\"&,&\" cert-authority valid-after=20240101Z ssh-ed25519 $",
    "\"& &,#&\" cert-authority namespaces=& valid-before=20240101Z ssh-ed25519 $ # &",
    "a valid-@=20240101Z ssh-ed25519 $",
    "a namespaces=\"@ ssh-ed25519 $",
    "a valid-after=20240101000@Z valid-before=20240101000@Z ssh-ed25519 $",
    "a valid-before=2024010@Z valid-after=202401020000@0Z ssh-ed25519 $",
    "& namespaces=\"&\" ssh-ed25519 $",
    "&,\"& ssh-ed25519 $",
    "~ namespaces=\"~\" ssh-ed25519 $",
];
/// ~ is replaced by `items` times &, with commas between them
fn build(pat: &str, n: usize) -> Vec<u8> {
    let mut l = Vec::new();
    let list = (0..param("items")).map(|_| "&").collect::<Vec<_>>().join(",");
    for c in pat.replace('~', &list).bytes() {
        match c {
            b'@' => l.extend_from_slice(&printable(n)),
            b'$' => l.extend_from_slice(KEY.as_bytes()),
            b'&' => {
                let v = printable(n);
                assume(!has(&v, b' ') & !has(&v, b'"') & !has(&v, b'#') & !has(&v, b','));
                l.extend_from_slice(&v)
            }
            c => l.push(c),
        }
    }
    l
}
#[no_mangle]
pub extern "C" fn h_signer() {
    judge(&build(LINES[param("line")], param("n")));
}
const OPTIONS: [&str; 9] = [
    "",
    "cert-authority ",
    "namespaces=\"&,&\" ",
    "valid-after=20240101Z ",
    "valid-before=20250101000000Z ",
    "namespaces=& ",
    "Valid-After=202401010000Z ",
    "VALID-BEFORE=20230101 ",
    "NameSpaces= ",
];
/// up to three options in any order, repeated ones included
#[no_mangle]
pub extern "C" fn h_signer_opts() {
    let mut pat = String::from("&,& ");
    for k in ["a", "b", "c"] {
        pat.push_str(OPTIONS[param(k)]);
    }
    pat.push_str("ssh-ed25519 $");
    judge(&build(&pat, param("n")));
}
/// YYYYMMDD[HHMM[SS]][Z] with `n` characters of which those in the mask are arbitrary printable, the rest as in 20240229235958
#[no_mangle]
pub extern "C" fn h_stamp() {
    let (n, mask) = (param("n"), param("mask"));
    // a leap day; in US Eastern time: the hour left out in spring, the hour repeated in autumn
    let base = [b"20240229235958", b"20240310023000", b"20241103013000"][param("base")];
    let mut v = Vec::new();
    for i in 0..n {
        if mask >> i & 1 == 1 {
            let c = byte();
            assume((c >= 0x20) & (c < 0x7f) & (c != b'"'));
            v.push(c);
        } else {
            v.push(base[i % 14]);
        }
    }
    for _ in 0..param("z") {
        v.push(b'Z');
    }
    let mut l = Vec::new();
    l.extend_from_slice(b"a valid-after=");
    if param("quoted") == 1 {
        l.push(b'"');
    }
    l.extend_from_slice(&v);
    if param("quoted") == 1 {
        l.push(b'"');
    }
    l.extend_from_slice(b" ssh-ed25519 ");
    l.extend_from_slice(KEY.as_bytes());
    let got = AllowedSigner::from_string(text(&l));
    // without quotes, blanks end the stamp and # the line
    let mut t = &v[..];
    if param("quoted") == 0 {
        while !t.is_empty() && t[t.len() - 1] == b' ' {
            t = &t[..t.len() - 1];
        }
    }
    let wants = if param("quoted") == 0 && (has(t, b' ') || has(t, b'#')) { vec![T::Bad] } else { stamp(t) };
    let (mut may, mut must, mut ok) = (false, true, false);
    for w in &wants {
        match w {
            T::At(t) => {
                may = true;
                if let Ok(a) = &got {
                    ok |= a.valid_after == Some(*t);
                }
            }
            T::Bad => must = false,
            T::Any => {
                cover("open");
                return;
            }
        }
    }
    match got {
        Ok(a) => {
            cover("accepted");
            check(may, "timestamp: anything but a date, or a date with time, is rejected");
            check(ok, "timestamp: the time read is the time written");
            note(a.valid_after.unwrap_or(0) as u64);
        }
        Err(_) => {
            cover("rejected");
            check(!must || !may, "timestamp: a date, or a date with time, is accepted");
        }
    }
}
const FILE: [&str; 9] = ["", "  ", "# @", " #", "& ssh-ed25519 $", " &,& cert-authority ssh-ed25519 $ ", "& ssh-ed25519 !", "& namespaces=\"& #\" ssh-ed25519 $ # &", "& ssh-ed25519"];
/// `lines` lines, each any of the above, each ended by LF or CRLF, the last one by either or nothing
#[no_mangle]
pub extern "C" fn h_signers_file() {
    let (n, lines) = (param("n"), param("lines"));
    let mut file = Vec::new();
    let mut want: Vec<(usize, Want)> = Vec::new();
    // `pre` lines of the kinds that are accepted come first
    let pre = param("pre");
    for i in 0..pre + lines {
        let kind = if i < pre { [0, 2, 4, 5, 7][i % 5] } else { choose(0, FILE.len() - 1) };
        let l = if i < pre { build(&FILE[kind].replace(['@', '&'], "x"), n) } else { build(FILE[kind], n) };
        file.extend_from_slice(&l);
        if kind > 3 {
            let mut t = &l[..];
            while !t.is_empty() && t[0] == b' ' {
                t = &t[1..];
            }
            want.push((i, reference(t)));
        }
        let end = if i < pre { i / 2 % 2 } else { choose(0, if i + 1 == pre + lines { 2 } else { 1 }) };
        if end == 1 {
            file.push(b'\r');
        }
        if end < 2 {
            file.push(b'\n');
        }
    }
    match AllowedSigners::from_string(text(&file)) {
        Ok(AllowedSigners(v)) => {
            cover("accepted");
            check(v.len() == want.len(), "allowed signers file: one entry per line that is not blank or a comment");
            for (a, (_, w)) in v.iter().zip(want.iter()) {
                match w {
                    Want::Entry(w) => compare(a, w),
                    Want::Bad => check(false, "allowed signers file: a malformed line makes the file malformed"),
                    Want::Any => (),
                }
            }
            note(v.len() as u64);
        }
        Err(e) => {
            cover("rejected");
            let mut first = None;
            for (i, w) in &want {
                if matches!(w, Want::Bad) && first.is_none() {
                    first = Some(*i);
                }
            }
            match (first, e) {
                (None, _) => check(false, "allowed signers file: well-formed lines make a well-formed file"),
                (Some(i), Error::InvalidAllowedSigners(_, at)) => check(at == i, "allowed signers file: the error names the first malformed line"),
                _ => (),
            }
        }
    }
}
/// an entry that could have been read is displayed as a line that reads as the same entry
#[no_mangle]
pub extern "C" fn h_signer_display() {
    let n = param("n");
    let field = |n: usize| -> String {
        let v = printable(n);
        assume(!has(&v, b',') & !has(&v, b'"'));
        if param("plain") == 1 {
            assume(!has(&v, b' ') & !has(&v, b'#'));
        }
        unsafe { String::from_utf8_unchecked(v) }
    };
    let key = PublicKey::from_string(&format!("ssh-ed25519 {}", if flag() { KEY } else { KEY2 })).unwrap();
    let mut principals = Vec::new();
    for _ in 0..param("np") {
        principals.push(field(n));
    }
    let namespaces = match param("ns") {
        0 => None,
        k => Some((1..k).map(|_| field(n)).collect()),
    };
    // years 0..9999
    let time = |k: usize| -> Option<i64> {
        match k {
            0 => None,
            1 => Some(-62167219200),
            2 => Some(253402300799),
            // days around the end of a year, times of a day, years (average length) from 1850 and from 0
            3 => Some(1709164800 + 86400 * byte() as i64),
            4 => Some(1709164800 + 337 * byte() as i64),
            5 => Some(-3786825600 + 31556952 * byte() as i64),
            _ => Some(-62167219200 + 39 * 31556952 * byte() as i64),
        }
    };
    let (valid_after, valid_before) = (time(param("after")), time(param("before")));
    if let (Some(a), Some(b)) = (valid_after, valid_before) {
        assume(a < b);
    }
    let a = AllowedSigner { principals, cert_authority: flag(), namespaces, valid_after, valid_before, key };
    let line = a.to_string();
    match AllowedSigner::from_string(&line) {
        Ok(b) => check(a == b, "allowed signer: the displayed line reads as the same entry"),
        Err(_) => check(false, "allowed signer: the displayed line is accepted"),
    }
    note(line.len() as u64);
    cover("displayed");
}
crate::entries!(h_signer, h_signer_opts, h_stamp, h_signers_file, h_signer_display);
