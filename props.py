"""Per property: what is run on the symbolic executor, within which bounds, under which assumptions.
The texts of the properties are in properties.jsonl."""
PLAIN = [0, 4, 5, 6, 10, 12, 14]
CERT = [3, 7, 8, 9, 11, 13, 15]
NAMES = ["ssh-rsa", "rsa-sha2-256", "rsa-sha2-512", "ssh-rsa-cert-v01@openssh.com", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "ecdsa-sha2-nistp521",
         "ecdsa-sha2-nistp256-cert-v01@openssh.com", "ecdsa-sha2-nistp384-cert-v01@openssh.com", "ecdsa-sha2-nistp521-cert-v01@openssh.com", "ssh-ed25519",
         "ssh-ed25519-cert-v01@openssh.com", "sk-ssh-ed25519@openssh.com", "sk-ssh-ed25519-cert-v01@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com",
         "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com"]
PROPS = {}

ENGINE = "the IR rustc emits for /repo (opt-level 1, overflow checks on, panic=abort) is what is executed; symx (engine/) and z3 are trusted, sampled paths are replayed natively on every run"
RING = "ring / bcrypt-pbkdf / aes are replaced by an ideal functionality with a call log (stubs/): same argument bytes give the same answer, answers are otherwise arbitrary"


def J(entry, covers=(), time=60, weight=1, opts=(), env=None, nsamples=3, **params):
    return dict(entry=entry, covers=list(covers), time=time, weight=weight, opts=list(opts), env=env or {}, nsamples=nsamples, params={k: int(v) for k, v in params.items()})


def prop(pid, bounds, outside, assumes=()):
    def d(f):
        PROPS[pid] = dict(jobs=f, bounds=bounds, outside=outside, assumes=[ENGINE] + list(assumes))
        return f
    return d


BIG = (300, 1100, 2100, 4100, 5000, 16400, 33000, 65535, 65536, 70000)
SOMEBIG = (1100, 5000, 70000)


# --- wire format -------------------------------------------------------------------------------
@prop("C01",
      "buffers of 0..24 fully symbolic bytes from any start offset (in range, one past, far past), one to three reads of every kind in every "
      "order of two; single reads over 300 symbolic bytes (text reads: 64 quick, 300 thorough; NUL-terminated reads there assume ASCII)",
      "longer buffers, sequences of more than three reads")
def _(tier):
    out = []
    sizes = [0, 1, 3, 4, 5, 7, 8, 9, 12] if tier == "quick" else list(range(0, 17))
    for n in sizes:
        for a in range(7):
            out.append(J("h_reader", ["start"], n=n, seek=1, a=a, b=7, c=7))
    n2 = 16 if tier == "quick" else 24
    for a in range(7):
        for b in range(7):
            out.append(J("h_reader", ["accepted", "rejected"] if (a, b) not in ((5, 5), (5, 6), (6, 5), (6, 6)) else ["accepted"], n=n2, seek=0, a=a, b=b, c=7))
    if tier != "quick":
        for a in range(7):
            for b in range(7):
                for c in range(7):
                    out.append(J("h_reader", ["start"], time=120, n=16, seek=0, a=a, b=b, c=c))
    for a in (0, 1, 2):
        out.append(J("h_reader", ["accepted", "rejected"], n=300, seek=0, a=a, b=7, c=7, weight=5))
    out.append(J("h_reader", ["accepted"], n=64 if tier == "quick" else 300, seek=0, a=3, b=7, c=7, time=300, weight=8))
    out.append(J("h_reader", ["accepted"], n=64 if tier == "quick" else 300, seek=0, a=4, b=7, c=7, ascii=1, time=300, weight=8))
    return out


@prop("C02",
      "every write primitive with 0..8 symbolic content bytes (pairs of writes), single writes of 0..70 and 250..260 symbolic bytes, mpints of 0..20 and 127..129 bytes, "
      "lists of 0..3 strings of 0..2 bytes and 2..6000 strings, option maps of 0..300 entries, public keys, values of up to 70000 bytes (from 4500 on only the ends and the bytes around powers of two are symbolic); all u32 and u64 values",
      "longer values; more than two writes in a row")
def _(tier):
    out = []
    m = 4 if tier == "quick" else 8
    for a in range(8):
        for b in range(8):
            out.append(J("h_writer", ["written"], a=a, b=b, lo=0, len=m, weight=3 if 7 in (a, b) else 1))
    for a in range(7):
        for b in range(7):
            out.append(J("h_roundtrip", ["roundtrip"], a=a, b=b, lo=0, len=m))
    for a in range(5):
        if a == 2:
            rng = [(0, 20), (127, 129)]
        else:
            rng = [(0, 70), (250, 260)] if tier == "quick" else [(0, 300)]
        for lo, hi in rng:
            out.append(J("h_writer", ["written"], a=a, b=11, lo=lo, len=hi, weight=4, time=200))
            out.append(J("h_roundtrip", ["roundtrip"], a=a, b=5, lo=lo, len=hi, weight=4, time=200))
        for n in BIG if a != 2 else (300, 5000, 65536):
            out.append(J("h_writer", ["written"], a=a, b=11, lo=n, len=n, weight=3, time=200))
            out.append(J("h_roundtrip", ["roundtrip"], a=a, b=5, lo=n, len=n, weight=3, time=200))
    for a in (8, 9, 10):
        for b in range(11):
            k = [dict(t=10, ka=32)] if b < 9 and a < 9 else [dict(t=t, ka=3, kb=2) for t in PLAIN]
            for kk in k if a > 8 or b < 8 else k[:2]:
                out.append(J("h_writer", ["written"], a=a, b=b, lo=0, len=2, weight=2, **dict(kk, **(dict(big=2, items=2) if a == 8 and b > 6 else {}))))
    for big, items in ((300, 2), (33000, 2), (70000, 1), (9, 300), (9, 6000)):
        out.append(J("h_writer", ["written"], a=7, b=11, big=big, items=items, time=200, weight=3))
    for big, items in ((300, 2), (33000, 2), (70000, 1), (3, 300)):
        out.append(J("h_writer", ["written"], a=8, b=11, big=big, items=items, time=200, weight=3))
    for t, ka, kb in ((0, 3, 512), (0, 3, 1100), (0, 3, 66000), (12, 32, 66000), (6, 133, 0), (14, 65, 300)):
        out.append(J("h_writer", ["written"], a=9, b=10, t=t, ka=ka, kb=kb, time=200, weight=3))
    return out


# --- keys --------------------------------------------------------------------------------------
@prop("C03", "all names of 0..45 ASCII bytes (the longest registered name has 43) and all curve identifiers of 0..12 bytes, contents fully symbolic",
      "names longer than 45 bytes, non-ASCII names")
def _(tier):
    lens = {7, 11, 12, 28, 19, 40, 32, 26, 35, 34, 43}
    return [J("h_keytype", ["unknown"] + (["known"] if n in lens else []), n=n) for n in range(0, 46)] + \
           [J("h_curve", ["unknown"] + (["known"] if n == 8 else []), n=n) for n in range(0, 13)]


@prop("C04", "fully symbolic blobs of 0..44 bytes; each of the 16 type names followed by up to 40 symbolic bytes; every key value of the 7 plain types with field lengths "
      "0..4 (round trip), the real field lengths (ed25519 32, P-256/384/521 points 65/97/133, RSA e 3 n 128/256/512) and any one field of up to 70000 bytes (from 4500 on only the ends and the bytes around powers of two are symbolic)",
      "blobs where both the type name and fields longer than the bounds are symbolic")
def _(tier):
    out = []
    for n in (list(range(0, 33, 4)) + [35, 40] if tier == "quick" else range(0, 49)):
        out.append(J("h_pubkey_any", ["rejected"], n=n, weight=1 + n // 8, time=120))
    for t in range(16):
        ec = t in (4, 5, 6, 7, 8, 9, 14, 15)
        for m in ([7, 14, 22] if tier == "quick" else [0, 3, 4, 7, 8, 9, 12, 16, 20, 24, 30, 40]):
            out.append(J("h_pubkey_typed", ["rejected"], t=t, m=m, curve=0, weight=2, time=120))
            if ec:
                out.append(J("h_pubkey_typed", ["rejected"], t=t, m=m, curve=1, weight=2, time=120))
    for t in PLAIN:
        out.append(J("h_pubkey_roundtrip", ["roundtrip"], t=t, max=3 if tier == "quick" else 6, lo=0, weight=3))
    for t, a, b in [(10, 32, 0), (12, 32, 4), (4, 65, 0), (5, 97, 0), (6, 133, 0), (14, 65, 4), (0, 3, 128), (0, 3, 256), (0, 3, 512), (0, 1, 257)]:
        out.append(J("h_pubkey_sized", ["roundtrip"], t=t, a=a, b=b))
    for n in (300, 1024, 1025, 1100, 2048, 2049, 4097) + BIG[4:]:
        for t, a, b in ((0, 3, n), (0, n, 3), (4, n, 0), (10, n, 0), (12, 32, n), (14, 65, n)):
            out.append(J("h_pubkey_sized", ["roundtrip"], t=t, a=a, b=b, weight=1 + n // 10000))
    return out


@prop("C05", "every key of the 7 plain types with 0..4-byte fields and the real field lengths, RSA moduli of up to 33000 bytes (from 4500 on partly symbolic), with and without comment (1..12 and 300 printable bytes); labels x blob types 16 x 7, and labels x any type name of 0..45 ASCII bytes inside the blob; "
      "base64 fields with 4..16 arbitrary printable characters after a concrete prefix; all ASCII texts of 0..6 bytes",
      "comments with blanks; longer free text")
def _(tier):
    q = tier == "quick"
    out = []
    for t in PLAIN:
        for a, b in ([(3, 4), (1, 0), (4, 3)] if q else [(1, 0), (2, 2), (3, 4), (4, 3), (5, 5)]):
            for cl in (0, 5):
                out.append(J("h_pubkey_text", ["text"], t=t, a=a, b=b, cl=cl))
    for t, a, b in [(10, 32, 0), (12, 32, 4), (4, 65, 0), (5, 97, 0), (6, 133, 0), (14, 65, 4), (0, 3, 256)] + ([] if q else [(0, 3, 512)]):
        out.append(J("h_pubkey_text", ["text"], t=t, a=a, b=b, cl=12, weight=3, time=120))
    for t, a, b, cl in [(0, 3, 1100, 5), (0, 3, 2100, 0), (0, 3, 5000, 5), (0, 3, 33000, 0), (12, 32, 300, 5), (14, 65, 5000, 0), (10, 32, 0, 300), (10, 32, 0, 64), (10, 32, 0, 5000)]:
        out.append(J("h_pubkey_text", ["text"], t=t, a=a, b=b, cl=cl, weight=8, time=200))
    for t in range(16):
        for tab in (0, 1):
            out.append(J("h_pubkey_label", ["rejected"] + (["accepted"] if t in PLAIN else []), t=t, tab=tab, time=120, weight=2))
    for t in range(16):
        for n in sorted({len(x) for x in NAMES}) if q else range(0, 46):
            out.append(J("h_pubkey_label_any", ["rejected"] + (["accepted"] if t in PLAIN and n == len(NAMES[t]) else []), t=t, n=n, time=120, weight=2))
    for t in PLAIN + ([] if q else CERT):
        for n in ([4, 8] if q else [4, 5, 6, 7, 8, 12, 16]):
            out.append(J("h_pubkey_b64", ["not base64"], t=t, n=n, time=60 if q else 300, weight=n))
    for n in range(0, 5 if q else 7):
        out.append(J("h_pubkey_text_any", ["short"], n=n, time=60 if q else 300, weight=n))
    return out


@prop("C06", "fingerprints (SHA-256/384/512 and the default) of every key of the 7 plain types, real and small field lengths and up to 70000 bytes; Fingerprint::compute over 0..64 arbitrary bytes and up to 70000 bytes (from 4500 on partly symbolic); digests are uninterpreted",
      "keys with larger fields; the digest function itself (ring)", [RING])
def _(tier):
    out = []
    sizes = [(10, 32, 0), (12, 32, 4), (4, 65, 0), (5, 97, 0), (6, 133, 0), (14, 65, 4), (0, 3, 64), (0, 3, 256)]
    small = [(t, 3, 3) for t in PLAIN] + [(t, 1, 0) for t in PLAIN]
    for t, a, b in sizes + small:
        for k in range(4):
            out.append(J("h_fingerprint", ["fingerprint"], t=t, a=a, b=b, kind=k))
    for a in ([0, 1, 2, 3, 7, 33, 64] if tier == "quick" else range(0, 65)):
        out.append(J("h_fingerprint_data", ["fingerprint"], a=a))
    for n in (127, 128, 129, 255, 256, 257, 512, 513, 1024, 1025) + BIG[1:]:
        out.append(J("h_fingerprint_data", ["fingerprint"], a=n, kind=n % 3))
    for n in (384, 512, 513) + BIG:
        for k in range(4):
            out.append(J("h_fingerprint", ["fingerprint"], t=0, a=3, b=n, kind=k, weight=1 + n // 30000))
        out.append(J("h_fingerprint", ["fingerprint"], t=12, a=32, b=n, kind=n % 4))
        out.append(J("h_fingerprint", ["fingerprint"], t=14, a=65, b=n, kind=n % 3))
    return out


# --- certificates ------------------------------------------------------------------------------
SMALL = dict(kn=3, cn=3, sn=4, sm=3, np=1, pl=2, nc=1, ne=1, ol=2, vl=1, idl=2, non=2, res=1)
CA = [0, 4, 5, 6, 10, 12, 14]
KSIZE = {"rsa": 256, "p256": 65, "p384": 97, "p521": 133, "ed": 32}


def fam(t):
    return "rsa" if t <= 3 else {4: "p256", 7: "p256", 14: "p256", 15: "p256", 5: "p384", 8: "p384", 6: "p521", 9: "p521"}.get(t, "ed")


def sigs(ca):
    """signature types that belong to a CA key type"""
    return [0, 1, 2] if ca == 0 else [ca]


def sk(t):
    return t in (12, 13, 14, 15)


def certargs(t, ca, st, **kw):
    d = dict(SMALL, t=t, ca=ca, st=st, tr=5 if sk(ca) else 0, mut=99)
    d.update(kw)
    return d


def realcert(t, ca, st, **kw):
    d = certargs(t, ca, st, kn=KSIZE[fam(t)], cn=KSIZE[fam(ca)], sn={"rsa": 256, "p256": 32, "p384": 48, "p521": 66, "ed": 64}[fam(ca)],
                 sm={"p256": 31, "p384": 47}.get(fam(ca), 60), non=32, idl=20, np=3, pl=10, nc=2, ne=5, ol=8, vl=7, res=0)
    d.update(kw)
    return d


@prop("C07", "certificates of all 7 types x 10 CA/signature-type pairs that can match and all 7 x 16 CA x signature labels; contents of every field symbolic "
      "(small shapes: 0..4 bytes per field; real key/signature sizes with 3 principals, 2 options, 5 extensions; any one field of up to 33000 bytes, from 4500 on partly symbolic); each 4-byte length field of the CA key, "
      "signature and signature wrapper replaced by arbitrary bytes; the signature primitive answers arbitrarily but consistently",
      "the primitive itself (ring); shapes with more fields or longer fields; several length fields wrong at once", [RING])
def _(tier):
    q = tier == "quick"
    out = []
    for t in CERT:
        for ca in CA:
            for st in sigs(ca):
                ok = ca != 6
                out.append(J("h_cert", ["malformed"] + (["accepted", "rejected"] if ok else []), focus=1, mode=0, time=120, **certargs(t, ca, st)))
    for ca in CA + [1, 2] + CERT:
        for st in range(16):
            out.append(J("h_cert", ["malformed"], focus=1, mode=0, time=120, **certargs(11, ca, st)))
    # r and s of every length around the field size, with arbitrary sign/leading bytes
    for ca, n in ((4, 32), (5, 48), (14, 32)):
        for sn, sm in [(n, n), (n + 1, n), (n, n + 1), (n + 1, n + 1), (n - 1, n), (0, n), (n, 0), (n + 2, n), (1, 1), (n, n - 2)]:
            out.append(J("h_cert", ["malformed", "rejected"], focus=1, mode=0, time=120, weight=2, **certargs(11, ca, ca, cn=65, sn=sn, sm=sm)))
    # the length fields of reserved, CA key and signature
    for ca in CA:
        for st in sigs(ca):
            lens = {0: 3, 4: 3, 5: 3, 6: 3, 10: 2, 12: 3, 14: 4}[ca]   # inside the CA key blob
            base = 11
            ss = 2 if fam(ca) in ("rsa", "ed") else 4
            for m in range(base, base + 1 + 1 + lens + 1 + ss):
                out.append(J("h_cert", [], focus=1, mode=0, time=120, weight=2, **certargs(11, ca, st, mut=m)))
    for tr in range(0, 8):
        for ca in (12, 14):
            out.append(J("h_cert", ["malformed"], focus=1, mode=0, time=120, **certargs(11, ca, ca, tr=tr)))
    for t, ca in [(3, 0), (7, 4), (8, 5), (9, 4), (11, 10), (13, 12), (15, 14), (11, 0), (3, 10)]:
        for st in sigs(ca):
            out.append(J("h_cert", ["accepted", "rejected"], focus=1, mode=0, time=200, weight=6, **realcert(t, ca, st)))
    for f in ("vl", "ol", "pl", "idl", "non", "res", "kn", "sn"):
        for n in (300, 2100, 20000, 33000):
            out.append(J("h_cert", ["accepted", "rejected"], focus=1, mode=0, time=200, weight=1 + n // 4000, **certargs(11, 10, 10, **{f: n})))
    for n in (1100, 2100, 5000, 70000):
        out.append(J("h_cert", ["accepted", "rejected"], focus=1, mode=0, time=200, weight=4, **certargs(11, 0, 2, sn=n)))
    for n in (255, 257, 384, 512, 1024, 1100, 2100, 5000):
        for st in sigs(0):
            out.append(J("h_cert", ["accepted", "rejected"], focus=1, mode=0, time=200, weight=2, **certargs(11, 0, st, cn=n, sn=min(n, 1024))))
    for np in (17, 40, 300):
        out.append(J("h_cert", ["accepted", "rejected"], focus=1, mode=0, fix=1, time=200, weight=4, **certargs(11, 10, 10, np=np, pl=1)))
    if not q:
        for t in CERT:
            for ca in CA:
                for st in sigs(ca):
                    out.append(J("h_cert", ["malformed"], focus=1, mode=0, time=300, weight=6, **realcert(t, ca, st)))
    return out


@prop("C08", "certificates of all 7 types; contents of every field symbolic, 0..3 principals, 0..3 options and extensions, up to 300 principals, string fields of 0..4 bytes, any one of up to 4100 bytes (for one type up to 70000, from 4500 on partly symbolic); each length field "
      "replaced by four arbitrary bytes; truncation at every byte (certificates of up to 252 bytes) and up to 3 trailing bytes; the type name fully symbolic",
      "shapes with more elements; several length fields wrong at once", [RING, "the signature primitive accepts (authenticity is C07)"])
def _(tier):
    q = tier == "quick"
    out = []
    for t in CERT:
        for np in range(0, 4):
            out.append(J("h_cert", ["accepted"], focus=2, mode=2, time=120, **certargs(t, 10, 10, np=np, nc=np, ne=3 - np)))
        nl = 21
        for m in range(0, nl):
            out.append(J("h_cert", [], focus=2, mode=2, fix=1, time=120, weight=3, **certargs(t, 10, 10, mut=m, np=2, nc=1, ne=1)))
            if not q or t == 11 and m > 7:
                out.append(J("h_cert", [], focus=2, mode=2, fix=0, time=120, weight=3, **certargs(t, 10, 10, mut=m)))
        for f in ("vl", "ol", "pl", "idl", "non", "res"):
            for n in (64, 128, 256, 300, 1025, 4100, 5000, 20000, 70000) if t == 11 or not q and t == 3 else (257,):
                out.append(J("h_cert", ["accepted"], focus=2, mode=2, time=120, weight=1 + n // 500, **certargs(t, 10, 10, **{f: n})))
        for np in ((5, 17, 40, 256, 300) if t == 11 or not q else (33,)):
            out.append(J("h_cert", ["accepted"], focus=2, mode=2, fix=1, time=120, weight=2, **certargs(t, 10, 10, np=np, pl=1)))
        if t in (11, 13):
            out.append(J("h_cert_trunc", ["malformed", "accepted"], focus=2, time=300, weight=9, **certargs(t, 10, 10)))
        out.append(J("h_cert", ["accepted"], focus=2, mode=2, time=200, weight=5, **realcert(t, 10, 10)))
        out.append(J("h_cert", ["accepted"], focus=2, mode=2, time=200, weight=5, **realcert(t, 0, 2, idl=300, non=64, res=70)))
    if not q:
        for t in CERT:
            out.append(J("h_cert", ["accepted"], focus=2, mode=2, time=200, weight=5, **realcert(t, 4, 4, np=20, nc=6, ne=8, ol=3)))
            for ca in CA:
                for m in range(0, 25):
                    out.append(J("h_cert", [], focus=2, mode=2, fix=1, time=200, weight=3, **certargs(t, ca, 2 if ca == 0 else ca, mut=m, np=2, nc=2, ne=1)))
    for n in ([7, 11, 12, 19, 28, 32, 35, 40, 43] if q else range(0, 46)):
        out.append(J("h_cert_type", ["malformed"], n=n, focus=2, fix=1, time=120, weight=2, **certargs(11, 10, 10)))
    return out


def issueargs(t, ca, **kw):
    d = dict(t=t, ca=ca, kn=3, kb=4, cn=3, cb=4, np=1, pl=2, nc=1, ne=1, ol=2, vl=1, idl=2)
    d.update(kw)
    return d


@prop("C09", "builder with every (key type, CA type) pair of the 7 plain types, all u64 serial/validity values, both certificate types, 0..3 principals, 0..3 critical options and extensions "
      "(distinct symbolic names and values of 0..8 bytes), up to 300 principals, any one of key id, principal, option name and option value of up to 70000 bytes (from 4500 on partly symbolic), single setters and bulk setters, on a fresh builder and on one already used, real key sizes",
      "more elements, longer strings; duplicate option names given to the builder", [RING, "fresh randomness is arbitrary"])
def _(tier):
    q = tier == "quick"
    out = []
    for t in PLAIN:
        for ca in PLAIN:
            if ca == 6:
                continue
            out.append(J("h_issue", ["issued"], time=120, **issueargs(t, ca)))
    for np, nc, ne in [(0, 0, 0), (2, 0, 2), (3, 2, 1), (0, 3, 0), (1, 0, 3), (2, 2, 2)]:
        for bulk in range(5):
            out.append(J("h_issue", ["issued"], time=200, weight=4, bulk=bulk, **issueargs(10, 10, np=np, nc=nc, ne=ne)))
            out.append(J("h_issue", ["issued"], time=200, weight=4, bulk=bulk, **issueargs(10, 10, np=np, nc=nc, ne=ne, vl=0, pl=0, ol=1)))
    for idl in ([0, 1, 60, 300] if q else [0, 1, 2, 3, 4, 20, 60, 127, 128, 255, 256, 300]):
        out.append(J("h_issue", ["issued"], time=120, keep=idl % 2, **issueargs(4, 10, idl=idl)))
    for f in ("vl", "ol", "pl", "idl"):
        for n in ((16, 64, 127, 128, 129, 255, 256, 257, 300, 1025, 4100, 5000, 20000, 70000) if q else (16, 32, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1025, 2049, 4100, 5000, 8200, 20000, 33000, 65535, 65536, 70000)):
            out.append(J("h_issue", ["issued"], time=120, weight=1 + n // 500, **issueargs(10, 10, **{f: n})))
    for np in (5, 8, 16, 17, 40, 256, 300):
        out.append(J("h_issue", ["issued"], time=120, weight=2, bulk=np % 2, **issueargs(10, 10, np=np, pl=1)))
    for t, kn, kb, ca, cn, cb in [(10, 32, 0, 10, 32, 0), (0, 3, 256, 0, 3, 256), (4, 65, 0, 4, 65, 0), (5, 97, 0, 5, 97, 0), (6, 133, 0, 4, 65, 0), (12, 32, 4, 12, 32, 4), (14, 65, 4, 14, 65, 4)]:
        out.append(J("h_issue", ["issued"], time=200, weight=4, **issueargs(t, ca, kn=kn, kb=kb, cn=cn, cb=cb, np=2, pl=8, ol=6, vl=5, idl=16)))
    for n in SOMEBIG:
        out.append(J("h_issue", ["issued"], time=200, weight=4, **issueargs(0, 10, kb=n)))
        out.append(J("h_issue", ["issued"], time=200, weight=4, **issueargs(10, 0, cb=n)))
        out.append(J("h_issue", ["issued"], time=200, weight=4, **issueargs(12, 10, kb=n)))
        out.append(J("h_issue", ["issued"], time=200, weight=4, **issueargs(10, 14, cb=n)))
    if not q:
        for t in PLAIN:
            out.append(J("h_issue", ["issued"], time=600, weight=9, **issueargs(t, 10, np=3, nc=3, ne=3)))
            out.append(J("h_issue", ["issued"], time=600, weight=9, bulk=1, **issueargs(t, 10, np=8, nc=2, ne=4, ol=2)))
    out.append(J("h_standard_ext", ["built", "refused"]))
    return out


@prop("C10", "add_signature and sign (signer answering or refusing) on built certificates of every CA type x 16 signature labels, signature contents symbolic, each length field of the "
      "signature replaced by arbitrary bytes, SK trailers of 0..7 bytes; a second signature on a certificate that has one, as it is, with another serial, or after a trip through its wire form; signatures of up to 70000 and key identifiers of up to 20000 bytes (from 4500 on partly symbolic); the signature primitive answers arbitrarily but consistently",
      "the primitive itself; longer signatures with wrong lengths", [RING])
def _(tier):
    out = []
    for ca in PLAIN:
        for st in range(16):
            for how in (0, 1, 2):
                cov = ["refused"] + (["attached"] if st in sigs(ca) and ca != 6 and how < 2 else [])
                out.append(J("h_attach", cov, mode=0, how=how, st=st, sn=4, sm=3, tr=5 if sk(ca) else 0, mut=99, **issueargs(10, ca)))
            if st in sigs(ca):
                for m in range(2 if fam(ca) in ("rsa", "ed") else 4):
                    out.append(J("h_attach", [], mode=0, how=0, st=st, sn=4, sm=3, tr=5 if sk(ca) else 0, mut=m, weight=2, **issueargs(10, ca)))
                for tr in range(0, 8):
                    out.append(J("h_attach", ["refused"], mode=0, how=0, st=st, sn=4, sm=3, tr=tr, mut=99, **issueargs(10, ca)))
    for ca, n in ((4, 32), (5, 48), (14, 32)):
        for sn, sm in [(n, n), (n + 1, n), (n, n + 1), (n + 1, n + 1), (n - 1, n), (0, n), (n, 0), (n + 2, n), (1, 1), (n, n - 2)]:
            out.append(J("h_attach", ["refused"], mode=0, how=0, st=ca, sn=sn, sm=sm, tr=5 if sk(ca) else 0, mut=99, time=120, weight=2, **issueargs(10, ca, cn=65)))
    for t in PLAIN:
        out.append(J("h_attach", ["refused", "attached"], mode=0, how=1, st=10, sn=64, mut=99, **issueargs(t, 10, cn=32)))
        out.append(J("h_attach", ["refused", "attached"], mode=0, how=1, st=2, sn=256, mut=99, **issueargs(t, 0, cn=3, cb=256)))
    for ca in PLAIN:
        if ca != 6:
            for again in (1, 2, 3, 4):
                for st in sigs(ca):
                    out.append(J("h_attach", ["refused", "attached", "refused again", "attached again"], mode=0, how=again % 2, again=again, st=st, sn=4, sm=3, tr=5 if sk(ca) else 0, mut=99, time=120, weight=2, **issueargs(ca, ca)))
    for t in PLAIN:
        out.append(J("h_attach", ["refused", "attached", "refused again", "attached again"], mode=0, how=0, again=4, st=10, sn=4, mut=99, time=120, weight=2, **issueargs(t, 10, np=2, nc=2, ne=1)))
    for n in (300, 1100, 2100, 5000, 20000, 70000):
        out.append(J("h_attach", ["refused", "attached"], mode=0, how=n % 2, st=2, sn=n, mut=99, weight=3, **issueargs(10, 0, cn=3, cb=256)))
        if n < 70000:
            out.append(J("h_attach", ["refused", "attached"], mode=0, how=n % 2, st=10, sn=64, mut=99, weight=3, **issueargs(10, 10, cn=32, idl=n)))
    return out


@prop("C11", "certificate text for all 16 labels x 7 certificate types, comment absent or 1..8 or 300 printable bytes, contents of every certificate field symbolic (small and real sizes, a key identifier of up to 20000 bytes)",
      "comments with blanks; base64 with errors (C05 covers the decoder)", [RING, "the signature primitive accepts (authenticity is C07)"])
def _(tier):
    out = []
    for t in CERT:
        for lab in range(16):
            out.append(J("h_cert_text", ["accepted"] if lab == t else ["rejected"], lab=lab, cl=0, time=120, **certargs(t, 10, 10)))
        out.append(J("h_cert_text", ["accepted"], lab=t, cl=8, time=120, **certargs(t, 10, 10)))
        out.append(J("h_cert_text", ["accepted"], lab=t, cl=8, time=200, weight=4, **realcert(t, 10, 10)))
    for n in (1100, 2100, 5000, 20000):
        out.append(J("h_cert_text", ["accepted"], lab=11, cl=300, time=200, weight=4, **certargs(11, 10, 10, idl=n)))
    return out


# --- detached signatures -----------------------------------------------------------------------
def verargs(t, st, **kw):
    d = dict(t=t, a=3, b=3, ns=3, hash=1, ml=5, st=st, sn=4, sm=3, tr=5 if sk(t) else 0, mut=99, nsm=0, gl=3, pin=0)
    d.update(kw)
    return d


@prop("C12", "verification with every (key type, signature label) pair of 7 x 16, pinned key absent / equal / equal with a comment / arbitrary of the same type / of another type, expected namespace equal or "
      "arbitrary of 0..8 bytes, both hashes, messages of 0..64 and up to 70000 bytes, namespaces of up to 5000 (from 4500 on partly symbolic), each length field of the signature arbitrary, SK trailers of 0..7 bytes, r and s of every length around the field size, real key sizes; "
      "digests are uninterpreted functions of hash and message",
      "longer messages and namespaces; the primitives themselves (ring)", [RING])
def _(tier):
    q = tier == "quick"
    out = []
    for t in PLAIN:
        for st in range(16):
            ok = st in sigs(t) and t != 6
            out.append(J("h_sshsig_verify", ["refused"] + (["verified"] if ok else []), time=120, **verargs(t, st)))
        for st in sigs(t):
            ok = ["verified"] if t != 6 else []
            for pin in range(5):
                for nsm in (0, 1):
                    for h in ((1,) if q and nsm else (0, 1)):
                        out.append(J("h_sshsig_verify", ["refused"] + (ok if pin < 4 else []), time=120, **verargs(t, st, pin=pin, nsm=nsm, hash=h)))
            for m in range(2 if fam(t) in ("rsa", "ed") else 4):
                out.append(J("h_sshsig_verify", [], time=120, weight=2, **verargs(t, st, mut=m)))
    # digests that may agree in part
    for t in PLAIN:
        if t != 6:
            for pin in (0, 3):
                out.append(J("h_sshsig_verify", ["refused", "verified"], time=120, dsym=1, **verargs(t, sigs(t)[-1], pin=pin)))
    for ns, gl in [(0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (4, 3), (8, 8), (8, 7)]:
        out.append(J("h_sshsig_verify", ["refused"], time=120, **verargs(10, 10, ns=ns, gl=gl, nsm=1)))
    for n in (128, 255, 257, 384, 512, 1024, 1100, 2100):
        for st in sigs(0):
            out.append(J("h_sshsig_verify", ["refused", "verified"], time=120, weight=2, **verargs(0, st, b=n, sn=n)))
    for n in BIG:
        out.append(J("h_sshsig_verify", ["refused", "verified"], time=120, weight=2, **verargs(10, 10, ml=n, hash=n % 2)))
        out.append(J("h_sshsig_verify", ["refused", "verified"], time=120, weight=2, **verargs(0, 2, b=256, sn=n)))
        if n < 6000:
            out.append(J("h_sshsig_verify", ["refused", "verified"], time=120, weight=2, **verargs(10, 10, ns=n, gl=n, nsm=1)))
            out.append(J("h_sshsig_verify", ["refused"], time=120, weight=2, **verargs(10, 10, ns=n, gl=n - 1, nsm=1)))
            out.append(J("h_sshsig_verify", ["refused", "verified"], time=120, weight=2, **verargs(0, 2, b=n, sn=n, pin=3)))
            out.append(J("h_sshsig_verify", ["refused", "verified"], time=120, weight=2, **verargs(12, 12, b=n, pin=3)))
    for ml in ([0, 1, 64] if q else [0, 1, 2, 3, 31, 32, 33, 64, 200]):
        for h in (0, 1):
            out.append(J("h_sshsig_verify", ["refused", "verified"], time=120, **verargs(10, 10, ml=ml, hash=h)))
    for t in (12, 14):
        for tr in range(0, 8):
            out.append(J("h_sshsig_verify", ["refused"], time=120, **verargs(t, t, tr=tr)))
    for t, n, a in ((4, 32, 65), (5, 48, 97), (14, 32, 65)):
        for sn, sm in [(n, n), (n + 1, n), (n, n + 1), (n + 1, n + 1), (n - 1, n), (0, n), (n, 0), (n + 2, n), (1, 1), (n, n - 2)]:
            out.append(J("h_sshsig_verify", ["refused"], time=120, weight=2, **verargs(t, t, a=a, sn=sn, sm=sm)))
    for t, a, b, sn in [(10, 32, 0, 64), (12, 32, 4, 64), (0, 3, 256, 256)]:
        for pin in (0, 3):
            out.append(J("h_sshsig_verify", ["refused", "verified"], time=120, weight=2, **verargs(t, sigs(t)[-1], a=a, b=b, sn=sn, pin=pin, ns=4)))
    return out


def ssargs(t, **kw):
    d = dict(t=t, kn=3, ns=3, res=0, hash=1, sn=5, width=70, nl=1, crlf=0, trail=0, mut=99)
    d.update(kw)
    return d


@prop("C13", "armored signatures of every plain key type with symbolic contents; line widths 1..76, LF and CRLF; hash names of 0..8 arbitrary bytes; magic, version and each length field arbitrary; truncation "
      "at every byte; header and footer lines of 0..30 arbitrary ASCII characters; display of every key type with real and small sizes, namespaces of 0..20 bytes, signatures of 0..300 bytes; namespaces, keys and signatures of up to 70000 bytes (from 4500 on partly symbolic)",
      "several wrong fields at once; reserved fields that are not UTF-8 (either answer is allowed)")
def _(tier):
    q = tier == "quick"
    out = []
    for t in PLAIN:
        for h in (0, 1):
            out.append(J("h_sshsig_parse", ["accepted"], time=120, **ssargs(t, hash=h)))
        out.append(J("h_sshsig_parse", ["accepted"], time=120, **ssargs(t, res=3, sn=83, kn=32, ns=12)))
        nl = {0: 3, 4: 3, 5: 3, 6: 3, 10: 2, 12: 3, 14: 4}[t] + 1 + 4
        for m in range(nl):
            out.append(J("h_sshsig_parse", [], time=120, weight=3, fix=1, **ssargs(t, mut=m)))
            if not q or t == 10 and m > 3:
                out.append(J("h_sshsig_parse", [], time=120, weight=3, **ssargs(t, mut=m)))
        out.append(J("h_sshsig_trunc", ["rejected", "accepted"], time=200, weight=9, fix=1, **ssargs(t)))
        for a, b in [(3, 3), (1, 0)]:
            out.append(J("h_sshsig_display", ["displayed"], t=t, a=a, b=b, ns=4, hash=1, sn=7))
    for n in BIG:
        out.append(J("h_sshsig_parse", ["accepted"], time=200, weight=2, **ssargs(10, sn=n)))
        out.append(J("h_sshsig_parse", ["accepted"], time=200, weight=2, **ssargs(10, ns=n)))
        out.append(J("h_sshsig_parse", ["accepted"], time=200, weight=2, **ssargs(0, kn=n)))
        out.append(J("h_sshsig_display", ["displayed"], time=200, weight=2, t=10, a=32, b=0, ns=3, hash=1, sn=n))
        if n < 20000:
            out.append(J("h_sshsig_display", ["displayed"], time=200, weight=2, t=0, a=3, b=n, ns=n, hash=0, sn=100))
    for m in (90, 91):
        out.append(J("h_sshsig_parse", ["rejected", "accepted"], time=120, **ssargs(10, mut=m)))
    for w in ([1, 4, 7, 64, 76] if q else range(1, 77)):
        for crlf in (0, 1):
            out.append(J("h_sshsig_parse", ["accepted"], time=120, **ssargs(10, width=w, crlf=crlf, nl=w % 2)))
    for n in (2, 3, 4, 5, 6, 7, 8):
        out.append(J("h_sshsig_parse", ["rejected"], time=120, **ssargs(10, hash=n)))
    for ns in (0, 1, 20):
        out.append(J("h_sshsig_parse", ["rejected" if ns == 0 else "accepted"], time=120, **ssargs(10, ns=ns)))
        out.append(J("h_sshsig_display", ["displayed"], t=10, a=32, b=0, ns=ns, hash=0, sn=83))
    for which, want in ((0, 29), (1, 27)):
        for n in ([0, 1, want - 1, want, want + 1] if q else range(0, 32)):
            out.append(J("h_sshsig_frame", ["rejected"] + (["accepted"] if n == want else []), time=120, n=n, which=which, fix=1, **ssargs(10)))
    for which in (2, 3):
        out.append(J("h_sshsig_frame", ["rejected"], time=120, n=0, which=which, fix=1, **ssargs(10)))
    for n in (0, 1, 5):
        out.append(J("h_sshsig_frame", ["accepted"], time=120, n=n, which=4, fix=1, **ssargs(10)))
    for t, a, b, sn in [(10, 32, 0, 83), (12, 32, 4, 88), (4, 65, 0, 100), (5, 97, 0, 130), (6, 133, 0, 170), (14, 65, 4, 110), (0, 3, 256, 280)]:
        for h in (0, 1):
            out.append(J("h_sshsig_display", ["displayed"], time=120, weight=2, t=t, a=a, b=b, ns=4, hash=h, sn=sn))
    for sn in (range(0, 12) if q else range(0, 120)):
        out.append(J("h_sshsig_display", ["displayed"], time=120, t=10, a=32, b=0, ns=3, hash=1, sn=sn))
    return out


# --- private keys ------------------------------------------------------------------------------
def pkargs(t, **kw):
    d = dict(t=t, kn=3, sn=3, cl=2, res=0, app=2, mut=99)
    d.update(kw)
    return d


REALPK = [(10, 32, 64), (12, 32, 64), (4, 65, 32), (5, 97, 48), (6, 133, 66), (14, 65, 64), (0, 256, 128)]


@prop("C14", "private keys of all 7 types: public and secret fields of 0..4 bytes and the real lengths (RSA up to 4096 bit), handles of 0..130 bytes, reserved of 0..5 bytes, comments of 0..40 bytes, comments, handles, applications and reserved of up to 20000 (from 4500 on partly symbolic), all check values; "
      "RSA d, p, q fixed (of 1..256 bytes), modulus, exponent and coefficient arbitrary",
      "other RSA d, p, q (C15 covers the CRT exponents); longer fields", [RING])
def _(tier):
    q = tier == "quick"
    out = []
    for t in PLAIN:
        for kn, sn, cl in ([(3, 3, 0), (1, 4, 3), (4, 1, 8)] if q else [(a, b, c) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4) for c in (0, 1, 5)]):
            out.append(J("h_privkey_roundtrip", ["roundtrip"], time=200, weight=2, disp=1, **pkargs(t, kn=kn, sn=sn, cl=cl)))
        if t != 0:
            out.append(J("h_privkey_roundtrip", ["roundtrip"], time=200, weight=2, disp=0, **pkargs(t, kn=0, sn=0, cl=1, app=0)))
            for cl in range(0, 9):
                out.append(J("h_privkey_roundtrip", ["roundtrip"], time=200, disp=0, **pkargs(t, cl=cl)))
    for t, kn, sn in REALPK + ([] if q else [(0, 512, 256), (0, 384, 192)]):
        out.append(J("h_privkey_roundtrip", ["roundtrip"], time=300, weight=6, disp=1, **pkargs(t, kn=kn, sn=sn, cl=5, app=4)))
        out.append(J("h_privkey_roundtrip", ["roundtrip"], time=300, weight=6, disp=0, **pkargs(t, kn=kn, sn=sn, cl=40, app=10, res=5)))
    for n in (300, 1100, 2100, 5000, 20000):
        out.append(J("h_privkey_roundtrip", ["roundtrip"], time=300, weight=6, disp=1, **pkargs(10, kn=32, sn=64, cl=n)))
        out.append(J("h_privkey_roundtrip", ["roundtrip"], time=300, weight=6, disp=0, **pkargs(0, kn=256, sn=128, cl=n)))
        for t in (12, 14):
            for f in ("sn", "app", "res"):
                out.append(J("h_privkey_roundtrip", ["roundtrip"], time=300, weight=3, disp=n % 2, **dict(pkargs(t, kn=32, sn=64), **{f: n})))
    for t in (12, 14):
        for res in (1, 2, 5):
            for sn in (0, 64, 130):
                out.append(J("h_privkey_roundtrip", ["roundtrip"], time=200, disp=0, **pkargs(t, kn=32, sn=sn, res=res)))
    return out


@prop("C15", "key files of all 7 types with symbolic contents (fields of 3 bytes, the real lengths and up to 20000 bytes, from 4500 on partly symbolic); check integers independent; number of keys, magic, cipher and KDF names (0..10 bytes), outer public key (contents, type or type name) arbitrary; "
      "each length field arbitrary with the other fields fixed; truncation at every byte; frame lines of 0..37 arbitrary characters; ECDSA curve name arbitrary; RSA exponents for 1..4-byte d and fixed factors, small factors arbitrary",
      "several wrong fields at once; padding bytes after the comment; trailing data")
def _(tier):
    q = tier == "quick"
    out = []
    for t in PLAIN:
        fx = dict(rsafix=1) if t == 0 else {}
        out.append(J("h_privkey_parse", ["accepted"], time=200, **pkargs(t), **fx))
        out.append(J("h_privkey_parse", ["accepted"], time=200, crlf=1, **pkargs(t), **fx))
        for w, c in ((1, ["accepted", "rejected"]), (2, ["accepted", "rejected"]), (3, ["accepted", "rejected"]), (6, ["rejected"])):
            if q and w in (2, 3) and t != 10:
                continue
            out.append(J("h_privkey_parse", c, time=200, what=w, **pkargs(t), **fx))
        for t2 in PLAIN:
            if t2 != t:
                out.append(J("h_privkey_parse", ["rejected"], time=200, what=7, t2=t2, **pkargs(t), **fx))
        for t2 in range(16):
            if t2 != t:
                out.append(J("h_privkey_parse", ["rejected"], time=200, what=8, t2=t2, **pkargs(t), **fx))
        nl = 22
        for m in range(nl):
            out.append(J("h_privkey_parse", [], time=200, weight=3, fix=1, **pkargs(t, mut=m)))
        for m in range(11):
            out.append(J("h_privkey_raw", [], time=200, weight=2, fix=1, **pkargs(t, mut=m)))
        out.append(J("h_privkey_raw", ["accepted"], time=200, **pkargs(t), **fx))
        out.append(J("h_privkey_raw", ["rejected", "accepted"], time=200, weight=4, fix=1, cut=1, **pkargs(t)))
        if not q or t in (0, 10, 14):
            out.append(J("h_privkey_trunc", ["rejected", "accepted"], time=400, weight=9, fix=1, **pkargs(t)))
        if t in (4, 5, 6, 14):
            out.append(J("h_privkey_raw", ["rejected", "accepted"], time=200, curve=1, **pkargs(t)))
    for n in (0, 3, 4, 5, 10):
        out.append(J("h_privkey_parse", ["rejected"] + (["accepted"] if n == 4 else []), time=200, what=4, n=n, **pkargs(10)))
        out.append(J("h_privkey_parse", ["rejected"] + (["accepted"] if n == 4 else []), time=200, what=5, n=n, **pkargs(10)))
    for which, want in ((0, 35), (1, 33)):
        for n in ([0, 1, want - 1, want, want + 1] if q else range(0, 38)):
            out.append(J("h_privkey_frame", ["rejected"] + (["accepted"] if n == want else []), time=200, n=n, which=which, fix=1, **pkargs(10)))
    for which in (2, 3):
        out.append(J("h_privkey_frame", ["rejected"], time=200, n=0, which=which, fix=1, **pkargs(10)))
    for t, kn, sn in REALPK:
        fx = dict(rsafix=1) if t == 0 else {}
        out.append(J("h_privkey_parse", ["accepted"], time=300, weight=4, **pkargs(t, kn=kn, sn=sn, cl=20), **fx))
        out.append(J("h_privkey_parse", ["accepted", "rejected"], time=300, weight=4, what=1, **pkargs(t, kn=kn, sn=sn, cl=20), **fx))
    for n in (300, 1100, 2100, 5000, 20000):
        out.append(J("h_privkey_parse", ["accepted"], time=300, weight=4, **pkargs(10, kn=32, sn=64, cl=n)))
        out.append(J("h_privkey_parse", ["accepted"], time=300, weight=4, **pkargs(12, kn=32, sn=n)))
        out.append(J("h_privkey_parse", ["accepted"], time=300, weight=4, **pkargs(14, kn=65, sn=32, app=n)))
    for kn, sn in ((384, 192), (512, 256), (1024, 512), (2048, 1024)):
        out.append(J("h_privkey_parse", ["accepted"], time=300, weight=4, rsafix=1, **pkargs(0, kn=kn, sn=sn)))
    # CRT exponents, degenerate factors
    for dn, pn, qn, pv, qv in [(1, 1, 1, 11, 13), (2, 1, 1, 61, 53), (2, 1, 2, 61, 257), (3, 2, 1, 32749, 61), (1, 1, 1, 2, 3)] + ([] if q else [(4, 2, 2, 32749, 257), (3, 3, 3, 65537, 7919999)]):
        out.append(J("h_privkey_rsa", ["accepted"], time=300, weight=5, dn=dn, pn=pn, qn=qn, crt=1, pv=pv, qv=qv))
    out.append(J("h_privkey_rsa", ["rejected"], time=100, dn=1, pn=1, qn=1, crt=0, pv=1, qv=13))
    out.append(J("h_privkey_rsa", ["rejected"], time=100, dn=1, pn=1, qn=1, crt=0, pv=13, qv=1))
    out.append(J("h_privkey_rsa", ["rejected"], time=100, dn=1, pn=0, qn=1, crt=0, qv=13))
    out.append(J("h_privkey_rsa", ["rejected"], time=100, dn=1, pn=1, qn=0, crt=0, pv=13))
    return out


@prop("C16", "encrypted key files of all 7 types (aes256-ctr + bcrypt): passphrases of 0..20, 73..300 and 5000 bytes, salts of 0..32, 300 and 5000 bytes, comments of up to 5000 bytes, all round counts, all check integers, arbitrary key stream; no passphrase; arbitrary cipher names (0..12 bytes) and KDF names; "
      "malformed KDF options; unencrypted keys read with a passphrase",
      "bcrypt-pbkdf and AES themselves; longer passphrases and salts", [RING])
def _(tier):
    q = tier == "quick"
    out = []
    for t in PLAIN:
        fx = dict(rsafix=1) if t == 0 else {}
        out.append(J("h_encrypted", ["decrypted", "refused"], time=200, pl=3, sl=4, mode=0, **pkargs(t), **fx))
        out.append(J("h_encrypted", ["decrypted", "refused"], time=200, pl=3, sl=4, mode=5, **pkargs(t), **fx))
        out.append(J("h_encrypted", ["no passphrase"], time=200, pl=3, sl=4, mode=1, **pkargs(t), **fx))
        out.append(J("h_encrypted", ["plain"], time=200, pl=3, sl=4, mode=3, **pkargs(t), **fx))
    for pl in (0, 1, 20):
        for sl in (0, 1, 16, 32):
            out.append(J("h_encrypted", ["refused"] + (["decrypted"] if pl and sl else []), time=200, pl=pl, sl=sl, mode=0, **pkargs(10)))
    for pl, sl in ((64, 16), (72, 16), (73, 16), (128, 16), (255, 16), (256, 16), (300, 16), (5000, 16), (12, 17), (12, 24), (12, 64), (12, 255), (12, 256), (12, 300), (12, 5000)):
        out.append(J("h_encrypted", ["refused", "decrypted"], time=200, pl=pl, sl=sl, mode=0, **pkargs(10)))
    for cl in (60, 300, 1100, 5000):
        out.append(J("h_encrypted", ["refused", "decrypted"], time=200, pl=12, sl=16, mode=0, **pkargs(10, cl=cl)))
    for n in ([4, 9, 10, 11] if q else range(0, 13)):
        for kn2 in ((0, 4, 6) if q else range(0, 8)):
            out.append(J("h_encrypted", [] if n in (4, 10) else ["unsupported"], time=200, pl=3, sl=4, mode=2, n=n, kn2=kn2, **pkargs(10)))
    for cut in range(0, 9):
        out.append(J("h_encrypted", ["refused"], time=200, pl=3, sl=4, mode=4, cut=cut, fix=1, **pkargs(10)))
    for t, kn, sn in REALPK:
        fx = dict(rsafix=1) if t == 0 else {}
        out.append(J("h_encrypted", ["decrypted", "refused"], time=300, weight=4, pl=12, sl=16, mode=0, **pkargs(t, kn=kn, sn=sn, cl=20), **fx))
    return out


@prop("C17", "signing with Ed25519 (64-byte, 32-byte, truncated and mismatching keys), ECDSA P-256/P-384 (scalars of 0..50 bytes incl. leading zeros, points of right and wrong size), P-521, RSA (1024..4096 bit with fixed numbers, 32..128 bit with arbitrary n, e and coefficient) "
      "and security-key types; messages of 0..64 and up to 70000 bytes; primitive answers arbitrary; r and s of any shorter length; detached signatures in namespaces of 0..8 and up to 5000 bytes with both hashes and the default",
      "the primitives themselves (ring), in particular that a signature made with the key verifies under it, which the model assumes; longer messages; signing on security keys", [RING])
def _(tier):
    q = tier == "quick"
    out = []
    for ml in ((0, 1, 64) if q else (0, 1, 2, 31, 64, 200)):
        out.append(J("h_sign", ["signed"], time=200, **pkargs(10, kn=32, sn=64, ml=ml)))
    for n in BIG:
        out.append(J("h_sign", ["signed"], time=200, **pkargs(10, kn=32, sn=64, ml=n)))
        out.append(J("h_sign", ["signed"], time=200, **pkargs(0, kn=256, sn=128, ml=n, rsafix=1)))
        out.append(J("h_sshsig_create", ["created"], time=200, **pkargs(10, kn=32, sn=64, ml=n, ns=3, hash=n % 3)))
        if n < 6000:
            out.append(J("h_sshsig_create", ["created"], time=200, **pkargs(10, kn=32, sn=64, ml=5, ns=n, hash=1)))
    for n in SOMEBIG:
        for t, l, kn in ((4, 32, 65), (5, 48, 97)):
            out.append(J("h_sign", ["signed"], time=200, weight=n // 4000, **pkargs(t, kn=kn, sn=l, ml=n, point=1)))
    for sn in (0, 1, 31, 32, 33, 63, 65):
        out.append(J("h_sign", ["signed" if sn >= 32 else "refused"], time=200, **pkargs(10, kn=32, sn=sn, ml=5)))
    out.append(J("h_sign", ["refused", "signed"], time=200, **pkargs(10, kn=32, sn=64, ml=5, wrong=1)))
    for t, n, kn in ((4, 32, 65), (5, 48, 97)):
        for sn in (0, 1, n - 1, n, n + 1, n + 2):
            out.append(J("h_sign", ["signed"] if sn else ["refused"], time=200, weight=3, **pkargs(t, kn=kn, sn=sn, ml=5, point=1)))
        out.append(J("h_sign", ["signed"], time=200, weight=3, **pkargs(t, kn=kn, sn=n, ml=5, point=1, short=2)))
        out.append(J("h_sign", ["signed", "refused"], time=200, weight=3, **pkargs(t, kn=kn, sn=n, ml=5, point=0)))
        out.append(J("h_sign", ["signed", "refused"], time=200, weight=3, **pkargs(t, kn=kn, sn=n, ml=5, point=1, mayfail=1)))
        for bad in (kn - 1, kn + 1, 1):
            out.append(J("h_sign", ["refused"], time=200, **pkargs(t, kn=bad, sn=n, ml=5, point=1)))
        out.append(J("h_sshsig_create", ["created"], time=200, weight=4, **pkargs(t, kn=kn, sn=n, ml=5, ns=3, hash=1)))
    for t, kn, sn in ((6, 133, 66), (12, 32, 16), (14, 65, 16)):
        out.append(J("h_sign", ["refused"], time=200, **pkargs(t, kn=kn, sn=sn, ml=5, point=1)))
    for kn, sn in ((128, 64), (256, 128), (384, 192), (512, 256), (32, 16)):
        for ml in (0, 5, 64):
            out.append(J("h_sign", ["signed"], time=300, **pkargs(0, kn=kn, sn=sn, ml=ml, rsafix=1)))
        out.append(J("h_sign", ["signed", "refused"], time=300, **pkargs(0, kn=kn, sn=sn, ml=5, rsafix=1, mayfail=1)))
    for kn, sn in ((4, 2), (8, 4), (16, 8)) + (() if q else ((32, 16), (64, 32), (128, 64))):
        out.append(J("h_sign", ["signed"], time=300, weight=9, **pkargs(0, kn=kn, sn=sn, ml=5)))
    for h in (0, 1, 2):
        out.append(J("h_sshsig_create", ["created"], time=200, **pkargs(0, kn=128, sn=64, ml=5, ns=3, hash=h, rsafix=1)))
    for ns in (1, 3, 8):
        for h in (0, 1, 2):
            out.append(J("h_sshsig_create", ["created"], time=200, **pkargs(10, kn=32, sn=64, ml=5, ns=ns, hash=h, comment=h % 2)))
    out.append(J("h_sshsig_create", ["created", "refused"], time=200, **pkargs(10, kn=32, sn=64, ml=5, ns=3, hash=1, wrong=1)))
    for ml in (0, 1, 64):
        out.append(J("h_sshsig_create", ["created"], time=200, **pkargs(10, kn=32, sn=64, ml=ml, ns=3, hash=2)))
    return out


@prop("C18", "private keys of all 7 types with symbolic secrets without zero bytes (4 bytes, the real lengths and up to 5000 bytes), PINs of 4..12 and 64 bytes, dropped directly, after cloning, inside containers, by assignment, and through their kind alone",
      "copies the caller makes; memory other than the fields' own buffers; PINs replaced before the drop; the buffers of parsing and of the primitives")
def _(tier):
    out = []
    for t in PLAIN:
        for how in range(5):
            for kn, sn in [(4, 4)] + [(a, b) for tt, a, b in REALPK if tt == t]:
                out.append(J("h_erase", ["dropped"], time=200, how=how, **pkargs(t, kn=kn, sn=sn)))
            if sk(t):
                for n in (300, 1100, 5000):
                    out.append(J("h_erase", ["dropped"], time=200, how=how, **pkargs(t, kn=32, sn=n)))
                for pin in (4, 12, 64):
                    out.append(J("h_erase", ["dropped"], time=200, how=how, pin=pin, **pkargs(t, kn=32, sn=16)))
    return out


@prop("C19", "comments of 0..40 and up to 5000 ASCII bytes, every outcome of the random source, all key kinds asked for", "the quality of the random source and Ed25519 itself (ring)", [RING])
def _(tier):
    return [J("h_keygen", ["generated"], cl=n, kind=0) for n in (((0, 1, 5, 40) if tier == "quick" else tuple(range(0, 41))) + (64, 128, 255, 256, 300, 1100, 5000))] + \
           [J("h_keygen", ["unsupported"], cl=2, kind=k) for k in range(1, 6)]


@prop("C20", "0..24 arbitrary bytes for every plain key type; DER signatures with r and s of 0..60 bytes each, any one header byte replaced by an arbitrary one, with 0..2 bytes appended",
      "long-form DER lengths (which P-521 signatures need and the code rejects); for a SEQUENCE whose length byte is wrong either answer is allowed as long as r and s are right")
def _(tier):
    q = tier == "quick"
    out = []
    for t in PLAIN:
        ec = t in (4, 5, 6, 14)
        for n in ((0, 1, 2, 3, 5, 8, 9, 12, 16) if q else range(0, 25)):
            out.append(J("h_der_any", ["rejected" if ec else "wrapped"] + (["converted"] if ec and n >= 8 else []), n=n, t=t, time=120))
        if ec:
            for rn, sn in ((1, 1), (32, 32), (33, 32), (32, 33), (33, 33), (31, 1), (1, 33), (48, 48), (49, 49), (47, 49), (60, 59)):
                for m in (0, 1, 2, 3, 4, 5, 9):
                    for extra in (0, 1, 2):
                        if q and (extra and m != 9):
                            continue
                        out.append(J("h_der_sized", ["rejected"] if extra and m == 9 else [], t=t, rn=rn, sn=sn, mut=m, extra=extra, time=120))
            for rn, sn in ((0, 0), (0, 4), (4, 0)):
                out.append(J("h_der_sized", [], t=t, rn=rn, sn=sn, mut=9, extra=0))
    return out


# --- allowed signers ---------------------------------------------------------------------------
NOZONE = "for local times, what the system's time zone database says about a clock time is a parameter of the job (one offset, two, none), the replay runs under a TZ that has it"


@prop("C21", "24 line shapes with one or two holes of 0..4 (thorough: 0..5) arbitrary printable ASCII bytes, covering every position of a line; every sequence of three of 9 options (repeats included) with symbolic names of 0..3 bytes; names of up to 5000 and lists of up to 300 names; intervals that end before, with or after their start",
      "tabs and other blanks than the space, longer holes; a quote in the middle of the principals, a value for cert-authority, an empty quotation after text, leap seconds: left open by the format; the key text itself is C05's subject")
def _(tier):
    q = tier == "quick"
    out = []
    for line in range(24):
        for n in range(0, 5 if q else 6):
            if line in (14, 20, 21) and n > 3:
                continue
            out.append(J("h_signer", [], time=200 if q else 3000, weight=n, line=line, n=n))
    for line in (24, 25):
        out.append(J("h_signer", ["accepted", "rejected"], time=200, weight=2, line=line, n=1))
    for line in (20, 21, 26):
        for n in (4, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1100, 5000):
            out.append(J("h_signer", ["accepted"], time=200, weight=1 + n // 300, line=line, n=n))
    for items in (2, 3, 5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 300):
        out.append(J("h_signer", ["accepted"], time=200, weight=1, line=28, n=2, items=items))
    for line, n in ((0, 1), (1, 2), (4, 3), (8, 2), (11, 2), (20, 2), (21, 2)):
        out.append(J("h_signer", ["accepted"] if line != 4 else ["rejected"], time=200, line=line, n=n))
    for a in range(9):
        for b in range(9):
            for c in range(9):
                out.append(J("h_signer_opts", [], time=100, nsamples=1, a=a, b=b, c=c, n=1))
    for n in (0, 2, 3):
        for a, b, c in ((1, 2, 3), (2, 3, 4), (4, 3, 5), (5, 1, 6), (3, 4, 1)):
            out.append(J("h_signer_opts", ["accepted"] if n else ["rejected"], time=100, a=a, b=b, c=c, n=n))
    return out


@prop("C22", "files of 0..3 lines (thorough: 4), each any of 9 kinds (blank, blanks, comments, plain, indented, malformed key, quoted option, missing key) with symbolic names of 0..2 (thorough: 3) bytes, each ended by LF or CRLF, the last also by nothing; one such line after up to 300 fixed ones",
      "longer files; reading from a path is a plain read of the file")
def _(tier):
    q = tier == "quick"
    return [J("h_signers_file", ["accepted", "rejected"], time=300, weight=2, n=1, lines=1, pre=k) for k in (1, 2, 4, 7, 8, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 300)] + \
           [J("h_signers_file", ["accepted", "rejected"] if l else ["accepted"], time=300 if q else 3000, weight=l * 3 + n, n=n, lines=l) for l in range(0, 4 if q else 5) for n in range(0, 3 if q else 4)]


@prop("C23", "entries with 1..3 principals and 0..2 namespaces of 1..3 printable ASCII bytes each (no comma, no quote), any flag, and validity times: the first and last second of years 0..9999, 256 consecutive days and 256 times of a day around the 2024 leap day, 256 years from 1850, 256 points over years 0..9999",
      "other times, keys with a comment")
def _(tier):
    q = tier == "quick"
    out = []
    for np in (1, 2, 3):
        for ns in (0, 1, 2, 3):
            for n in (1, 2, 3):
                if np * n + (ns - 1) * n > (6 if q else 9):
                    continue
                out.append(J("h_signer_display", ["displayed"], time=300, weight=np * n, n=n, np=np, ns=ns, plain=0))
    for n in (4, 8, 20):
        out.append(J("h_signer_display", ["displayed"], time=300, weight=4, n=n, np=2, ns=3, plain=1))
    for a in range(7):
        for b in range(7):
            if (a == 2 or b == 1) and a and b:
                continue
            if q and a > 2 and b > 2 and (a, b) != (4, 4):
                continue
            out.append(J("h_signer_display", ["displayed"], time=300, weight=5 if a > 2 and b > 2 else 2, n=1, np=1, ns=0, plain=1, after=a, before=b))
    return out


@prop("C24", "stamps of 0..17 characters with up to four (quick: adjacent pairs and chosen fours) arbitrary printable characters at any position and the others from 20240229235958, with 0..3 final Z, plain and quoted; local stamps with one offset (UTC, +05:30, -05:00), and minutes and seconds within an hour the clock repeats or skips",
      "five or more arbitrary characters at once; leap seconds (either answer); other time zones", [NOZONE])
def _(tier):
    q = tier == "quick"
    out = []
    for n in range(0, 18):
        for z in (0, 1, 2, 3):
            for qu in (0, 1):
                out.append(J("h_stamp", ["accepted"] if n in (8, 12, 14) and z < 2 else ["rejected"], n=n, mask=0, z=z, quoted=qu))
    for n in (8, 12, 14):
        for i in range(0, n):
            for z in (0, 1, 2):
                for qu in (0, 1):
                    out.append(J("h_stamp", ["rejected"], n=n, mask=1 << i, z=z, quoted=qu))
        for i in range(0, n - 1):
            for j in range(i + 1, n) if not q else [i + 1]:
                out.append(J("h_stamp", ["accepted", "rejected"], time=200, n=n, mask=1 << i | 1 << j, z=1, quoted=(i + j) % 2))
        for m in [0xf, 0xf0, 0xc3] + ([0xf00, 0x3c0] if n > 8 else []) + ([0x3c00, 0x3300] if n > 12 else []):
            out.append(J("h_stamp", ["accepted", "rejected"], time=300 if q else 3000, weight=9, n=n, mask=m, z=1, quoted=0))
            if not q or n == 8:
                out.append(J("h_stamp", ["accepted", "rejected"], time=300 if q else 3000, weight=9, n=n, mask=m, z=0, quoted=1))
        for tz, o in (("UTC0", 100000), ("XXX-5:30", 119800), ("XXX5", 82000)):
            for m in [0x3, 0xc, 0x30, 0xc0] + ([0x300, 0xc00] if n > 8 else []) + ([0x3000] if n > 12 else []):
                out.append(J("h_stamp", ["accepted"], time=200, env={"TZ": tz}, n=n, mask=m, z=0, tz=0, o1=o))
    est = {"TZ": "EST5EDT,M3.2.0,M11.1.0"}
    for n, ms in ((12, (0, 0x400, 0x800, 0xc00)), (14, (0, 0xc00, 0x3000) + (() if q else (0x3c00,)))):
        for m in ms:
            out.append(J("h_stamp", ["accepted"], time=300, env=est, n=n, mask=m, z=0, base=2, tz=1, o1=82000, o2=85600))
            out.append(J("h_stamp", ["rejected"], time=300, env=est, n=n, mask=m, z=0, base=1, tz=2, o1=82000, o2=85600))
            out.append(J("h_stamp", ["accepted"], time=300, env=est, n=n, mask=m, z=1, base=1))
    return out


@prop("C25", "authenticator data of 0..55 header bytes and 0..4 (thorough 6) arbitrary bytes after the header; credentials of 0..64 and up to 65535 bytes with complete Ed25519 and P-256 keys (entries in every order, an entry missing, coordinates of 0..300 bytes, integers in 1 to 9 bytes), 0..2 bytes after the key",
      "longer arbitrary CBOR; indefinite lengths, repeated labels, labels with values this library does not know and integers beyond 63 bits (either answer, no panic); extension data")
def _(tier):
    q = tier == "quick"
    out = []
    for h in (0, 1, 32, 33, 36, 37, 52, 53, 54):
        out.append(J("h_authdata_any", ["short"], h=h, n=0))
    for n in range(0, 5 if q else 7):
        out.append(J("h_authdata_any", ["short", "rejected"] + (["accepted", "open"] if n > 1 else []) + (["ed25519", "ecdsa"] if n > 3 else []), time=300 if q else 3000, weight=n * n, h=55, n=n))
    okp, ec = "4321", "54321"
    import itertools
    perms = sorted({"".join(p) for p in itertools.permutations(okp)} | {"".join(p) for p in itertools.permutations(ec)})
    for i, o in enumerate(perms):
        if q and i % 4 and o not in (okp, ec):
            continue
        out.append(J("h_authdata_cose", ["accepted"], cl=2, xl=32, yl=32, w=1, order=int(o), app=i % 3))
    for o in ("321", "421", "431", "432", "5321", "5421", "5431", "5432", "4", "0", "64321", "654321", "543216", "432164"):
        out.append(J("h_authdata_cose", [], cl=1, xl=32, yl=32, w=1, order=int(o), app=0))
    for l in (0, 1, 23, 24, 31, 33, 66, 255, 256, 300, 1100, 65535):
        out.append(J("h_authdata_cose", ["accepted"], cl=16, xl=l, yl=0, w=1, order=okp))
        out.append(J("h_authdata_cose", ["accepted"], cl=0, xl=32, yl=l, w=1, order=ec, app=1))
        out.append(J("h_authdata_cose", ["accepted"], cl=0, xl=l, yl=32, w=1, order=ec, app=1))
    for cl in (0, 1, 16, 64, 255, 256, 300, 1023, 1024, 1100, 2100, 5000, 32768, 65535) + (() if q else (48, 128, 255, 256, 512)):
        out.append(J("h_authdata_cose", ["accepted"], time=300, cl=cl, xl=32, yl=32, w=1, order=ec, app=2))
    for w in (1, 2, 4, 8):
        for o in ("4371", "54371", "4328", "54328"):
            out.append(J("h_authdata_cose", ["accepted"], time=300, cl=1, xl=32, yl=32, w=w, order=int(o)))
        for o in ("4329", "5432191", "94321", "4921"):
            out.append(J("h_authdata_cose", [], time=300, cl=1, xl=32, yl=32, w=w, order=int(o)))
    for x in (1, 2):
        for o in (okp, ec):
            out.append(J("h_authdata_cose", ["accepted"], cl=1, xl=32, yl=32, w=1, extra=x, order=int(o)))
    return out


@prop("C26", "certificates, signing requests and bare keys with a 0..133-byte key: EC P-256, P-384, P-521, without, with NULL and with wrong parameters, RSA, Ed25519; any bytes in the algorithm or curve identifier (same number of parts); cut at every position (quick: every third) or with one byte appended; one structural byte replaced by any other",
      "identifiers with more or fewer parts; two or more damaged bytes", ["der-parser and x509-parser are executed, not modelled"])
def _(tier):
    q = tier == "quick"
    out = []
    size = [65, 97, 133, 40, 32, 65, 65, 65, 65]
    for how in (0, 1, 2):
        for kind in range(9):
            for n in sorted({0, 1, 33, 66, size[kind]} if not q else {0, 33, size[kind]}):
                out.append(J("h_x509_key", ["extracted"] if kind < 2 else ["rejected"], how=how, kind=kind, n=n))
            if kind in (0, 1, 2, 7, 8):
                out.append(J("h_x509_key", ["rejected"] + (["extracted"] if kind < 2 else []), time=200, weight=3, how=how, kind=kind, n=size[kind], cmask=255))
            out.append(J("h_x509_key", ["rejected"] + (["extracted"] if kind < 2 else []), time=200, weight=3, how=how, kind=kind, n=size[kind], amask=511))
        for c in range(1, 91 if how == 2 else 140):
            if not q or c % 3 == 0 or c < 4:
                out.append(J("h_x509_key", ["rejected"], how=how, kind=0, n=65, cut=c))
        for kind in (0, 1):
            out.append(J("h_x509_key", [], how=how, kind=kind, n=65, cut=1000))
        for at in range(1, 30 if how == 2 else 120 if how == 1 else 170):
            if not q or at < 30 or at % 3 == 0:
                out.append(J("h_x509_key", ["extracted"], time=200, how=how, kind=0, n=65, at=at))
    return out


ATTEST = ["der-parser, x509-parser and pem are executed, not modelled", RING]


@prop("C27", "the built-in root and P-256, P-384 and RSA roots; unreadable roots (empty, cut, no certificate, any 0..8 printable characters); attesting certificates with any 65-byte key, serial and signature and 0..3 extensions in any order; firmware of 0..6, AAGUID of 0..18 and transports of 0..2 bytes, or 0..8 arbitrary bytes in their place; basic constraints of either kind; any issuer and subject names, equal ones included; challenges and signatures of 0..40 and up to 5000 bytes; Ed25519 and P-256 credentials; cut certificates; every algorithm number",
      "repeated extensions; certificate validity dates and constraints are not part of what the library verifies", ATTEST)
def _(tier):
    q = tier == "quick"
    out = []
    def A(covers, **k):
        d = dict(root=1, sa=3, ik=0, ext=0, fl=3, gl=16, tl=1, cl=4, sl=4, auth=1)
        d.update(k)
        out.append(J("h_fido_attest", covers, time=300, **d))
    both = ["accepted", "rejected"]
    for r in (0, 1, 2, 3, 8):
        for sa in range(5):
            for auth in (0, 1):
                A(["rejected"] if sa > 2 and r in (0, 3) else both, root=r, sa=sa, auth=auth)
    for r in (4, 5, 6):
        A(["rejected"], root=r)
    for n in range(0, 9):
        A(["rejected"], root=7, rn=n)
    for ik in range(0, 9):
        A(both, ik=ik)
    for e in (1, 2, 3, 8, 12, 21, 13, 31, 23, 32, 123, 132, 213, 231, 312, 321, 8123):
        A(both, ext=e, auth=e % 2)
    for e in (4, 41, 24, 43):
        A(both, ext=e)
    for n in range(0, 7):
        A(both, ext=1, fl=n)
    for n in (0, 1, 8, 15, 16, 17, 18):
        A(both, ext=2, gl=n)
    for t in (0, 1, 2, 3):
        for u in (0, 3, 7):
            A(both, ext=3, tl=t, unused=u)
    for e in (5, 6, 7):
        for n in list(range(0, 9)) + ([] if e == 7 else [18]):
            A(["rejected"], ext=e, fl=n, gl=n, tl=n)
    for cl in (0, 1, 32, 40):
        for sl in (0, 1, 40) if q else (0, 1, 8, 40, 72):
            A(both, cl=cl, sl=sl, auth=cl % 2)
    for n in (64, 128, 255, 256, 300, 1100, 5000):
        A(both, cl=n)
        A(both, sl=n, auth=0)
    for a in (1, 2):
        for auth in (0, 1):
            A(["rejected"], alg=a, auth=auth)
    for n in (0, 32, 36, 37, 53, 54, 55):
        A(["rejected"], auth=2, an=n)
    for nm in (1, 2):
        for e in (0, 9, 91, 12, 9123):
            for auth in (0, 1):
                for r in (0, 1, 3):
                    A(both if r == 1 else ["rejected"], names=nm, ext=e, auth=auth, root=r)
        A(both, names=nm, ext=9, bare=1)
    for c in list(range(1, 60, 7 if q else 1)) + [100, 150]:
        A(["rejected"], cut=c)
    A(both, cut=1000)
    return out


@prop("C28", "the built-in root and P-256, P-384 and RSA roots; unreadable roots (empty, cut, no certificate, any 0..8 printable characters); intermediates and client certificates with any P-256, P-384, P-521, RSA or Ed25519 key bytes, serials and signatures, any of five signature algorithms; firmware of 0..5, serial numbers of 0..12 and policies of 0..4 bytes in any order, some missing; 0..8 arbitrary bytes as the serial number; basic constraints of either kind; any issuer and subject names, equal ones included; cut certificates",
      "repeated extensions; certificate validity dates and constraints are not part of what the library verifies", ATTEST)
def _(tier):
    q = tier == "quick"
    out = []
    def A(covers, **k):
        d = dict(root=1, sa=3, ik=0, ck=0, ca=3, ext=321, fl=3, sl=4, pl=2)
        d.update(k)
        out.append(J("h_piv_chain", covers, time=300, **d))
    both = ["accepted", "rejected"]
    for r in (0, 1, 2, 3, 8):
        for sa in range(5):
            A(["rejected"] if sa > 2 and r in (0, 3) else both, root=r, sa=sa)
    for r in (4, 5, 6):
        A(["rejected"], root=r)
    for n in range(0, 9):
        A(["rejected"], root=7, rn=n)
    for ik in (0, 1, 3):
        for ca in range(5):
            for ck in (0, 1):
                A(["rejected"] if ca > 2 and ik == 3 else both, ik=ik, ca=ca, ck=ck)
    for ck in range(2, 9):
        A(["rejected"], ck=ck)
    for e in ("0", "1", "2", "3", "12", "13", "23", "421", "431", "432", "621", "32", "31"):
        A(["rejected"], ext=int(e), ck=len(e) % 2)
    for e in ("123", "132", "213", "231", "312", "321", "3214", "4321", "1236", "6321"):
        A(both, ext=int(e), ck=len(e) % 2)
    for n in range(0, 6):
        A(both if n == 3 else ["rejected"], fl=n)
    for n in range(0, 13):
        A(both if 0 < n < 9 else ["rejected"], sl=n)
    for n in range(0, 5):
        A(["rejected"], pl=n)
    for n in range(0, 9):
        A(["rejected"], ext=351, sl=n)
    for nm in (1, 2):
        for e in (321, 3219, 9321):
            for ie in (0, 1):
                for r in (0, 1, 3):
                    A(both if r == 1 else ["rejected"], names=nm, ext=e, iext=ie, root=r)
        A(both, names=nm, ext=9321, iext=1, bare=1)
    for c in list(range(1, 60, 7 if q else 1)) + [100, 150]:
        A(["rejected"], icut=c)
        A(["rejected"], ccut=c)
    A(both, icut=1000)
    A(both, ccut=1000)
    return out


YK = ["the yubikey crate and the device behind it are replaced by a model of slots, keys and certificates with a log of every operation, each of which may fail; the crate's own certificate reading and writing is kept (stubs/yubikey)", RING, "rcgen, yasna, der-parser and x509-parser are executed, not modelled"]


@prop("C29", "messages of 0..40 symbolic bytes (quick: 0, 5, 40) and up to 70000; slots holding P-256, P-384, P-521, RSA, Ed25519 or parameterless EC certificates with any key bytes, or nothing, another slot holding another key; every slot class; r and s with 0..2 leading zero bytes; every subset of device operations failing; signature answers of 0..12 arbitrary bytes; common names of 0..12 printable characters",
      "a device whose certificate is replaced by someone else between two operations of one call", YK)
def _(tier):
    q = tier == "quick"
    out = []
    lens = (0, 5, 40) if q else tuple(range(0, 41))
    for kind in (0, 1, 2, 3, 4, 5, 9):
        for slot in range(7):
            if q and slot and kind > 1:
                continue
            for alg in range(4):
                ok = kind < 2 and kind == alg
                for n in lens if ok and slot == 0 else (5,):
                    out.append(J("h_piv_sign", ["signed", "refused"] if ok else ["refused"], kind=kind, alg=alg, n=n, slot=slot, short=2 * ok, fail=1))
            for n in lens if kind < 2 and slot == 0 else (5,):
                out.append(J("h_piv_ssh", ["signed", "refused"] if kind < 2 else ["refused"], kind=kind, n=n, slot=slot, short=2, fail=1))
            out.append(J("h_piv_csr", ["made", "refused"] if kind < 2 else ["refused"], kind=kind, n=3, slot=slot, short=1, fail=1))
    for kind in (0, 1):
        for n in BIG:
            out.append(J("h_piv_sign", ["signed", "refused"], kind=kind, alg=kind, n=n, slot=0, short=1, fail=1))
            out.append(J("h_piv_ssh", ["signed", "refused"], kind=kind, n=n, slot=0, short=1, fail=1))
        for a in range(1, 14):
            out.append(J("h_piv_ssh", ["refused"], kind=kind, n=5, slot=0, answer=a, fail=0))
        for n in range(0, 13, 4 if q else 1):
            out.append(J("h_piv_csr", ["made"], kind=kind, n=n, slot=2, short=0, fail=0))
    return out


@prop("C30", "slots holding P-256, P-384, P-521, RSA, Ed25519 or parameterless EC certificates with any key bytes, or nothing; certificates of up to 5000 bytes; every slot class; attestations of 0..40 and up to 5000 bytes; PINs of 0..16 and management keys of 0..32 bytes; any serial; generated P-256 and P-384 keys with any bytes, all sixteen policy pairs, common names of 0..80 characters; every subset of device operations failing",
      "what the device itself does with a request", YK)
def _(tier):
    q = tier == "quick"
    out = []
    for slot in range(7):
        for kind in (0, 1, 2, 3, 4, 5, 9):
            if q and slot and kind > 1:
                continue
            for what in range(6):
                ok = kind < 2 or what == 5 or (kind == 3 and what > 1)
                out.append(J("h_piv_fetch", ["fetched", "refused"] if ok else ["refused"], kind=kind, slot=slot, what=what, n=5, fail=1))
            out.append(J("h_piv_fetch", ["fetched", "refused"], kind=kind, slot=slot, what=6, n=5, fail=1))
    for n in range(0, 9 if q else 13):
        out.append(J("h_piv_fetch", ["refused"], kind=0, slot=0, what=7, n=n, fail=1))
    for pad in (1, 300, 1100, 2100, 3100, 5000):
        for kind in (0, 1):
            for what in (0, 1, 2, 3, 4, 6):
                out.append(J("h_piv_fetch", ["fetched", "refused"], kind=kind, slot=pad % 4, what=what, n=5, fail=1, pad=pad, weight=2))
    for n in (0, 1, 40, 255, 256, 300, 1100, 3100, 5000):
        out.append(J("h_piv_fetch", ["fetched", "refused"], kind=0, slot=0, what=5, n=n, fail=1))
    for n in (0, 1, 6, 8, 9, 16):
        for m in (0, 1, 8, 16, 23, 24, 25, 32):
            out.append(J("h_piv_unlock", ["unlocked", "refused"] if m == 24 else ["refused"], n=n, m=m, fail=1))
    for what in range(3):
        out.append(J("h_piv_open", ["opened", "refused"], what=what, fail=1))
    for kind in (0, 1):
        for had in (0, 1, 3, 9):
            for slot in ((had + kind) % 4, 4) if q else range(7):
                out.append(J("h_piv_provision", ["provisioned", "refused"], time=200, weight=4, kind=kind, slot=slot, had=had, n=3, fail=1))
        for n in (0, 1, 63, 64, 65, 66, 80):
            out.append(J("h_piv_provision", ["provisioned"] if n < 65 else ["refused"], time=200, weight=2, kind=kind, slot=1, had=9, n=n, fail=0))
    return out


TOKEN = ["the authenticator crate and the token behind it are replaced by a model token that answers from a thread of its own (stubs/authenticator): it signs, refuses, asks for a PIN, rejects it, reports itself blocked, never answers, or cannot be reached",
         RING, "threads switch only where one of them waits, wakes another or starts one (two choices each, one per run)"]


@prop("C31", "Ed25519 and P-256 security keys with any key bytes, applications of 0..300 and up to 5000, handles of 0..255 and up to 5000, PINs of none or 0..16 and 64 characters, messages of 0..200 symbolic bytes (quick: a selection), one of them of up to 70000; any flags and counter; r and s with 0..2 leading zero bytes; "
      "token answers of 0..80 arbitrary bytes; every kind of token failure under four thread schedules; certificates issued by CA keys on a token, for every plain subject key type",
      "the ctap-hid-fido2 backend (feature fido-support); schedules beyond the four", TOKEN)
def _(tier):
    q = tier == "quick"
    out = []
    for t in (0, 1):
        base = dict(t=t, app=4, hl=3, pin=0, n=5, short=2 * t, odd=0, fail=0, sched=0)
        def S(covers, **kw):
            out.append(J("h_token_sign", covers, time=120, weight=kw.get("app", 4) // 40 + 1, **dict(base, **kw)))
        for sched in range(4):
            for fail in range(9):
                S(["signed"] if fail == 0 else ["refused"], fail=fail, sched=sched)
                S(["signed"] if fail == 0 else ["refused"], fail=fail, sched=sched, pin=5)
            for odd in (1, 2, 3):
                S(["refused"], odd=odd, sched=sched)
        for n in (0, 1, 31, 32, 33, 64, 200) if q else range(0, 201):
            S(["signed"], n=n, pin=n % 4)
        for n in BIG:
            S(["signed"], n=n)
        for n in (1100, 5000):
            S(["signed"], app=n)
            S(["signed"], hl=n)
        S(["signed"], pin=65)
        for a in (0, 1, 64, 300) if q else (0, 1, 2, 3, 16, 63, 64, 65, 128, 255, 256, 300):
            S(["signed"], app=a)
        for h in (0, 1, 32, 64, 128, 255) if q else (0, 1, 2, 16, 31, 32, 63, 64, 65, 96, 127, 128, 200, 255):
            S(["signed"], hl=h)
        for p in (1, 2, 9, 17) if q else range(1, 18):
            S(["signed"], pin=p)
        for n in list(range(0, 13)) + [64, 70, 71, 72, 80] if q else range(0, 81):
            out.append(J("h_token_answer", ["wrapped"] if t == 0 else ["refused"] + (["wrapped"] if n > 7 else []), time=120, t=t, n=n))
    for ca, cn in ((12, 32), (14, 65)):
        for t in PLAIN:
            out.append(J("h_token_cert", ["issued"], time=120, short=2, **issueargs(t, ca, cn=cn)))
        for n in (0, 2):
            out.append(J("h_token_cert", ["issued"], time=120, short=1, **issueargs(10, ca, cn=cn, np=n, nc=n, ne=n)))
    return out


@prop("C32", "applications of 0..300, comments of 0..64, PINs of none or 0..16 and 64 characters, handles of 0..255 bytes, any of them (PINs excepted) up to 5000, any key bytes, flags, counter and signature; every kind of token failure under four thread schedules; Ed25519, P-256, missing or truncated credentials (0..17 bytes); "
      "packed (with none, one or two certificates, ES256 or EdDSA), U2F and absent statements; attestation verified or not at either link",
      "the ctap-hid-fido2 backend (feature fido-support); schedules beyond the four; the details of credential and certificate parsing are C25 and C27", TOKEN)
def _(tier):
    q = tier == "quick"
    out = []
    base = dict(app=4, cl=3, pin=0, hl=3, cred=0, stmt=0, fail=0, sched=0)

    def G(covers, **kw):
        out.append(J("h_generate", covers, time=200, weight=kw.get("app", 4) // 40 + 1, **dict(base, **kw)))
    for sched in range(4):
        for fail in range(9):
            for pin in (0, 5):
                G(["made", "refused"] if fail == 0 else ["refused"], fail=fail, sched=sched, pin=pin)
        for stmt in range(1, 6):
            G(["made", "refused"] if stmt == 5 else ["refused"], stmt=stmt, sched=sched)
        for cred in (1, 3):
            for stmt in range(6):
                G(["refused"], cred=cred, stmt=stmt, sched=sched)
    for n in range(0, 18):
        G(["refused"], cred=2, tn=n)
    for a in (0, 1, 64, 300) if q else (0, 1, 2, 3, 16, 63, 64, 65, 128, 255, 256, 300):
        G(["made", "refused"], app=a)
    for h in (0, 1, 32, 64, 128, 255) if q else (0, 1, 2, 16, 31, 32, 63, 64, 65, 96, 127, 128, 200, 255):
        G(["made", "refused"], hl=h)
    for p in (1, 2, 9, 17) if q else range(1, 18):
        G(["made", "refused"], pin=p)
    for n in (1100, 5000):
        G(["made", "refused"], app=n)
        G(["made", "refused"], hl=n)
        G(["made", "refused"], cl=n)
    G(["made", "refused"], pin=65)
    for c in (0, 1, 16, 64) if q else range(0, 65):
        G(["made", "refused"], cl=c)
    return out


FSYS = "the system calls open, read, lseek, statx and close are modelled (stand-ins in harness/src/files.rs); the standard library above them is executed"


@prop("C33", "files holding a public key, certificate, private key (sealed or not) or up to 40 signer lines, of all key types and up to 20000 bytes, any 0..3 bytes before and after, or any 0..4 bytes alone; "
      "up to 3 reads and 3 writes each of which may be complete, one byte, half, interrupted or failing (EIO, EISDIR; a broken or full sink), files that cannot be opened (4 errors); size reported right, as 0, as half or too large; "
      "all key bytes and comments symbolic",
      "more than three faults in one read or write; the operating system itself; files over 20000 bytes", [RING, FSYS])
def _(tier):
    q = tier == "quick"
    out = []

    def F(covers, what, **kw):
        d = dict(fs=1, pn=3, what=what, faults=2 if q else 3, nl=1)
        d.update(kw)
        out.append(J("h_from_path", covers, time=200, weight=4 if kw.get("lines", 0) > 8 or kw.get("cl", 0) > 2000 else 1, **d))
    pub = dict(t=10, a=32, b=0, cl=3)
    crt = dict(certargs(11, 10, 10), cl=3)
    seal = pkargs(10)
    sgn = dict(t=10, a=3, b=3, lines=2)
    RF = ["read", "failed"]
    kinds = [(0, pub, RF), (1, crt, RF), (2, seal, RF), (3, seal, RF), (4, sgn, RF), (5, seal, ["refused"])]
    for what, base, cov in kinds:
        for size in range(4):
            F(cov, what, **dict(base, size=size))
        F(cov, what, **dict(base, nl=0))
        F(cov, what, **dict(base, faults=3 if q else 4))
        F(["refused"] if what == 5 else ["failed"], what, **dict(base, noopen=1))
        for pn in (0, 1, 60, 300):
            F(cov, what, **dict(base, pn=pn, faults=1))
        for n in (1, 2, 3):
            F(["refused"], what, **dict(base, pre=n, faults=1))
            F(["refused"] + (RF if what != 5 else []), what, **dict(base, post=n, faults=1))
        for n in range(0, 4 if q else 5):
            F(["refused"] if what != 4 or n > 1 else ["read", "failed"], what, raw=1, pre=n, nl=0, faults=1)
        if what == 4:
            for lines in (0, 1, 12, 40):
                F(RF, what, **dict(base, lines=lines, faults=1 if lines > 2 else 2))
        for cl in (300, 1100, 4200, 9000, 20000):
            if what < 4:
                F(cov, what, **dict(base, cl=cl, faults=1 if q else 2))
    for t in PLAIN:
        F(RF, 0, **dict(pub, t=t, a=3, b=3))
        F(RF, 4, **dict(sgn, t=t, lines=1))
        F(RF, 1, **dict(certargs(CERT[PLAIN.index(t)], 10, 10), cl=3))
    for t in (0, 4, 5, 6, 10, 12, 14):
        F(RF, 2, **pkargs(t))
        if t:
            F(RF, 3, **pkargs(t))
    # writing
    for t in PLAIN:
        for cl in (0, 3):
            out.append(J("h_write_to", ["written", "not written"], time=120, what=0, t=t, a=3, b=3, cl=cl, faults=3 if q else 4))
    for cl in SOMEBIG:
        out.append(J("h_write_to", ["written", "not written"], time=120, what=0, t=10, a=32, b=0, cl=cl, faults=2))
    for t, kn, sn in REALPK:
        out.append(J("h_write_to", ["written", "not written"], time=120, what=1, faults=3 if q else 4, **pkargs(t, kn=kn, sn=sn)))
    for cl in (1100, 5000, 20000):
        out.append(J("h_write_to", ["written", "not written"], time=120, what=1, faults=2, **pkargs(10, kn=32, sn=64, cl=cl)))
    return out



@prop("C34", "descriptions of certificates of all key types x CA types, host and user, key ids, principals, option names and values of 0..8, 300 and 5000 bytes, 0..5 principals, 0..3 critical options and extensions, all symbolic; serial and validity each any of 0..255 or one of 12 edge values; "
      "key sizes of all key types, moduli of 0..5, 255..257 and 512 bytes, any leading byte, 0..2 leading zeros; error texts of 0..64 bytes",
      "other numbers in a description; more entries; the wording of other errors", [RING])
def _(tier):
    q = tier == "quick"
    out = []
    base = dict(t=10, ca=10, kn=3, kb=2, cn=3, cb=2, idl=3, np=2, pl=2, nc=2, ne=2, ol=2, vl=2, num=3)

    def D(**kw):
        out.append(J("h_describe", ["described"], time=200, weight=2 if kw.get("num", 3) >= 10 else 1, **dict(base, **kw)))
    for num in (0, 1, 2, 3, 10, 11, 12):
        D(num=num)
        D(num=num, np=0, nc=0, ne=0)
    for t in PLAIN:
        for ca in PLAIN if not q else (0, 10, 14):
            D(t=t, ca=ca)
            D(ca=t, t=ca)
    for f in ("idl", "pl", "ol", "vl"):
        for n in (0, 1, 8, 300, 5000):
            if f == "ol" and n < 2:
                D(**{f: n, "nc": 1, "ne": 1})
            else:
                D(**{f: n})
    for np in range(0, 6):
        D(np=np)
    for n in range(0, 4):
        D(nc=n)
        D(ne=n)
    for u in ("idl", "pl", "ol", "vl"):
        D(u8=1, **{u: 9})
    for t in PLAIN:
        out.append(J("h_bits", ["sized"], time=60, t=t, a=3, b=3))
    for b in (0, 1, 2, 3, 4, 5, 255, 256, 257, 512):
        for z in range(3):
            out.append(J("h_bits", ["sized"], time=60, t=0, a=3, b=b, zeros=z))
    for n in (0, 1, 3, 8, 9, 10, 64):
        for w in range(3):
            out.append(J("h_error_text", ["shown"], time=60, n=n, what=w))
    return out


# --- text outside ASCII --------------------------------------------------------------------------
WIDE = "text of 6..12 bytes that begins with a two-byte and ends with a three-byte UTF-8 character, elsewhere ASCII"


def wide():
    out = {}

    def T(pid, entry, covers, **k):
        out.setdefault(pid, []).append(J(entry, covers, time=120, u8=1, **k))
    for a in (3, 4):
        for n in range(6, 13):
            T("C02", "h_writer", ["written"], a=a, b=11, lo=n, len=n)
            T("C02", "h_roundtrip", ["roundtrip"], a=a, b=5, lo=n, len=n)
    for a in (7, 8):
        T("C02", "h_writer", ["written"], a=a, b=11, big=7, items=2, name=6)
    for t, a in ((12, 32), (14, 65)):
        T("C04", "h_pubkey_sized", ["roundtrip"], t=t, a=a, b=8)
        T("C05", "h_pubkey_text", ["text"], t=t, a=a, b=8, cl=9)
        for k in range(4):
            T("C06", "h_fingerprint", ["fingerprint"], t=t, a=a, b=8, kind=k)
    for cl in range(6, 13):
        T("C05", "h_pubkey_text", ["text"], t=10, a=32, b=0, cl=cl)
    for f in ("vl", "ol", "pl", "idl"):
        T("C07", "h_cert", ["accepted", "rejected"], focus=1, mode=0, **certargs(11, 10, 10, **{f: 9}))
        T("C08", "h_cert", ["accepted"], focus=2, mode=2, **certargs(11, 10, 10, **{f: 9}))
        T("C09", "h_issue", ["issued"], **issueargs(10, 10, **{f: 9}))
    T("C09", "h_issue", ["issued"], **issueargs(12, 14, kb=8, cb=8))
    for again in (1, 4):
        T("C10", "h_attach", ["attached", "attached again", "refused"], mode=0, how=1, again=again, st=10, sn=4, mut=99, **issueargs(10, 10, idl=8, pl=8, ol=8, vl=8))
    T("C11", "h_cert_text", ["accepted"], lab=11, cl=9, **certargs(11, 10, 10, idl=9))
    for nsm in (0, 1):
        T("C12", "h_sshsig_verify", ["verified", "refused"], **verargs(10, 10, ns=8, gl=8, nsm=nsm))
    T("C12", "h_sshsig_verify", ["verified", "refused"], **verargs(12, 12, b=8))
    T("C13", "h_sshsig_parse", ["accepted"], **ssargs(10, ns=8))
    T("C13", "h_sshsig_parse", ["accepted"], **ssargs(10, res=8))
    T("C13", "h_sshsig_display", ["displayed"], t=12, a=32, b=8, ns=9, hash=1, sn=50)
    for t in (4, 10, 12, 14):
        for cl in (6, 7, 8, 9):
            T("C14", "h_privkey_roundtrip", ["roundtrip"], disp=1, **pkargs(t, kn=32, sn=64, cl=cl, app=8))
        T("C15", "h_privkey_parse", ["accepted"], **pkargs(t, cl=9))
        T("C15", "h_privkey_raw", ["accepted"], **pkargs(t, cl=9))
    for pl in (6, 9, 72, 74):
        T("C16", "h_encrypted", ["decrypted", "refused"], pl=pl, sl=16, mode=0, **pkargs(10, cl=8))
    T("C17", "h_sshsig_create", ["created"], **pkargs(10, kn=32, sn=64, ml=5, ns=9, hash=1))
    T("C18", "h_erase", ["dropped"], how=0, pin=9, **pkargs(12, kn=32, sn=16))
    for cl in (6, 9, 40):
        T("C19", "h_keygen", ["generated"], cl=cl, kind=0)
    for n in (6, 9):
        for line in (20, 21, 26):
            T("C21", "h_signer", ["accepted"], line=line, n=n)
        T("C21", "h_signer", ["accepted"], line=28, n=n, items=3)
        for ns in (0, 2, 3):
            T("C23", "h_signer_display", ["displayed"], n=n, np=2, ns=ns, plain=1)
    for n in (6, 7):
        T("C21", "h_signer", ["accepted"], line=0, n=n)
    T("C22", "h_signers_file", ["accepted", "rejected"], n=7, lines=1, pre=3)
    for t in (0, 1):
        T("C31", "h_token_sign", ["signed"], t=t, app=9, hl=3, pin=9, n=5, short=0, odd=0, fail=0, sched=0)
    T("C32", "h_generate", ["made", "refused"], app=9, cl=9, pin=9, hl=5, cred=0, stmt=0, fail=0, sched=0)
    return out


for _pid, _jobs in wide().items():
    PROPS[_pid]["bounds"] += "; " + WIDE
    PROPS[_pid]["jobs"] = (lambda f, more: lambda tier: f(tier) + more)(PROPS[_pid]["jobs"], _jobs)
