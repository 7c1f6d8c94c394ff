"""Per property: how it is decided (source of the table in DESIGN.md; see gen.py)."""
HOW = {
"C01": "A reference reader written from RFC 4251 (harness/src/spec.rs) runs next to `Reader` on the same symbolic buffer; after every operation result, position and remaining length are asserted equal; any panic path is a violation.",
"C02": "Reference encoder from RFC 4251 next to `Writer`; byte-for-byte equality, then `Reader` on the output and equality with the value written.",
"C03": "The registered names are a table in the harness; a fully symbolic name is looked up and every field of the result is compared with the row whose name equals it (or no row).",
"C04": "Reference decoder and encoder for key blobs (RFC 4253, 5656, 8709, PROTOCOL.u2f); acceptance exactly when the reference accepts, fields equal, encoding equal to the blob.",
"C05": "Text built from a symbolic key by the reference encoder and base64; parse must give the key; wrong label and non-alphabet characters must be rejected; display compared byte by byte.",
"C06": "Digest is an uninterpreted function with a call log: the printed text must be the reference base64 of the logged answer for exactly the key blob and the named hash.",
"C07": "The signature primitive answers arbitrarily but consistently; after parsing, the harness asks the same primitive the question the format prescribes (CA key, algorithm, bytes up to the signature, signature body). Accepted without that question answered yes, or rejected with it, is a violation.",
"C08": "Reference certificate decoder (PROTOCOL.certkeys) run on the same bytes, with the primitive accepting; fields, options and order compared; malformed bytes must fail in both.",
"C09": "Symbolic builder inputs; the to-be-signed bytes handed to the signer and the final blob are compared with the reference encoder; parsing back gives the inputs.",
"C10": "As C07 for `add_signature`/`sign`: attached exactly when the primitive accepts over the to-be-signed bytes under the CA key.",
"C11": "Text built by the reference; accepted exactly when label, contents and type agree; display compared with the reference text.",
"C12": "Digest and primitive logged; verification succeeds exactly when key, namespace, hash and message match and the primitive accepts the reference's signed blob (PROTOCOL.sshsig).",
"C13": "Reference armor and sshsig decoder; symbolic lines, widths and single damages; display compared with the reference and read back.",
"C14": "Reference writer of openssh-key-v1 next to `PrivateKey::write`; text compared byte by byte (symbolic content through base64 as bit-vector terms) and read back.",
"C15": "Reference reader of openssh-key-v1; acceptance, fields and RSA exponents (big-number arithmetic done independently in the harness) compared.",
"C16": "bcrypt-pbkdf and AES are uninterpreted with call logs; the derivation arguments, key and IV split, and the decrypted fields are compared with the format; check integers decide acceptance.",
"C17": "Key pairs and signatures are an ideal functionality with a log: exactly one signature over exactly the message with the key's secret, output compared with the reference format, and it verifies.",
"C18": "The executor tracks the buffers that held bytes marked secret and inspects them at every deallocation, for each symbolic secret; natively the replay allocator does the same.",
"C19": "Random source symbolic and logged; seed, public part and layout compared, then written, read back and used for signing.",
"C20": "Reference DER walk; symbolic byte strings and single header damages.",
"C21": "Reference line grammar (ssh-keygen ALLOWED SIGNERS) run on the same symbolic text; accept/reject and all fields compared.",
"C22": "Files assembled from symbolic lines; result compared with reading each line alone; the error's line number compared.",
"C23": "Symbolic entries displayed and read back with the real parser; equality of all fields.",
"C24": "Reference calendar arithmetic; the time-zone database's answer is a symbolic case (one offset, two, none) injected at chrono's local-offset lookup.",
"C25": "Reference CBOR/COSE reader (RFC 8949, 8152) and WebAuthn layout on the same symbolic bytes.",
"C26": "Documents assembled by a reference DER builder with symbolic key bytes, identifiers and damages; der-parser and x509-parser are executed symbolically as part of the code.",
"C27": "Certificates from the reference DER builder; after the call the harness asks the primitive the two questions the chain prescribes; accepted exactly when both are answered yes; extension values compared.",
"C28": "As C27 for the three-link PIV chain.",
"C29": "Model device (stubs/yubikey) with symbolic keys, messages and failures; the operation log is compared with the one operation prescribed and the answer with the device's signature; the request is taken apart by a reference DER reader.",
"C30": "Same model device; every operation and stored certificate compared with what was asked for, on each subset of failing operations.",
"C31": "Model token (stubs/authenticator) answering from its own thread, threads and channels of the standard library executed; the request the token saw and the signature returned are compared with the prescribed ones; a state in which every thread waits is a violation.",
"C32": "Same model token with symbolic credential, statement and failures; request, key and error compared with the prescribed ones.",
"C33": "The standard library's file reading is executed over stand-ins for the system calls, whose every answer (all, one byte, half, interrupted, failed) is a symbolic choice; the result is compared with that of the from_string function on the whole contents. Writing likewise into a sink with symbolic answers.",
"C34": "A certificate built from symbolic fields is displayed and the text compared piece by piece with a reference rendering (options in any order); key sizes against a bit count of the modulus.",
}
