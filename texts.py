"""Texts of the properties (source of properties.jsonl and MANIFEST.json; see gen.py)."""
T = []


def P(pid, title, statement, quant, why, files, mechanism, observe, over=("inputs",)):
    T.append(dict(id=pid, title=title, statement=statement, quantifier={"over": list(over), "text": quant}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [dict(name=a, where=b) for a, b in mechanism], "observe_at": observe, "hook_needed": None}))


P("C01", "Wire reads return the bytes on the wire or fail; never panic or over-read",
  "Whatever the buffer, the start offset and the sequence of reads (string, byte string, mpint, NUL-terminated string, u32, u64, raw bytes, offset/remaining queries, seek), "
  "each read either returns exactly the bytes RFC 4251 assigns to that field and advances past them, or returns an error; it never panics and never returns bytes from outside the buffer. "
  "A declared length larger than what is left is an error, text reads accept exactly valid UTF-8, and multi-precision integers are accepted exactly when non-negative and minimally encoded, without their sign byte.",
  "all buffer contents, start offsets and read sequences within the bounds", "the tests read a few well-formed buffers; a wrong comparison shows only for particular lengths and offsets",
  ["src/ssh/reader.rs"], [("length check before slicing", "Reader::read_bytes/read_mpint/read_string/read_cstring"), ("offset arithmetic", "Reader::set_offset, get_offset")],
  ["sshcerts::ssh::Reader"])
P("C02", "Writing produces the RFC 4251 encoding, and reading it back gives the value",
  "Every writer primitive (string, byte string, mpint, u32, u64, string list, option map, raw bytes, public-key data) appends exactly the RFC 4251 encoding of its argument - big-endian 32-bit length, then the bytes; "
  "mpints minimal with a sign byte only when the top bit is set - and nothing else. Reading the result with the matching reader returns the value written, for any sequence of writes.",
  "all values and pairs of writes within the bounds", "the tests write a handful of literals; the sign-byte and length boundaries depend on values",
  ["src/ssh/writer.rs", "src/ssh/reader.rs"], [("length prefix and contents", "Writer::write_*"), ("mpint sign byte", "Writer::write_mpint")], ["sshcerts::ssh::Writer", "sshcerts::ssh::Reader"])
P("C03", "Key type and curve names map one-to-one to the registered types",
  "A key type name is recognised exactly when it is one of the sixteen registered SSH names, and the result carries that name, the matching plain and short names, family, certificate flag and security-key flag. "
  "A curve identifier is recognised exactly when it is nistp256, nistp384 or nistp521; the certificate form of a plain type exists and is its own.",
  "all names within the bounds", "the tests name the registered types, not the infinitely many near misses", ["src/ssh/keytype.rs", "src/ssh/pubkey.rs"],
  [("name table", "KEY_TYPES, KeyType::from_name, KeyType::as_cert_name, Curve::from_identifier")], ["sshcerts::ssh::KeyType", "sshcerts::ssh::Curve"])
P("C04", "Public key blobs decode to exactly their contents and re-encode unchanged",
  "A byte string is accepted as a public key exactly when it is a well-formed SSH public key blob - registered type name, then exactly that type's fields, with the curve the type names - and the key then holds those field values; anything else is an error, never a panic. "
  "Encoding a key yields the canonical blob of its fields, and decoding that blob yields an equal key of the same type, for RSA, ECDSA, Ed25519 and both security-key types.",
  "all blobs and all key values within the bounds", "a table of sample keys cannot show that no other byte string is accepted or that no field value is altered",
  ["src/ssh/pubkey.rs", "src/ssh/keytype.rs"], [("type-directed parsing", "PublicKey::from_bytes / from_reader"), ("encoding", "PublicKey::encode, Writer::write_pub_key")],
  ["PublicKey::from_bytes", "PublicKey::encode"])
P("C05", "Public key text round-trips and is rejected under a wrong label or bad base64",
  "Displaying or writing a public key gives its type name, a space, the padded standard base64 of its blob and, if present, a space and the comment (write adds one newline); reading that text gives an equal key with the same comment. "
  "Text whose label is not the type inside the blob, whose base64 field contains a foreign character, or whose blob is malformed is rejected; otherwise the key is the one the base64 field encodes.",
  "all keys, comments, labels and base64 fields within the bounds", "the tests parse known-good lines; mismatching labels and altered fields form an unbounded set",
  ["src/ssh/pubkey.rs"], [("splitting, decoding, label comparison", "PublicKey::from_string"), ("display", "impl Display for PublicKey, PublicKey::write")],
  ["PublicKey::from_string", "PublicKey::to_string", "PublicKey::write"])
P("C06", "A fingerprint is the unpadded base64 of the named hash over the key blob",
  "The fingerprint of a public key under SHA-256, SHA-384 or SHA-512 (default SHA-256) is the unpadded base64 of that hash over exactly the key's canonical blob - comment excluded, application included for security keys - and displays as the hash name, a colon and that text. "
  "Distinct blobs or hash kinds are never hashed as the same input.",
  "all keys and hash kinds within the bounds", "a few reference fingerprints do not show that every byte of every blob enters the hash", ["src/ssh/pubkey.rs"],
  [("hash over encode()", "Fingerprint::compute, PublicKey::fingerprint_with")], ["PublicKey::fingerprint", "Fingerprint::to_string"])
P("C07", "A certificate is accepted only if its embedded CA key signed exactly its bytes",
  "Decoding a certificate succeeds only if the signature it carries verifies, under the CA key it embeds, over exactly the bytes that precede the signature field, with the algorithm the key's type prescribes and a signature type that belongs to that key type "
  "(RSA keys: ssh-rsa, rsa-sha2-256 or rsa-sha2-512; security keys: over application hash, flags, counter and message hash); a well-formed certificate whose signature does verify is accepted. "
  "Certificates signed by a certificate, by an unsupported curve or with malformed signature fields are rejected without panicking.",
  "all certificate contents, CA key types, signature types and verifier answers within the bounds",
  "the tests check a few genuine and a few corrupted certificates; forged combinations of key type, signature type and covered bytes are unbounded",
  ["src/ssh/cert.rs", "src/ssh/signature.rs"], [("verification before success", "Certificate::from_bytes -> verify_signature"), ("type match", "VerifiedSignature / signature dispatch")],
  ["Certificate::from_bytes"])
P("C08", "A decoded certificate has exactly the fields on the wire; malformed ones fail",
  "When a certificate decodes, its type, nonce, certified key, serial, user/host type, key id, principals in order, validity bounds, critical options, extensions, reserved field, CA key, signature and serialized bytes are exactly those on the wire. "
  "Input that is truncated anywhere, has an inconsistent length, an unknown or non-certificate type name, or a certificate type other than user or host is rejected, and no input makes decoding panic.",
  "all field contents, all truncations, all single wrong lengths within the bounds", "the tests decode well-formed samples; which field a wrong length shifts depends on the value",
  ["src/ssh/cert.rs", "src/ssh/reader.rs"], [("field order and nested readers", "Certificate::from_bytes, read_principals, read_options")], ["Certificate::from_bytes"])
P("C09", "An issued certificate carries exactly the requested fields and parses back",
  "For every key, CA key and builder input, the bytes handed to the signer are the OpenSSH certificate encoding of exactly those inputs with a fresh 32-byte random nonce, options in lexical order with empty values as flags, and the same bytes every time they are asked for. "
  "The issued certificate is those bytes followed by the signature, and decoding it returns the requested fields; if randomness is unavailable no certificate is built.",
  "all builder inputs within the bounds", "the tests issue a few certificates; option order and repeatability depend on map iteration order, not on a fixed sample",
  ["src/ssh/cert.rs", "src/ssh/writer.rs"], [("TBS encoding", "Certificate::tbs_certificate"), ("ordered options", "Writer::write_string_map"), ("nonce", "Certificate::builder")],
  ["Certificate::builder .. sign", "Certificate::tbs_certificate"])
P("C10", "A signature is attached only if it verifies over the certificate being issued",
  "Adding a signature, or signing through a signer, returns a certificate only if the signature verifies under the certificate's CA key over exactly its to-be-signed bytes, with a type that belongs to the CA key; otherwise, or if the signer declines, it is an error. "
  "On success the signature is stored unchanged and the serialized form is the signed bytes followed by it.",
  "all signature blobs, CA key types and verifier answers within the bounds", "a test can show one good and one bad signature, not that every bad one is refused",
  ["src/ssh/cert.rs", "src/ssh/signature.rs"], [("verify before attach", "Certificate::add_signature, Certificate::sign")], ["Certificate::add_signature", "Certificate::sign"])
P("C11", "Certificate text is accepted only under its own type label and means its blob",
  "Certificate text is accepted only if its label equals the type name inside the base64 blob and the blob is an acceptable certificate; the result is that certificate with the third field as comment. "
  "Displaying it starts with the type name, a space and the padded base64 of its serialized bytes.",
  "all labels, comments and certificate contents within the bounds", "mismatching labels and contents are unbounded", ["src/ssh/cert.rs"],
  [("label comparison", "Certificate::from_string"), ("display", "impl Display for Certificate")], ["Certificate::from_string", "Certificate::to_string"])
P("C12", "A detached signature verifies only for its key, namespace, hash and message",
  "Verifying a detached SSH signature succeeds only if the signature it carries verifies, under its own public key and with a type that belongs to that key, over exactly magic, namespace, empty reserved field, hash name and the hash of the given message; "
  "the expected namespace must be equal and the pinned public key, when given, must be the same key (its comment does not matter). A signature that meets all this verifies and the result carries the given message and signature; nothing panics.",
  "all keys, signature blobs, namespaces, pinned keys, messages and verifier answers within the bounds", "a test shows one good and a few bad signatures; the ways to be bad are unbounded",
  ["src/ssh/signature.rs"], [("namespace and pin comparison, covered bytes", "VerifiedSshSignature::from_ssh_signature"), ("type match and primitive", "verify_signature")],
  ["VerifiedSshSignature::from_ssh_signature"])
P("C13", "Armored signatures decode to exactly their contents and display round-trips",
  "Armored text is accepted exactly when the lines between the BEGIN and END SSH SIGNATURE lines (LF or CRLF, any width) are base64 of a version-1 SSHSIG blob with a well-formed public key, a non-empty namespace and hash sha256 or sha512; the result then holds exactly those fields. "
  "Displaying a signature gives that armor in lines of at most 76 characters, and reading it back gives the same key, namespace, hash and signature bytes.",
  "all blob contents, single wrong fields, truncations, frame lines and line widths within the bounds", "the tests parse a few ssh-keygen outputs", ["src/ssh/signature.rs"],
  [("frame scan", "SshSignature::from_armored_string"), ("blob fields", "SshSignature::from_reader"), ("display", "impl Display for SshSignature")],
  ["SshSignature::from_armored_string", "SshSignature::to_string"])
P("C14", "A written private key is the OpenSSH encoding and reads back as the same key",
  "Encoding any private key value (RSA, ECDSA, Ed25519, both security-key types) gives the unencrypted OpenSSH key format: public key, twice the check value, exactly its fields, its comment and padding 1,2,3... to a multiple of 8; writing puts its base64 between the BEGIN and END lines in lines of at most 70 characters. "
  "Reading the written text gives a key with the same type, public key, secret, comment and check value that encodes to the same bytes; displaying a private key shows only fingerprint and comment.",
  "all key values within the bounds", "field lengths decide padding, line breaks and sign bytes; samples meet a few combinations", ["src/ssh/privkey.rs"],
  [("encoding", "PrivateKey::encode, PrivateKey::write"), ("decoding", "PrivateKey::from_string")], ["PrivateKey::encode", "PrivateKey::write", "PrivateKey::from_string"])
P("C15", "A private key file is accepted only if consistent, and yields its exact contents",
  "Unencrypted private key text is accepted exactly when it is framed, has the OpenSSH magic, cipher and KDF none, one key, a well-formed public key, equal check integers, and a private section of the same type whose embedded public key equals the outer one; the key then holds exactly the fields in the file, RSA exponents being d mod p-1 and d mod q-1. "
  "Truncated input, wrong lengths, mismatching curves or public keys, RSA factors below 2 and unframed text are errors, never panics.",
  "all contents, single wrong fields, truncations and frame lines within the bounds", "the tests read well-formed keys; which check a corrupted field must trip depends on the value", ["src/ssh/privkey.rs", "src/ssh/reader.rs"],
  [("consistency checks", "PrivateKey::from_string_with_passphrase and its reader"), ("private section", "PrivateKey::read_private_key, from_bytes")], ["PrivateKey::from_string", "PrivateKey::from_bytes"])
P("C16", "Encrypted private keys open only through the right derivation and decryption",
  "An aes256-ctr/bcrypt private key is decrypted with AES-256-CTR over its whole body under the first 32 bytes, counter block the next 16, of bcrypt-pbkdf(passphrase, salt, rounds) as given in the file, and returned only if the result is a consistent key, with exactly its contents. "
  "Without passphrase it is reported as encrypted and nothing is derived; other ciphers or KDFs are reported as unsupported; malformed KDF options and keys that decrypt to inconsistent data are errors; an unencrypted key reads the same whether or not a passphrase is given.",
  "all key contents, passphrases, salts, round counts, key streams and names within the bounds", "the tests open a few keys with the right passphrase", ["src/ssh/privkey.rs"],
  [("derivation and decryption", "PrivateKey::from_string_with_passphrase")], ["PrivateKey::from_string_with_passphrase"])
P("C17", "Signing covers exactly the message with the key's secret and verifies",
  "Signing with a usable Ed25519, ECDSA P-256/P-384 or RSA private key makes one signature over exactly the given bytes with the key's algorithm (RSA: PKCS#1 SHA-512) and secret under its public part, and returns it as an SSH signature of the key's type (r and s as minimal mpints) that verifies under the public key; "
  "keys that cannot sign (wrong lengths, public part not matching, P-521) give no signature, never a panic. A detached signature made with a key covers namespace, hash name (SHA-512 by default) and message hash, keeps message and public key, and its armored text verifies.",
  "all secrets, public parts, messages, namespaces and primitive answers within the bounds", "scalars and signature halves with leading zeros are rare in tests and in practice", ["src/ssh/privkey.rs", "src/ssh/signature.rs", "src/utils.rs"],
  [("dispatch, scalar padding, RSA DER, signature format", "impl SSHCertificateSigner for PrivateKey, format_signature_for_ssh"), ("detached", "VerifiedSshSignature::new_with_private_key")],
  ["PrivateKey::sign", "VerifiedSshSignature::new_with_private_key"])
P("C18", "Secrets of a private key are cleared from memory when it is dropped",
  "When a private key goes out of scope - directly, as a clone, inside containers, by being overwritten, or when only its kind is left - the buffers that held its secret fields (RSA d, p, q, coefficient and exponents; ECDSA scalar; Ed25519 secret; security-key handle and PIN) no longer contain them at the moment they are released.",
  "all key types, secret values and ways of dropping within the bounds", "freed memory is invisible to ordinary tests", ["src/ssh/privkey.rs"], [("zeroizing drop", "Zeroize/ZeroizeOnDrop derives, Drop impls")],
  ["the allocator at deallocation"], over=("inputs", "histories"))
P("C19", "A generated Ed25519 key is fresh, self-consistent, portable and can sign",
  "Generating an Ed25519 key draws 32 random bytes as its seed, stores seed followed by the matching public key as OpenSSH does, carries the given comment and type ssh-ed25519, reads back from its written form as the same key, and its signatures verify under its public key. Other kinds are refused.",
  "all random outcomes and comments within the bounds", "tests see a handful of random outcomes", ["src/ssh/privkey.rs"], [("seed and layout", "PrivateKey::new")], ["PrivateKey::new"])
P("C20", "DER signatures convert to the SSH form without changing r or s",
  "Formatting a raw signature for SSH gives the key's signature type (RSA: rsa-sha2-512) followed by the bytes as given, or, for ECDSA and ECDSA security keys, by the two integers of the DER sequence, each as an SSH string with exactly its bytes. "
  "For ECDSA, input that is not a sequence of exactly two integers (wrong tags, truncated, trailing bytes, empty s) is rejected, never a panic.",
  "all byte strings within the bounds", "the length bytes of DER are attacker-controlled indices; tests convert a few good signatures", ["src/utils.rs"],
  [("DER walk", "asn_der_to_r_s"), ("SSH layout", "signature_convert_asn1_ecdsa_to_ssh, format_signature_for_ssh")],
  ["asn_der_to_r_s", "signature_convert_asn1_ecdsa_to_ssh", "format_signature_for_ssh"])

P("C21", "An allowed-signer line is read exactly as the format says",
  "A line of an allowed signers file - principals (quoted or not), options in any order and letter case, key type and key - yields an entry with exactly the listed principals, the cert-authority flag, the listed namespaces, the validity interval and the key; quoted blanks and # are literal, an unquoted # starts a comment. "
  "Anything else (empty principals, unknown or repeated options, wrong or unbalanced quotes, an interval that does not end after it starts, missing or bad key, trailing text) is rejected, never a panic.",
  "all line contents within the bounds", "quoting and comments interact in ways a list of sample lines does not cover; misreading a line changes who is trusted", ["src/ssh/allowed_signer.rs"],
  [("tokens", "AllowedSignerSplitter"), ("fields", "AllowedSigner::from_string")], ["AllowedSigner::from_string"])
P("C22", "An allowed-signers file is read line by line, all or nothing",
  "Reading an allowed signers file yields one entry per line that is neither blank nor a comment, in order, each as that line alone would be read, whatever the line endings and indentation. One malformed line makes the whole file an error that names the first such line; no line is skipped or merged.",
  "all files within the bounds", "a skipped malformed line silently changes who is trusted; tests read a few good files", ["src/ssh/allowed_signer.rs"],
  [("lines", "AllowedSigners::from_string")], ["AllowedSigners::from_string"])
P("C23", "A displayed allowed-signer entry reads back as the same entry",
  "Displaying an allowed-signer entry gives a line of the same format: reading it again yields the same principals, cert-authority flag, namespaces, validity interval and key, also when names contain blanks or #.",
  "all entries within the bounds", "a round trip is about every entry; no test displays one", ["src/ssh/allowed_signer.rs"],
  [("display", "impl Display for AllowedSigner")], ["AllowedSigner::to_string", "AllowedSigner::from_string"])
P("C24", "Allowed-signer validity times denote the instant that is written",
  "A validity time YYYYMMDD[HHMM[SS]][Z] is accepted exactly when it is a real date and time of day, and denotes that instant in UTC with Z, in the system's time zone without; around a clock change a repeated local time denotes one of its two instants and a skipped one may be rejected. "
  "Anything else (other lengths, non-digits, impossible dates, more than one Z) is rejected, never a panic.",
  "all stamps within the bounds and each kind of answer of the time zone database", "calendar arithmetic and clock changes go wrong on specific dates and in specific zones only", ["src/ssh/allowed_signer.rs"],
  [("stamp", "parse_timestamp")], ["AllowedSigner::from_string"])

P("C25", "FIDO authenticator data is read field by field and gives the right SSH key",
  "Authenticator data is split into application hash, flags (user presence, user verification), counter, AAGUID, credential and COSE key exactly as WebAuthn lays them out; an Ed25519 or P-256 credential key becomes the security-key SSH public key with exactly its bytes (x, or the uncompressed point of x and y) and the given application. "
  "Truncated data, data without a credential, malformed keys and keys of other algorithms are rejected, never a panic.",
  "all authenticator data within the bounds", "the CBOR inside comes from the device in many encodings; the tests parse three recorded samples", ["src/fido/parsing.rs"],
  [("layout", "AuthData::parse"), ("key", "CoseKey::parse, AuthData::ssh_public_key")], ["AuthData::parse", "AuthData::ssh_public_key"])
P("C26", "The SSH key taken from X.509 data is the key that data contains",
  "Extracting an SSH key from an X.509 certificate, a signing request or a bare public key yields the ECDSA key on the curve named there (P-256 or P-384) with exactly the point bytes of the document. Any other algorithm, curve or parameters, and truncated or malformed input, is rejected, never a panic.",
  "all keys, identifiers and single-byte damages within the bounds", "identifiers that differ in one part and documents damaged in one byte are not in the tests", ["src/x509/mod.rs"],
  [("certificate and request", "extract_ssh_pubkey_from_x509_certificate, extract_ssh_pubkey_from_x509_csr"), ("key", "der_encoding_to_ssh_public_key, convert_x509_pki_to_pubkey")],
  ["extract_ssh_pubkey_from_x509_certificate", "extract_ssh_pubkey_from_x509_csr", "der_encoding_to_ssh_public_key"])
P("C27", "A FIDO attestation is accepted only if root and certificate both vouch for it",
  "An attestation is accepted exactly when the given root (the Yubico U2F root if none is given) signed the attesting certificate and that certificate's key made the ECDSA P-256 SHA-256 signature over the authenticator data followed by the challenge; other algorithms, unreadable roots or certificates and malformed authenticator data are rejected, never a panic. "
  "What is returned is the signed authenticator data and the firmware, AAGUID and transports (all five) of the attesting certificate, each only if it is there in its proper length.",
  "all signature verdicts, keys, challenges, extensions and roots within the bounds", "attestation decides what hardware is trusted; the tests verify recorded good attestations and a few bad ones", ["src/fido/verification.rs"],
  [("chain", "verify_auth_data"), ("extensions", "extract_certificate_extension_data")], ["verify_auth_data"])
P("C28", "A PIV attestation is accepted only if the whole chain is signed",
  "A PIV attestation is accepted exactly when the given root (the Yubico PIV root if none is given) signed the intermediate, the intermediate's key signed the client certificate, and that has a P-256 or P-384 key, a three-byte firmware version, a serial number and the two policies. The returned key, firmware, serial number, PIN policy and touch policy are those of the client certificate; "
  "anything else, including unreadable roots, truncated certificates and short extensions, is rejected, never a panic.",
  "all signature verdicts, keys, extensions and roots within the bounds", "attestation decides what hardware is trusted; the tests verify recorded chains only", ["src/yubikey/verification.rs"],
  [("chain", "verify_certificate_chain"), ("extensions", "extract_certificate_extension_data")], ["verify_certificate_chain"])
P("C29", "A PIV key signs the digest of exactly the data given, with the slot's key",
  "Signing with a YubiKey PIV slot asks the device for one signature, with the key in that slot and its algorithm, over the SHA-256 (P-256) or SHA-384 (P-384) digest of exactly the data given, and returns that signature: as the device made it, in SSH form for SSH certificates, or in a signing request that holds the slot's key and the common name. "
  "Another algorithm than the key's, an empty slot, an unsupported key and every device error give an error, nothing signed with another key, and never a panic.",
  "all messages, keys, slots and device failures within the bounds", "the device is not there in the tests: none of this code runs in them", ["src/yubikey/piv/management.rs", "src/yubikey/piv/ssh.rs"],
  [("signing", "Yubikey::sign_data, ssh_cert_signer"), ("request", "Yubikey::generate_csr, CSRSigner")], ["Yubikey::sign_data", "Yubikey::ssh_cert_signer", "Yubikey::generate_csr"], ("inputs", "fault_sequences"))
P("C30", "PIV slots are read, provisioned and unlocked as asked, and failures reported",
  "What is read from a PIV slot (SSH key, key type, subject, certificate, attestation) is that slot's and nothing is changed by reading; writing stores exactly the certificate given; provisioning generates one key in the slot with the algorithm, PIN policy and touch policy asked for, leaves the other slots alone and returns that key, and a common name that fits no certificate is refused before the old key is replaced; "
  "unlocking succeeds only if the device accepted the PIN and then the management key as given; opening and reconnecting reach the device with the serial asked for or fail. Every device error is reported, never a panic.",
  "all keys, credentials, policies, slots and device failures within the bounds", "the device is not there in the tests: none of this code runs in them", ["src/yubikey/piv/management.rs", "src/yubikey/piv/ssh.rs"],
  [("slots", "Yubikey::provision, write_certificate, fetch_certificate, configured"), ("access", "Yubikey::open, reconnect, unlock")], ["Yubikey::provision", "Yubikey::unlock", "Yubikey::ssh_cert_fetch_pubkey"], ("inputs", "fault_sequences"))
P("C31", "A security key signs the given bytes for its application, or nothing is returned",
  "Signing with a private key held on a security key asks the token exactly once, for that key's handle and application, with the PIN of the private key, over the SHA-256 digest of exactly the given bytes and requiring a touch, and returns the token's signature in the form of the key type followed by the token's flags and counter; that signature, also on a certificate issued by such a CA key, verifies under the key's public part. "
  "When the token fails in any way (unreachable, silent, PIN missing, wrong or blocked, refusal, key not on it, malformed answer) there is no signature, no panic and no waiting forever.",
  "all keys, messages, token answers, token failures and thread schedules within the bounds", "no token is there in the tests: none of this code runs in them", ["src/fido/signing/mozilla.rs", "src/ssh/privkey.rs", "src/utils/mod.rs"],
  [("signing", "sign_with_private_key"), ("CA", "Certificate::sign, PrivateKey::sign, format_signature_for_ssh")], ["PrivateKey::sign", "Certificate::sign"], ("inputs", "fault_sequences", "schedules"))
P("C32", "A key made on a security key is the token's, attested, and failures are told",
  "Generating a key on a security key makes one registration for the application with the PIN given and a fresh random challenge, and returns a key only if it is an Ed25519 credential whose attestation over that challenge verifies up to the root; the private key then holds the token's handle, flags and public key, the application, PIN and comment given, and the attestation returned verifies again. "
  "A token failure is an error: a missing, wrong or blocked PIN is reported as such with the attempts left, and no failure panics or waits forever.",
  "all credentials, statements, PINs, token failures and thread schedules within the bounds", "no token is there in the tests: none of this code runs in them", ["src/fido/generate/mozilla.rs", "src/fido/parsing.rs", "src/fido/verification.rs"],
  [("registration", "generate_new_ssh_key"), ("attestation", "AuthData::parse, ssh_public_key, U2FAttestation::verify")], ["generate_new_ssh_key"], ("inputs", "fault_sequences", "schedules"))
P("C33", "A file or stream is read or written whole, or an error is returned",
  "Reading a public key, certificate, private key or allowed-signers list from a path opens that file for reading and gives exactly what its complete contents, as text, give; a file that cannot be opened or read, or is not UTF-8, is an error, and neither partial reads, interruptions nor a wrong reported size change the result. "
  "Writing a public or private key to a stream that accepts less than offered, or is interrupted, delivers the whole text, and a stream that fails makes the write fail after a prefix of the text.",
  "all contents, read and write sizes, and failures of open, read and write within the bounds", "the tests read a few intact files from a local disk and write to memory", ["src/ssh/pubkey.rs", "src/ssh/cert.rs", "src/ssh/privkey.rs", "src/ssh/allowed_signer.rs"],
  [("reading", "PublicKey::from_path, Certificate::from_path, PrivateKey::from_path_with_passphrase, AllowedSigners::from_path"), ("writing", "PublicKey::write, PrivateKey::write")], ["PublicKey::from_path", "Certificate::from_path", "PrivateKey::from_path", "AllowedSigners::from_path", "PublicKey::write", "PrivateKey::write"], ("inputs", "fault_sequences"))
P("C34", "What is shown of a certificate, key size or token error is what it contains",
  "The description of a certificate ({:#}) states its type, the fingerprints and types of its key and CA, key id, serial and validity (\"forever\" only for the unlimited period), then every principal in order, every critical option with its value and every extension, each once, and nothing else. "
  "The size reported for a key is the bit length of its modulus or of its curve, and a token error shows the reason it was given.",
  "all certificates, keys and reasons within the bounds", "the tests print one or two fixed certificates", ["src/ssh/cert.rs", "src/ssh/pubkey.rs", "src/ssh/keytype.rs", "src/fido/mod.rs"],
  [("description", "impl Display for Certificate"), ("size", "PublicKey::bits"), ("errors", "impl Display for fido::Error")], ["Certificate::to_string", "PublicKey::bits"], ("inputs",))
