//! Harnesses: each `h_*` function is an entry point of the symbolic executor and, with a tape,
//! of the native replay binary.
#![allow(clippy::all)]
pub mod spec;
pub mod wire;
pub mod keys;
pub mod text;
pub mod cert;
pub mod sshsig;
pub mod privkey;
pub mod der;
pub mod signers;
pub mod fido;
pub mod x509;
pub mod attest;
pub mod piv;
pub mod token;
pub mod files;
pub mod shown;

pub type Entry = (&'static str, extern "C" fn());
#[macro_export]
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        pub static ENTRIES: &[$crate::Entry] = &[$((stringify!($name), $name as extern "C" fn())),*];
    };
}
pub fn all() -> Vec<Entry> {
    let mut v = Vec::new();
    v.extend_from_slice(wire::ENTRIES);
    v.extend_from_slice(keys::ENTRIES);
    v.extend_from_slice(text::ENTRIES);
    v.extend_from_slice(cert::ENTRIES);
    v.extend_from_slice(sshsig::ENTRIES);
    v.extend_from_slice(privkey::ENTRIES);
    v.extend_from_slice(der::ENTRIES);
    v.extend_from_slice(signers::ENTRIES);
    v.extend_from_slice(fido::ENTRIES);
    v.extend_from_slice(x509::ENTRIES);
    v.extend_from_slice(attest::ENTRIES);
    v.extend_from_slice(piv::ENTRIES);
    v.extend_from_slice(token::ENTRIES);
    v.extend_from_slice(files::ENTRIES);
    v.extend_from_slice(shown::ENTRIES);
    v
}
