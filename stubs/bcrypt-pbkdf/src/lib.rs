//! Model of bcrypt_pbkdf: an uninterpreted function of (passphrase, salt, rounds).
#[derive(Debug)]
pub enum Error {
    InvalidParamLen,
    InvalidRounds,
    InvalidOutputLen,
    InvalidMemoryLen,
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("bcrypt_pbkdf error")
    }
}
impl std::error::Error for Error {}
pub fn bcrypt_pbkdf(passphrase: &str, salt: &[u8], rounds: u32, output: &mut [u8]) -> Result<(), Error> {
    if passphrase.is_empty() || salt.is_empty() {
        return Err(Error::InvalidParamLen);
    }
    if rounds == 0 {
        return Err(Error::InvalidRounds);
    }
    if output.is_empty() || output.len() > 1024 {
        return Err(Error::InvalidOutputLen);
    }
    match vrt::model_kdf(passphrase.as_bytes(), salt, rounds, output.len()) {
        Some(k) => {
            output.copy_from_slice(&k);
            Ok(())
        }
        None => Err(Error::InvalidParamLen),
    }
}
