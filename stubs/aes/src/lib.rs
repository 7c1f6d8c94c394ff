//! Model of the AES-CTR stream ciphers: XOR with an uninterpreted keystream.
pub use cipher;
use cipher::{
    consts::{U16, U24, U32},
    errors::LoopError,
    generic_array::GenericArray,
    NewCipher, StreamCipher,
};
macro_rules! model {
    ($name:ident, $ks:ty, $kind:expr) => {
        pub struct $name {
            key: Vec<u8>,
            iv: Vec<u8>,
            off: usize,
        }
        impl NewCipher for $name {
            type KeySize = $ks;
            type NonceSize = U16;
            fn new(key: &GenericArray<u8, $ks>, nonce: &GenericArray<u8, U16>) -> Self {
                $name { key: key.to_vec(), iv: nonce.to_vec(), off: 0 }
            }
        }
        impl StreamCipher for $name {
            fn try_apply_keystream(&mut self, data: &mut [u8]) -> Result<(), LoopError> {
                vrt::model_keystream($kind, &self.key, &self.iv, self.off, data);
                self.off += data.len();
                Ok(())
            }
        }
        impl core::fmt::Debug for $name {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str(stringify!($name))
            }
        }
    };
}
model!(Aes128Ctr, U16, 128);
model!(Aes192Ctr, U24, 192);
model!(Aes256Ctr, U32, 256);
