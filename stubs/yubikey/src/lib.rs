//! A model of a YubiKey behind the interface of the `yubikey` crate, version 0.7: key slots, the
//! certificates stored with them, and a log of what the device was asked to do. Every operation
//! fails when the harness says it may. Identifiers, policies and errors are the crate's own text;
//! certificates are parsed and written as the crate does it.
#![allow(static_mut_refs)]
mod error;
mod policy;
mod slots;
pub mod certificate;
pub mod model;
pub mod piv;

pub use certificate::Certificate;
pub use error::{Error, Result};
pub use policy::{PinPolicy, TouchPolicy};
use std::fmt::{self, Display};
use std::str::FromStr;

pub type ObjectId = u32;
pub type Buffer = zeroize::Zeroizing<Vec<u8>>;

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub struct PcscError;
impl Display for PcscError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("smart card error")
    }
}
impl std::error::Error for PcscError {}

#[derive(Copy, Clone, Debug, Eq, PartialEq, PartialOrd, Ord)]
pub struct Serial(pub u32);
impl From<u32> for Serial {
    fn from(num: u32) -> Serial {
        Serial(num)
    }
}
impl From<Serial> for u32 {
    fn from(serial: Serial) -> u32 {
        serial.0
    }
}
impl FromStr for Serial {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self> {
        s.parse().map(Serial).map_err(|_| Error::ParseError)
    }
}
impl Display for Serial {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct Version {
    pub major: u8,
    pub minor: u8,
    pub patch: u8,
}

#[derive(Clone)]
pub struct MgmKey([u8; 24]);
impl MgmKey {
    pub fn from_bytes(bytes: impl AsRef<[u8]>) -> Result<Self> {
        bytes.as_ref().try_into()
    }
    pub fn new(key_bytes: [u8; 24]) -> Result<Self> {
        // the crate refuses weak DES keys; which keys are weak is left open
        if model::device().may_fail && vrt::flag() {
            model::device().failed = true;
            return Err(Error::KeyError);
        }
        Ok(Self(key_bytes))
    }
}
impl AsRef<[u8; 24]> for MgmKey {
    fn as_ref(&self) -> &[u8; 24] {
        &self.0
    }
}
impl<'a> TryFrom<&'a [u8]> for MgmKey {
    type Error = Error;
    fn try_from(key_bytes: &'a [u8]) -> Result<Self> {
        Self::new(key_bytes.try_into().map_err(|_| Error::SizeError)?)
    }
}

pub struct YubiKey {
    serial: Serial,
}
impl YubiKey {
    pub fn open() -> Result<Self> {
        model::op(model::Op::Open)?;
        Ok(YubiKey { serial: Serial(model::device().serial) })
    }
    pub fn open_by_serial(serial: Serial) -> Result<Self> {
        model::op(model::Op::OpenSerial(serial.0))?;
        if serial.0 != model::device().serial {
            return Err(Error::NotFound);
        }
        Ok(YubiKey { serial })
    }
    pub fn reconnect(&mut self) -> Result<()> {
        model::op(model::Op::Reconnect(self.serial.0))
    }
    pub fn name(&self) -> &str {
        "Yubico YubiKey"
    }
    pub fn version(&self) -> Version {
        Version { major: 5, minor: 4, patch: 3 }
    }
    pub fn serial(&self) -> Serial {
        self.serial
    }
    pub fn authenticate(&mut self, mgm_key: MgmKey) -> Result<()> {
        model::op(model::Op::Authenticate(mgm_key.0.to_vec()))
    }
    pub fn verify_pin(&mut self, pin: &[u8]) -> Result<()> {
        model::op(model::Op::Pin(pin.to_vec()))
    }
}
