//! The device, and what it was asked.
use crate::piv::{AlgorithmId, SlotId};
use crate::certificate::CertInfo;
use crate::{Error, PinPolicy, Result, TouchPolicy};

pub enum Op {
    Open,
    OpenSerial(u32),
    Reconnect(u32),
    Pin(Vec<u8>),
    Authenticate(Vec<u8>),
    Read(SlotId),
    Write(SlotId, Vec<u8>, CertInfo),
    Attest(SlotId),
    Generate(SlotId, AlgorithmId, PinPolicy, TouchPolicy),
    Sign(SlotId, AlgorithmId, Vec<u8>),
}
pub struct Key {
    pub slot: SlotId,
    pub alg: AlgorithmId,
    /// SEC 1 point, or the RSA public key in DER
    pub public: Vec<u8>,
}
pub struct Device {
    pub serial: u32,
    /// each operation may fail
    pub may_fail: bool,
    /// one did
    pub failed: bool,
    pub keys: Vec<Key>,
    pub certs: Vec<(SlotId, Vec<u8>)>,
    pub attestation: Vec<u8>,
    /// every operation asked for, and whether it was carried out
    pub log: Vec<(Op, bool)>,
    /// signatures made: index into `log`, fixed r||s, DER
    pub made: Vec<(usize, Vec<u8>, Vec<u8>)>,
    /// what a signature is answered with instead of a signature
    pub answer: Option<Vec<u8>>,
    /// The key point the device generates next
    pub next: Vec<u8>,
}
static mut DEVICE: Device = Device {
    serial: 0,
    may_fail: false,
    failed: false,
    keys: Vec::new(),
    certs: Vec::new(),
    attestation: Vec::new(),
    log: Vec::new(),
    made: Vec::new(),
    answer: None,
    next: Vec::new(),
};
pub fn device() -> &'static mut Device {
    unsafe { &mut *core::ptr::addr_of_mut!(DEVICE) }
}
#[inline(never)]
pub fn op(o: Op) -> Result<()> {
    let d = device();
    if d.may_fail && vrt::flag() {
        d.failed = true;
        d.log.push((o, false));
        return Err(Error::PcscError { inner: Some(crate::PcscError) });
    }
    d.log.push((o, true));
    Ok(())
}
