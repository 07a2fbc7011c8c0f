//! Signature-level stand-in for `merlin`; only its types are consulted.
#![no_std]
#[derive(Clone, Debug)]
pub struct Transcript {
    state: u64,
}
impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        Transcript { state: label.len() as u64 }
    }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        self.state += (label.len() + message.len()) as u64;
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &x.to_le_bytes());
    }
    pub fn challenge_bytes(&mut self, _label: &'static [u8], dest: &mut [u8]) {
        dest.fill(self.state as u8);
    }
}
