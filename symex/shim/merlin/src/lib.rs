//! Symbolic stand-in for merlin 1.3. The state of a transcript is its history (a node of a trie);
//! a challenge is a symbol that is a function of that history (random-oracle reading).
use symcore::{arena, TEvent};

pub struct Transcript {
    inst: u32,
}
impl Clone for Transcript {
    fn clone(&self) -> Self {
        Transcript { inst: arena().tr_clone(self.inst) }
    }
}
const FE_MAGIC: &[u8; 6] = b"\xFDSYMFE";
fn encode_u64(x: u64) -> [u8; 8] {
    x.to_le_bytes()
}
impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        Transcript { inst: arena().tr_new(label) }
    }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        arena().tr_push(self.inst, TEvent::Append(label.to_vec(), message.to_vec()));
    }
    #[deprecated]
    pub fn commit_bytes(&mut self, label: &'static [u8], message: &[u8]) {
        self.append_message(label, message);
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &encode_u64(x));
    }
    #[deprecated]
    pub fn commit_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_u64(label, x);
    }
    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) {
        let t = arena().tr_challenge(self.inst, label, dest.len());
        for b in dest.iter_mut() {
            *b = 0;
        }
        if dest.len() >= 10 {
            dest[0..6].copy_from_slice(FE_MAGIC);
            dest[6..10].copy_from_slice(&t.to_be_bytes());
        } else {
            // too short to carry a symbol: some concrete bytes (the length is in the log)
            for (i, b) in dest.iter_mut().enumerate() {
                *b = 7 + i as u8;
            }
        }
    }
    pub fn build_rng(&self) -> TranscriptRngBuilder {
        TranscriptRngBuilder { witness: vec![], st: arena().transcripts[self.inst as usize] }
    }
    pub fn instance(&self) -> u32 {
        self.inst
    }
}
pub struct TranscriptRngBuilder {
    witness: Vec<u8>,
    st: u32,
}
impl TranscriptRngBuilder {
    pub fn rekey_with_witness_bytes(mut self, label: &'static [u8], witness: &[u8]) -> Self {
        self.witness.extend_from_slice(&(label.len() as u32).to_le_bytes());
        self.witness.extend_from_slice(label);
        self.witness.extend_from_slice(&(witness.len() as u32).to_le_bytes());
        self.witness.extend_from_slice(witness);
        self
    }
    #[deprecated]
    pub fn commit_witness_bytes(self, label: &'static [u8], witness: &[u8]) -> Self {
        self.rekey_with_witness_bytes(label, witness)
    }
    pub fn finalize<R: rand_core::RngCore + rand_core::CryptoRng>(self, rng: &mut R) -> TranscriptRng {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        // a deterministic mix is enough here: the bytes only tell fixed seeds from fresh ones
        let mut h = 0xcbf29ce484222325u64 ^ (self.st as u64);
        for x in self.witness.iter().chain(b.iter()) {
            h = (h ^ (*x as u64)).wrapping_mul(0x100000001b3);
        }
        TranscriptRng { s: h }
    }
}
pub struct TranscriptRng {
    s: u64,
}
impl rand_core::RngCore for TranscriptRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand_core::CryptoRng for TranscriptRng {}
