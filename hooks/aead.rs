use super::TlsAead;
impl TlsAead {
    pub(crate) fn verif_set(&mut self, write: u64, read: u64) {
        self.write_nonce = write;
        self.read_nonce = read;
    }
}
