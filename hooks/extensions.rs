use super::*;
pub(crate) fn iter(b: &[u8]) -> Vec<(u16, Vec<u8>)> {
    ExtIter::new(b).map(|e| (u16::from_be_bytes(e.ext_type), e.data.to_vec())).collect()
}
