use super::*;
fn e(e: CertError) -> u32 {
    match e {
        CertError::ParseError => 1,
        CertError::CertExpired => 2,
        CertError::CertInvalid => 3,
        CertError::UnsupportedVersion => 4,
        CertError::UnsupportedSigAlg => 5,
    }
}
pub(crate) fn validate(b: &[u8]) -> Result<(), u32> {
    validate_cert(b).map_err(e)
}
pub(crate) fn sig_int(tag: u8, data: &[u8]) -> Result<[u8; 32], u32> {
    parse_sig_int(DerObj { tag, data }).map(|x| x.into_inner().to_be_bytes()).map_err(e)
}
pub(crate) fn signature(tag: u8, data: &[u8]) -> Result<(), u32> {
    parse_signature(DerObj { tag, data }).map(|_| ()).map_err(e)
}
