pub mod block {
    #[derive(Debug)] pub struct DecompressError;
    pub fn compress(_b: &[u8]) -> Vec<u8> { loop {} }
    pub fn decompress(_b: &[u8], _l: usize) -> Result<Vec<u8>, DecompressError> { loop {} }
}
