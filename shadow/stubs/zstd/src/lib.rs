pub mod bulk {
    pub fn compress(_b: &[u8], _l: i32) -> std::io::Result<Vec<u8>> { loop {} }
    pub fn decompress(_b: &[u8], _l: usize) -> std::io::Result<Vec<u8>> { loop {} }
}
