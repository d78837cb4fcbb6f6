pub fn shuffle(_ts: usize, _src: &[u8]) -> Vec<u8> { loop {} }
pub fn unshuffle(_ts: usize, _src: &[u8]) -> Vec<u8> { loop {} }
