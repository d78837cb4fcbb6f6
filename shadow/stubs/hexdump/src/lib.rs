pub fn hexdump_iter(_b: &[u8]) -> std::vec::IntoIter<String> { loop {} }
