#[doc(hidden)] pub trait Nz: Sized { type N; }
impl Nz for u8 { type N = core::num::NonZeroU8; }
impl Nz for u64 { type N = core::num::NonZeroU64; }
impl Nz for u32 { type N = core::num::NonZeroU32; }
#[macro_export]
macro_rules! nonzero { ($e:expr) => { core::num::NonZero::new($e).unwrap() } }
