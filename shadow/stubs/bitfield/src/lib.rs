//! Type-check stand-in for the bitfield crate: the getters' bit ranges appear as constants in their bodies.
#[macro_export]
macro_rules! bitfield {
    ($(#[$a:meta])* pub struct $n:ident($t:ty); impl Debug; $($rest:tt)*) => {
        $(#[$a])* pub struct $n(pub $t);
        impl ::core::fmt::Debug for $n { fn fmt(&self, _f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { loop {} } }
        impl $n { $crate::bitfield!{@f $t; $($rest)*} }
    };
    ($(#[$a:meta])* pub struct $n:ident($t:ty); $($rest:tt)*) => {
        $(#[$a])* pub struct $n(pub $t);
        impl $n { $crate::bitfield!{@f $t; $($rest)*} }
    };
    ($(#[$a:meta])* struct $n:ident($t:ty); $($rest:tt)*) => {
        $(#[$a])* struct $n($t);
        impl $n { $crate::bitfield!{@f $t; $($rest)*} }
    };
    (@f $t:ty;) => {};
    (@f $t:ty; pub $f:ident, _: $m:expr, $l:expr; $($rest:tt)*) => {
        pub fn $f(&self) -> $t { (self.0 >> $l) & (<$t>::MAX >> (<$t>::BITS as usize - 1 - ($m - $l))) }
        $crate::bitfield!{@f $t; $($rest)*}
    };
    (@f $t:ty; $u:ty; pub $f:ident, _: $m:expr, $l:expr; $($rest:tt)*) => {
        pub fn $f(&self) -> $u { ((self.0 >> $l) & (<$t>::MAX >> (<$t>::BITS as usize - 1 - ($m - $l)))) as $u }
        $crate::bitfield!{@f $t; $($rest)*}
    };
    (@f $t:ty; $u:ty; $f:ident, _: $m:expr, $l:expr; $($rest:tt)*) => {
        fn $f(&self) -> $u { ((self.0 >> $l) & (<$t>::MAX >> (<$t>::BITS as usize - 1 - ($m - $l)))) as $u }
        $crate::bitfield!{@f $t; $($rest)*}
    };
}
