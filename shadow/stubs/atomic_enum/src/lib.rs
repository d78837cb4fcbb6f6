//! Type-check stand-in for the atomic_enum crate.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn atomic_enum(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut name = None;
    let mut saw = false;
    for t in item.clone() {
        let s = t.to_string();
        if saw { name = Some(s); break; }
        if s == "enum" { saw = true; }
    }
    let n = name.unwrap();
    let item = format!("#[derive(Clone, Copy, Debug, Eq, PartialEq)] {item}
    pub struct Atomic{n}(::core::cell::UnsafeCell<{n}>);
    unsafe impl Sync for Atomic{n} {{}}
    impl ::core::fmt::Debug for Atomic{n} {{ fn fmt(&self, _f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ loop {{}} }} }}
    impl Atomic{n} {{
        pub const fn new(v: {n}) -> Self {{ Self(::core::cell::UnsafeCell::new(v)) }}
        pub fn load(&self, _o: ::core::sync::atomic::Ordering) -> {n} {{ loop {{}} }}
        pub fn store(&self, _v: {n}, _o: ::core::sync::atomic::Ordering) {{ loop {{}} }}
    }}");
    item.parse().unwrap()
}
