use std::{future::Future, pin::Pin, task::{Context, Poll}};
pub use tracing;
pub struct Instrumented<T> { #[allow(dead_code)] inner: T, #[allow(dead_code)] span: tracing::Span }
impl<T> Unpin for Instrumented<T> {}
pub trait Instrument: Sized { fn instrument(self, span: tracing::Span) -> Instrumented<Self> { Instrumented { inner: self, span } } 
 fn in_current_span(self) -> Instrumented<Self> { self.instrument(tracing::Span::current()) } }
impl<T: Sized> Instrument for T {}
impl<T: Future> Future for Instrumented<T> { type Output = T::Output; fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<T::Output> { loop {} } }
