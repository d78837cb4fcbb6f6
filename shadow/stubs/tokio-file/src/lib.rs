//! Type-check stand-in for tokio-file's asynchronous file operations.
use std::{future::Future, io, io::{IoSlice, IoSliceMut}, os::fd::AsFd, pin::Pin, task::{Context, Poll}, marker::PhantomData};
pub struct AioResult { pub value: usize }
macro_rules! fut { ($n:ident, $o:ty) => {
    pub struct $n<'a>(PhantomData<&'a mut u8>);
    impl Future for $n<'_> { type Output = io::Result<$o>; fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> { loop {} } }
}}
fut!(ReadAt, usize); fut!(WriteAt, usize); fut!(ReadvAt, usize); fut!(WritevAt, usize); fut!(SyncAll, ());
pub trait AioFileExt: AsFd {
    fn read_at<'a>(&'a self, _buf: &'a mut [u8], _off: u64) -> io::Result<ReadAt<'a>> { loop {} }
    fn readv_at<'a>(&'a self, _bufs: &mut [IoSliceMut<'a>], _off: u64) -> io::Result<ReadvAt<'a>> { loop {} }
    fn write_at<'a>(&'a self, _buf: &'a [u8], _off: u64) -> io::Result<WriteAt<'a>> { loop {} }
    fn writev_at<'a>(&'a self, _bufs: &[IoSlice<'a>], _off: u64) -> io::Result<WritevAt<'a>> { loop {} }
    fn sync_all(&self) -> io::Result<SyncAll<'_>> { loop {} }
}
impl<T: AsFd> AioFileExt for T {}
