//! tokio without its runtime: futures are polled in place until they are done (the storage calls
//! of the code are stubs that are ready at once, or compute in place).
pub use real::*;
pub use vp_tokio_macro::main;

pub fn spawn<F: std::future::Future + Send + 'static>(f: F) -> task::JoinHandle<F::Output> where F::Output: Send + 'static { task::spawn(f) }

pub mod task {
    use std::{future::Future, pin::Pin, task::{Context, Poll}};
    pub use real::task::{yield_now, JoinError};
    pub struct JoinHandle<T>(Option<T>);
    impl<T> Unpin for JoinHandle<T> {}
    impl<T> JoinHandle<T> { pub fn abort(&self) {} pub fn is_finished(&self) -> bool { true } }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> { Poll::Ready(Ok(self.0.take().expect("JoinHandle polled after completion"))) }
    }
    pub fn spawn<F: Future + Send + 'static>(f: F) -> JoinHandle<F::Output> where F::Output: Send + 'static { JoinHandle(Some(crate::runtime::block_on(f))) }
    pub fn spawn_blocking<R: Send + 'static, F: FnOnce() -> R + Send + 'static>(f: F) -> JoinHandle<R> { JoinHandle(Some(f())) }
    pub fn block_in_place<R, F: FnOnce() -> R>(f: F) -> R { f() }
}

pub mod runtime {
    use std::{future::Future, io, pin::Pin, sync::Arc, task::{Context, Poll, Wake, Waker}};
    struct W;
    impl Wake for W { fn wake(self: Arc<Self>) {} }
    pub fn block_on<F: Future>(f: F) -> F::Output {
        let mut f = Box::pin(f);
        let w = Waker::from(Arc::new(W));
        let mut c = Context::from_waker(&w);
        for _ in 0..1000 { if let Poll::Ready(x) = Pin::as_mut(&mut f).poll(&mut c) { return x } }
        panic!("future never finishes")
    }
    pub struct Runtime(());
    #[derive(Clone)]
    pub struct Handle(());
    impl Runtime {
        pub fn new() -> io::Result<Runtime> { Ok(Runtime(())) }
        pub fn handle(&self) -> &Handle { &Handle(()) }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output { block_on(f) }
        pub fn spawn<F: Future + Send + 'static>(&self, f: F) -> crate::task::JoinHandle<F::Output> where F::Output: Send + 'static { crate::task::spawn(f) }
        pub fn shutdown_background(self) {}
    }
    impl Handle {
        pub fn current() -> Handle { Handle(()) }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output { block_on(f) }
        pub fn spawn<F: Future + Send + 'static>(&self, f: F) -> crate::task::JoinHandle<F::Output> where F::Output: Send + 'static { crate::task::spawn(f) }
    }
    pub struct Builder(());
    impl Builder {
        pub fn new_multi_thread() -> Builder { Builder(()) }
        pub fn new_current_thread() -> Builder { Builder(()) }
        pub fn enable_all(&mut self) -> &mut Self { self }
        pub fn worker_threads(&mut self, _: usize) -> &mut Self { self }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self { self }
        pub fn build(&mut self) -> io::Result<Runtime> { Ok(Runtime(())) }
    }
}
