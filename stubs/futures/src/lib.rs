//! `futures` with one thing replaced: the thread pool, whose tasks go to the simulator's scheduler.
pub use real::*;

pub mod executor {
    pub use real::executor::*;
    use real::future::{Future, FutureExt, RemoteHandle};
    use std::cell::RefCell;
    use std::io;
    use std::pin::Pin;

    pub type PoolTask = Pin<Box<dyn Future<Output = ()> + Send>>;

    thread_local! {
        static SINK: RefCell<Option<Box<dyn Fn(PoolTask)>>> = RefCell::new(None);
    }

    /// Where the tasks of this thread's pools go.
    pub fn simulate(sink: Option<Box<dyn Fn(PoolTask)>>) {
        SINK.with(|s| *s.borrow_mut() = sink);
    }

    #[derive(Clone, Debug)]
    pub struct ThreadPool {
        size: usize,
    }

    impl ThreadPool {
        pub fn new() -> Result<ThreadPool, io::Error> {
            ThreadPoolBuilder::new().create()
        }
        pub fn builder() -> ThreadPoolBuilder {
            ThreadPoolBuilder::new()
        }
        pub fn spawn_obj_ok(&self, f: real::future::FutureObj<'static, ()>) {
            self.spawn_ok(f)
        }
        pub fn spawn_ok<Fut>(&self, f: Fut)
        where
            Fut: Future<Output = ()> + Send + 'static,
        {
            SINK.with(|s| match &*s.borrow() {
                Some(sink) => sink(Box::pin(f)),
                None => panic!("no simulator on this thread (pool of {})", self.size),
            })
        }
        pub fn spawn_with_handle<Fut>(&self, f: Fut) -> Result<RemoteHandle<Fut::Output>, real::task::SpawnError>
        where
            Fut: Future + Send + 'static,
            Fut::Output: Send,
        {
            let (f, h) = f.remote_handle();
            self.spawn_ok(f);
            Ok(h)
        }
    }

    impl real::task::Spawn for ThreadPool {
        fn spawn_obj(&self, f: real::future::FutureObj<'static, ()>) -> Result<(), real::task::SpawnError> {
            self.spawn_ok(f);
            Ok(())
        }
    }

    #[derive(Debug)]
    pub struct ThreadPoolBuilder {
        size: usize,
    }

    impl Default for ThreadPoolBuilder {
        fn default() -> Self {
            Self::new()
        }
    }

    impl ThreadPoolBuilder {
        pub fn new() -> Self {
            ThreadPoolBuilder { size: 8 }
        }
        pub fn pool_size(&mut self, size: usize) -> &mut Self {
            assert!(size > 0);
            self.size = size;
            self
        }
        pub fn stack_size(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn name_prefix<S: Into<String>>(&mut self, _: S) -> &mut Self {
            self
        }
        pub fn after_start<F: Fn(usize) + Send + Sync + 'static>(&mut self, _: F) -> &mut Self {
            self
        }
        pub fn before_stop<F: Fn(usize) + Send + Sync + 'static>(&mut self, _: F) -> &mut Self {
            self
        }
        pub fn create(&mut self) -> Result<ThreadPool, io::Error> {
            Ok(ThreadPool { size: self.size })
        }
    }
}
