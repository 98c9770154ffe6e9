//! Rust futures as promises and promises as Rust futures; the tasks go to the simulator's scheduler.
use js_sys::Promise;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use wasm_bindgen::{sim, JsValue};

pub fn spawn_local<F>(f: F)
where
    F: Future<Output = ()> + 'static,
{
    sim::spawn(Box::pin(f))
}

pub fn future_to_promise<F>(f: F) -> Promise
where
    F: Future<Output = Result<JsValue, JsValue>> + 'static,
{
    sim::task(f).into()
}

pub struct JsFuture(sim::Waiting);
impl From<Promise> for JsFuture {
    fn from(p: Promise) -> Self {
        JsFuture(sim::wait(p.into()))
    }
}
impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.0).poll(cx)
    }
}
