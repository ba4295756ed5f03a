//! Wrappers through which inputs are polled without changing anything.
use futures_signals::signal::Signal;
use futures_signals::signal_map::{MapDiff, SignalMap};
use futures_signals::signal_vec::{SignalVec, VecDiff};
use std::pin::Pin;
use std::task::{Context, Poll};

/// Pretends to be Send: the cases are single-threaded.
pub struct AsSend<S>(pub S);
unsafe impl<S> Send for AsSend<S> {}

/// Polls by `&mut`.
pub struct ByRef<S>(pub S);

impl<S: Signal + Unpin> Signal for AsSend<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<S::Item>> {
        Pin::new(&mut self.0).poll_change(cx)
    }
}
impl<S: SignalVec + Unpin> SignalVec for AsSend<S> {
    type Item = S::Item;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<S::Item>>> {
        Pin::new(&mut self.0).poll_vec_change(cx)
    }
}
impl<S: SignalMap + Unpin> SignalMap for AsSend<S> {
    type Key = S::Key;
    type Value = S::Value;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<S::Key, S::Value>>> {
        Pin::new(&mut self.0).poll_map_change(cx)
    }
}
impl<S: Signal + Unpin> Signal for ByRef<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<S::Item>> {
        let mut r = &mut self.0;
        <&mut S as Signal>::poll_change(Pin::new(&mut r), cx)
    }
}
impl<S: SignalVec + Unpin> SignalVec for ByRef<S> {
    type Item = S::Item;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<S::Item>>> {
        let mut r = &mut self.0;
        <&mut S as SignalVec>::poll_vec_change(Pin::new(&mut r), cx)
    }
}
impl<S: SignalMap + Unpin> SignalMap for ByRef<S> {
    type Key = S::Key;
    type Value = S::Value;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<S::Key, S::Value>>> {
        let mut r = &mut self.0;
        <&mut S as SignalMap>::poll_map_change(Pin::new(&mut r), cx)
    }
}

/// `S` must be a plain type here, so that the impl of Box itself is used.
pub fn in_box<S>(s: S) -> Box<S> {
    Box::new(s)
}
