//! Every line with a trailing tilde comment is one witness: a program that must build.
//! They are only type-checked, against the crate as it is in the tree.
#![allow(dead_code)]
use futures::{AsyncRead, AsyncWrite};
use yamux::{Config, Connection, ConnectionError, Mode, Packet, Stream};

fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn unpin<T: Unpin>() {}
fn stat<T: 'static>() {}
fn val<T>(_: T) {}

/// ambiguous, and so a build failure, for types that can be cloned
trait NotClone<A> {
    fn check() {}
}
impl<T: ?Sized> NotClone<()> for T {}
struct IsClone;
impl<T: ?Sized + Clone> NotClone<IsClone> for T {}

fn stream_send() { send::<Stream>() } //~ a stream handle can be sent to other threads
fn stream_sync() { sync::<Stream>() } //~ a stream handle can be shared with other threads
fn stream_static() { stat::<Stream>() } //~ a stream handle is not tied to a lifetime
fn stream_unpin() { unpin::<Stream>() } //~ a stream handle can be moved freely
fn stream_not_clone() { <Stream as NotClone<_>>::check() } //~ a stream handle cannot be duplicated
fn stream_outlives<T: AsyncRead + AsyncWrite + Unpin>(c: Connection<T>, s: Stream) { drop(c); val(s) } //~ a stream handle does not borrow the connection
fn stream_reads(s: &mut Stream) { fn f<T: AsyncRead + ?Sized>(_: &mut T) {} f(s) } //~ a stream handle is an asynchronous reader
fn stream_writes(s: &mut Stream) { fn f<T: AsyncWrite + ?Sized>(_: &mut T) {} f(s) } //~ a stream handle is an asynchronous writer
fn stream_yields(s: Stream) -> impl futures::Stream<Item = std::io::Result<Packet>> { s } //~ a stream handle is a stream of packets
fn stream_parts(s: Stream) { let (mut r, w) = futures::AsyncReadExt::split(s); fn f<T: Send + 'static>(_: T) {} fn g<T: AsyncRead>(_: &mut T) {} g(&mut r); f(r); f(w) } //~ the halves of a stream can go to different threads
fn conn_send<T: AsyncRead + AsyncWrite + Unpin + Send>() { send::<Connection<T>>() } //~ a connection can be sent wherever its transport can
fn conn_static<T: AsyncRead + AsyncWrite + Unpin + 'static>() { stat::<Connection<T>>() } //~ a connection lives as long as its transport
fn conn_unpin<T: AsyncRead + AsyncWrite + Unpin>() { unpin::<Connection<T>>() } //~ a connection can be moved freely
fn conn_not_clone<T: AsyncRead + AsyncWrite + Unpin>() { <Connection<T> as NotClone<_>>::check() } //~ a connection cannot be duplicated
fn conn_borrowed<'a>(t: &'a mut (dyn Transport + 'a)) -> Connection<&'a mut (dyn Transport + 'a)> { Connection::new(t, Config::default(), Mode::Client) } //~ a connection works over a borrowed transport
trait Transport: AsyncRead + AsyncWrite + Unpin {}
fn packet_send() { send::<Packet>(); sync::<Packet>(); stat::<Packet>() } //~ received packets can be sent to other threads
fn config_shared() { send::<Config>(); sync::<Config>(); stat::<Config>() } //~ a configuration can be shared between threads
fn config_clone(c: &Config) -> Config { c.clone() } //~ a configuration can be reused for several connections
fn error_send() { send::<ConnectionError>(); sync::<ConnectionError>(); stat::<ConnectionError>() } //~ an error can be sent to other threads
fn error_boxed(e: ConnectionError) -> Box<dyn std::error::Error + Send + Sync> { Box::new(e) } //~ an error can be boxed as a standard error
