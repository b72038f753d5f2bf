//! Stand-in for `futures`: the real combinators, with an executor that drives the simulated runtime.
pub use real_futures::{
    channel, future, io, join, lock, never, pending, pin_mut, poll, ready, select, select_biased, sink, stream, task, try_join, AsyncRead, AsyncWrite,
    Future, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFuture, TryFutureExt, TryStream, TryStreamExt,
};
pub mod executor {
    pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
        simrt::block_on(f)
    }
}
pub mod prelude {
    pub use real_futures::prelude::*;
}
