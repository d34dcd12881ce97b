//! Resets of single response streams, as a proxy between a client and a worker does.
use crate::world;
use std::error::Error;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use tonic::body::Body;
use tonic::codegen::{Bytes, http};

#[derive(Clone)]
pub struct Resetting<S> {
    pub inner: S,
    pub node: usize,
}

impl<S, B> tower::Service<http::Request<B>> for Resetting<S>
where
    S: tower::Service<http::Request<B>, Response = http::Response<Body>>,
    S::Future: Send + 'static,
{
    type Response = http::Response<Cut>;
    type Error = S::Error;
    type Future = Pin<Box<dyn Future<Output = Result<Self::Response, S::Error>> + Send>>;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
        self.inner.poll_ready(cx)
    }

    fn call(&mut self, request: http::Request<B>) -> Self::Future {
        let tasks = request.uri().path().ends_with("/ExecuteTask");
        let relevant = tasks || request.uri().path().ends_with("/CoordinatorChannel");
        let reset = relevant.then(|| world::stream_reset(self.node, tasks)).flatten();
        let response = self.inner.call(request);
        Box::pin(async move {
            let (index, frames, reason) = match reset {
                Some(v) => v,
                None => return Ok(response.await?.map(|body| Cut { body: Some(body), reset: None })),
            };
            Ok(response.await?.map(|body| Cut { body: Some(body), reset: Some((index, frames, reason)) }))
        })
    }
}

pub struct Cut {
    body: Option<Body>,
    reset: Option<(usize, u64, u32)>,
}

impl tonic::codegen::Body for Cut {
    type Data = Bytes;
    type Error = Box<dyn Error + Send + Sync>;

    fn poll_frame(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
    ) -> Poll<Option<Result<http_body::Frame<Bytes>, Self::Error>>> {
        if let Some((index, 0, reason)) = self.reset
            && world::reset_allowed(index)
        {
            world::hit(index, "stream-reset");
            self.reset = None;
            self.body = None;
            return Poll::Ready(Some(Err(Box::new(h2::Error::from(h2::Reason::from(reason))))));
        }
        let Some(body) = self.body.as_mut() else { return Poll::Ready(None) };
        let frame = std::task::ready!(Pin::new(body).poll_frame(cx));
        if let Some((_, frames, _)) = &mut self.reset {
            *frames = frames.saturating_sub(1);
        }
        Poll::Ready(frame.map(|f| f.map_err(|e| Box::new(e) as _)))
    }

    fn is_end_stream(&self) -> bool {
        self.reset.is_none() && self.body.as_ref().is_none_or(|b| b.is_end_stream())
    }
}

