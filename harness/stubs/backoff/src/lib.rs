//! Stand-in: exponential back-off with the defaults of backoff 0.4, on tokio's clock.
use std::time::Duration;

#[derive(Debug, Clone)]
pub enum Error<E> {
    Permanent(E),
    Transient { err: E, retry_after: Option<Duration> },
}
impl<E> Error<E> {
    pub fn permanent(e: E) -> Self {
        Error::Permanent(e)
    }
    pub fn transient(err: E) -> Self {
        Error::Transient { err, retry_after: None }
    }
    pub fn retry_after(err: E, d: Duration) -> Self {
        Error::Transient { err, retry_after: Some(d) }
    }
}
impl<E> From<E> for Error<E> {
    fn from(e: E) -> Self {
        Error::transient(e)
    }
}
#[derive(Debug, Clone)]
pub struct ExponentialBackoff {
    pub current_interval: Duration,
    pub initial_interval: Duration,
    pub randomization_factor: f64,
    pub multiplier: f64,
    pub max_interval: Duration,
    pub max_elapsed_time: Option<Duration>,
}
impl Default for ExponentialBackoff {
    fn default() -> Self {
        ExponentialBackoff {
            current_interval: Duration::from_millis(500),
            initial_interval: Duration::from_millis(500),
            randomization_factor: 0.5,
            multiplier: 1.5,
            max_interval: Duration::from_secs(60),
            max_elapsed_time: Some(Duration::from_secs(900)),
        }
    }
}
#[derive(Debug, Clone, Default)]
pub struct ExponentialBackoffBuilder(ExponentialBackoff);
impl ExponentialBackoffBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_initial_interval(mut self, d: Duration) -> Self {
        self.0.initial_interval = d;
        self.0.current_interval = d;
        self
    }
    pub fn with_randomization_factor(mut self, f: f64) -> Self {
        self.0.randomization_factor = f;
        self
    }
    pub fn with_multiplier(mut self, f: f64) -> Self {
        self.0.multiplier = f;
        self
    }
    pub fn with_max_interval(mut self, d: Duration) -> Self {
        self.0.max_interval = d;
        self
    }
    pub fn with_max_elapsed_time(mut self, d: Option<Duration>) -> Self {
        self.0.max_elapsed_time = d;
        self
    }
    pub fn build(self) -> ExponentialBackoff {
        self.0
    }
}
pub trait Notify<E> {
    fn notify(&mut self, err: E, d: Duration);
}
impl<E, F: FnMut(E, Duration)> Notify<E> for F {
    fn notify(&mut self, err: E, d: Duration) {
        self(err, d)
    }
}
pub mod future {
    use super::*;
    use std::future::Future;
    pub async fn retry_notify<I, E, Fn, Fut, N>(b: ExponentialBackoff, mut op: Fn, mut notify: N) -> Result<I, E>
    where
        Fn: FnMut() -> Fut,
        Fut: Future<Output = Result<I, Error<E>>>,
        N: Notify<E>,
    {
        let start = tokio::time::Instant::now();
        let mut cur = b.initial_interval;
        loop {
            let (err, after) = match op().await {
                Ok(v) => return Ok(v),
                Err(Error::Permanent(e)) => return Err(e),
                Err(Error::Transient { err, retry_after }) => (err, retry_after),
            };
            let r: f64 = rand::random();
            let next = cur.mul_f64(1.0 - b.randomization_factor + 2.0 * b.randomization_factor * r);
            cur = std::cmp::min(cur.mul_f64(b.multiplier), b.max_interval);
            if let Some(m) = b.max_elapsed_time {
                if start.elapsed() + next > m {
                    return Err(err);
                }
            }
            let d = after.unwrap_or(next);
            notify.notify(err, d);
            tokio::time::sleep(d).await;
        }
    }
    pub async fn retry<I, E, Fn, Fut>(b: ExponentialBackoff, op: Fn) -> Result<I, E>
    where
        Fn: FnMut() -> Fut,
        Fut: Future<Output = Result<I, Error<E>>>,
    {
        retry_notify(b, op, |_: E, _| {}).await
    }
}
