//! stand-in: subscribing to server-sent events is a recorded GET
pub use client::EventClient;
pub mod client {
    pub struct EventStream<T> { _t: std::marker::PhantomData<T> }
    #[derive(Clone, Debug, Default)]
    pub struct EventClient {}
    impl EventClient {
        pub fn new(_c: reqwest::Client) -> Self { Self {} }
        pub async fn subscribe<T>(&self, endpoint: &str) -> Result<EventStream<T>, reqwest::Error> {
            let u = url::Url::parse(endpoint).map_err(|e| reqwest::Error::new("builder", e.to_string()))?;
            reqwest::Client::new().get(u).send().await?;
            Ok(EventStream { _t: std::marker::PhantomData })
        }
    }
}
