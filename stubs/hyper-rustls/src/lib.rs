//! Type-level stand-in: signatures only. The connector answers as the wrapped one does.
use std::task::{Context, Poll};
#[derive(Clone)] pub struct HttpsConnector<T>(T);
impl<R, T: tower_service::Service<R>> tower_service::Service<R> for HttpsConnector<T> {
  type Response = T::Response;
  type Error = T::Error;
  type Future = T::Future;
  fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> { todo!() }
  fn call(&mut self, _: R) -> Self::Future { todo!() }
}
pub struct WantsTlsConfig(()); pub struct WantsSchemes(()); pub struct WantsProtocols1(()); pub struct WantsProtocols3(());
pub struct HttpsConnectorBuilder<S>(S);
impl HttpsConnectorBuilder<WantsTlsConfig> { pub fn new() -> Self { todo!() } pub fn with_webpki_roots(self) -> HttpsConnectorBuilder<WantsSchemes> { todo!() } }
impl HttpsConnectorBuilder<WantsSchemes> {
  pub fn https_only(self) -> HttpsConnectorBuilder<WantsProtocols1> { todo!() }
  pub fn https_or_http(self) -> HttpsConnectorBuilder<WantsProtocols1> { todo!() }
}
impl HttpsConnectorBuilder<WantsProtocols1> { pub fn enable_http1(self) -> HttpsConnectorBuilder<WantsProtocols3> { todo!() } pub fn enable_http2(self) -> HttpsConnectorBuilder<WantsProtocols3> { todo!() } pub fn enable_all_versions(self) -> HttpsConnectorBuilder<WantsProtocols3> { todo!() } }
impl HttpsConnectorBuilder<WantsProtocols3> { pub fn enable_http2(self) -> Self { todo!() } pub fn wrap_connector<T>(self, _: T) -> HttpsConnector<T> { todo!() } }
