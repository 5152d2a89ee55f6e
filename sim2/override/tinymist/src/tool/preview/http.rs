//! Stands in for the HTTP server: browsers connect by its address.
use hyper_tungstenite::{servers, HyperWebsocket};
use std::net::SocketAddr;
use tokio::sync::{mpsc, oneshot};

pub struct HttpServer {
    pub addr: SocketAddr,
    pub shutdown_tx: oneshot::Sender<()>,
    pub join: tokio::task::JoinHandle<()>,
}

pub async fn make_http_server(
    _frontend_html: String,
    static_file_addr: String,
    websocket_tx: mpsc::UnboundedSender<HyperWebsocket>,
) -> HttpServer {
    let mut addr: SocketAddr = static_file_addr.parse().unwrap();
    let port = servers::listen(addr.port(), websocket_tx);
    addr.set_port(port);
    let (shutdown_tx, rx) = oneshot::channel();
    let join = tokio::spawn(async move {
        let _ = rx.await;
        servers::end(port);
    });
    HttpServer { addr, shutdown_tx, join }
}
