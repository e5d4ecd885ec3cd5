//! Stand-in for roam-websocket over the world of the roam stand-in.
use roam::world::{Broken, Reply, Wait, new_session, wait};

#[derive(Debug)]
pub struct WsTransport(usize);
impl WsTransport {
    pub async fn connect(url: &str) -> Result<WsTransport, Broken> {
        match wait(Wait::Connect(url.into())).await {
            Reply::Ok => Ok(WsTransport(new_session())),
            _ => Err(Broken("connection refused")),
        }
    }
}
impl roam_session::Transport for WsTransport {
    fn session(&self) -> usize {
        self.0
    }
}
