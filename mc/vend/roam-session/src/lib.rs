//! Stand-in for roam-session over the world of the roam stand-in.
use roam::world::{Broken, Dispatch, Driver, Handle, Reply, Wait, wait};

#[derive(Clone, Debug, Default)]
pub struct HandshakeConfig {}

/// Calls from the peer other than those the driver dispatches.
pub struct Incoming {
    _p: (),
}
pub trait Transport {
    fn session(&self) -> usize;
}
pub async fn accept_framed<T: Transport, D: Dispatch>(
    transport: T,
    _config: HandshakeConfig,
    dispatcher: D,
) -> Result<(Handle, Incoming, Driver<D>), Broken> {
    let s = transport.session();
    match wait(Wait::Accept(s)).await {
        Reply::Ok => Ok((Handle(s), Incoming { _p: () }, Driver::new(s, dispatcher))),
        _ => Err(Broken("handshake failed")),
    }
}
pub mod runtime {
    use super::{Wait, wait};
    pub async fn sleep(d: std::time::Duration) {
        wait(Wait::Sleep(d)).await;
    }
}
