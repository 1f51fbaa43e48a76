//! Interface of the property oracles.
use std::net::SocketAddr;

use nakamoto_p2p::fsm::Event;

use crate::world::{Action, NetMsg, Note, Rx, Snap, World};

#[allow(unused_variables)]
pub trait Oracle {
    /// The oracle needs the node's chain after every step.
    fn wants_snapshot(&self) -> bool {
        false
    }
    /// A (re)started node has loaded its state; `on_step` follows once it initialised.
    fn on_boot(&mut self, w: &mut World) {}
    /// The node could not be loaded.
    fn on_load_error(&mut self, w: &mut World, err: &str) {}
    fn on_input(&mut self, w: &mut World, a: &Action) {}
    /// The node is about to be handed (the last bytes of) this message.
    fn on_received(&mut self, w: &mut World, addr: &SocketAddr, conn: u64, m: &Rx) {}
    fn on_event(&mut self, w: &mut World, e: &Event) {}
    fn on_sent(&mut self, w: &mut World, addr: &SocketAddr, conn: Option<u64>, m: &NetMsg) {}
    fn on_dial(&mut self, w: &mut World, addr: &SocketAddr) {}
    fn on_disconnect(&mut self, w: &mut World, addr: &SocketAddr, reason: &str) {}
    fn on_step(&mut self, w: &mut World, s: &Snap) {}
    /// The node stopped (crash or clean restart); its files are final.
    fn on_down(&mut self, w: &mut World, crashed: bool) {}
    fn on_finish(&mut self, w: &mut World, s: &Snap) {}
    /// The node is about to execute the n-th command of this call of a user thread.
    fn on_exec(&mut self, w: &mut World, call: usize, n: u64, s: &Snap) {}
    /// A call of a user thread returned.
    fn on_return(&mut self, w: &mut World, call: usize) {}
    /// The node is gone and the user threads have ended.
    fn on_end(&mut self, w: &mut World) {}
    /// A command of the simulated user is about to be executed by the node.
    fn on_note(&mut self, w: &mut World, n: &Note) {}
}
