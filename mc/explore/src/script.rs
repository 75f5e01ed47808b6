//! What the peer and the application do in a scenario. The real-system runner reads the same scripts.

use serde::{Deserialize, Deserializer, Serialize};

type Name = &'static str;

fn leak<'de, D: Deserializer<'de>>(d: D) -> Result<Name, D::Error> {
    Ok(Box::leak(String::deserialize(d)?.into_boxed_str()))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Link {
    Connect,
    Listen,
    Stdio,
}
pub const LINKS: [Link; 3] = [Link::Connect, Link::Listen, Link::Stdio];
pub const TWO: [Link; 2] = [Link::Connect, Link::Stdio];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum P {
    /// Write the frame of a message.
    Msg(#[serde(deserialize_with = "leak")] Name),
    /// Write raw bytes.
    Raw(Vec<u8>),
    /// Close the sending side.
    Close,
    /// Stop reading and close that side.
    CloseRx,
    /// Read until this many bytes of whole frames have arrived in total.
    Frames(usize),
    /// Read until the stream ends.
    Drain,
    Signal(u16),
    Await(u16),
    Sleep(u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum How {
    Block,
    Try,
    Timeout(u64),
    Deadline(u64),
    /// With the longest timeout there is.
    Ever,
    /// With a deadline long over.
    Past,
    /// Directly on the sender.
    Channel,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum A {
    Recv,
    TryRecv,
    RecvTimeout(u64),
    /// Until the receiver reports disconnection.
    RecvAll,
    Send(#[serde(deserialize_with = "leak")] Name, How),
    /// Retry a non-blocking send until it is accepted or refused for good.
    Insist(#[serde(deserialize_with = "leak")] Name),
    /// The handshake.
    Initialize,
    /// Take a request and hand it to handle_shutdown.
    HandleShutdown,
    /// The documented server loop.
    Serve,
    /// One that answers in some other manner.
    ServeAs(usize),
    DropSender,
    DropReceiver,
    DropConn,
    Join,
    Signal(u16),
    Await(u16),
    Sleep(u64),
}

/// How system calls are answered, as `fault.c` takes it.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Calls {
    pub max: usize,
    pub cuts: Vec<usize>,
    /// Call, what (0: fail, 1: zero, 2: short), errno or length.
    pub at: Vec<(usize, i32, i64)>,
}

/// A closed system that can also be run on the real system, or a call that can.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Spec {
    Session { link: Link, preload: Vec<u8>, closed: bool, peer: Vec<Vec<P>>, app: Vec<Vec<A>>, reads: Calls, writes: Calls },
    /// Operations on a pair in memory: kind, side; and how to send and receive.
    Pair { ops: Vec<(String, usize)>, how: usize },
    /// The handshake in memory: messages there before, then how the client ends.
    Handshake { names: Vec<String>, end: String },
    /// Shutdown in memory, with these messages there before; whether the client is gone.
    Shutdown { request: serde_json::Value, names: Vec<String>, gone: bool },
    /// Connecting to or listening on an address while another socket listens on a free one.
    Address { listen: bool, addr: String },
}

/// How many flags these scripts use.
pub fn flag_count(peer: &[Vec<P>], app: &[Vec<A>]) -> usize {
    let p = peer.iter().flatten().map(|x| match x {
        P::Signal(i) | P::Await(i) => *i as usize + 1,
        _ => 0,
    });
    let a = app.iter().flatten().map(|x| match x {
        A::Signal(i) | A::Await(i) => *i as usize + 1,
        _ => 0,
    });
    p.chain(a).max().unwrap_or(0)
}
