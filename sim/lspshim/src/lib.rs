//! Stands in for the `lsp-server` crate: the same API, but `Connection` is the seam behind which a
//! simulated editor, clock and transport sit. Messages, ids and errors are those of the real crate;
//! every message crosses its real framing and JSON code in both directions.

mod editor;
mod engine;
mod hostile;
mod json;
mod oracle;
mod text;
mod world;

use std::{io, net::ToSocketAddrs, time::Duration};

use crossbeam_channel::{RecvError, RecvTimeoutError, SendError, SendTimeoutError, TryRecvError, TrySendError};
pub use lsp_real::{
    ErrorCode, ExtractError, Incoming, Message, Notification, Outgoing, ReqQueue, Request, RequestId, Response,
    ResponseError,
};

use crate::world::{Got, Sent, Wait, world};

#[derive(Debug, Clone, PartialEq)]
pub struct ProtocolError(String, bool);

impl ProtocolError {
    pub(crate) fn new(msg: impl Into<String>) -> Self {
        Self(msg.into(), false)
    }

    pub(crate) fn disconnected() -> Self {
        Self("disconnected channel".into(), true)
    }

    pub fn channel_is_disconnected(&self) -> bool {
        self.1
    }
}

impl std::error::Error for ProtocolError {}

impl std::fmt::Display for ProtocolError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.0, f)
    }
}

pub struct Connection {
    pub sender: Sender,
    pub receiver: Receiver,
}

pub struct IoThreads(());

impl IoThreads {
    /// # Errors
    ///
    /// As the real one: the reader thread failed.
    pub fn join(self) -> io::Result<()> {
        world().join()
    }
}

pub struct Sender(());
pub struct Receiver(());

impl Sender {
    fn open() -> Self {
        world().senders += 1;
        Self(())
    }

    pub fn send(&self, msg: Message) -> Result<(), SendError<Message>> {
        match world().send(msg, Wait::Forever) {
            Sent::Ok => Ok(()),
            Sent::Full(m) | Sent::Gone(m) => Err(SendError(m)),
        }
    }

    pub fn try_send(&self, msg: Message) -> Result<(), TrySendError<Message>> {
        match world().send(msg, Wait::Not) {
            Sent::Ok => Ok(()),
            Sent::Full(m) => Err(TrySendError::Full(m)),
            Sent::Gone(m) => Err(TrySendError::Disconnected(m)),
        }
    }

    pub fn send_timeout(&self, msg: Message, timeout: Duration) -> Result<(), SendTimeoutError<Message>> {
        match world().send(msg, Wait::For(timeout)) {
            Sent::Ok => Ok(()),
            Sent::Full(m) => Err(SendTimeoutError::Timeout(m)),
            Sent::Gone(m) => Err(SendTimeoutError::Disconnected(m)),
        }
    }

    pub fn is_empty(&self) -> bool {
        world().out_len() == 0
    }

    pub fn send_deadline(&self, msg: Message, deadline: std::time::Instant) -> Result<(), SendTimeoutError<Message>> {
        self.send_timeout(msg, deadline.saturating_duration_since(std::time::Instant::now()))
    }

    pub fn is_full(&self) -> bool {
        world().out_full()
    }

    pub fn len(&self) -> usize {
        world().out_len()
    }
}

impl Clone for Sender {
    fn clone(&self) -> Self {
        Self::open()
    }
}

impl Drop for Sender {
    fn drop(&mut self) {
        world().senders -= 1;
    }
}

impl Receiver {
    pub fn recv(&self) -> Result<Message, RecvError> {
        match world().recv(Wait::Forever) {
            Got::Msg(m) => Ok(m),
            _ => Err(RecvError),
        }
    }

    pub fn try_recv(&self) -> Result<Message, TryRecvError> {
        match world().recv(Wait::Not) {
            Got::Msg(m) => Ok(m),
            Got::Nothing => Err(TryRecvError::Empty),
            Got::Closed => Err(TryRecvError::Disconnected),
        }
    }

    pub fn recv_timeout(&self, timeout: Duration) -> Result<Message, RecvTimeoutError> {
        match world().recv(Wait::For(timeout)) {
            Got::Msg(m) => Ok(m),
            Got::Nothing => Err(RecvTimeoutError::Timeout),
            Got::Closed => Err(RecvTimeoutError::Disconnected),
        }
    }

    pub fn recv_deadline(&self, deadline: std::time::Instant) -> Result<Message, RecvTimeoutError> {
        // the process's clock is the simulated one
        self.recv_timeout(deadline.saturating_duration_since(std::time::Instant::now()))
    }

    pub fn is_empty(&self) -> bool {
        world().in_len() == 0
    }

    pub fn len(&self) -> usize {
        world().in_len()
    }

    pub fn iter(&self) -> Iter<'_> {
        Iter(self)
    }

    pub fn try_iter(&self) -> TryIter<'_> {
        TryIter(self)
    }
}

impl Clone for Receiver {
    fn clone(&self) -> Self {
        Self(())
    }
}

pub struct Iter<'a>(&'a Receiver);
pub struct TryIter<'a>(&'a Receiver);
pub struct IntoIter(Receiver);

impl Iterator for Iter<'_> {
    type Item = Message;

    fn next(&mut self) -> Option<Message> {
        self.0.recv().ok()
    }
}

impl Iterator for TryIter<'_> {
    type Item = Message;

    fn next(&mut self) -> Option<Message> {
        self.0.try_recv().ok()
    }
}

impl Iterator for IntoIter {
    type Item = Message;

    fn next(&mut self) -> Option<Message> {
        self.0.recv().ok()
    }
}

impl<'a> IntoIterator for &'a Receiver {
    type Item = Message;
    type IntoIter = Iter<'a>;

    fn into_iter(self) -> Iter<'a> {
        Iter(self)
    }
}

impl IntoIterator for Receiver {
    type Item = Message;
    type IntoIter = IntoIter;

    fn into_iter(self) -> IntoIter {
        IntoIter(self)
    }
}

fn is(n: &Notification, method: &str) -> bool {
    n.method == method
}

impl Connection {
    fn simulated() -> (Self, IoThreads) {
        world::enter();
        (Self { sender: Sender::open(), receiver: Receiver(()) }, IoThreads(()))
    }

    pub fn stdio() -> (Self, IoThreads) {
        Self::simulated()
    }

    pub fn connect<A: ToSocketAddrs>(_addr: A) -> io::Result<(Self, IoThreads)> {
        Ok(Self::simulated())
    }

    pub fn listen<A: ToSocketAddrs>(_addr: A) -> io::Result<(Self, IoThreads)> {
        Ok(Self::simulated())
    }

    // From here on, the protocol helpers of lsp-server 0.7.9.

    pub fn initialize_start(&self) -> Result<(RequestId, serde_json::Value), ProtocolError> {
        self.initialize_start_while(|| true)
    }

    pub fn initialize_start_while<C>(&self, running: C) -> Result<(RequestId, serde_json::Value), ProtocolError>
    where
        C: Fn() -> bool,
    {
        while running() {
            let msg = match self.receiver.recv_timeout(Duration::from_secs(1)) {
                Ok(msg) => msg,
                Err(RecvTimeoutError::Timeout) => continue,
                Err(RecvTimeoutError::Disconnected) => return Err(ProtocolError::disconnected()),
            };
            match msg {
                Message::Request(req) if req.method == "initialize" => return Ok((req.id, req.params)),
                Message::Request(req) => {
                    let resp = Response::new_err(
                        req.id.clone(),
                        ErrorCode::ServerNotInitialized as i32,
                        format!("expected initialize request, got {req:?}"),
                    );
                    // the real crate panics here if the client is gone; it is not under test
                    self.sender.send(resp.into()).map_err(|_| ProtocolError::disconnected())?;
                }
                Message::Notification(n) if !is(&n, "exit") => {}
                msg => return Err(ProtocolError::new(format!("expected initialize request, got {msg:?}"))),
            }
        }
        Err(ProtocolError::new("Initialization has been aborted during initialization"))
    }

    pub fn initialize_finish(&self, id: RequestId, result: serde_json::Value) -> Result<(), ProtocolError> {
        let resp = Response::new_ok(id, result);
        self.sender.send(resp.into()).map_err(|_| ProtocolError::disconnected())?;
        match self.receiver.recv() {
            Ok(Message::Notification(n)) if is(&n, "initialized") => Ok(()),
            Ok(msg) => Err(ProtocolError::new(format!("expected initialized notification, got: {msg:?}"))),
            Err(RecvError) => Err(ProtocolError::disconnected()),
        }
    }

    pub fn initialize_finish_while<C>(&self, id: RequestId, result: serde_json::Value, running: C) -> Result<(), ProtocolError>
    where
        C: Fn() -> bool,
    {
        let resp = Response::new_ok(id, result);
        self.sender.send(resp.into()).map_err(|_| ProtocolError::disconnected())?;
        while running() {
            match self.receiver.recv_timeout(Duration::from_secs(1)) {
                Ok(Message::Notification(n)) if is(&n, "initialized") => return Ok(()),
                Ok(msg) => {
                    return Err(ProtocolError::new(format!("expected initialized notification, got: {msg:?}")));
                }
                Err(RecvTimeoutError::Timeout) => {}
                Err(RecvTimeoutError::Disconnected) => return Err(ProtocolError::disconnected()),
            }
        }
        Err(ProtocolError::new("Initialization has been aborted during initialization"))
    }

    pub fn initialize(&self, capabilities: serde_json::Value) -> Result<serde_json::Value, ProtocolError> {
        let (id, params) = self.initialize_start()?;
        self.initialize_finish(id, serde_json::json!({ "capabilities": capabilities }))?;
        Ok(params)
    }

    pub fn initialize_while<C>(&self, capabilities: serde_json::Value, running: C) -> Result<serde_json::Value, ProtocolError>
    where
        C: Fn() -> bool,
    {
        let (id, params) = self.initialize_start_while(&running)?;
        self.initialize_finish_while(id, serde_json::json!({ "capabilities": capabilities }), running)?;
        Ok(params)
    }

    pub fn handle_shutdown(&self, req: &Request) -> Result<bool, ProtocolError> {
        if req.method != "shutdown" {
            return Ok(false);
        }
        let resp = Response::new_ok(req.id.clone(), ());
        let _ = self.sender.send(resp.into());
        match self.receiver.recv_timeout(Duration::from_secs(30)) {
            Ok(Message::Notification(n)) if is(&n, "exit") => Ok(true),
            Ok(msg) => Err(ProtocolError::new(format!("unexpected message during shutdown: {msg:?}"))),
            Err(RecvTimeoutError::Timeout) => Err(ProtocolError::new("timed out waiting for exit notification")),
            Err(RecvTimeoutError::Disconnected) => {
                Err(ProtocolError::new("channel disconnected waiting for exit notification"))
            }
        }
    }
}
