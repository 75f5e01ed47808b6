//! Channels with the semantics of crossbeam-channel 0.5: unbounded, bounded, and rendezvous.

use crate::{new_obj, note, now, op, op_local, point, publish, ObjId, Wake};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;

struct SendSlot<T> {
    obj: ObjId,
    msg: RefCell<Option<T>>,
}
struct RecvSlot<T> {
    obj: ObjId,
    msg: RefCell<Option<T>>,
}

struct St<T> {
    q: VecDeque<T>,
    waiting_send: VecDeque<Rc<SendSlot<T>>>,
    waiting_recv: VecDeque<Rc<RecvSlot<T>>>,
}

pub struct Chan<T> {
    obj: ObjId,
    cap: Option<usize>,
    st: RefCell<St<T>>,
    senders: Cell<usize>,
    receivers: Cell<usize>,
}
unsafe impl<T> Send for Chan<T> {}
unsafe impl<T> Sync for Chan<T> {}

pub enum SendFail<T> {
    Full(T),
    Timeout(T),
    Disconnected(T),
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum RecvFail {
    Empty,
    Timeout,
    Disconnected,
}

/// How long an operation may block.
#[derive(Clone, Copy)]
pub enum Limit {
    Never,
    NonBlocking,
    Until(u64),
}

impl Limit {
    pub fn after(nanos: u64) -> Limit {
        Limit::Until(now().saturating_add(nanos))
    }
    fn deadline(self) -> Option<u64> {
        match self {
            // The end of time does not come.
            Limit::Until(d) if d < u64::MAX => Some(d),
            _ => None,
        }
    }
}

impl<T> Chan<T> {
    pub fn new(cap: Option<usize>, name: &str) -> Self {
        Chan {
            obj: new_obj(name),
            cap,
            st: RefCell::new(St { q: VecDeque::new(), waiting_send: VecDeque::new(), waiting_recv: VecDeque::new() }),
            senders: Cell::new(1),
            receivers: Cell::new(1),
        }
    }

    pub fn add_sender(&self) {
        self.senders.set(self.senders.get() + 1);
    }
    pub fn add_receiver(&self) {
        self.receivers.set(self.receivers.get() + 1);
    }
    pub fn drop_sender(&self) {
        if self.senders.get() == 1 {
            point(self.obj, "drop last sender");
        }
        self.senders.set(self.senders.get() - 1);
        if self.senders.get() == 0 {
            for s in &self.st.borrow().waiting_recv {
                publish(s.obj);
            }
        }
    }
    pub fn drop_receiver(&self) {
        if self.receivers.get() == 1 {
            point(self.obj, "drop last receiver");
        }
        self.receivers.set(self.receivers.get() - 1);
        if self.receivers.get() == 0 {
            for s in &self.st.borrow().waiting_send {
                publish(s.obj);
            }
            let q = std::mem::take(&mut self.st.borrow_mut().q);
            drop(q);
        }
    }
    pub fn obj(&self) -> ObjId {
        self.obj
    }
    /// Whether a receive would not block, without looking being a step of its own.
    pub fn can_recv(&self) -> bool {
        let st = self.st.borrow();
        !st.q.is_empty() || !st.waiting_send.is_empty() || self.senders.get() == 0
    }
    pub fn can_send(&self) -> bool {
        let st = self.st.borrow();
        self.receivers.get() == 0
            || match self.cap {
                None => true,
                Some(0) => !st.waiting_recv.is_empty(),
                Some(c) => st.q.len() < c,
            }
    }
    pub fn capacity(&self) -> Option<usize> {
        self.cap
    }
    pub fn len(&self) -> usize {
        point(self.obj, "len");
        self.st.borrow().q.len()
    }

    pub fn send(&self, msg: T, limit: Limit) -> Result<(), SendFail<T>> {
        if self.cap == Some(0) {
            return self.send_rendezvous(msg, limit);
        }
        let room = || self.cap.map_or(true, |c| self.st.borrow().q.len() < c);
        let gone = || self.receivers.get() == 0;
        match limit {
            Limit::NonBlocking => point(self.obj, "try_send"),
            _ => {
                op(self.obj, "send", &|| room() || gone(), limit.deadline());
            }
        }
        if gone() {
            Err(SendFail::Disconnected(msg))
        } else if room() {
            self.st.borrow_mut().q.push_back(msg);
            Ok(())
        } else if matches!(limit, Limit::NonBlocking) {
            Err(SendFail::Full(msg))
        } else {
            Err(SendFail::Timeout(msg))
        }
    }

    fn send_rendezvous(&self, msg: T, limit: Limit) -> Result<(), SendFail<T>> {
        point(self.obj, if matches!(limit, Limit::NonBlocking) { "try_send" } else { "send" });
        let waiting = self.st.borrow_mut().waiting_recv.pop_front();
        if let Some(slot) = waiting {
            *slot.msg.borrow_mut() = Some(msg);
            publish(slot.obj);
            return Ok(());
        }
        if self.receivers.get() == 0 {
            return Err(SendFail::Disconnected(msg));
        }
        if matches!(limit, Limit::NonBlocking) {
            return Err(SendFail::Full(msg));
        }
        let slot = Rc::new(SendSlot { obj: new_obj("offer"), msg: RefCell::new(Some(msg)) });
        self.st.borrow_mut().waiting_send.push_back(slot.clone());
        let guard = Withdraw(|| self.st.borrow_mut().waiting_send.retain(|s| !Rc::ptr_eq(s, &slot)));
        // Being matched or abandoned is final, and only this task is told.
        let w = op_local(
            slot.obj,
            "sent",
            &|| slot.msg.borrow().is_none() || self.receivers.get() == 0,
            limit.deadline(),
        );
        drop(guard);
        if w == Wake::Timeout {
            // Others no longer meet this offer.
            note(self.obj, "withdraw");
        }
        let back = slot.msg.borrow_mut().take();
        match back {
            None => Ok(()),
            Some(m) if self.receivers.get() == 0 => Err(SendFail::Disconnected(m)),
            Some(m) => Err(SendFail::Timeout(m)),
        }
    }

    pub fn recv(&self, limit: Limit) -> Result<T, RecvFail> {
        if self.cap == Some(0) {
            return self.recv_rendezvous(limit);
        }
        let some = || !self.st.borrow().q.is_empty();
        let gone = || self.senders.get() == 0;
        match limit {
            Limit::NonBlocking => point(self.obj, "try_recv"),
            _ => {
                op(self.obj, "recv", &|| some() || gone(), limit.deadline());
            }
        }
        let m = self.st.borrow_mut().q.pop_front();
        match m {
            Some(m) => Ok(m),
            None if gone() => Err(RecvFail::Disconnected),
            None if matches!(limit, Limit::NonBlocking) => Err(RecvFail::Empty),
            None => Err(RecvFail::Timeout),
        }
    }

    fn recv_rendezvous(&self, limit: Limit) -> Result<T, RecvFail> {
        point(self.obj, if matches!(limit, Limit::NonBlocking) { "try_recv" } else { "recv" });
        let waiting = self.st.borrow_mut().waiting_send.pop_front();
        if let Some(slot) = waiting {
            publish(slot.obj);
            return Ok(slot.msg.borrow_mut().take().expect("sender withdrawn"));
        }
        if self.senders.get() == 0 {
            return Err(RecvFail::Disconnected);
        }
        if matches!(limit, Limit::NonBlocking) {
            return Err(RecvFail::Empty);
        }
        let slot = Rc::new(RecvSlot { obj: new_obj("request"), msg: RefCell::new(None) });
        self.st.borrow_mut().waiting_recv.push_back(slot.clone());
        let guard = Withdraw(|| self.st.borrow_mut().waiting_recv.retain(|s| !Rc::ptr_eq(s, &slot)));
        let w = op_local(
            slot.obj,
            "received",
            &|| slot.msg.borrow().is_some() || self.senders.get() == 0,
            limit.deadline(),
        );
        drop(guard);
        if w == Wake::Timeout {
            note(self.obj, "withdraw");
        }
        let m = slot.msg.borrow_mut().take();
        match m {
            Some(m) => Ok(m),
            None if self.senders.get() == 0 => Err(RecvFail::Disconnected),
            None => {
                debug_assert!(w != Wake::Ready);
                Err(RecvFail::Timeout)
            }
        }
    }
}

/// Takes a waiter off its queue however the wait ends, also by teardown.
struct Withdraw<F: FnMut()>(F);
impl<F: FnMut()> Drop for Withdraw<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}
