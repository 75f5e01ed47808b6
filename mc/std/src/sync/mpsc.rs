//! `std::sync::mpsc` over the runtime's channels.

use mcrt::chan::{Chan, Limit, RecvFail, SendFail};
use real::rc::Rc;
pub use real::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use real::time::Duration;

pub struct Sender<T>(Rc<Chan<T>>);
pub struct SyncSender<T>(Rc<Chan<T>>);
pub struct Receiver<T>(Rc<Chan<T>>);
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for SyncSender<T> {}
unsafe impl<T: Send> Sync for SyncSender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = Rc::new(Chan::new(None, "mpsc"));
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = Rc::new(Chan::new(Some(n), "mpsc"));
    (SyncSender(c.clone()), Receiver(c))
}

macro_rules! sender {
    ($t:ident) => {
        impl<T> Clone for $t<T> {
            fn clone(&self) -> Self {
                self.0.add_sender();
                $t(self.0.clone())
            }
        }
        impl<T> Drop for $t<T> {
            fn drop(&mut self) {
                self.0.drop_sender();
            }
        }
        impl<T> real::fmt::Debug for $t<T> {
            fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
                f.write_str(stringify!($t))
            }
        }
        impl<T> $t<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                match self.0.send(t, Limit::Never) {
                    Ok(()) => Ok(()),
                    Err(SendFail::Disconnected(t) | SendFail::Full(t) | SendFail::Timeout(t)) => Err(SendError(t)),
                }
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> SyncSender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        match self.0.send(t, Limit::NonBlocking) {
            Ok(()) => Ok(()),
            Err(SendFail::Full(t) | SendFail::Timeout(t)) => Err(TrySendError::Full(t)),
            Err(SendFail::Disconnected(t)) => Err(TrySendError::Disconnected(t)),
        }
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.drop_receiver();
    }
}
impl<T> real::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.write_str("Receiver")
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        self.0.recv(Limit::Never).map_err(|_| RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.0.recv(Limit::NonBlocking).map_err(|e| match e {
            RecvFail::Disconnected => TryRecvError::Disconnected,
            _ => TryRecvError::Empty,
        })
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        self.0.recv(Limit::after(mcrt::time::nanos(d))).map_err(|e| match e {
            RecvFail::Disconnected => RecvTimeoutError::Disconnected,
            _ => RecvTimeoutError::Timeout,
        })
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        Iter(self)
    }
}
impl<T> real::panic::UnwindSafe for Sender<T> {}
impl<T> real::panic::RefUnwindSafe for Sender<T> {}
impl<T> real::panic::UnwindSafe for SyncSender<T> {}
impl<T> real::panic::RefUnwindSafe for SyncSender<T> {}
impl<T> real::panic::UnwindSafe for Receiver<T> {}
impl<T> real::panic::RefUnwindSafe for Receiver<T> {}
