//! `crossbeam_channel` over the runtime's channels, with the real crate's error types.

pub use crossbeam_channel::{
    ReadyTimeoutError, RecvError, RecvTimeoutError, SelectTimeoutError, SendError, SendTimeoutError, TryReadyError,
    TryRecvError, TrySelectError, TrySendError,
};
use mcrt::chan::{Chan, Limit, RecvFail, SendFail};
use mcrt::time::Instant;
use std::rc::Rc;
use std::time::Duration;

pub struct Sender<T>(Rc<Chan<T>>);
pub struct Receiver<T>(Source<T>);
enum Source<T> {
    Chan(Rc<Chan<T>>),
    /// Delivers one value at that time.
    At(Rc<std::cell::Cell<Option<u64>>>, fn(u64) -> T),
    Tick(Rc<std::cell::Cell<u64>>, u64, fn(u64) -> T),
    Never,
}
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
unsafe impl<T: Send> Sync for Receiver<T> {}
impl<T> std::panic::UnwindSafe for Sender<T> {}
impl<T> std::panic::RefUnwindSafe for Sender<T> {}
impl<T> std::panic::UnwindSafe for Receiver<T> {}
impl<T> std::panic::RefUnwindSafe for Receiver<T> {}

fn pair<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let name = match cap {
        None => "unbounded channel".to_string(),
        Some(0) => "rendezvous channel".to_string(),
        Some(n) => format!("bounded({n}) channel"),
    };
    let c = Rc::new(Chan::new(cap, &name));
    (Sender(c.clone()), Receiver(Source::Chan(c)))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    pair(None)
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    pair(Some(cap))
}
pub fn never<T>() -> Receiver<T> {
    Receiver(Source::Never)
}
fn instant(n: u64) -> Instant {
    Instant::from_nanos(n)
}
pub fn after(d: Duration) -> Receiver<Instant> {
    at(Instant::now() + d)
}
pub fn at(when: Instant) -> Receiver<Instant> {
    Receiver(Source::At(Rc::new(std::cell::Cell::new(Some(when.as_nanos()))), instant))
}
pub fn tick(d: Duration) -> Receiver<Instant> {
    let n = mcrt::time::nanos(d);
    Receiver(Source::Tick(Rc::new(std::cell::Cell::new(mcrt::now().saturating_add(n))), n, instant))
}

impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.add_sender();
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.drop_sender();
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        Receiver(match &self.0 {
            Source::Chan(c) => {
                c.add_receiver();
                Source::Chan(c.clone())
            }
            Source::At(c, f) => Source::At(c.clone(), *f),
            Source::Tick(c, n, f) => Source::Tick(c.clone(), *n, *f),
            Source::Never => Source::Never,
        })
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if let Source::Chan(c) = &self.0 {
            c.drop_receiver();
        }
    }
}
impl<T> std::fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("Sender { .. }")
    }
}
impl<T> std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("Receiver { .. }")
    }
}

impl<T> Sender<T> {
    pub fn send(&self, msg: T) -> Result<(), SendError<T>> {
        match self.0.send(msg, Limit::Never) {
            Ok(()) => Ok(()),
            Err(SendFail::Disconnected(m) | SendFail::Full(m) | SendFail::Timeout(m)) => Err(SendError(m)),
        }
    }
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        match self.0.send(msg, Limit::NonBlocking) {
            Ok(()) => Ok(()),
            Err(SendFail::Disconnected(m)) => Err(TrySendError::Disconnected(m)),
            Err(SendFail::Full(m) | SendFail::Timeout(m)) => Err(TrySendError::Full(m)),
        }
    }
    fn until(&self, msg: T, l: Limit) -> Result<(), SendTimeoutError<T>> {
        match self.0.send(msg, l) {
            Ok(()) => Ok(()),
            Err(SendFail::Disconnected(m)) => Err(SendTimeoutError::Disconnected(m)),
            Err(SendFail::Full(m) | SendFail::Timeout(m)) => Err(SendTimeoutError::Timeout(m)),
        }
    }
    pub fn send_timeout(&self, msg: T, d: Duration) -> Result<(), SendTimeoutError<T>> {
        self.until(msg, Limit::after(mcrt::time::nanos(d)))
    }
    pub fn send_deadline(&self, msg: T, d: Instant) -> Result<(), SendTimeoutError<T>> {
        self.until(msg, Limit::Until(d.as_nanos()))
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.len() == 0
    }
    pub fn is_full(&self) -> bool {
        let n = self.0.len();
        self.0.capacity().is_some_and(|c| n >= c)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.capacity()
    }
    pub fn same_channel(&self, o: &Sender<T>) -> bool {
        Rc::ptr_eq(&self.0, &o.0)
    }
    #[doc(hidden)]
    pub fn __ready(&self) -> bool {
        self.0.can_send()
    }
    #[doc(hidden)]
    pub fn __obj(&self) -> u64 {
        self.0.obj()
    }
}

impl<T> Receiver<T> {
    fn get(&self, l: Limit) -> Result<T, RecvFail> {
        match &self.0 {
            Source::Chan(c) => c.recv(l),
            Source::At(..) | Source::Tick(..) | Source::Never => {
                let until = match l {
                    Limit::Never => u64::MAX,
                    Limit::NonBlocking => mcrt::now(),
                    Limit::Until(d) => d,
                };
                let due = self.__due();
                match due {
                    Some(d) if d <= until => {
                        if d > mcrt::now() {
                            mcrt::sleep(d - mcrt::now());
                        }
                        Ok(self.fire(d))
                    }
                    _ => {
                        if matches!(l, Limit::NonBlocking) {
                            return Err(RecvFail::Empty);
                        }
                        if until == u64::MAX {
                            mcrt::op(0x77, "recv from never", &|| false, None);
                        } else if until > mcrt::now() {
                            mcrt::sleep(until - mcrt::now());
                        }
                        Err(RecvFail::Timeout)
                    }
                }
            }
        }
    }
    fn fire(&self, d: u64) -> T {
        match &self.0 {
            Source::At(c, f) => {
                c.set(None);
                f(d)
            }
            Source::Tick(c, n, f) => {
                c.set(mcrt::now().saturating_add(*n));
                f(d)
            }
            _ => unreachable!(),
        }
    }
    #[doc(hidden)]
    pub fn __due(&self) -> Option<u64> {
        match &self.0 {
            Source::At(c, _) => c.get(),
            Source::Tick(c, _, _) => Some(c.get()),
            _ => None,
        }
    }
    #[doc(hidden)]
    pub fn __ready(&self) -> bool {
        match &self.0 {
            Source::Chan(c) => c.can_recv(),
            _ => self.__due().is_some_and(|d| d <= mcrt::clock()),
        }
    }
    #[doc(hidden)]
    pub fn __obj(&self) -> u64 {
        match &self.0 {
            Source::Chan(c) => c.obj(),
            _ => 0x7712,
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        self.get(Limit::Never).map_err(|_| RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.get(Limit::NonBlocking).map_err(|e| match e {
            RecvFail::Disconnected => TryRecvError::Disconnected,
            _ => TryRecvError::Empty,
        })
    }
    fn until(&self, l: Limit) -> Result<T, RecvTimeoutError> {
        self.get(l).map_err(|e| match e {
            RecvFail::Disconnected => RecvTimeoutError::Disconnected,
            _ => RecvTimeoutError::Timeout,
        })
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        self.until(Limit::after(mcrt::time::nanos(d)))
    }
    pub fn recv_deadline(&self, d: Instant) -> Result<T, RecvTimeoutError> {
        self.until(Limit::Until(d.as_nanos()))
    }
    pub fn len(&self) -> usize {
        match &self.0 {
            Source::Chan(c) => c.len(),
            _ => self.__ready() as usize,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        let n = self.len();
        self.capacity().is_some_and(|c| n >= c)
    }
    pub fn capacity(&self) -> Option<usize> {
        match &self.0 {
            Source::Chan(c) => c.capacity(),
            Source::Never => Some(0),
            _ => Some(1),
        }
    }
    pub fn same_channel(&self, o: &Receiver<T>) -> bool {
        match (&self.0, &o.0) {
            (Source::Chan(a), Source::Chan(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}

pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> std::iter::FusedIterator for Iter<'_, T> {}
impl<T> std::iter::FusedIterator for IntoIter<T> {}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}

#[doc(hidden)]
pub use mcrt as __mcrt;

/// Waits until one of the operations is ready; any of those that are may be taken.
#[doc(hidden)]
pub fn __select(objs: &[u64], ready: &dyn Fn() -> Vec<usize>, due: Option<u64>, until: Option<u64>) -> Option<usize> {
    for o in objs {
        mcrt::note(*o, "select");
    }
    let deadline = match (due, until) {
        (Some(a), Some(b)) => Some(a.min(b)),
        (a, b) => a.or(b),
    };
    mcrt::op(objs.first().copied().unwrap_or(0x7713), "select", &|| !ready().is_empty(), deadline);
    for o in objs {
        mcrt::note(*o, "selected");
    }
    let r = ready();
    if r.is_empty() { None } else { Some(r[mcrt::choose(r.len())]) }
}


trait Way {
    fn obj(&self) -> u64;
    fn ready(&self) -> bool;
    fn due(&self) -> Option<u64>;
}
impl<T> Way for Sender<T> {
    fn obj(&self) -> u64 {
        self.__obj()
    }
    fn ready(&self) -> bool {
        self.__ready()
    }
    fn due(&self) -> Option<u64> {
        None
    }
}
impl<T> Way for Receiver<T> {
    fn obj(&self) -> u64 {
        self.__obj()
    }
    fn ready(&self) -> bool {
        self.__ready()
    }
    fn due(&self) -> Option<u64> {
        self.__due()
    }
}

/// A selection over a list of operations made at run time.
#[derive(Default)]
pub struct Select<'a> {
    ways: Vec<Option<&'a dyn Way>>,
}
impl<'a> Select<'a> {
    pub fn new() -> Self {
        Select { ways: Vec::new() }
    }
    pub fn new_biased() -> Self {
        Select::new()
    }
    pub fn send<T>(&mut self, s: &'a Sender<T>) -> usize {
        self.ways.push(Some(s));
        self.ways.len() - 1
    }
    pub fn recv<T>(&mut self, r: &'a Receiver<T>) -> usize {
        self.ways.push(Some(r));
        self.ways.len() - 1
    }
    pub fn remove(&mut self, i: usize) {
        self.ways[i].take().expect("no operation with this index");
    }
    fn run(&self, until: Option<u64>) -> Option<usize> {
        let ways: Vec<(usize, &dyn Way)> = self.ways.iter().enumerate().filter_map(|(i, w)| Some((i, (*w)?))).collect();
        let objs: Vec<u64> = ways.iter().map(|w| w.1.obj()).collect();
        let due = ways.iter().filter_map(|w| w.1.due()).min();
        let ready = || ways.iter().filter(|w| w.1.ready()).map(|w| w.0).collect();
        __select(&objs, &ready, due, until)
    }
    fn within(d: Duration) -> Option<u64> {
        Some(mcrt::now().saturating_add(mcrt::time::nanos(d)))
    }
    pub fn select(&mut self) -> SelectedOperation<'a> {
        SelectedOperation::new(self.ready())
    }
    pub fn try_select(&mut self) -> Result<SelectedOperation<'a>, TrySelectError> {
        self.run(Some(mcrt::now())).map(SelectedOperation::new).ok_or(TrySelectError)
    }
    pub fn select_timeout(&mut self, d: Duration) -> Result<SelectedOperation<'a>, SelectTimeoutError> {
        self.run(Self::within(d)).map(SelectedOperation::new).ok_or(SelectTimeoutError)
    }
    pub fn select_deadline(&mut self, d: Instant) -> Result<SelectedOperation<'a>, SelectTimeoutError> {
        self.run(Some(d.as_nanos())).map(SelectedOperation::new).ok_or(SelectTimeoutError)
    }
    pub fn ready(&mut self) -> usize {
        loop {
            if let Some(i) = self.run(None) {
                return i;
            }
        }
    }
    pub fn try_ready(&mut self) -> Result<usize, TryReadyError> {
        self.run(Some(mcrt::now())).ok_or(TryReadyError)
    }
    pub fn ready_timeout(&mut self, d: Duration) -> Result<usize, ReadyTimeoutError> {
        self.run(Self::within(d)).ok_or(ReadyTimeoutError)
    }
    pub fn ready_deadline(&mut self, d: Instant) -> Result<usize, ReadyTimeoutError> {
        self.run(Some(d.as_nanos())).ok_or(ReadyTimeoutError)
    }
}
#[must_use]
pub struct SelectedOperation<'a> {
    index: usize,
    _p: std::marker::PhantomData<&'a ()>,
}
impl SelectedOperation<'_> {
    fn new(index: usize) -> Self {
        SelectedOperation { index, _p: std::marker::PhantomData }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn send<T>(self, s: &Sender<T>, msg: T) -> Result<(), SendError<T>> {
        s.send(msg)
    }
    pub fn recv<T>(self, r: &Receiver<T>) -> Result<T, RecvError> {
        r.recv()
    }
}

/// The common forms of `select!`: receives and sends, and an optional default.
#[macro_export]
macro_rules! select {
    (@go [$($done:tt)*] recv($r:expr) -> $p:pat => $b:block $(,)? $($rest:tt)*) => {
        $crate::select!(@go [$($done)* (recv ($r) ($p) ($b))] $($rest)*)
    };
    (@go [$($done:tt)*] recv($r:expr) -> $p:pat => $b:expr, $($rest:tt)*) => {
        $crate::select!(@go [$($done)* (recv ($r) ($p) ($b))] $($rest)*)
    };
    (@go [$($done:tt)*] recv($r:expr) -> $p:pat => $b:expr) => {
        $crate::select!(@go [$($done)* (recv ($r) ($p) ($b))])
    };
    (@go [$($done:tt)*] send($s:expr, $m:expr) -> $p:pat => $b:block $(,)? $($rest:tt)*) => {
        $crate::select!(@go [$($done)* (send ($s, $m) ($p) ($b))] $($rest)*)
    };
    (@go [$($done:tt)*] send($s:expr, $m:expr) -> $p:pat => $b:expr, $($rest:tt)*) => {
        $crate::select!(@go [$($done)* (send ($s, $m) ($p) ($b))] $($rest)*)
    };
    (@go [$($done:tt)*] send($s:expr, $m:expr) -> $p:pat => $b:expr) => {
        $crate::select!(@go [$($done)* (send ($s, $m) ($p) ($b))])
    };
    (@go [$($done:tt)*] default => $b:expr $(,)?) => {
        $crate::select!(@run [$($done)*] (Some($crate::__mcrt::now())) { $b })
    };
    (@go [$($done:tt)*] default() => $b:expr $(,)?) => {
        $crate::select!(@run [$($done)*] (Some($crate::__mcrt::now())) { $b })
    };
    (@go [$($done:tt)*] default($d:expr) => $b:expr $(,)?) => {
        $crate::select!(@run [$($done)*] (Some($crate::__mcrt::now().saturating_add($crate::__mcrt::time::nanos($d)))) { $b })
    };
    (@go [$($done:tt)*]) => { $crate::select!(@run [$($done)*] (None) { unreachable!() }) };
    (@obj recv ($r:expr)) => { $r.__obj() };
    (@obj send ($s:expr, $m:expr)) => { $s.__obj() };
    (@due recv ($r:expr)) => { $r.__due() };
    (@due send ($s:expr, $m:expr)) => { None::<u64> };
    (@ready recv ($r:expr)) => { $r.__ready() };
    (@ready send ($s:expr, $m:expr)) => { $s.__ready() };
    (@do recv ($r:expr)) => { $r.recv() };
    (@do send ($s:expr, $m:expr)) => { $s.send($m) };
    (@run [$(($k:ident $a:tt ($p:pat) ($b:expr)))*] ($until:expr) $d:block) => {{
        let objs: Vec<u64> = vec![$($crate::select!(@obj $k $a)),*];
        let mut due: Option<u64> = None;
        $( if let Some(d) = $crate::select!(@due $k $a) { due = Some(due.map_or(d, |x: u64| x.min(d))); } )*
        let got = {
            let ready = || -> Vec<usize> {
                let mut v = Vec::new();
                let mut _i = 0;
                $( if $crate::select!(@ready $k $a) { v.push(_i); } _i += 1; )*
                v
            };
            $crate::__select(&objs, &ready, due, $until)
        };
        let mut _i = 0;
        $crate::select!(@arms got _i [$(($k $a ($p) ($b)))*] $d)
    }};
    (@arms $got:ident $i:ident [] $d:block) => { $d };
    (@arms $got:ident $i:ident [($k:ident $a:tt ($p:pat) ($b:expr)) $($rest:tt)*] $d:block) => {
        if $got == Some($i) {
            let $p = $crate::select!(@do $k $a);
            $b
        } else {
            $i += 1;
            $crate::select!(@arms $got $i [$($rest)*] $d)
        }
    };
    ($($t:tt)+) => { $crate::select!(@go [] $($t)+) };
}
/// Taking any ready operation includes taking the first.
#[macro_export]
macro_rules! select_biased {
    ($($t:tt)+) => { $crate::select!($($t)+) };
}
