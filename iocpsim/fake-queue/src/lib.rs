//! The part of concurrent-queue that polling uses, with a point before each push at which a test may stop the thread.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::Mutex;

thread_local! {
    static STOP: RefCell<Option<Box<dyn FnMut()>>> = RefCell::new(None);
}

/// What this thread does before it pushes.
pub fn before_push(f: Option<Box<dyn FnMut()>>) {
    STOP.with(|s| *s.borrow_mut() = f);
}

#[derive(Debug)]
pub struct ConcurrentQueue<T> {
    q: Mutex<VecDeque<T>>,
    cap: Option<usize>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PushError<T> {
    Full(T),
    Closed(T),
}

impl<T> PushError<T> {
    pub fn into_inner(self) -> T {
        match self {
            PushError::Full(t) | PushError::Closed(t) => t,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, PushError::Full(_))
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PopError {
    Empty,
    Closed,
}

pub struct TryIter<'a, T>(&'a ConcurrentQueue<T>);

impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.pop().ok()
    }
}

impl<T> ConcurrentQueue<T> {
    pub fn bounded(cap: usize) -> Self {
        ConcurrentQueue { q: Mutex::new(VecDeque::new()), cap: Some(cap) }
    }
    pub fn unbounded() -> Self {
        ConcurrentQueue { q: Mutex::new(VecDeque::new()), cap: None }
    }
    pub fn push(&self, t: T) -> Result<(), PushError<T>> {
        let f = STOP.with(|s| s.borrow_mut().take());
        if let Some(mut f) = f {
            f();
            STOP.with(|s| *s.borrow_mut() = Some(f));
        }
        let mut q = self.q.lock().unwrap();
        if self.cap.map_or(false, |c| q.len() >= c) {
            return Err(PushError::Full(t));
        }
        q.push_back(t);
        Ok(())
    }
    pub fn pop(&self) -> Result<T, PopError> {
        self.q.lock().unwrap().pop_front().ok_or(PopError::Empty)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.cap
    }
    pub fn len(&self) -> usize {
        self.q.lock().unwrap().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.cap.map_or(false, |c| self.len() >= c)
    }
}
