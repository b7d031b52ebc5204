use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

static NEXT_THREAD: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static THREAD_ID: usize = NEXT_THREAD.fetch_add(1, Ordering::Relaxed);
}

/// A pool of values created by `F`, spread over `N` stacks to reduce contention.
pub struct Pool<T, F, const N: usize> {
    create: F,
    stacks: Vec<Mutex<Vec<Box<T>>>>,
}

pub struct PoolGuard<'a, T: Send, F: Fn() -> T, const N: usize> {
    pool: &'a Pool<T, F, N>,
    value: Option<Box<T>>,
}

impl<T, F, const N: usize> Pool<T, F, N> {
    pub fn new(create: F) -> Self {
        Pool {
            create,
            stacks: (0..N).map(|_| Mutex::new(vec![])).collect(),
        }
    }
}

impl<T: Send, F: Fn() -> T, const N: usize> Pool<T, F, N> {
    fn stack(&self) -> &Mutex<Vec<Box<T>>> {
        &self.stacks[THREAD_ID.with(|t| *t) % N]
    }

    pub fn get(&self) -> PoolGuard<'_, T, F, N> {
        let value = self.stack().lock().unwrap().pop();
        PoolGuard {
            pool: self,
            value: Some(value.unwrap_or_else(|| Box::new((self.create)()))),
        }
    }
}

impl<'a, T: Send, F: Fn() -> T, const N: usize> Deref for PoolGuard<'a, T, F, N> {
    type Target = T;
    fn deref(&self) -> &T {
        self.value.as_ref().unwrap()
    }
}

impl<'a, T: Send, F: Fn() -> T, const N: usize> DerefMut for PoolGuard<'a, T, F, N> {
    fn deref_mut(&mut self) -> &mut T {
        self.value.as_mut().unwrap()
    }
}

impl<'a, T: Send, F: Fn() -> T, const N: usize> Drop for PoolGuard<'a, T, F, N> {
    fn drop(&mut self) {
        // A value that was in use while its user panicked may be in any state: drop it.
        if !std::thread::panicking() {
            if let Some(value) = self.value.take() {
                self.pool.stack().lock().unwrap().push(value);
            }
        }
    }
}
