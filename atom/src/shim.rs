//! std, with synchronisation that a scheduler controls.

pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    use super::sched::point;
    use ::std::ops::{Deref, DerefMut};

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use super::super::sched::point;

        macro_rules! int {
            ($($name:ident $t:ty),*) => { $(
                #[derive(Debug, Default)]
                pub struct $name(::std::sync::atomic::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self { Self(::std::sync::atomic::$name::new(v)) }
                    pub fn load(&self, _: Ordering) -> $t { point(); self.0.load(Ordering::SeqCst) }
                    pub fn store(&self, v: $t, _: Ordering) { point(); self.0.store(v, Ordering::SeqCst) }
                    pub fn swap(&self, v: $t, _: Ordering) -> $t { point(); self.0.swap(v, Ordering::SeqCst) }
                    pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { point(); self.0.fetch_add(v, Ordering::SeqCst) }
                    pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { point(); self.0.fetch_sub(v, Ordering::SeqCst) }
                    pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { point(); self.0.fetch_max(v, Ordering::SeqCst) }
                    pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { point(); self.0.fetch_min(v, Ordering::SeqCst) }
                    pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { point(); self.0.fetch_and(v, Ordering::SeqCst) }
                    pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { point(); self.0.fetch_or(v, Ordering::SeqCst) }
                    pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t { point(); self.0.fetch_xor(v, Ordering::SeqCst) }
                    pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                        point();
                        self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                        point();
                        self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                        let mut v = self.load(Ordering::SeqCst);
                        while let Some(n) = f(v) {
                            match self.compare_exchange(v, n, Ordering::SeqCst, Ordering::SeqCst) {
                                Ok(x) => return Ok(x),
                                Err(x) => v = x,
                            }
                        }
                        Err(v)
                    }
                    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                }
            )* }
        }
        int!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32, AtomicU16 u16, AtomicU8 u8);
    }

    /// A mutex whose waiting the scheduler sees.
    #[derive(Debug, Default)]
    pub struct Mutex<T: ?Sized>(::std::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Self(::std::sync::Mutex::new(v))
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            loop {
                point();
                match self.0.try_lock() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => super::sched::blocked(),
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            point();
            self.0.try_lock()
        }
    }
    #[derive(Debug, Default)]
    pub struct RwLock<T: ?Sized>(::std::sync::RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self {
            Self(::std::sync::RwLock::new(v))
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            loop {
                point();
                match self.0.try_read() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => super::sched::blocked(),
                }
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            loop {
                point();
                match self.0.try_write() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => super::sched::blocked(),
                }
            }
        }
    }
}

pub mod sched {
    use ::std::cell::RefCell;
    use ::std::sync::{Arc, Condvar, Mutex};
    use ::std::thread;
    use ::std::time::Duration;

    /// One decision: how many could go on, which one did (0: the one that ran last, if it can),
    /// and whether another choice than 0 takes the processor away from it.
    #[derive(Clone, Copy)]
    pub struct Decision {
        pub of: usize,
        pub taken: usize,
        pub preempts: bool,
    }
    struct Shared {
        /// Whose turn it is (None: not started, or over).
        turn: Option<usize>,
        done: Vec<bool>,
        /// Waits for a lock until somebody else moved.
        blocked: Vec<bool>,
        panicked: bool,
        prefix: Vec<usize>,
        trace: Vec<Decision>,
        last: Option<usize>,
        steps: u64,
        err: Option<String>,
        over: bool,
    }
    impl Shared {
        /// Decides who goes on.
        fn decide(&mut self) {
            self.steps += 1;
            self.turn = None;
            let mut live: Vec<usize> = (0..self.done.len()).filter(|i| !self.done[*i] && !self.blocked[*i]).collect();
            if live.is_empty() {
                self.over = true;
                if self.done.iter().any(|d| !*d) {
                    self.err = Some("the updates wait for each other in a way this scheduler does not follow".into());
                } else if self.panicked {
                    self.err = Some("an update panics".into());
                }
                return;
            }
            let preempts = match self.last.and_then(|l| live.iter().position(|x| *x == l)) {
                Some(at) => {
                    let l = live.remove(at);
                    live.insert(0, l);
                    true
                }
                None => false,
            };
            let mut k = 0;
            if live.len() > 1 {
                k = self.prefix.get(self.trace.len()).copied().unwrap_or(0);
                if k >= live.len() {
                    self.err = Some("not deterministic".into());
                    k = 0;
                }
                self.trace.push(Decision { of: live.len(), taken: k, preempts });
            }
            self.last = Some(live[k]);
            self.turn = Some(live[k]);
        }
    }
    type Sh = Arc<(Mutex<Shared>, Vec<Condvar>, Condvar)>;
    thread_local! {
        static ME: RefCell<Option<(usize, Sh)>> = const { RefCell::new(None) };
    }

    fn give_up(blocked: bool) {
        let me = ME.with(|m| m.borrow().clone());
        if let Some((i, sh)) = me {
            let mut s = sh.0.lock().unwrap();
            if blocked {
                s.blocked[i] = true;
            } else {
                // a step of one thread may free the others
                s.blocked.iter_mut().for_each(|b| *b = false);
            }
            s.decide();
            wake(&sh, &s, Some(i));
            while s.turn != Some(i) {
                s = sh.1[i].wait(s).unwrap();
            }
        }
    }
    fn wake(sh: &Sh, s: &Shared, me: Option<usize>) {
        if s.over {
            sh.2.notify_all();
        } else if s.turn != me {
            sh.1[s.turn.unwrap()].notify_one();
        }
    }
    /// The scheduler decides who goes on.
    pub fn point() {
        give_up(false)
    }
    /// Somebody else has to move first.
    pub fn blocked() {
        give_up(true)
    }

    /// Runs the threads under the schedule that begins with `prefix`; returns the decisions.
    pub fn run(progs: Vec<Vec<Box<dyn FnOnce() + Send>>>, prefix: &[usize]) -> (Vec<Decision>, Option<String>) {
        let n = progs.len();
        let sh: Sh = Arc::new((
            Mutex::new(Shared {
                turn: None,
                done: vec![false; n],
                blocked: vec![false; n],
                panicked: false,
                prefix: prefix.to_vec(),
                trace: vec![],
                last: None,
                steps: 0,
                err: None,
                over: false,
            }),
            (0..n).map(|_| Condvar::new()).collect(),
            Condvar::new(),
        ));
        let hs: Vec<_> = progs
            .into_iter()
            .enumerate()
            .map(|(i, p)| {
                let sh = sh.clone();
                thread::spawn(move || {
                    {
                        let mut s = sh.0.lock().unwrap();
                        while s.turn != Some(i) {
                            s = sh.1[i].wait(s).unwrap();
                        }
                    }
                    ME.with(|m| *m.borrow_mut() = Some((i, sh.clone())));
                    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(move || {
                        for f in p {
                            f();
                        }
                    }));
                    ME.with(|m| *m.borrow_mut() = None);
                    let mut s = sh.0.lock().unwrap();
                    s.done[i] = true;
                    s.panicked |= r.is_err();
                    s.blocked.iter_mut().for_each(|b| *b = false);
                    s.decide();
                    wake(&sh, &s, None);
                })
            })
            .collect();
        let mut s = sh.0.lock().unwrap();
        s.decide();
        wake(&sh, &s, None);
        while !s.over {
            let before = s.steps;
            let (g, t) = sh.2.wait_timeout(s, Duration::from_secs(5)).unwrap();
            s = g;
            if t.timed_out() && !s.over && s.steps == before {
                return (s.trace.clone(), Some("an update waits for something this scheduler does not control".into()));
            }
            if s.steps > 100_000 {
                return (s.trace.clone(), Some("the updates do not end".into()));
            }
        }
        let r = (s.trace.clone(), s.err.clone());
        let all = s.done.iter().all(|d| *d);
        drop(s);
        if all {
            for h in hs {
                let _ = h.join();
            }
        }
        r
    }
}
