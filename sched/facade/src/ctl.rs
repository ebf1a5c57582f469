//! The controlled scheduler: the threads of an execution are real OS threads of which
//! exactly one runs at a time. At every scheduling point the next one is chosen.
use ::std::any::Any;
use ::std::cell::RefCell;
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Ready,
    /// Waits for the object at this address.
    Blocked(usize),
    Done,
}
const NOBODY: usize = usize::MAX;

struct St {
    current: usize,
    status: Vec<Status>,
    /// Must let somebody else go first (after a failed attempt).
    backoff: Vec<bool>,
    abort: Option<String>,
    steps: usize,
    preemptions: usize,
    trace: Vec<(usize, &'static str)>,
}
pub struct Exec {
    st: Mutex<St>,
    cvs: Vec<Condvar>,
    /// (candidates, the first one being the running thread if it can go on) -> index
    choose: Mutex<Chooser>,
    max_preemptions: usize,
}
struct Chooser(Box<dyn FnMut(&[usize]) -> usize>);
// Only the running thread of the execution uses it while everybody else waits.
unsafe impl Send for Chooser {}

::std::thread_local! {
    static CUR: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
}
struct Aborted;
const MAX_STEPS: usize = 3000;

fn cur() -> Option<(Arc<Exec>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}
/// Is the calling thread under control?
pub fn controlled() -> bool {
    cur().is_some()
}

impl Exec {
    fn aborted(&self) -> bool {
        self.st.lock().unwrap().abort.is_some()
    }
    fn stop(&self, st: &mut St, why: String) {
        if st.abort.is_none() {
            st.abort = Some(why);
        }
        for c in &self.cvs {
            c.notify_all();
        }
    }
    /// Pick the thread to run next; the lock is held, `me` has its status set.
    fn pick(&self, st: &mut St, me: usize) -> Option<usize> {
        let mut c: Vec<usize> = vec![];
        let can = |st: &St, t: usize| st.status[t] == Status::Ready;
        if me != NOBODY && can(st, me) {
            c.push(me);
        }
        c.extend((0..st.status.len()).filter(|t| *t != me && can(st, *t)));
        // Threads that failed an attempt step back while others can go on.
        if c.iter().any(|t| !st.backoff[*t]) {
            c.retain(|t| !st.backoff[*t]);
        }
        if c.is_empty() {
            return None;
        }
        if me != NOBODY && c[0] == me && st.preemptions >= self.max_preemptions {
            c.truncate(1);
        }
        let i = if c.len() == 1 { 0 } else { (self.choose.lock().unwrap().0)(&c) };
        if me != NOBODY && c[0] == me && i > 0 {
            st.preemptions += 1;
        }
        for b in st.backoff.iter_mut() {
            *b = false;
        }
        Some(c[i])
    }
    /// Give control away (or keep it) and come back when chosen.
    fn switch(&self, mut st: ::std::sync::MutexGuard<'_, St>, me: usize) {
        if st.abort.is_none() {
            match self.pick(&mut st, me) {
                Some(n) => {
                    st.current = n;
                    if n != me {
                        self.cvs[n].notify_one();
                    }
                }
                None => {
                    let w = format!("deadlock: thread states {:?}, last steps {:?}", st.status, st.trace.iter().rev().take(8).collect::<Vec<_>>());
                    self.stop(&mut st, w);
                }
            }
        }
        while st.current != me && st.abort.is_none() {
            st = self.cvs[me].wait(st).unwrap();
        }
        if st.abort.is_some() {
            drop(st);
            if !::std::thread::panicking() {
                resume_unwind(Box::new(Aborted));
            }
        }
    }
}

fn point_with(what: &'static str, back: bool) -> bool {
    let Some((ex, me)) = cur() else { return false };
    let mut st = ex.st.lock().unwrap();
    if st.abort.is_some() {
        drop(st);
        if !::std::thread::panicking() {
            resume_unwind(Box::new(Aborted));
        }
        return true;
    }
    st.steps += 1;
    if st.steps > MAX_STEPS {
        let w = format!("no progress: over {MAX_STEPS} scheduling points, last {:?}", &st.trace[st.trace.len() - 8..]);
        ex.stop(&mut st, w);
        drop(st);
        if !::std::thread::panicking() {
            resume_unwind(Box::new(Aborted));
        }
        return true;
    }
    st.trace.push((me, what));
    st.backoff[me] = back;
    ex.switch(st, me);
    true
}
/// A scheduling point. False if the caller is not under control.
pub fn point(what: &'static str) -> bool {
    point_with(what, false)
}
/// A scheduling point after a failed attempt: others go first if they can.
pub fn backoff(what: &'static str) -> bool {
    point_with(what, true)
}
/// Wait until somebody wakes the object.
fn block_on(addr: usize) {
    let Some((ex, me)) = cur() else { return };
    let mut st = ex.st.lock().unwrap();
    st.status[me] = Status::Blocked(addr);
    st.trace.push((me, "blocked"));
    ex.switch(st, me);
}
fn wake(addr: usize, one: bool) {
    let Some((ex, _)) = cur() else { return };
    let mut st = ex.st.lock().unwrap();
    for s in st.status.iter_mut() {
        if *s == Status::Blocked(addr) {
            *s = Status::Ready;
            if one {
                break;
            }
        }
    }
}
fn giving_up() -> bool {
    cur().is_none_or(|(ex, _)| ex.aborted())
}

pub struct Report<T> {
    pub results: Vec<Result<T, Box<dyn Any + Send>>>,
    /// Deadlock or lack of progress.
    pub stuck: Option<String>,
    pub steps: usize,
    pub preemptions: usize,
    pub trace: Vec<(usize, &'static str)>,
}

type Job = Box<dyn FnOnce() + Send>;
/// A thread that is kept for the controlled threads of the executions to come.
struct Hand(Arc<(Mutex<Option<Job>>, Condvar)>);
impl Hand {
    fn new() -> Self {
        let c: Arc<(Mutex<Option<Job>>, Condvar)> = Arc::new((Mutex::new(None), Condvar::new()));
        let c2 = c.clone();
        ::std::thread::spawn(move || loop {
            let job = {
                let mut g = c2.0.lock().unwrap();
                loop {
                    match g.take() {
                        Some(j) => break j,
                        None => g = c2.1.wait(g).unwrap(),
                    }
                }
            };
            job();
        });
        Hand(c)
    }
    fn give(&self, j: Job) {
        *self.0 .0.lock().unwrap() = Some(j);
        self.0 .1.notify_one();
    }
}
::std::thread_local! {
    static POOL: RefCell<Vec<Hand>> = const { RefCell::new(vec![]) };
}
/// One controlled thread: waits for its first turn, runs, passes control on.
fn body<T>(ex: &Arc<Exec>, me: usize, f: impl FnOnce() -> T) -> Result<T, Box<dyn Any + Send>> {
    CUR.with(|c| *c.borrow_mut() = Some((ex.clone(), me)));
    {
        let mut st = ex.st.lock().unwrap();
        while st.current != me && st.abort.is_none() {
            st = ex.cvs[me].wait(st).unwrap();
        }
    }
    let r = if ex.aborted() { Err(Box::new(Aborted) as Box<dyn Any + Send>) } else { catch_unwind(AssertUnwindSafe(f)) };
    CUR.with(|c| *c.borrow_mut() = None);
    let mut st = ex.st.lock().unwrap();
    st.status[me] = Status::Done;
    if st.abort.is_none() && st.status.iter().any(|s| *s != Status::Done) {
        match ex.pick(&mut st, NOBODY) {
            Some(n) => {
                st.current = n;
                ex.cvs[n].notify_one();
            }
            None => {
                let w = format!("deadlock: thread states {:?}", st.status);
                ex.stop(&mut st, w);
            }
        }
    }
    r
}

/// Run the threads to completion under the schedule given by `choose`.
pub fn run<'a, T: Send + 'a>(
    threads: Vec<Box<dyn FnOnce() -> T + Send + 'a>>,
    max_preemptions: usize,
    choose: &'a mut dyn FnMut(&[usize]) -> usize,
) -> Report<T> {
    let n = threads.len();
    // The chooser is used only while this function runs.
    let choose: Box<dyn FnMut(&[usize]) -> usize> = {
        let b: Box<dyn FnMut(&[usize]) -> usize + 'a> = Box::new(move |c| choose(c));
        unsafe { ::std::mem::transmute(b) }
    };
    let ex = Arc::new(Exec {
        st: Mutex::new(St {
            current: NOBODY,
            status: vec![Status::Ready; n],
            backoff: vec![false; n],
            abort: None,
            steps: 0,
            preemptions: 0,
            trace: vec![],
        }),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
        choose: Mutex::new(Chooser(choose)),
        max_preemptions,
    });
    let slots: Vec<Mutex<Option<Result<T, Box<dyn Any + Send>>>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let left = (Mutex::new(n), Condvar::new());
    POOL.with(|pool| {
        let mut pool = pool.borrow_mut();
        while pool.len() < n {
            pool.push(Hand::new());
        }
        for (me, f) in threads.into_iter().enumerate() {
            let (ex, slot, left) = (ex.clone(), &slots[me], &left);
            let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
                let r = body(&ex, me, f);
                drop(ex);
                *slot.lock().unwrap() = Some(r);
                // Nothing borrowed is used after this lock is released.
                let mut l = left.0.lock().unwrap();
                *l -= 1;
                if *l == 0 {
                    left.1.notify_one();
                }
            });
            // This function returns only after every job has run.
            let job: Job = unsafe { ::std::mem::transmute(job) };
            pool[me].give(job);
        }
        {
            let mut st = ex.st.lock().unwrap();
            if let Some(n) = ex.pick(&mut st, NOBODY) {
                st.current = n;
                ex.cvs[n].notify_one();
            }
        }
        let mut l = left.0.lock().unwrap();
        while *l > 0 {
            l = left.1.wait(l).unwrap();
        }
    });
    let results = slots.into_iter().map(|s| s.into_inner().unwrap().expect("every job stores its result")).collect();
    let st = ex.st.lock().unwrap();
    Report { results, stuck: st.abort.clone(), steps: st.steps, preemptions: st.preemptions, trace: st.trace.clone() }
}

pub mod lock {
    use super::{backoff, block_on, controlled, giving_up, point, wake};
    use ::std::fmt;
    use ::std::mem::ManuallyDrop;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync as real;
    use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
    use ::std::time::Duration;

    pub struct Mutex<T: ?Sized> {
        inner: real::Mutex<T>,
    }
    pub struct MutexGuard<'a, T: ?Sized> {
        g: ManuallyDrop<real::MutexGuard<'a, T>>,
        of: &'a Mutex<T>,
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { inner: real::Mutex::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn addr(&self) -> usize {
            self as *const Self as *const u8 as usize
        }
        fn guard<'a>(&'a self, g: real::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
            MutexGuard { g: ManuallyDrop::new(g), of: self }
        }
        fn conv<'a>(&'a self, r: LockResult<real::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
            match r {
                Ok(g) => Ok(self.guard(g)),
                Err(e) => Err(PoisonError::new(self.guard(e.into_inner()))),
            }
        }
        fn acquire(&self) -> LockResult<MutexGuard<'_, T>> {
            loop {
                match self.inner.try_lock() {
                    Ok(g) => return Ok(self.guard(g)),
                    Err(TryLockError::Poisoned(e)) => return self.conv(Err(e)),
                    Err(TryLockError::WouldBlock) => {
                        if giving_up() {
                            return self.conv(self.inner.lock());
                        }
                        block_on(self.addr())
                    }
                }
            }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            if !controlled() {
                return self.conv(self.inner.lock());
            }
            point("lock");
            self.acquire()
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            point("try_lock");
            match self.inner.try_lock() {
                Ok(g) => Ok(self.guard(g)),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(self.guard(e.into_inner())))),
                Err(TryLockError::WouldBlock) => {
                    backoff("try_lock failed");
                    Err(TryLockError::WouldBlock)
                }
            }
        }
        pub fn is_poisoned(&self) -> bool {
            point("is_poisoned");
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            point("clear_poison");
            self.inner.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Debug::fmt(&self.inner, f)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.g
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            // Others may look at the lock while it is still held. (Never unwinds out of here.)
            if !giving_up() {
                let _ = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| point("unlock")));
            }
            unsafe { ManuallyDrop::drop(&mut self.g) };
            wake(self.of.addr(), false);
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Debug::fmt(&**self, f)
        }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Display::fmt(&**self, f)
        }
    }

    pub struct RwLock<T: ?Sized> {
        inner: real::RwLock<T>,
    }
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        g: ManuallyDrop<real::RwLockReadGuard<'a, T>>,
        addr: usize,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        g: ManuallyDrop<real::RwLockWriteGuard<'a, T>>,
        addr: usize,
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { inner: real::RwLock::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }
    macro_rules! rw {
        ($lock:ident, $try:ident, $guard:ident, $real:ident) => {
            pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
                let addr = self as *const Self as *const u8 as usize;
                if !controlled() {
                    return match self.inner.$lock() {
                        Ok(g) => Ok($guard { g: ManuallyDrop::new(g), addr }),
                        Err(e) => Err(PoisonError::new($guard { g: ManuallyDrop::new(e.into_inner()), addr })),
                    };
                }
                point(stringify!($lock));
                loop {
                    match self.inner.$try() {
                        Ok(g) => return Ok($guard { g: ManuallyDrop::new(g), addr }),
                        Err(TryLockError::Poisoned(e)) => {
                            return Err(PoisonError::new($guard { g: ManuallyDrop::new(e.into_inner()), addr }))
                        }
                        Err(TryLockError::WouldBlock) => {
                            if giving_up() {
                                return match self.inner.$lock() {
                                    Ok(g) => Ok($guard { g: ManuallyDrop::new(g), addr }),
                                    Err(e) => Err(PoisonError::new($guard { g: ManuallyDrop::new(e.into_inner()), addr })),
                                };
                            }
                            block_on(addr)
                        }
                    }
                }
            }
            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
                let addr = self as *const Self as *const u8 as usize;
                point(stringify!($try));
                match self.inner.$try() {
                    Ok(g) => Ok($guard { g: ManuallyDrop::new(g), addr }),
                    Err(TryLockError::Poisoned(e)) => {
                        Err(TryLockError::Poisoned(PoisonError::new($guard { g: ManuallyDrop::new(e.into_inner()), addr })))
                    }
                    Err(TryLockError::WouldBlock) => {
                        backoff("try failed");
                        Err(TryLockError::WouldBlock)
                    }
                }
            }
        };
    }
    impl<T: ?Sized> RwLock<T> {
        rw!(read, try_read, RwLockReadGuard, RwLockReadGuard);
        rw!(write, try_write, RwLockWriteGuard, RwLockWriteGuard);
        pub fn is_poisoned(&self) -> bool {
            point("is_poisoned");
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            point("clear_poison");
            self.inner.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Debug::fmt(&self.inner, f)
        }
    }
    macro_rules! rwguard {
        ($guard:ident) => {
            impl<T: ?Sized> Deref for $guard<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    &self.g
                }
            }
            impl<T: ?Sized> Drop for $guard<'_, T> {
                fn drop(&mut self) {
                    if !giving_up() {
                        let _ = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| point("unlock")));
                    }
                    unsafe { ManuallyDrop::drop(&mut self.g) };
                    wake(self.addr, false);
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $guard<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    fmt::Debug::fmt(&**self, f)
                }
            }
        };
    }
    rwguard!(RwLockReadGuard);
    rwguard!(RwLockWriteGuard);
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }

    #[derive(Default, Debug)]
    pub struct Condvar {
        inner: real::Condvar,
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { inner: real::Condvar::new() }
        }
        fn addr(&self) -> usize {
            self as *const Self as usize
        }
        pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let of = g.of;
            if giving_up() {
                let inner = unsafe { ManuallyDrop::take(&mut g.g) };
                ::std::mem::forget(g);
                return of.conv(self.inner.wait(inner));
            }
            // Release, wait and take the lock again; one step as in the real thing.
            unsafe { ManuallyDrop::drop(&mut g.g) };
            ::std::mem::forget(g);
            wake(of.addr(), false);
            block_on(self.addr());
            of.acquire()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
            &self,
            mut g: MutexGuard<'a, T>,
            mut f: F,
        ) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        /// Time passes only when nothing else can happen: a timed wait may return at any moment.
        pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _d: Duration) -> LockResult<(MutexGuard<'a, T>, bool)> {
            let of = g.of;
            drop(g);
            backoff("timed wait");
            match of.acquire() {
                Ok(g) => Ok((g, true)),
                Err(e) => Err(PoisonError::new((e.into_inner(), true))),
            }
        }
        pub fn notify_one(&self) {
            point("notify");
            self.inner.notify_one();
            wake(self.addr(), true);
        }
        pub fn notify_all(&self) {
            point("notify");
            self.inner.notify_all();
            wake(self.addr(), false);
        }
    }
}

pub mod atom {
    use super::point;
    use ::std::sync::atomic as real;
    use ::std::sync::atomic::Ordering;
    macro_rules! common {
        ($n:ident, $t:ty) => {
            #[derive(Default)]
            pub struct $n(real::$n);
            impl ::std::fmt::Debug for $n {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    self.0.fmt(f)
                }
            }
            impl From<$t> for $n {
                fn from(t: $t) -> Self {
                    $n::new(t)
                }
            }
            impl $n {
                pub const fn new(t: $t) -> Self {
                    $n(real::$n::new(t))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    point("load");
                    self.0.load(o)
                }
                pub fn store(&self, t: $t, o: Ordering) {
                    point("store");
                    self.0.store(t, o)
                }
                pub fn swap(&self, t: $t, o: Ordering) -> $t {
                    point("swap");
                    self.0.swap(t, o)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                    point("cas");
                    self.0.compare_exchange(a, b, o, p)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                    point("cas");
                    self.0.compare_exchange(a, b, o, p)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> {
                    point("update");
                    self.0.fetch_update(o, p, f)
                }
                pub fn fetch_and(&self, t: $t, o: Ordering) -> $t {
                    point("fetch");
                    self.0.fetch_and(t, o)
                }
                pub fn fetch_or(&self, t: $t, o: Ordering) -> $t {
                    point("fetch");
                    self.0.fetch_or(t, o)
                }
                pub fn fetch_xor(&self, t: $t, o: Ordering) -> $t {
                    point("fetch");
                    self.0.fetch_xor(t, o)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
        };
    }
    macro_rules! int {
        ($($n:ident $t:ty),*) => {$(
            common!($n, $t);
            impl $n {
                pub fn fetch_add(&self, t: $t, o: Ordering) -> $t {
                    point("fetch");
                    self.0.fetch_add(t, o)
                }
                pub fn fetch_sub(&self, t: $t, o: Ordering) -> $t {
                    point("fetch");
                    self.0.fetch_sub(t, o)
                }
                pub fn fetch_max(&self, t: $t, o: Ordering) -> $t {
                    point("fetch");
                    self.0.fetch_max(t, o)
                }
                pub fn fetch_min(&self, t: $t, o: Ordering) -> $t {
                    point("fetch");
                    self.0.fetch_min(t, o)
                }
            }
        )*};
    }
    int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
         AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    common!(AtomicBool, bool);
}
