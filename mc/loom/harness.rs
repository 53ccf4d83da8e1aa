// Client programs over handles of one generated object, explored by loom. Included by the crate
// that mc/checks/threads.py generates; `std` is mcstd there.
use mcstd::loom;
use mcstd::real;
use real::collections::HashMap;
use real::sync::atomic::{AtomicU64 as RU64, Ordering::SeqCst as RSC};
use real::sync::{Arc as RArc, Mutex as RMutex};

pub fn fail(msg: &str) -> ! {
    use real::io::Write;
    let p = CUR.lock().map(|g| g.clone()).unwrap_or_default();
    let o = real::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "FAIL {p}: {}", msg.replace('\n', " "));
    let _ = o.flush();
    unsafe { _exit(3) }
}
extern "C" {
    fn _exit(c: i32) -> !;
}
pub static CUR: RMutex<String> = RMutex::new(String::new());

/// What the harness knows of one implementation value, outside the reach of the scheduler.
#[derive(Default)]
pub struct Ctl {
    pub inside: RU64,
    pub live: RU64,
    pub dropped: RU64,
    pub calls: RU64,
    pub done: RU64,
    pub seen: RMutex<HashMap<loom::thread::ThreadId, u64>>,
    pub err: RMutex<HashMap<loom::thread::ThreadId, bool>>,
    pub point: loom::sync::atomic::AtomicUsize,
}
impl Ctl {
    fn me() -> loom::thread::ThreadId {
        loom::thread::current().id()
    }
}

/// The implementation's state: the plain memory that the generated code has to protect.
pub struct Im {
    pub ctl: RArc<Ctl>,
    pub n: loom::cell::UnsafeCell<u64>,
    pub store: Option<crate::interfaces::oth::Oth>,
    pub top: bool,
}
unsafe impl Send for Im {}
unsafe impl Sync for Im {}
impl Im {
    pub fn new(ctl: RArc<Ctl>, top: bool) -> Self {
        Im { ctl, n: loom::cell::UnsafeCell::new(0), store: None, top }
    }
    /// The start of a method body.
    pub fn enter(&mut self) -> bool {
        let c = self.ctl.clone();
        if c.inside.fetch_add(1, RSC) != 0 {
            fail("two method bodies run at the same time");
        }
        if c.dropped.load(RSC) != 0 {
            fail("a method body runs on a dropped implementation");
        }
        if self.top && c.live.load(RSC) == 0 {
            fail("a method body runs without a live reference");
        }
        let v = self.n.with_mut(|p| unsafe {
            *p += 1;
            *p
        });
        c.point.fetch_add(1, loom::sync::atomic::Ordering::Relaxed);
        if self.n.with(|p| unsafe { *p }) != v {
            fail("the implementation's state changed under a running method body");
        }
        c.seen.lock().unwrap().insert(Ctl::me(), v);
        let e = c.err.lock().unwrap().remove(&Ctl::me()).unwrap_or(false);
        e
    }
    /// Its end.
    pub fn leave(&mut self) {
        self.ctl.point.fetch_add(1, loom::sync::atomic::Ordering::Relaxed);
        if self.ctl.dropped.load(RSC) != 0 {
            fail("the implementation was dropped while a method body was running");
        }
        if self.ctl.inside.fetch_sub(1, RSC) != 1 {
            fail("two method bodies run at the same time");
        }
    }
}
impl Drop for Im {
    fn drop(&mut self) {
        self.n.with_mut(|_| ());
        if self.ctl.inside.load(RSC) != 0 {
            fail("the implementation is dropped while a method body is running");
        }
        if self.top && self.ctl.live.load(RSC) != 0 {
            fail("the implementation is dropped while references are alive");
        }
        if self.ctl.dropped.fetch_add(1, RSC) != 0 {
            fail("the implementation is dropped twice");
        }
    }
}

/// A generated typed handle.
pub trait Hd: Clone + Sized + Send + Sync + 'static {
    fn make(i: Im) -> Self;
    /// perform the operation; None: this handle type has no such operation
    fn op(&self, op: u8, oth: &crate::interfaces::oth::Oth) -> Option<Result<(), ()>>;
    fn raw(&self) -> &crate::object::Object;
    fn through(self) -> Self; // into the raw object and back
    fn optional(op: u8) -> bool; // a method without an implementation
}

struct H<T: Hd>(Option<T>, RArc<Ctl>);
impl<T: Hd> H<T> {
    fn new(t: T, c: &RArc<Ctl>) -> Self {
        c.live.fetch_add(1, RSC);
        H(Some(t), c.clone())
    }
    fn dup(&self) -> Self {
        Self::new(self.0.as_ref().unwrap().clone(), &self.1)
    }
    fn drop_now(mut self) {
        self.1.live.fetch_sub(1, RSC);
        drop(self.0.take());
    }
}
impl<T: Hd> Drop for H<T> {
    fn drop(&mut self) {
        if let Some(t) = self.0.take() {
            self.1.live.fetch_sub(1, RSC);
            drop(t);
        }
    }
}

fn client<T: Hd>(first: H<T>, oth: crate::interfaces::oth::Oth, octl: RArc<Ctl>, ops: &str) {
    let ctl = first.1.clone();
    let mut st = vec![first];
    for op in ops.bytes() {
        let top = st.last().unwrap();
        match op {
            b'C' => {
                let d = top.dup();
                st.push(d)
            }
            b'D' => st.pop().unwrap().drop_now(),
            b'T' => top.dup().drop_now(),
            b'R' => {
                let mut h = st.pop().unwrap();
                h.0 = h.0.take().map(T::through);
                st.push(h)
            }
            b'U' | b'V' | b'W' => {
                let mut args = [const { crate::object::Arg { b: crate::object::BufOut { ptr: core::ptr::null_mut(), size: 0 } } }; 15];
                let (o, c) = match op {
                    b'U' => (777, 0),
                    b'V' => (0, 0xffff_0000),
                    _ => (0, 0x1_0000),
                };
                if unsafe { top.0.as_ref().unwrap().raw().invoke(o, args.as_mut_ptr(), c) } == 0 {
                    fail("a malformed call succeeded");
                }
            }
            b'p' => {
                // an invocation of the other object
                let before = octl.done.load(RSC);
                if oth.r#oping().is_err() {
                    fail("a call failed");
                }
                observed(&octl, before);
            }
            _ => {
                let want_err = op == b'e';
                let before = ctl.done.load(RSC);
                if want_err {
                    ctl.err.lock().unwrap().insert(Ctl::me(), true);
                }
                let r = top.0.as_ref().unwrap().op(op, &oth).unwrap();
                if T::optional(op) {
                    if r.is_ok() {
                        fail("a method without an implementation succeeded");
                    }
                    continue;
                }
                if r.is_err() != want_err {
                    fail(if want_err { "an error was not reported" } else { "a call failed" });
                }
                observed(&ctl, before);
            }
        }
    }
    while let Some(h) = st.pop() {
        h.drop_now();
    }
    drop(oth);
}

fn observed(ctl: &RArc<Ctl>, before: u64) {
    ctl.calls.fetch_add(1, RSC);
    match ctl.seen.lock().unwrap().remove(&Ctl::me()) {
        None => fail("the call returned but its method body did not run"),
        Some(v) => {
            if v <= before {
                fail("an invocation does not observe one that completed before it started");
            }
            ctl.done.fetch_max(v, RSC);
        }
    }
}

fn end(ctl: &RArc<Ctl>) {
    if ctl.dropped.load(RSC) != 1 {
        fail("all references are released but the implementation is not dropped");
    }
    if ctl.calls.load(RSC) != ctl.done.load(RSC) {
        fail("effects of invocations are lost");
    }
}

/// Explore one program: thread 0 is the creator.
pub fn explore<T: Hd>(prog: &str, bound: Option<usize>) -> u64 {
    let threads: Vec<String> = prog.split('|').map(String::from).collect();
    let count = RArc::new(RU64::new(0));
    let n = count.clone();
    let mut b = loom::model::Builder::new();
    b.preemption_bound = bound;
    b.max_branches = 20_000;
    b.max_threads = 4;
    b.check(move || {
        n.fetch_add(1, RSC);
        quarantine(true);
        let ctl = RArc::new(Ctl::default());
        let octl = RArc::new(Ctl::default());
        {
            let oth = crate::interfaces::oth::Oth::from(Im::new(octl.clone(), false));
            let h = H::new(T::make(Im::new(ctl.clone(), true)), &ctl);
            let mut js = vec![];
            for t in &threads[1..] {
                let (h2, o2, oc, t) = (h.dup(), oth.clone(), octl.clone(), t.clone());
                js.push(loom::thread::spawn(move || client(h2, o2, oc, &t)));
            }
            client(h, oth, octl.clone(), &threads[0]);
            for j in js {
                j.join().unwrap();
            }
        }
        end(&ctl);
        end(&octl);
        drop((ctl, octl));
        quarantine(false);
    });
    count.load(RSC)
}

// ---- an allocator that keeps what is freed within an execution, so that a use after free meets
// poison and a second free is seen
use real::alloc::{GlobalAlloc, Layout, System};
pub struct Alloc;
static mut KEEP: bool = false;
static mut LIST: [(*mut u8, usize, usize); 1 << 16] = [(real::ptr::null_mut(), 0, 0); 1 << 16];
static mut USED: usize = 0;
const LIVE: u64 = 0x4c495645_4c495645;
const DEAD: u64 = 0x44454144_44454144;
fn quarantine(on: bool) {
    unsafe {
        KEEP = on;
        for i in 0..USED {
            let (p, s, a) = LIST[i];
            System.dealloc(p, Layout::from_size_align_unchecked(s, a));
        }
        USED = 0;
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = l.align().max(16);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h, h));
        if p.is_null() {
            return p;
        }
        *(p.add(h - 8) as *mut u64) = LIVE;
        p.add(h)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = l.align().max(16);
        let m = p.sub(8) as *mut u64;
        if *m != LIVE {
            fail("memory is freed twice");
        }
        let (b, s) = (p.sub(h), l.size() + h);
        if KEEP && USED < (1 << 16) && l.size() < 4096 {
            *m = DEAD;
            real::ptr::write_bytes(p, 0xdd, l.size());
            LIST[USED] = (b, s, h);
            USED += 1;
        } else {
            System.dealloc(b, Layout::from_size_align_unchecked(s, h));
        }
    }
}

pub fn main() {
    real::panic::set_hook(Box::new(|i| fail(&format!("{i}"))));
    let a: Vec<String> = real::env::args().collect();
    // job file: lines "shape bound program"
    let jobs = real::fs::read_to_string(&a[1]).unwrap();
    for j in jobs.lines() {
        let f: Vec<&str> = j.split(' ').collect();
        *CUR.lock().unwrap() = j.to_string();
        let bound = f[1].parse::<usize>().ok();
        let n = crate::table(f[0], f[2], bound);
        real::println!("OK {n}");
    }
}
