//! Runs calls into the code under test so that a panic, an endless loop, runaway memory use or a
//! crash becomes a recorded outcome instead of a broken harness.
//!
//! * a panic is caught and returned as `Err(message)`;
//! * a call that takes longer than the limit, or allocates more than the limit, makes the process
//!   write `<out>.runaway` (what was being run and why it was stopped) and exit with code 97;
//! * for crashes (stack overflow, abort) the context of the running call is kept in `<out>.inflight`.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static IN_CALL: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static MEM_LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
static CALL_NO: AtomicU64 = AtomicU64::new(0);
static CONTEXT: Mutex<String> = Mutex::new(String::new());
static OUT: Mutex<String> = Mutex::new(String::new());
static INFLIGHT: Mutex<Option<File>> = Mutex::new(None);

const CALL_MEMORY: i64 = 1 << 30;

thread_local!(static QUIET: Cell<bool> = const { Cell::new(false) });

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

fn grow(n: i64) {
    let live = LIVE.fetch_add(n, SeqCst) + n;
    if live > MEM_LIMIT.load(SeqCst) {
        MEM_LIMIT.store(i64::MAX, SeqCst);
        runaway("memory");
    }
}

fn runaway(why: &str) -> ! {
    let ctx = CONTEXT.try_lock().map(|c| c.clone()).unwrap_or_default();
    let out = OUT.try_lock().map(|c| c.clone()).unwrap_or_default();
    let _ = std::fs::write(format!("{out}.runaway"), format!("{why}\n{ctx}\n"));
    std::process::exit(97)
}

/// Starts the watchdog; `limit_s` bounds every single call. Runs `body` on a thread with a large stack.
pub fn start(out: &str, limit_s: u64, body: impl FnOnce() + Send + 'static) {
    listen();
    *OUT.lock().unwrap() = out.to_string();
    let _ = std::fs::remove_file(format!("{out}.runaway"));
    *INFLIGHT.lock().unwrap() = Some(File::create(format!("{out}.inflight")).unwrap());
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            hook(i)
        }
    }));
    std::thread::spawn(move || {
        let mut seen = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let n = CALL_NO.load(SeqCst);
            if n != seen || !IN_CALL.load(SeqCst) {
                seen = n;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(limit_s) {
                runaway("time");
            }
        }
    });
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(body)
        .unwrap()
        .join()
        .unwrap();
    let _ = std::fs::remove_file(format!("{out}.inflight"));
    let _ = std::fs::write(format!("{out}.names"), crate::api::called().join("\n"));
}

/// Runs one call into the code under test.
pub fn call<R>(context: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    {
        let mut c = CONTEXT.lock().unwrap();
        c.clear();
        c.push_str(context);
    }
    if let Some(file) = INFLIGHT.lock().unwrap().as_ref() {
        let mut line = context.as_bytes().to_vec();
        line.push(b'\n');
        let _ = file.write_at(&line, 0);
    }
    CALL_NO.fetch_add(1, SeqCst);
    MEM_LIMIT.store(LIVE.load(SeqCst) + CALL_MEMORY, SeqCst);
    QUIET.with(|q| q.set(true));
    IN_CALL.store(true, SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.store(false, SeqCst);
    QUIET.with(|q| q.set(false));
    MEM_LIMIT.store(i64::MAX, SeqCst);
    r.map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
            .chars()
            .map(|c| if c == '"' || c == '\\' || c.is_control() { ' ' } else { c })
            .collect()
    })
}

/// Line-oriented output file.
pub struct Sink {
    w: BufWriter<File>,
    pub lines: usize,
}

impl Sink {
    pub fn new(path: &str) -> Self {
        Sink { w: BufWriter::new(File::create(path).unwrap()), lines: 0 }
    }
    pub fn line(&mut self, s: &str) {
        self.w.write_all(s.as_bytes()).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.lines += 1;
    }
}

impl Drop for Sink {
    fn drop(&mut self) {
        self.w.flush().unwrap();
    }
}

/// A subscriber to everything (spans and log lines), which formats whatever it is given.
#[cfg(feature = "tracing")]
mod listener {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    use tracing::{field::Visit, span, Event, Metadata, Subscriber};

    pub struct Listener(AtomicU64);
    struct Reader(usize);
    impl Visit for Reader {
        fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
            self.0 += f.name().len() + format!("{v:?}").len();
        }
    }
    impl Subscriber for Listener {
        fn enabled(&self, _: &Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
            a.record(&mut Reader(0));
            span::Id::from_u64(1 + self.0.fetch_add(1, SeqCst))
        }
        fn record(&self, _: &span::Id, v: &span::Record<'_>) {
            v.record(&mut Reader(0));
        }
        fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
        fn event(&self, e: &Event<'_>) {
            e.record(&mut Reader(0));
        }
        fn enter(&self, _: &span::Id) {}
        fn exit(&self, _: &span::Id) {}
    }
    impl log::Log for Listener {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            self.0.fetch_add(format!("{}", r.args()).len() as u64, SeqCst);
        }
        fn flush(&self) {}
    }
    static LOG: Listener = Listener(AtomicU64::new(0));
    pub fn listen() {
        log::set_logger(&LOG).unwrap();
        log::set_max_level(log::LevelFilter::Trace);
        tracing::subscriber::set_global_default(Listener(AtomicU64::new(0))).unwrap();
    }
}
#[cfg(feature = "tracing")]
pub use listener::listen;
#[cfg(not(feature = "tracing"))]
pub fn listen() {}
