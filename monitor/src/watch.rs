//! Notices calls that never return: no call began for a long time while the process used the
//! processor, or while every thread slept. Judged by processor time, so a slow machine is no alarm.

use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

static BEGUN: AtomicU64 = AtomicU64::new(0);
static NAME: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static NAME_LEN: AtomicUsize = AtomicUsize::new(0);
static DATA: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static DATA_LEN: AtomicUsize = AtomicUsize::new(0);
static DONE: Mutex<bool> = Mutex::new(false);

/// A probe of the observed code starts; `data` outlives the call.
pub fn probe(name: &'static str, data: &[u8]) {
    NAME.store(name.as_ptr() as *mut u8, Relaxed);
    NAME_LEN.store(name.len(), Relaxed);
    DATA.store(data.as_ptr() as *mut u8, Relaxed);
    DATA_LEN.store(data.len(), Relaxed);
    step();
}

pub fn step() {
    // threads may overwrite each other here; all that matters is that it changes
    BEGUN.store(BEGUN.load(Relaxed).wrapping_add(1), Relaxed);
}

/// No more calls: whatever comes now takes as long as it takes.
pub fn done() {
    *DONE.lock().unwrap() = true;
}

/// (processor ticks of the process, does any other thread run?)
fn state() -> Option<(u64, bool)> {
    let field = |s: &str, i: usize| s.rsplit_once(')').and_then(|(_, r)| r.split_whitespace().nth(i).map(|x| x.to_string()));
    let own = std::fs::read_to_string("/proc/self/stat").ok()?;
    let ticks = field(&own, 11)?.parse::<u64>().ok()? + field(&own, 12)?.parse::<u64>().ok()?;
    let me = std::fs::read_link("/proc/thread-self").ok()?.file_name()?.to_owned();
    let mut running = false;
    for e in std::fs::read_dir("/proc/self/task").ok()?.flatten() {
        if e.file_name() == me {
            continue;
        }
        if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
            running |= field(&s, 0).as_deref() != Some("S");
        }
    }
    Some((ticks, running))
}

/// Starts watching. `report` gets the probe and input that never returned, and why.
pub fn start(report: impl Fn(&'static str, &[u8], &str) + Send + 'static) {
    if cfg!(miri) {
        return;
    }
    std::thread::spawn(move || {
        let (mut last, mut ticks0, mut asleep) = (BEGUN.load(Relaxed), 0u64, 0);
        let mut first = true;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let Some((ticks, running)) = state() else { return };
            let now = BEGUN.load(Relaxed);
            if first || now != last {
                (last, ticks0, asleep, first) = (now, ticks, 0, false);
                continue;
            }
            asleep = if running { 0 } else { asleep + 1 };
            let why = if ticks - ticks0 >= 4500 {
                "did not return within 45 seconds of processor time"
            } else if asleep >= 45 {
                "blocks for good: every thread sleeps"
            } else {
                continue;
            };
            let end = DONE.lock().unwrap();
            if *end {
                return;
            }
            // the call is still running (or asleep), so its input is still there
            let (name, data): (&'static str, &[u8]) = unsafe {
                if NAME.load(Relaxed).is_null() {
                    ("", &[])
                } else {
                    (
                        std::str::from_utf8_unchecked(std::slice::from_raw_parts(NAME.load(Relaxed), NAME_LEN.load(Relaxed))),
                        std::slice::from_raw_parts(DATA.load(Relaxed), DATA_LEN.load(Relaxed)),
                    )
                }
            };
            report(name, data, why);
            std::process::exit(1);
        }
    });
}
