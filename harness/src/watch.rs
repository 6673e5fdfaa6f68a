//! Watchdog: a call that does not return within the deadline ends the process
//! after writing the trace so far, the unfinished call marked r = [-8].
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

static BEAT: AtomicU64 = AtomicU64::new(0);

pub struct Current {
    pub path: String,
    pub lines: String,
    pub pending: String,
}
pub static CURRENT: Mutex<Current> =
    Mutex::new(Current { path: String::new(), lines: String::new(), pending: String::new() });

pub fn cur<R>(f: impl FnOnce(&mut Current) -> R) -> R {
    f(&mut CURRENT.lock().unwrap_or_else(|e| e.into_inner()))
}
pub fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}
pub fn start(deadline_ms: u64) {
    std::thread::spawn(move || {
        let mut last = BEAT.load(Ordering::Relaxed);
        let mut still = 0u64;
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let now = BEAT.load(Ordering::Relaxed);
            if now == last {
                still += 100;
            } else {
                still = 0;
                last = now;
            }
            if still >= deadline_ms {
                cur(|c| {
                    if let Ok(mut f) =
                        std::fs::OpenOptions::new().append(true).create(true).open(&c.path)
                    {
                        let _ = f.write_all(c.lines.as_bytes());
                        let _ = f.write_all(c.pending.as_bytes());
                        let _ = f.write_all(b"\n");
                        let _ = f.flush();
                    }
                });
                eprintln!("watchdog: no progress");
                std::process::exit(8);
            }
        }
    });
}
