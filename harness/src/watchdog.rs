//! Notices a case that does not come back. The worker then exits with status 97, and the
//! supervisor runs that case again on its own, with a limit on CPU time.
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CURRENT: Mutex<Vec<Option<(Instant, String)>>> = Mutex::new(Vec::new());
pub const LIMIT: Duration = Duration::from_secs(100);

pub fn begin(t: usize, id: &str, sub: &str, i: u64) {
    let mut c = CURRENT.lock().unwrap();
    if c.len() <= t {
        c.resize(t + 1, None);
    }
    c[t] = Some((Instant::now(), format!("{id}/{sub} case {i}")));
}

pub fn end(t: usize) {
    CURRENT.lock().unwrap()[t] = None;
}

pub fn start() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = CURRENT.lock().unwrap();
        for x in c.iter().flatten() {
            if x.0.elapsed() > LIMIT {
                eprintln!("watchdog: {} has been running for {:?}", x.1, x.0.elapsed());
                std::process::exit(97);
            }
        }
    });
}
