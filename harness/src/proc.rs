//! A process that answers questions over its standard input and output.
use crate::pbt::verif_root;
use std::io::{BufRead, BufReader, BufWriter, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A driver process.
pub struct Driver {
    child: Child,
    clock: Arc<Clock>,
    to: BufWriter<ChildStdin>,
    from: BufReader<ChildStdout>,
}
/// When the driver last was asked something it has not answered yet.
struct Clock {
    asked: Mutex<Option<Instant>>,
    over: AtomicBool,
    late: AtomicBool,
}
/// An answer that takes this long counts as a hang (the slowest take seconds).
fn answer_limit() -> Duration {
    Duration::from_secs(std::env::var("PBT_ANSWER_S").ok().and_then(|s| s.parse().ok()).unwrap_or(100))
}
impl Drop for Driver {
    fn drop(&mut self) {
        self.clock.over.store(true, Ordering::SeqCst);
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Driver {
    pub fn spawn(name: &str, mut c: Command) -> Driver {
        let log = std::fs::File::create(verif_root().join(format!("work/driver-{name}-{:?}.log", std::thread::current().id()).replace(['(', ')'], "-"))).unwrap();
        unsafe {
            use std::os::unix::process::CommandExt;
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(log).spawn().unwrap_or_else(|e| {
            eprintln!("cannot start the {name} driver: {e}");
            std::process::exit(2)
        });
        let to = BufWriter::with_capacity(1 << 18, child.stdin.take().unwrap());
        let from = BufReader::with_capacity(1 << 18, child.stdout.take().unwrap());
        let clock = Arc::new(Clock { asked: Mutex::new(None), over: AtomicBool::new(false), late: AtomicBool::new(false) });
        let (c, pid) = (clock.clone(), child.id() as i32);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if c.over.load(Ordering::SeqCst) {
                return;
            }
            if c.asked.lock().unwrap().is_some_and(|t| t.elapsed() > answer_limit()) {
                c.late.store(true, Ordering::SeqCst);
                unsafe { libc::kill(pid, libc::SIGKILL) };
                return;
            }
        });
        Driver { child, clock, to, from }
    }
    pub fn gone(&mut self) -> String {
        use std::os::unix::process::ExitStatusExt;
        for _ in 0..50 {
            if let Ok(Some(s)) = self.child.try_wait() {
                if self.clock.late.load(Ordering::SeqCst) {
                    return format!("no answer within {} s", answer_limit().as_secs());
                }
                if s.signal() == Some(libc::SIGKILL) {
                    eprintln!("a driver process was killed from outside");
                    std::process::exit(2);
                }
                return match s.signal() {
                    Some(k) => format!("the process was killed by signal {k}"),
                    None => format!("the process ended with status {:?}", s.code()),
                };
            }
            std::thread::sleep(std::time::Duration::from_millis(100));
        }
        "the process stopped answering".into()
    }
    pub fn pid(&self) -> u32 {
        self.child.id()
    }
    pub fn send(&mut self, m: &[u8]) -> Result<(), String> {
        *self.clock.asked.lock().unwrap() = Some(Instant::now());
        if self.to.write_all(m).and_then(|_| self.to.flush()).is_err() {
            return Err(self.gone());
        }
        Ok(())
    }
    pub fn get(&mut self, n: usize) -> Result<Vec<u8>, String> {
        let mut b = vec![0; n];
        if self.from.read_exact(&mut b).is_err() {
            return Err(self.gone());
        }
        Ok(b)
    }
    pub fn line(&mut self) -> Result<String, String> {
        self.asked();
        let mut s = String::new();
        if self.from.read_line(&mut s).is_err() || !s.ends_with('\n') {
            return Err(self.gone());
        }
        self.idle();
        Ok(s)
    }
    /// The clock runs while an answer is awaited.
    pub fn asked(&self) {
        *self.clock.asked.lock().unwrap() = Some(Instant::now());
    }
    pub fn idle(&self) {
        *self.clock.asked.lock().unwrap() = None;
    }
}
