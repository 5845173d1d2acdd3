//! Processes that wait forever.
//!
//! A case that runs forever exceeds its work budget (`cov.rs`); one whose threads all wait for each other does not.
//! The parent looks at its worker every second: if for 20 times in a row all threads of the worker, and of
//! processes that it has started, are asleep and have not used the CPU in between, nothing can wake them up. A slow or busy
//! machine does not look like that: threads that could go on are runnable, not asleep.
use crate::cov;
use std::collections::BTreeMap;
use std::io::{self, Read};
use std::process::{Command, Output, Stdio};
use std::sync::atomic::Ordering;
use std::sync::mpsc;
use std::time::Duration;

const SAMPLES: u32 = 20;

extern "C" {
    fn kill(pid: i32, signal: i32) -> i32;
    fn signal(signal: i32, handler: extern "C" fn(i32)) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}
const SIGUSR1: i32 = 10;
const SIGKILL: i32 = 9;

/// Called in a signal handler: no allocation
extern "C" fn stuck(_: i32) {
    let mut line = *b"HANG 00000000000000000000\n";
    let mut v = cov::CASE.load(Ordering::Relaxed);
    for b in line[5..25].iter_mut().rev() {
        *b = b'0' + (v % 10) as u8;
        v /= 10
    }
    unsafe {
        write(2, line.as_ptr(), line.len());
        _exit(cov::HANG_EXIT)
    }
}

/// In a worker
pub fn install() {
    unsafe {
        signal(SIGUSR1, stuck);
    }
}

/// The CPU time of each thread of a process and of those that it has started, if all of them are asleep
fn asleep(pid: u32, times: &mut BTreeMap<u32, String>) -> bool {
    let tasks = match std::fs::read_dir(format!("/proc/{}/task", pid)) {
        Ok(t) => t,
        Err(_) => return false,
    };
    for t in tasks {
        let tid: u32 = match t.ok().and_then(|t| t.file_name().to_str().and_then(|s| s.parse().ok())) {
            Some(t) => t,
            None => return false,
        };
        let stat = match std::fs::read_to_string(format!("/proc/{}/task/{}/stat", pid, tid)) {
            Ok(s) => s,
            Err(_) => return false,
        };
        // After the name, which can have spaces and parentheses
        let fields: Vec<&str> = stat[stat.rfind(')').unwrap_or(0)..].split_ascii_whitespace().collect();
        if fields.get(1) != Some(&"S") || fields.len() < 14 {
            return false;
        }
        times.insert(tid, format!("{} {}", fields[12], fields[13]));
    }
    // The processes that it has started: without them, it cannot be told whether anything goes on
    for p in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
        let child: u32 = match p.file_name().to_str().and_then(|s| s.parse().ok()) {
            Some(p) => p,
            None => continue,
        };
        let stat = match std::fs::read_to_string(format!("/proc/{}/stat", child)) {
            Ok(s) => s,
            Err(_) => continue,
        };
        let parent = stat[stat.rfind(')').unwrap_or(0)..].split_ascii_whitespace().nth(2).and_then(|s| s.parse().ok());
        if parent == Some(pid) && !asleep(child, times) {
            return false;
        }
    }
    true
}

/// As `Command::output`; a worker that is stuck exits with `HANG_EXIT`
pub fn output(command: &mut Command) -> io::Result<Output> {
    let mut child = command.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
    let pid = child.id();
    let (mut o, mut e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let (ended, end) = mpsc::channel::<()>();
    std::thread::scope(|s| {
        let stdout = s.spawn(move || {
            let mut v = vec![];
            let _ = o.read_to_end(&mut v);
            v
        });
        let stderr = s.spawn(move || {
            let mut v = vec![];
            let _ = e.read_to_end(&mut v);
            v
        });
        let watcher = s.spawn(move || {
            let mut before = BTreeMap::new();
            let mut same = 0;
            while let Err(mpsc::RecvTimeoutError::Timeout) = end.recv_timeout(Duration::from_secs(1)) {
                let mut now = BTreeMap::new();
                let all = asleep(pid, &mut now);
                same = if all && now == before { same + 1 } else { 0 };
                before = now;
                if same == SAMPLES {
                    unsafe { kill(pid as i32, SIGUSR1) };
                }
                if same == SAMPLES + 10 {
                    unsafe { kill(pid as i32, SIGKILL) };
                }
            }
        });
        let status = child.wait();
        let _ = ended.send(());
        let _ = watcher.join();
        Ok(Output { status: status?, stdout: stdout.join().unwrap_or_default(), stderr: stderr.join().unwrap_or_default() })
    })
}
