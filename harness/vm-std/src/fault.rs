//! Crash points and injected faults: a child process runs one operation under strace, which kills it or fails a call at
//! a chosen system call.  Everything the child touches lies in a scratch directory of the check.

use std::path::Path;
use std::process::{Command, Stdio};

/// The system calls that change (or open) files.
pub const CALLS: &str = "open,openat,creat,write,writev,pwrite64,close,fchmod,chmod,fchmodat,rename,renameat,renameat2,link,linkat,symlink,symlinkat,unlink,unlinkat,ftruncate,truncate,mkdir,mkdirat,rmdir,fsync,fdatasync,copy_file_range,sendfile,flock,fcntl,statx,newfstatat,getdents64,lseek,read";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    /// The operation reported success.
    Ok,
    /// The operation reported an error.
    Err,
    /// The operation panicked.
    Panicked,
    /// Killed by this signal.
    Killed(i32),
    /// Anything else (e.g. the fault hit the start-up of the process).
    Other(i32),
}

pub const OK: i32 = 40;
pub const ERR: i32 = 41;
pub const PANICKED: i32 = 42;

fn end_of(st: std::process::ExitStatus) -> End {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(OK), _) => End::Ok,
        (Some(ERR), _) => End::Err,
        (Some(PANICKED), _) => End::Panicked,
        (Some(c), _) => End::Other(c),
        (None, Some(s)) => End::Killed(s),
        _ => End::Other(-1),
    }
}

pub fn exe() -> std::path::PathBuf {
    std::env::current_exe().expect("current_exe")
}

/// Runs `vm-std child OP ARGS` under strace. Returns the outcome and the trace lines of the operation.
pub fn strace(dir: &Path, tag: &str, op: &[&str], inject: Option<&str>) -> Result<(End, Vec<String>), String> {
    let log = dir.join(format!("trace-{tag}"));
    let mut c = Command::new("strace");
    c.arg("-f").arg("-qq").arg("-o").arg(&log).arg("-e").arg(format!("trace={CALLS}{}", if inject.is_some_and(|i| i.contains("statfs:")) { ",statfs" } else { "" }));
    for i in inject.iter().flat_map(|i| i.split(" and ")) {
        c.arg("-e").arg(format!("inject={i}"));
    }
    c.arg("--").arg(exe()).arg("child").args(op);
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    let st = c.status().map_err(|e| format!("strace: {e}"))?;
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    Ok((end_of(st), text.lines().map(str::to_string).collect()))
}

/// The positions (1-based, in the sequence of traced calls) that belong to the operation: after the `marker` open.
pub fn op_range(trace: &[String], marker: &str) -> Option<(usize, usize)> {
    let calls: Vec<&String> = trace.iter().filter(|l| !l.contains("+++") && !l.contains("--- SIG")).collect();
    let at = calls.iter().position(|l| l.contains(marker))?;
    Some((at + 2, calls.len()))
}

/// The marker the child emits before it starts the operation.
pub const MARKER: &str = "vm-op-begins-here";

/// The name of the call at 1-based position `n`, and how many calls of that name come up to it.
pub fn nth_call(trace: &[String], n: usize) -> Option<(String, usize)> {
    let calls: Vec<&String> = trace.iter().filter(|l| !l.contains("+++") && !l.contains("--- SIG")).collect();
    let name = |l: &str| -> String {
        let l = l.split_once(' ').map(|x| x.1.trim_start()).unwrap_or(l);
        l.split('(').next().unwrap_or("").to_string()
    };
    let nm = name(calls.get(n - 1)?);
    let k = calls[..n].iter().filter(|l| name(l) == nm).count();
    Some((nm, k))
}

/// Runs the child without strace.
pub fn child(op: &[&str]) -> std::io::Result<std::process::Child> {
    Command::new(exe())
        .arg("child")
        .args(op)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
}

pub fn child_wait(op: &[&str], cwd: Option<&Path>) -> (End, String) {
    let mut c = Command::new(exe());
    c.arg("child").args(op).stdin(Stdio::null()).stderr(Stdio::null());
    if let Some(d) = cwd {
        c.current_dir(d);
    }
    match c.output() {
        Ok(o) => (end_of(o.status), String::from_utf8_lossy(&o.stdout).into_owned()),
        Err(e) => (End::Other(-2), e.to_string()),
    }
}
