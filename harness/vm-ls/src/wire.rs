//! An independent implementation of the base protocol's framing, and in-memory byte pipes with hostile chunking.

use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::sync::{Arc, Condvar, Mutex};

use vm_core::{json, Rng, Value};

/// Frames a JSON text the way a client does.
pub fn frame(text: &str) -> Vec<u8> {
    let mut v = format!("Content-Length: {}\r\n\r\n", text.len()).into_bytes();
    v.extend_from_slice(text.as_bytes());
    v
}

/// Strictly parses what the server wrote: every frame must be exactly
/// `Content-Length: N\r\n[other: headers\r\n]\r\n` + N bytes of JSON.
#[derive(Default)]
pub struct StrictParser {
    buf: Vec<u8>,
}

impl StrictParser {
    pub fn push(&mut self, b: &[u8]) {
        self.buf.extend_from_slice(b);
    }
    pub fn pending(&self) -> usize {
        self.buf.len()
    }
    pub fn next(&mut self) -> Result<Option<(Value, String)>, String> {
        let Some(h) = find(&self.buf, b"\r\n\r\n") else {
            if self.buf.len() > 4096 {
                return Err("no header terminator in 4096 bytes".into());
            }
            return Ok(None);
        };
        let head = std::str::from_utf8(&self.buf[..h]).map_err(|e| format!("header not utf-8: {e}"))?.to_string();
        let mut len = None;
        for line in head.split("\r\n") {
            let (k, v) = line.split_once(": ").ok_or_else(|| format!("malformed header line {line:?}"))?;
            if k.eq_ignore_ascii_case("content-length") {
                if len.is_some() {
                    return Err(format!("two lengths in {head:?}"));
                }
                len = Some(v.parse::<usize>().map_err(|e| format!("bad length {v:?}: {e}"))?);
            }
        }
        let len = len.ok_or_else(|| format!("no length in {head:?}"))?;
        if self.buf.len() < h + 4 + len {
            return Ok(None);
        }
        let body: Vec<u8> = self.buf[h + 4..h + 4 + len].to_vec();
        self.buf.drain(..h + 4 + len);
        let text = String::from_utf8(body).map_err(|e| format!("body not utf-8: {e}"))?;
        let v: Value = serde_json::from_str(&text).map_err(|e| format!("body not JSON: {e}: {text:?}"))?;
        Ok(Some((v, text)))
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

// ------------------------------------------------------------------ pipes

struct PipeState {
    buf: VecDeque<u8>,
    closed: bool,
    /// A writer waits while there is more.
    cap: usize,
    /// The reader does not read.
    held: bool,
}
struct PipeShared {
    st: Mutex<PipeState>,
    cv: Condvar,
}

pub struct PipeTx(Arc<PipeShared>);
/// Keeps the reader from reading.
#[derive(Clone)]
pub struct Hold(Arc<PipeShared>);
impl Hold {
    pub fn set(&self, on: bool) {
        self.0.st.lock().unwrap().held = on;
        self.0.cv.notify_all();
    }
}
pub struct PipeRx {
    sh: Arc<PipeShared>,
    chunk: Option<Rng>,
}

/// A byte pipe; the reader sees chunks of random size when `chunk` is given.
pub fn pipe(chunk: Option<Rng>) -> (PipeTx, PipeRx) {
    let sh = Arc::new(PipeShared {
        st: Mutex::new(PipeState { buf: VecDeque::new(), closed: false, cap: usize::MAX, held: false }),
        cv: Condvar::new(),
    });
    (PipeTx(sh.clone()), PipeRx { sh, chunk })
}

impl PipeRx {
    pub fn limit(&self, cap: usize) {
        self.sh.st.lock().unwrap().cap = cap;
    }
    pub fn holder(&self) -> Hold {
        Hold(self.sh.clone())
    }
}

impl PipeTx {
    pub fn close(&self) {
        self.0.st.lock().unwrap().closed = true;
        self.0.cv.notify_all();
    }
}
impl Drop for PipeTx {
    fn drop(&mut self) {
        self.close();
    }
}
impl Write for PipeTx {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut st = self.0.st.lock().unwrap();
        while !st.closed && st.buf.len() >= st.cap {
            st = self.0.cv.wait(st).unwrap();
        }
        if st.closed {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        let b = &b[..b.len().min(st.cap - st.buf.len())];
        st.buf.extend(b);
        self.0.cv.notify_all();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for PipeRx {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if out.is_empty() {
            return Ok(0);
        }
        let mut st = self.sh.st.lock().unwrap();
        while st.buf.is_empty() || st.held {
            if st.closed && st.buf.is_empty() {
                return Ok(0);
            }
            st = self.sh.cv.wait(st).unwrap();
        }
        let mut n = out.len().min(st.buf.len());
        if let Some(r) = &mut self.chunk {
            let cap = match r.below(4) {
                0 => 1,
                1 => r.range(1, 7),
                2 => r.range(1, 64),
                _ => usize::MAX,
            };
            n = n.min(cap);
        }
        for x in out[..n].iter_mut() {
            *x = st.buf.pop_front().unwrap();
        }
        if st.cap != usize::MAX {
            self.sh.cv.notify_all();
        }
        Ok(n)
    }
}

/// A reader over fixed bytes which returns random-sized chunks.
pub struct Chunked {
    pub data: Vec<u8>,
    pub pos: usize,
    pub rng: Rng,
    pub mode: usize,
}
impl Read for Chunked {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.pos;
        if left == 0 || out.is_empty() {
            return Ok(0);
        }
        if self.mode == 4 && self.rng.chance(1, 5) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let cap = match self.mode {
            0 => usize::MAX,
            1 => 1,
            2 => self.rng.range(1, 9),
            _ => self.rng.range(1, 200),
        };
        let n = left.min(out.len()).min(cap);
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn short(v: &[u8]) -> Value {
    let s = String::from_utf8_lossy(&v[..v.len().min(600)]).to_string();
    json!({"bytes": v.len(), "head": s})
}
