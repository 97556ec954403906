//! A small HTTP server: one per process, one handler per path prefix, everything logged.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub method: String,
    /// Path and query below the prefix of the site, starting with '/'.
    pub path: String,
}

#[derive(Clone)]
pub enum Fault {
    None,
    /// Close the connection without an answer.
    Refuse,
    /// Announce the whole body and close after so many bytes.
    Cut(usize),
    /// The same with a chunked body.
    CutChunked(usize),
}

#[derive(Clone)]
pub struct Resp {
    pub status: u16,
    pub ctype: &'static str,
    pub body: Vec<u8>,
    pub delay: Duration,
    pub chunked: bool,
    /// Close the connection after the answer.
    pub close: bool,
    pub fault: Fault,
    pub location: Option<String>,
    /// The Content-Encoding.
    pub encoding: Option<&'static str>,
}
impl Resp {
    pub fn ok(body: impl Into<Vec<u8>>) -> Resp {
        Resp { status: 200, ctype: "text/html", body: body.into(), delay: Duration::ZERO, chunked: false, close: false, fault: Fault::None, location: None, encoding: None }
    }
    pub fn status(n: u16) -> Resp {
        Resp { status: n, ..Resp::ok("oops") }
    }
}

pub type Handler = dyn Fn(&Req) -> Resp + Send + Sync;

pub struct Site {
    pub prefix: String,
    pub log: Arc<Mutex<Vec<Req>>>,
}

struct Inner {
    handler: Arc<Handler>,
    log: Arc<Mutex<Vec<Req>>>,
}
fn sites() -> &'static Mutex<HashMap<String, Inner>> {
    static S: OnceLock<Mutex<HashMap<String, Inner>>> = OnceLock::new();
    S.get_or_init(|| Mutex::new(HashMap::new()))
}

fn port() -> u16 {
    static P: OnceLock<u16> = OnceLock::new();
    *P.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("bind");
        let p = l.local_addr().unwrap().port();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let _ = std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
                    let _ = serve(s);
                });
            }
        });
        p
    })
}

fn serve(s: TcpStream) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    let mut rd = BufReader::new(s.try_clone()?);
    let mut wr = s;
    loop {
        let mut line = String::new();
        if rd.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut it = line.split_whitespace();
        let (method, target) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
        let mut length = 0;
        loop {
            let mut h = String::new();
            if rd.read_line(&mut h)? == 0 {
                return Ok(());
            }
            let h = h.trim().to_ascii_lowercase();
            if h.is_empty() {
                break;
            }
            if let Some(n) = h.strip_prefix("content-length:") {
                length = n.trim().parse().unwrap_or(0);
            }
        }
        if length > 0 {
            std::io::copy(&mut (&mut rd).take(length), &mut std::io::sink())?;
        }
        let name = target.trim_start_matches('/').split(['/', '?']).next().unwrap_or("").to_string();
        let path = match target[1.min(target.len())..].find('/') {
            Some(i) => target[i + 1..].to_string(),
            None => String::new(),
        };
        let req = Req { method: method.clone(), path };
        let handler = {
            let m = sites().lock().unwrap();
            m.get(&name).map(|i| {
                i.log.lock().unwrap().push(req.clone());
                i.handler.clone()
            })
        };
        let resp = match handler {
            Some(h) => h(&req),
            None => Resp::status(410),
        };
        if !resp.delay.is_zero() {
            std::thread::sleep(resp.delay);
        }
        let reason = "Answer";
        let mut head = format!("HTTP/1.1 {} {}\r\nContent-Type: {}\r\n", resp.status, reason, resp.ctype);
        if let Some(l) = &resp.location {
            head.push_str(&format!("Location: {}\r\n", l));
        }
        if let Some(e) = resp.encoding {
            head.push_str(&format!("Content-Encoding: {}\r\n", e));
        }
        if resp.close {
            head.push_str("Connection: close\r\n");
        }
        let no_body = method == "HEAD";
        match resp.fault {
            Fault::Refuse => return Ok(()),
            Fault::Cut(n) if !no_body => {
                head.push_str(&format!("Content-Length: {}\r\n\r\n", resp.body.len()));
                wr.write_all(head.as_bytes())?;
                wr.write_all(&resp.body[..n.min(resp.body.len().saturating_sub(1))])?;
                wr.flush()?;
                return Ok(());
            }
            Fault::CutChunked(n) if !no_body => {
                head.push_str("Transfer-Encoding: chunked\r\n\r\n");
                wr.write_all(head.as_bytes())?;
                let n = n.min(resp.body.len());
                if n > 0 {
                    wr.write_all(format!("{:x}\r\n", n).as_bytes())?;
                    wr.write_all(&resp.body[..n])?;
                    wr.write_all(b"\r\n")?;
                }
                wr.flush()?;
                return Ok(());
            }
            _ if no_body || !resp.chunked => {
                head.push_str(&format!("Content-Length: {}\r\n\r\n", resp.body.len()));
                wr.write_all(head.as_bytes())?;
                if !no_body {
                    wr.write_all(&resp.body)?;
                }
            }
            _ => {
                head.push_str("Transfer-Encoding: chunked\r\n\r\n");
                wr.write_all(head.as_bytes())?;
                for c in resp.body.chunks(resp.body.len() / 3 + 1) {
                    wr.write_all(format!("{:x}\r\n", c.len()).as_bytes())?;
                    wr.write_all(c)?;
                    wr.write_all(b"\r\n")?;
                }
                wr.write_all(b"0\r\n\r\n")?;
            }
        }
        wr.flush()?;
        if resp.close {
            return Ok(());
        }
    }
}

impl Site {
    pub fn new(handler: impl Fn(&Req) -> Resp + Send + Sync + 'static) -> Site {
        Site::with_prefix_len(0, handler)
    }
    /// The prefix is padded to at least `len` characters.
    pub fn with_prefix_len(len: usize, handler: impl Fn(&Req) -> Resp + Send + Sync + 'static) -> Site {
        static N: AtomicU64 = AtomicU64::new(0);
        let mut prefix = format!("s{}", N.fetch_add(1, Ordering::Relaxed));
        while prefix.len() < len {
            prefix.push('p');
        }
        let log = Arc::new(Mutex::new(Vec::new()));
        sites().lock().unwrap().insert(prefix.clone(), Inner { handler: Arc::new(handler), log: log.clone() });
        Site { prefix, log }
    }
    /// The location of a path (starting with '/') of this site.
    pub fn url(&self, path: &str) -> String {
        format!("http://127.0.0.1:{}/{}{}", port(), self.prefix, path)
    }
    pub fn requests(&self) -> Vec<Req> {
        self.log.lock().unwrap().clone()
    }
    pub fn clear(&self) {
        self.log.lock().unwrap().clear()
    }
}
impl Drop for Site {
    fn drop(&mut self) {
        sites().lock().unwrap().remove(&self.prefix);
    }
}
/// A location where nothing listens.
pub fn dead_url(path: &str) -> String {
    format!("http://127.0.0.1:1{}", path)
}
