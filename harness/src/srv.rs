//! The server process and a client speaking its protocol.
use bson::{Bson, Document};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Server { child: Child, pub port: u16, pub path: PathBuf }
impl Server {
    /// `nofile`, `mem`: limits on open files and address space
    pub fn start(path: &Path, nofile: Option<u64>, mem: Option<u64>) -> Result<Server, String> {
        let bin = crate::rec::verif_dir().join("target/repo/debug/polodb");
        for _ in 0..5 {
            let port = TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).map_err(|e| e.to_string())?.port();
            let mut c = Command::new(&bin);
            c.args(["serve", "--host", "127.0.0.1", "--port", &port.to_string(), "--path"]).arg(path).env("RUST_LOG", "off").env("MALLOC_ARENA_MAX", "2").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
            unsafe { c.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                for (what, n) in [(libc::RLIMIT_NOFILE, nofile), (libc::RLIMIT_AS, mem)] { if let Some(n) = n { libc::setrlimit(what, &libc::rlimit { rlim_cur: n, rlim_max: n }); } }
                Ok(())
            }) };
            let mut s = Server { child: c.spawn().map_err(|e| format!("{}: {e}", bin.display()))?, port, path: path.to_path_buf() };
            let t = Instant::now();
            while t.elapsed() < Duration::from_secs(20) {
                if !s.alive() { break; }
                if let Ok(mut k) = s.connect() { if k.command(bson::doc! {"ping": 1}).is_ok() { return Ok(s); } }
                std::thread::sleep(Duration::from_millis(10));
            }
        }
        Err("the server does not start".into())
    }
    pub fn alive(&mut self) -> bool { matches!(self.child.try_wait(), Ok(None)) }
    pub fn connect(&self) -> Result<Conn, String> {
        let s = TcpStream::connect(("127.0.0.1", self.port)).map_err(|e| e.to_string())?;
        s.set_nodelay(true).ok();
        s.set_read_timeout(Some(Duration::from_secs(10))).ok();
        Ok(Conn { s, next: 100 })
    }
    pub fn stop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); }
}
impl Drop for Server { fn drop(&mut self) { self.stop(); } }

pub struct Conn { s: TcpStream, next: i32 }
#[derive(Clone, Debug)]
pub struct Msg { pub flags: u32, pub doc: Document, pub seqs: Vec<(String, Vec<Document>)> }
impl Msg {
    pub fn of(doc: Document) -> Msg { Msg { flags: 0, doc, seqs: vec![] } }
    pub fn body(&self) -> Vec<u8> {
        let mut b = self.flags.to_le_bytes().to_vec();
        b.push(0);
        b.extend(bson::to_vec(&self.doc).unwrap());
        for (id, docs) in &self.seqs {
            let mut s = id.as_bytes().to_vec();
            s.push(0);
            for d in docs { s.extend(bson::to_vec(d).unwrap()); }
            b.push(1);
            b.extend((s.len() as i32 + 4).to_le_bytes());
            b.extend(s);
        }
        b
    }
    pub fn bytes(&self, id: i32) -> Vec<u8> { frame(id, 2013, &self.body()) }
}
pub fn frame(id: i32, op: i32, body: &[u8]) -> Vec<u8> {
    let mut m = vec![];
    for x in [16 + body.len() as i32, id, 0, op] { m.extend(x.to_le_bytes()); }
    m.extend(body);
    m
}
#[derive(Clone, Debug)]
pub struct Reply { pub response_to: i32, pub doc: Document }
impl Reply {
    pub fn ok(&self) -> Option<bool> { self.doc.get("ok").and_then(num).map(|n| n == 1) }
    pub fn n(&self, k: &str) -> Option<i64> { self.doc.get(k).and_then(num) }
}
pub fn num(b: &Bson) -> Option<i64> { match b { Bson::Int32(i) => Some(*i as i64), Bson::Int64(i) => Some(*i), Bson::Double(d) if d.fract() == 0.0 => Some(*d as i64), _ => None } }
pub fn parse(b: &[u8]) -> Result<(Reply, usize), String> {
    let word = |i: usize| b.get(i..i + 4).map(|x| i32::from_le_bytes(x.try_into().unwrap())).ok_or("short message".to_string());
    let (len, op) = (word(0)?, word(12)?);
    if op != 2013 { return Err(format!("opcode {op}")); }
    if len < 26 || len as usize > b.len() { return Err(format!("length {len} of {}", b.len())); }
    let flags = word(16)?;
    if flags != 0 { return Err(format!("flags {flags:#x} in a reply which has no checksum and no successor")); }
    if b[20] != 0 { return Err(format!("section of kind {}", b[20])); }
    let d = &b[21..len as usize];
    if i32::from_le_bytes(d[..4].try_into().unwrap()) as usize != d.len() { return Err("the document does not fill the message".into()); }
    Ok((Reply { response_to: word(8)?, doc: bson::from_slice(d).map_err(|e| format!("reply document: {e}"))? }, len as usize))
}
impl Conn {
    pub fn id(&mut self) -> i32 { self.next += 1; self.next }
    pub fn raw(&mut self, b: &[u8]) -> Result<(), String> { self.s.write_all(b).map_err(|e| format!("the connection is gone: {e}")) }
    pub fn send(&mut self, m: &Msg) -> Result<i32, String> { let id = self.id(); self.raw(&m.bytes(id))?; Ok(id) }
    pub fn recv(&mut self) -> Result<Reply, String> {
        // the server writes a reply in pieces: without this, each waits for a delayed acknowledgement
        unsafe { libc::setsockopt(self.s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &1i32 as *const _ as _, 4); }
        let mut h = vec![0; 4];
        self.s.read_exact(&mut h).map_err(|e| if e.kind() == std::io::ErrorKind::WouldBlock { "no reply within 10 s".to_string() } else { format!("no reply, the connection is closed ({})", e.kind()) })?;
        let n = i32::from_le_bytes(h[..4].try_into().unwrap());
        if !(16..64 << 20).contains(&n) { return Err(format!("reply of length {n}")); }
        h.resize(n as usize, 0);
        self.s.read_exact(&mut h[4..]).map_err(|e| format!("incomplete reply: {e}"))?;
        parse(&h).map(|x| x.0)
    }
    pub fn ask(&mut self, m: &Msg) -> Result<Reply, String> {
        let id = self.send(m)?;
        let r = self.recv()?;
        if r.response_to != id { return Err(format!("the reply names request {} instead of {id}: {}", r.response_to, r.doc)); }
        Ok(r)
    }
    pub fn command(&mut self, d: Document) -> Result<Reply, String> { self.ask(&Msg::of(d)) }
    /// nothing more will be sent: all that still comes
    pub fn finish(mut self) -> Result<Vec<u8>, String> {
        let _ = self.s.shutdown(Shutdown::Write);
        let mut v = vec![];
        match self.s.read_to_end(&mut v) { Ok(_) => Ok(v), Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Err("neither answered nor closed within 10 s".into()), Err(_) => Ok(v) }
    }
}
