//! A loopback HTTP/1.1 server that records requests and answers as the running case says, and
//! the cryptography needed to check AWS signatures.

use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Req {
    pub method: String,
    /// Without the prefix of the case.
    pub path: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    /// The path as sent.
    pub full: String,
}

impl Req {
    pub fn get(&self, k: &str) -> Option<String> {
        self.headers.iter().find(|(a, _)| a == k).map(|(_, v)| String::from_utf8_lossy(v).into_owned())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Answer {
    Status(u16),
    /// The status, after that many milliseconds.
    Slow(u64, u16),
    /// Close the connection without an answer.
    Close,
}

pub type Responder = Box<dyn Fn(&Req) -> Answer + Send + Sync>;

pub struct Case {
    pub id: u64,
    respond: Responder,
    pub log: Mutex<Vec<Req>>,
}

struct Server {
    port: u16,
    cases: Mutex<HashMap<u64, Arc<Case>>>,
    next: AtomicU64,
}

fn server() -> &'static Arc<Server> {
    static S: OnceLock<Arc<Server>> = OnceLock::new();
    S.get_or_init(|| {
        for k in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
            std::env::remove_var(k);
        }
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let s = Arc::new(Server { port: l.local_addr().unwrap().port(), cases: Mutex::new(HashMap::new()), next: AtomicU64::new(1) });
        let s2 = s.clone();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                let s3 = s2.clone();
                std::thread::spawn(move || {
                    let _ = serve(&s3, c);
                });
            }
        });
        s
    })
}

fn serve(s: &Server, c: TcpStream) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut w = c.try_clone()?;
    let mut r = BufReader::new(c);
    loop {
        let mut line = vec![];
        if r.read_until(b'\n', &mut line)? == 0 {
            return Ok(());
        }
        let first = String::from_utf8_lossy(&line).trim_end().to_string();
        let mut it = first.split(' ');
        let (method, full) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
        let mut headers = vec![];
        let mut len = 0;
        loop {
            let mut line = vec![];
            r.read_until(b'\n', &mut line)?;
            while line.last().is_some_and(|b| *b == b'\n' || *b == b'\r') {
                line.pop();
            }
            if line.is_empty() {
                break;
            }
            let i = line.iter().position(|b| *b == b':').unwrap_or(line.len());
            let k = String::from_utf8_lossy(&line[..i]).to_ascii_lowercase();
            let v = line[(i + 1).min(line.len())..].to_vec();
            let v = v.strip_prefix(b" ").unwrap_or(&v).to_vec();
            if k == "content-length" {
                len = String::from_utf8_lossy(&v).trim().parse().unwrap_or(0);
            }
            headers.push((k, v));
        }
        let mut body = vec![0; len];
        r.read_exact(&mut body)?;
        // /c<id>/rest
        let mut seg = full.splitn(3, '/');
        seg.next();
        let id: Option<u64> = seg.next().and_then(|x| x.strip_prefix('c')).and_then(|x| x.parse().ok());
        let path = seg.next().unwrap_or("").to_string();
        let case = id.and_then(|i| s.cases.lock().unwrap().get(&i).cloned());
        let ans = match &case {
            None => Answer::Status(599),
            Some(c) => {
                let q = Req { method, path, headers, body, full };
                let a = (c.respond)(&q);
                c.log.lock().unwrap().push(q);
                a
            }
        };
        let st = match ans {
            Answer::Status(s) => s,
            Answer::Slow(ms, s) => {
                std::thread::sleep(Duration::from_millis(ms));
                s
            }
            Answer::Close => return Ok(()),
        };
        let len = if st == 204 || st == 304 { "" } else { "Content-Length: 0\r\n" };
        w.write_all(format!("HTTP/1.1 {st} X\r\n{len}\r\n").as_bytes())?;
    }
}

/// One case's corner of the server; gone when dropped.
pub struct Corner {
    pub case: Arc<Case>,
}

impl Corner {
    pub fn next_id() -> u64 {
        server().next.fetch_add(1, Ordering::SeqCst)
    }
    /// The endpoint prefix of a case, without a final slash.
    pub fn base(id: u64) -> String {
        format!("http://127.0.0.1:{}/c{id}", server().port)
    }
    pub fn new(id: u64, respond: Responder) -> Self {
        let case = Arc::new(Case { id, respond, log: Mutex::new(vec![]) });
        server().cases.lock().unwrap().insert(id, case.clone());
        Corner { case }
    }
    pub fn log(&self) -> Vec<Req> {
        self.case.log.lock().unwrap().clone()
    }
}

impl Drop for Corner {
    fn drop(&mut self) {
        server().cases.lock().unwrap().remove(&self.case.id);
    }
}

// ---------------------------------------------------------------- SHA-256, HMAC (FIPS 180-4, RFC 2104)
pub fn sha256(data: &[u8]) -> [u8; 32] {
    fn primes(n: usize) -> Vec<u64> {
        let mut v: Vec<u64> = vec![];
        let mut x = 2;
        while v.len() < n {
            if v.iter().all(|p| x % p != 0) {
                v.push(x);
            }
            x += 1;
        }
        v
    }
    // the first 32 bits of the fractional part of the k-th root of p, by integer search
    fn root(p: u64, k: u32) -> u32 {
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        // largest r with (r / 2^32)^k <= p
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            let ok = if k == 2 { m * m <= (p as u128) << 64 } else { m * m * m <= (p as u128) << 96 };
            if ok {
                lo = m
            } else {
                hi = m
            }
        }
        lo as u32
    }
    static K: OnceLock<(Vec<u32>, Vec<u32>)> = OnceLock::new();
    let (h0, k) = K.get_or_init(|| {
        let p = primes(64);
        (p[..8].iter().map(|p| root(*p, 2)).collect(), p.iter().map(|p| root(*p, 3)).collect())
    });
    let mut h: [u32; 8] = h0.clone().try_into().unwrap();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend((data.len() as u64 * 8).to_be_bytes());
    for b in m.chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|x| u32::from_be_bytes(x.try_into().unwrap())).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0; 32];
    for (i, x) in h.iter().enumerate() {
        out[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
    }
    out
}

pub fn hmac(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let i: Vec<u8> = k.iter().map(|x| x ^ 0x36).chain(data.iter().copied()).collect();
    let inner = sha256(&i);
    let o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).chain(inner).collect();
    sha256(&o)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// (key id, date, true if the signature is right for the secret), as AWS computes it.
pub fn sigv4(q: &Req, secret: &str) -> Result<(String, String, bool), String> {
    let a = q.get("authorization").ok_or("no Authorization")?;
    let a = a.strip_prefix("AWS4-HMAC-SHA256 ").ok_or("algorithm")?;
    let mut f = HashMap::new();
    for kv in a.split(',') {
        let (k, v) = kv.trim().split_once('=').ok_or("field")?;
        f.insert(k.to_string(), v.to_string());
    }
    let cred = f.get("Credential").ok_or("no Credential")?;
    let v: Vec<&str> = cred.rsplitn(5, '/').collect();
    let [term, service, region, date, id] = v[..] else { return Err("Credential".into()) };
    if (term, service, region) != ("aws4_request", "sts", "us-east-1") {
        return Err(format!("scope {cred}"));
    }
    let stamp = q.get("x-amz-date").ok_or("no X-Amz-Date")?;
    if !stamp.starts_with(date) || stamp.len() != 16 {
        return Err(format!("X-Amz-Date {stamp} for {date}"));
    }
    let names: Vec<&str> = f.get("SignedHeaders").ok_or("no SignedHeaders")?.split(';').collect();
    for need in ["host", "x-amz-date"] {
        if !names.contains(&need) {
            return Err(format!("{need} is not signed"));
        }
    }
    let (path, query) = q.full.split_once('?').unwrap_or((&q.full, ""));
    let mut c = format!("{}\n{path}\n{query}\n", q.method);
    for n in &names {
        c.push_str(&format!("{n}:{}\n", q.get(n).ok_or(format!("{n} was not sent"))?.trim()));
    }
    c.push_str(&format!("\n{}\n{}", names.join(";"), hex(&sha256(&q.body))));
    let scope = format!("{date}/{region}/{service}/{term}");
    let s = format!("AWS4-HMAC-SHA256\n{stamp}\n{scope}\n{}", hex(&sha256(c.as_bytes())));
    let k = hmac(format!("AWS4{secret}").as_bytes(), date.as_bytes());
    let k = hmac(&k, region.as_bytes());
    let k = hmac(&k, service.as_bytes());
    let k = hmac(&k, term.as_bytes());
    let sig = hex(&hmac(&k, s.as_bytes()));
    Ok((id.to_string(), stamp, Some(&sig) == f.get("Signature")))
}
