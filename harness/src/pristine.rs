//! Reference outcomes from a process in which the parser has never run: a helper process forks once per
//! history, so nothing the library may keep in statics or thread-locals can colour the reference.
use crate::mon::Hist;
use crate::rt::{self, Out};
use nmea_parser::NmeaParser;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

/// An outcome as text, without the wording of errors.
pub fn render(o: &Out) -> String {
    match o {
        Out::Ok(p) => format!("{:?}", p),
        Out::Err(k, _) => format!("error {:?}", k),
        Out::Panic(_) => "panic".into(),
    }
}

fn get_u64(r: &mut impl Read) -> Option<u64> { let mut b = [0; 8]; r.read_exact(&mut b).ok()?; Some(u64::from_le_bytes(b)) }
fn get_bytes(r: &mut impl Read) -> Option<Vec<u8>> { let n = get_u64(r)?; let mut v = vec![0; n as usize]; r.read_exact(&mut v).ok()?; Some(v) }
fn put_bytes(v: &mut Vec<u8>, b: &[u8]) { v.extend((b.len() as u64).to_le_bytes()); v.extend(b); }

/// The helper: reads histories, answers with outcomes, runs each in a child of its own.
pub fn serve() -> ! {
    let mut inp = std::io::stdin();
    loop {
        let n = match get_u64(&mut inp) { Some(n) => n, None => std::process::exit(0) };
        let mut h: Hist = vec![];
        for _ in 0..n {
            let now = get_u64(&mut inp).unwrap_or(0) as i64;
            h.push((now, String::from_utf8(get_bytes(&mut inp).unwrap_or_default()).unwrap_or_default()));
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            let mut p = NmeaParser::new();
            let mut v = vec![];
            for (now, s) in &h { rt::set_now(*now); put_bytes(&mut v, render(&rt::call(&mut p, s)).as_bytes()); }
            let _ = std::io::stdout().write_all(&v);
            let _ = std::io::stdout().flush();
            unsafe { _exit(0) }
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        if pid < 0 || st != 0 {
            let mut v = vec![];
            for _ in 0..n { put_bytes(&mut v, b"crash"); }
            let _ = std::io::stdout().write_all(&v);
            let _ = std::io::stdout().flush();
        }
    }
}

struct Helper(Child);
impl Drop for Helper { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
thread_local! { static HELPER: RefCell<Option<Helper>> = const { RefCell::new(None) }; }

/// Outcomes of a history in a process that has not run the parser before; None when no helper can be had.
pub fn outcomes(h: &[(i64, String)]) -> Option<Vec<String>> {
    HELPER.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            let exe = std::env::current_exe().ok()?;
            *c = Some(Helper(Command::new(exe).arg("--serve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().ok()?));
        }
        let ch = &mut c.as_mut().unwrap().0;
        let mut v = (h.len() as u64).to_le_bytes().to_vec();
        for (now, s) in h { v.extend((*now as u64).to_le_bytes()); put_bytes(&mut v, s.as_bytes()); }
        ch.stdin.as_mut()?.write_all(&v).ok()?;
        ch.stdin.as_mut()?.flush().ok()?;
        let out = ch.stdout.as_mut()?;
        let mut got = vec![];
        for _ in h { got.push(String::from_utf8_lossy(&get_bytes(out)?).into_owned()); }
        Some(got)
    })
}
