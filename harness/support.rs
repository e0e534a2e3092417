// Support code for the generated harness (included as `mod support`).
#![allow(unused)]
pub use std::ffi::{OsStr, OsString};
pub use std::num::{NonZeroI16, NonZeroU8};
pub use std::path::PathBuf;
use std::fmt;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::str::FromStr;

/// Items whose names fields also have (definitions may use them in `default_value_t`).
pub fn jobs() -> u8 { 42 }
pub fn level() -> u8 { 7 }
pub fn grp() -> String { "g".to_string() }
pub fn subc() -> bool { true }

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Canonical bytes of a parsed value.
pub trait Val {
    fn b(&self) -> Vec<u8>;
}
impl Val for String { fn b(&self) -> Vec<u8> { self.clone().into_bytes() } }
impl Val for OsString { fn b(&self) -> Vec<u8> { self.as_bytes().to_vec() } }
impl Val for PathBuf { fn b(&self) -> Vec<u8> { self.as_os_str().as_bytes().to_vec() } }
macro_rules! disp { ($($t:ty)*) => {$(impl Val for $t { fn b(&self) -> Vec<u8> { self.to_string().into_bytes() } })*} }
disp!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize char bool NonZeroU8 NonZeroI16);
impl Val for Box<OsStr> { fn b(&self) -> Vec<u8> { self.as_bytes().to_vec() } }

/// A type with a fallible `FromStr`.
#[derive(Clone, Debug, PartialEq)]
pub struct Tag(pub String);
impl FromStr for Tag {
    type Err = &'static str;
    fn from_str(s: &str) -> Result<Self, &'static str> {
        effects::conv(s.as_bytes());
        calls::nest();
        if s.is_empty() || s.starts_with('!') { Err("not a tag") } else { Ok(Tag(format!("T:{s}"))) }
    }
}
impl fmt::Display for Tag {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0[2..]) }
}
impl Val for Tag { fn b(&self) -> Vec<u8> { self.0.clone().into_bytes() } }

/// A type with a fallible `TryFrom<&OsStr>` - and a `FromStr` that must not be used.
#[derive(Clone, Debug, PartialEq)]
pub struct Raw(pub Vec<u8>);
impl<'a> TryFrom<&'a OsStr> for Raw {
    type Error = String;
    fn try_from(s: &'a OsStr) -> Result<Self, String> {
        effects::conv(s.as_bytes());
        calls::nest();
        if s.as_bytes().contains(&b'!') { return Err("not raw".to_string()) }
        let mut v = b"R:".to_vec();
        v.extend_from_slice(s.as_bytes());
        Ok(Raw(v))
    }
}
impl FromStr for Raw {
    type Err = &'static str;
    fn from_str(_: &str) -> Result<Self, &'static str> { Err("wrong conversion") }
}
impl Val for Raw { fn b(&self) -> Vec<u8> { self.0.clone() } }

/// A type with a fallible `FromStr` and its own type of error.
#[derive(Clone, Debug, PartialEq)]
pub struct Ver(pub String);
#[derive(Debug)]
pub struct VerError(String);
impl fmt::Display for VerError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "bad version: {}", self.0) }
}
impl std::error::Error for VerError {}
impl FromStr for Ver {
    type Err = VerError;
    fn from_str(s: &str) -> Result<Self, VerError> {
        effects::conv(s.as_bytes());
        calls::nest();
        match s.strip_prefix('v') { Some(n) if !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()) => Ok(Ver(n.into())), _ => Err(VerError(s.into())) }
    }
}
impl Val for Ver { fn b(&self) -> Vec<u8> { self.0.clone().into_bytes() } }

/// Strings whose conversion is noticed.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct LStr(pub String);
impl FromStr for LStr {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, std::convert::Infallible> { effects::conv(s.as_bytes()); Ok(LStr(s.into())) }
}
impl From<String> for LStr { fn from(s: String) -> Self { LStr(s) } }
impl fmt::Display for LStr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl Val for LStr { fn b(&self) -> Vec<u8> { self.0.clone().into_bytes() } }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct LOs(pub OsString);
impl From<&OsStr> for LOs { fn from(s: &OsStr) -> Self { effects::conv(s.as_bytes()); LOs(s.into()) } }
impl Val for LOs { fn b(&self) -> Vec<u8> { self.0.as_bytes().to_vec() } }

/// What user code has run during a call: conversions of values (their text) and default expressions (their field).
pub mod effects {
    use std::cell::RefCell;
    thread_local! { static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
    pub fn conv(s: &[u8]) { LOG.with_borrow_mut(|l| if l.len() < 5000 { l.push(format!("c{}", super::hex(s))) }) }
    pub fn dflt<T>(field: &str, v: T) -> T { LOG.with_borrow_mut(|l| if l.len() < 5000 { l.push(format!("d{}", super::hex(field.as_bytes()))) }); v }
    pub fn take() -> String { LOG.take().join(",") }
}
pub use effects::dflt;

/// Which error type the source of an error really is.
fn class(s: &(dyn std::error::Error + 'static)) -> &'static str {
    if s.is::<std::num::ParseIntError>() { "int" } else if s.is::<std::str::Utf8Error>() { "utf8" } else if s.is::<std::char::ParseCharError>() { "char" }
    else if s.is::<std::str::ParseBoolError>() { "bool" } else if s.is::<VerError>() { "ver" } else { "text" }
}

/// A type without any conversion from text.
#[derive(Clone, Debug)]
pub struct Opaque;

pub trait Dump { fn dump(&self, o: &mut String); }

fn one<T: Val>(o: &mut String, v: &T) { o.push('"'); o.push_str(&hex(&v.b())); o.push('"'); }
pub fn d_bool(o: &mut String, v: &bool) { o.push_str("[\"V\",["); one(o, v); o.push_str("]]"); }
pub fn d_value<T: Val>(o: &mut String, v: &T) { o.push_str("[\"V\",["); one(o, v); o.push_str("]]"); }
pub fn d_option<T: Val>(o: &mut String, v: &Option<T>) {
    match v { None => o.push_str("[\"N\",[]]"), Some(v) => d_value(o, v) }
}
pub fn d_optopt<T: Val>(o: &mut String, v: &Option<Option<T>>) {
    match v { None => o.push_str("[\"N\",[]]"), Some(None) => o.push_str("[\"S\",[]]"), Some(Some(v)) => d_value(o, v) }
}
pub fn d_vec<T: Val>(o: &mut String, v: &Vec<T>) {
    o.push_str("[\"L\",[");
    for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } one(o, x); }
    o.push_str("]]");
}
pub fn d_optvec<T: Val>(o: &mut String, v: &Option<Vec<T>>) {
    match v { None => o.push_str("[\"N\",[]]"), Some(v) => d_vec(o, v) }
}

pub fn run<P: palc::Parser + Dump>(argv: Vec<OsString>) -> String {
    // a call of render_long_help(argv[0])
    if let [a, m] = &argv[..] && m == "\u{1}render_long_help" && let Some(a) = a.to_str() {
        return match long_help::<P>(a.to_owned()) { Some(h) => format!("HELP\t{}\tsame", hex(h.as_bytes())), None => "OK\t".into() };
    }
    let asks: Option<String> = match &argv[..] { [a, h] if h == "--help" => a.to_str().map(|a| a.to_owned()), _ => None };
    match P::try_parse_from(calls::Reads(argv.into_iter())) {
        Ok(v) => {
            let mut o = String::from("OK\t");
            v.dump(&mut o);
            o
        }
        Err(e) => {
            let msg = e.to_string();
            let dbg_ok = format!("{e:?}").starts_with("Error");
            let src = match std::error::Error::source(&e) { Some(s) => format!("{}:{}", class(s), hex(s.to_string().as_bytes())), None => "-".into() };
            match e.try_into_help() {
                Ok(h) => format!("HELP\t{}\t{}", hex(h.as_bytes()), if h == msg && asks.is_none_or(|a| long_help::<P>(a).is_none_or(|l| l == h)) { "same" } else { "differs" }),
                Err(e2) => format!("ERR\t{}\t{}\t{}", hex(msg.as_bytes()), src, if e2.to_string() == msg && dbg_ok && custom_ok(&msg) { "same" } else { "differs" }),
            }
        }
    }
}

/// A user's own error says what the user said, and is no help text.
fn custom_ok(msg: &str) -> bool {
    let c = palc::Error::custom(msg);
    c.to_string() == msg && c.try_into_help().is_err_and(|c| c.to_string() == msg)
}

#[cfg(feature = "help")]
fn long_help<P: palc::Parser>(argv0: String) -> Option<String> { Some(P::render_long_help(argv0)) }
#[cfg(not(feature = "help"))]
fn long_help<P: palc::Parser>(_: String) -> Option<String> { None }

/// The whole process is one call of `parse` (PALC_D: the definition); what follows it is user code.
pub fn process<P: palc::Parser + Dump>() {
    let v = P::parse();
    let mut o = String::from("OK\t");
    v.dump(&mut o);
    println!("{o}");
}

/// The result must not depend on how argv is supplied.
pub fn routes<P: palc::Parser + Dump>(argv: &[OsString]) -> Vec<String> {
    fn show<P: palc::Parser + Dump>(r: palc::Result<P>) -> String {
        match r {
            Ok(v) => { let mut o = String::from("OK "); v.dump(&mut o); o }
            Err(e) => format!("ERR {e}"),
        }
    }
    let mut out = vec![
        show(P::try_parse_from(argv.to_vec())),
        show(P::try_parse_from(argv)),
        show(P::try_parse_from(argv.iter().map(|a| a.as_os_str()))),
        show(P::try_parse_from(argv.iter().map(PathBuf::from))),
        show(P::try_parse_from(argv.iter().cloned().collect::<std::collections::VecDeque<_>>())),
        show(P::try_parse_from(std::iter::empty::<OsString>().chain(argv.iter().cloned()).take_while(|_| true))),
    ];
    if let Some(strs) = argv.iter().map(|a| a.to_str()).collect::<Option<Vec<&str>>>() {
        if let [a, "--help"] = strs[..] && let Some(h) = P::try_parse_from(&strs).err().and_then(|e| e.try_into_help().ok()) {
            out.push(format!("ERR {}", long_help::<P>(a.to_owned()).unwrap_or(h)));
        }
        out.push(show(P::try_parse_from(strs.clone())));
        out.push(show(P::try_parse_from(strs.iter().map(|s| s.to_string()))));
    }
    out
}

/// Protocol: one case per line `def \t hex,hex,...` ("." = an empty element, "" = no element at all);
/// one result line per case.  A watchdog turns a case that does not terminate into an abort.
pub fn routes_line<P: palc::Parser + Dump>(argv: Vec<OsString>) -> String {
    let o = routes::<P>(&argv);
    let same = o.iter().all(|x| *x == o[0]);
    format!("{}\t{}", if same { "SAME" } else { "ROUTES-DIFFER" }, if same { String::new() } else { hex(o.join("\n").as_bytes()) })
}
/// Several calls at once: interleaved element by element between threads, or begun inside one another.
pub mod calls {
    use super::*;
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::sync::{Arc, Condvar, Mutex};
    type Dispatch = fn(usize, Vec<OsString>) -> String;

    /// Who may read the next element: the front of the queue; only one call runs at a time.
    struct Turns { queue: VecDeque<usize>, done: Vec<bool>, running: Option<usize> }
    struct Nested { queue: VecDeque<usize>, begun: Vec<bool>, done: Vec<bool>, results: Vec<String>, cases: Vec<(usize, Vec<OsString>)>, dispatch: Dispatch }
    enum Ctx { Thread(usize, Arc<(Mutex<Turns>, Condvar)>), Nested(Nested, Vec<usize>) }
    thread_local! { static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) }; }

    /// argv, asking for a turn before each element (and before the end) is read.
    pub struct Reads(pub std::vec::IntoIter<OsString>);
    impl Iterator for Reads {
        type Item = OsString;
        fn next(&mut self) -> Option<OsString> { turn(); self.0.next() }
    }

    fn turn() {
        nest();
        let shared = CTX.with_borrow_mut(|c| match c {
            Some(Ctx::Thread(me, t)) => Some((*me, t.clone())),
            Some(Ctx::Nested(n, stack)) => { if n.queue.front() == stack.last() { n.queue.pop_front(); } None }
            None => None,
        });
        if let Some((me, t)) = shared {
            let mut s = t.0.lock().unwrap();
            if s.running == Some(me) { s.running = None; t.1.notify_all(); }
            loop {
                while s.queue.front().is_some_and(|&h| s.done[h]) { s.queue.pop_front(); }
                if s.running.is_none() {
                    if s.queue.front() == Some(&me) { s.queue.pop_front(); break }
                    if !s.queue.contains(&me) { break }
                }
                s = t.1.wait(s).unwrap();
            }
            s.running = Some(me);
        }
    }

    /// Begin the calls that are due now, inside the present one.
    pub fn nest() {
        loop {
            let due = CTX.with_borrow_mut(|c| match c {
                Some(Ctx::Nested(n, stack)) => {
                    while n.queue.front().is_some_and(|&h| n.done[h]) { n.queue.pop_front(); }
                    match n.queue.front() {
                        Some(&h) if !n.begun[h] => { n.begun[h] = true; stack.push(h); Some((h, n.cases[h].clone(), n.dispatch)) }
                        _ => None,
                    }
                }
                _ => None,
            });
            let Some((h, (d, argv), f)) = due else { return };
            let r = f(d, argv);
            CTX.with_borrow_mut(|c| if let Some(Ctx::Nested(n, stack)) = c { n.results[h] = r; n.done[h] = true; stack.pop(); });
        }
    }

    /// `T|N \t 0,1,0,.. \t def \t argv \t def \t argv ..` -> the results, in order
    pub fn line(line: &str, dispatch: Dispatch) -> String {
        let p: Vec<&str> = line.split('\t').collect();
        let queue: VecDeque<usize> = p[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let cases: Vec<(usize, Vec<OsString>)> = p[2..].chunks(2).map(|c| (c[0].parse().unwrap(), argv_of(c[1]))).collect();
        let n = cases.len();
        let results = if p[0] == "T" {
            let t = Arc::new((Mutex::new(Turns { queue, done: vec![false; n], running: None }), Condvar::new()));
            let hs: Vec<_> = cases.into_iter().enumerate().map(|(i, (d, a))| {
                let t = t.clone();
                std::thread::spawn(move || {
                    CTX.set(Some(Ctx::Thread(i, t.clone())));
                    let r = dispatch(d, a);
                    let mut s = t.0.lock().unwrap();
                    s.done[i] = true;
                    if s.running == Some(i) { s.running = None; }
                    t.1.notify_all();
                    r
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "PANIC".into())).collect()
        } else if p[0] == "P" {       // all at once, nobody waits
            let hs: Vec<_> = cases.into_iter().map(|(d, a)| std::thread::spawn(move || dispatch(d, a))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "PANIC".into())).collect()
        } else {
            CTX.set(Some(Ctx::Nested(Nested { queue, begun: vec![false; n], done: vec![false; n], results: vec![String::new(); n], cases, dispatch }, vec![])));
            nest();
            match CTX.take() { Some(Ctx::Nested(n, _)) => n.results, _ => vec![] }
        };
        results.iter().map(|r| hex(r.as_bytes())).collect::<Vec<_>>().join(",")
    }
}

fn argv_of(a: &str) -> Vec<OsString> {
    if a.is_empty() { return vec![] }
    a.split(',').map(|h| OsString::from_vec(if h == "." { vec![] } else { unhex(h) })).collect()
}
pub fn main_loop(dispatch: fn(usize, Vec<OsString>) -> String) {
    use std::io::{BufRead, Write};
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    std::thread::spawn(|| {
        let (mut last, mut stuck) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let n = N.load(Ordering::SeqCst);
            if n % 2 == 1 && n == last { stuck += 1 } else { stuck = 0 }
            last = n;
            if stuck >= 20 {
                eprintln!("HANG");
                std::process::exit(97);
            }
        }
    });
    let ev = std::env::var_os("PALC_EFFECTS").is_some();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let (d, a) = line.split_once('\t').unwrap();
        N.fetch_add(1, Ordering::SeqCst);
        effects::take();
        let r = match d.parse() { Ok(d) if ev => dispatch(d, argv_of(a)) + "\u{1e}" + &effects::take(), Ok(d) => dispatch(d, argv_of(a)), Err(_) => calls::line(&line, dispatch) };
        N.fetch_add(1, Ordering::SeqCst);
        out.write_all(r.as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
