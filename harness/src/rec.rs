//! Records every call of the library as one event of a program, one JSON line per program.
use std::{
    cell::Cell,
    fs::File,
    io::{BufWriter, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
};

/// JSON encoding of a value, as the specification reads it.
pub trait J {
    fn j(&self, o: &mut String);
    fn js(&self) -> String {
        let mut s = String::new();
        self.j(&mut s);
        s
    }
}

thread_local! {
    static UNSUP: Cell<bool> = const { Cell::new(false) };
}
/// Called by the special scalars when a function has no exact meaning in their arithmetic.
pub fn unsup() {
    UNSUP.with(|u| u.set(true));
}
pub fn take_unsup() -> bool {
    UNSUP.with(|u| u.replace(false))
}

struct Out {
    w: BufWriter<File>,
    /// text of the current program up to the last complete event
    head: String,
    /// the call that is being executed, as an event that never returned
    pending: Option<String>,
}
static OUT: Mutex<Option<Out>> = Mutex::new(None);
static TICK: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicU64 = AtomicU64::new(0);

pub type Reg = usize;

pub struct Rec {
    lane: String,
    text: String,
    nregs: usize,
    nev: usize,
    open: bool,
    dead: bool,
    seq: usize,
    prop: String,
    sync: Option<String>,
    pub stats: Stats,
}
#[derive(Default)]
pub struct Stats {
    pub programs: usize,
    pub events: usize,
    pub calls: usize,
    pub unsup: usize,
    pub panics: usize,
}

fn write_line(o: &mut Out, s: &str) {
    o.w.write_all(s.as_bytes()).unwrap();
    o.w.write_all(b"\n").unwrap();
}

impl Rec {
    pub fn new(prop: &str, path: &str) -> Self {
        let loud = std::env::var_os("VH_LOUD").is_some();
        std::panic::set_hook(Box::new(move |i| if loud { eprintln!("PANIC {}", i.to_string().replace('\n', " ")) }));
        *OUT.lock().unwrap() = Some(Out {
            w: BufWriter::with_capacity(1 << 20, File::create(path).expect("create trace file")),
            head: String::new(),
            pending: None,
        });
        std::thread::spawn(|| {
            let (mut last, mut stuck) = (0, 0);
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let t = TICK.load(Ordering::SeqCst);
                if BUSY.load(Ordering::SeqCst) == 1 && t == last {
                    stuck += 1;
                } else {
                    stuck = 0;
                }
                last = t;
                if stuck >= 60 {
                    // The call does not return: record it as such and stop.
                    let mut g = OUT.lock().unwrap();
                    let o = g.as_mut().unwrap();
                    if let Some(p) = o.pending.take() {
                        let l = format!("{}{}]}}", o.head, p);
                        write_line(o, &l);
                    }
                    o.w.flush().unwrap();
                    eprintln!("HANG");
                    std::process::exit(3);
                }
            }
        });
        Rec {
            lane: String::new(),
            text: String::new(),
            nregs: 0,
            nev: 0,
            open: false,
            dead: false,
            seq: 0,
            prop: prop.into(),
            sync: std::env::var("VH_SYNC").ok(),
            stats: Stats::default(),
        }
    }
    /// Starts a new program over the given lane (a JSON array, e.g. `["p",35279]`).
    pub fn prog(&mut self, lane: &str) {
        self.finish_prog();
        self.lane = lane.into();
        self.seq += 1;
        self.text = format!("{{\"id\":\"{}-{}\",\"L\":{},\"ev\":[", self.prop, self.seq, lane);
        self.nregs = 0;
        self.nev = 0;
        self.open = true;
        self.dead = false;
    }
    pub fn finish_prog(&mut self) {
        if self.open && self.nev > 0 {
            self.text.push_str("]}");
            let mut g = OUT.lock().unwrap();
            write_line(g.as_mut().unwrap(), &self.text);
            self.stats.programs += 1;
            self.stats.events += self.nev;
        }
        self.open = false;
    }
    pub fn finish(&mut self) {
        self.finish_prog();
        OUT.lock().unwrap().as_mut().unwrap().w.flush().unwrap();
        let s = &self.stats;
        println!(
            "{{\"programs\":{},\"events\":{},\"calls\":{},\"unsupported\":{},\"panics\":{}}}",
            s.programs, s.events, s.calls, s.unsup, s.panics
        );
    }
    /// Appends an event in another format than `op`'s.
    pub fn raw(&mut self, e: &str) {
        assert!(self.open);
        if self.nev > 0 {
            self.text.push(',');
        }
        self.text.push_str(e);
        self.nev += 1;
    }
    /// Runs `f`; if it never returns or kills the process, the program ends with the event `pending`.
    pub fn guarded<R>(&mut self, pending: &str, f: impl FnOnce() -> R) -> Result<R, ()> {
        self.stats.calls += 1;
        let p = format!("{}{}", if self.nev > 0 { "," } else { "" }, pending);
        if let Some(path) = &self.sync {
            std::fs::write(path, format!("{}{}]}}\n", self.text, p)).unwrap();
        }
        {
            let mut g = OUT.lock().unwrap();
            let o = g.as_mut().unwrap();
            o.head.clear();
            o.head.push_str(&self.text);
            o.pending = Some(p);
        }
        TICK.fetch_add(1, Ordering::SeqCst);
        BUSY.store(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        BUSY.store(0, Ordering::SeqCst);
        if r.is_err() {
            self.stats.panics += 1;
        }
        r.map_err(|_| ())
    }
    pub fn alive(&self) -> bool {
        !self.dead
    }
    fn ev(&mut self, op: &str, k: &str, s: &[Reg], d: Reg, r: &str, ok: bool) -> String {
        format!(
            "{}{{\"op\":[\"{}\",\"{}\"],\"k\":{},\"s\":{:?},\"d\":{},\"r\":{},\"ok\":{}}}",
            if self.nev > 0 { "," } else { "" },
            op.split_once('.').map_or(op, |x| x.0), op.split_once('.').map_or("", |x| x.1), k, s, d, r, ok
        )
    }
    fn push(&mut self, e: String) {
        self.text.push_str(&e);
        self.nev += 1;
    }
    /// Loads an input value into a fresh register.
    pub fn load<V: J>(&mut self, v: &V) -> Reg {
        self.load_js(&v.js())
    }
    pub fn load_js(&mut self, v: &str) -> Reg {
        assert!(self.open);
        self.nregs += 1;
        let d = self.nregs;
        if !self.dead {
            let e = self.ev("load", "0", &[], d, v, true);
            self.push(e);
        }
        d
    }
    /// Runs one call of the library and records its outcome into register `d` (0: a fresh one).
    pub fn op_to<R: J>(
        &mut self, d: Reg, op: &str, k: &str, s: &[Reg], f: impl FnOnce() -> R,
    ) -> Option<(Reg, R)> {
        assert!(self.open);
        let d = if d == 0 {
            self.nregs += 1;
            self.nregs
        } else {
            d
        };
        if self.dead {
            return None;
        }
        self.stats.calls += 1;
        {
            let p = self.ev(op, k, s, d, "0", false);
            if let Some(path) = &self.sync {
                std::fs::write(path, format!("{}{}]}}\n", self.text, p)).unwrap();
            }
            let mut g = OUT.lock().unwrap();
            let o = g.as_mut().unwrap();
            o.head.clear();
            o.head.push_str(&self.text);
            o.pending = Some(p);
        }
        take_unsup();
        TICK.fetch_add(1, Ordering::SeqCst);
        BUSY.store(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        BUSY.store(0, Ordering::SeqCst);
        let u = take_unsup();
        match r {
            Ok(v) => {
                let js = v.js();
                let u = take_unsup() || u;
                let e = if u {
                    self.stats.unsup += 1;
                    self.ev("load", "0", &[], d, &js, true)
                } else {
                    self.ev(op, k, s, d, &js, true)
                };
                self.push(e);
                Some((d, v))
            }
            Err(_) => {
                self.stats.panics += 1;
                if u {
                    let e = self.ev("load", "0", &[], d, "0", true);
                    self.push(e);
                } else {
                    let e = self.ev(op, k, s, d, "0", false);
                    self.push(e);
                }
                self.dead = true;
                None
            }
        }
    }
    pub fn op<R: J>(&mut self, op: &str, k: &str, s: &[Reg], f: impl FnOnce() -> R) -> Option<(Reg, R)> {
        self.op_to(0, op, k, s, f)
    }
    pub fn try_op_to<R: J>(&mut self, d: Reg, op: &str, k: &str, s: &[Reg], f: impl FnOnce() -> R) -> Option<(Reg, R)> {
        let was = self.dead;
        let r = self.op_to(d, op, k, s, f);
        self.dead = was;
        r
    }
    /// Like `op`, but a panic does not end the program (for calls that are expected to panic).
    pub fn try_op<R: J>(&mut self, op: &str, k: &str, s: &[Reg], f: impl FnOnce() -> R) -> Option<(Reg, R)> {
        let was = self.dead;
        let r = self.op_to(0, op, k, s, f);
        self.dead = was;
        r
    }
}

// ---- encodings of ordinary values ----
macro_rules! jint { ($($T:ident),*) => {$(
    impl J for $T { fn j(&self, o: &mut String) { use std::fmt::Write; write!(o, "{}", self).unwrap() } }
)*} }
jint!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, bool);
impl J for str {
    fn j(&self, o: &mut String) {
        o.push('"');
        // (a defect may hand out strings that are none)
        for c in String::from_utf8_lossy(std::hint::black_box(self.as_bytes())).chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if c.is_control() => o.push('?'),
                c => o.push(c),
            }
        }
        o.push('"');
    }
}
impl J for String {
    fn j(&self, o: &mut String) { self.as_str().j(o) }
}
impl J for &str {
    fn j(&self, o: &mut String) { (**self).j(o) }
}
impl J for () {
    fn j(&self, o: &mut String) { o.push('0') }
}
impl<T: J> J for [T] {
    fn j(&self, o: &mut String) {
        o.push('[');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            x.j(o);
        }
        o.push(']');
    }
}
impl<T: J> J for Vec<T> {
    fn j(&self, o: &mut String) { self[..].j(o) }
}
impl<T: J, const N: usize> J for [T; N] {
    fn j(&self, o: &mut String) { self[..].j(o) }
}
impl<T: J> J for &T {
    fn j(&self, o: &mut String) { (**self).j(o) }
}
impl<A: J, B: J> J for (A, B) {
    fn j(&self, o: &mut String) {
        o.push('[');
        self.0.j(o);
        o.push(',');
        self.1.j(o);
        o.push(']');
    }
}
impl<A: J, B: J, C: J> J for (A, B, C) {
    fn j(&self, o: &mut String) {
        o.push('[');
        self.0.j(o);
        o.push(',');
        self.1.j(o);
        o.push(',');
        self.2.j(o);
        o.push(']');
    }
}
impl<A: J, B: J, C: J, D: J> J for (A, B, C, D) {
    fn j(&self, o: &mut String) {
        o.push('[');
        self.0.j(o);
        o.push(',');
        self.1.j(o);
        o.push(',');
        self.2.j(o);
        o.push(',');
        self.3.j(o);
        o.push(']');
    }
}
/// `None` is `[]`, `Some(x)` is `[x]`.
impl<A: J> J for Option<A> {
    fn j(&self, o: &mut String) {
        o.push('[');
        if let Some(a) = self {
            a.j(o)
        }
        o.push(']');
    }
}
/// `Err` is `[]`, `Ok(x)` is `[x]`.
impl<A: J, E> J for Result<A, E> {
    fn j(&self, o: &mut String) {
        o.push('[');
        if let Ok(a) = self {
            a.j(o)
        }
        o.push(']');
    }
}

// ---- encodings of the library's values; read through one fixed way (checked by C04) ----
use vecmat::{
    complex::Moebius,
    transform::{Chain, Linear, Rotation2, Rotation3, Scale, Shift},
    Complex, Matrix, Quaternion, Vector,
};
impl<T: J, const N: usize> J for Vector<T, N> {
    fn j(&self, o: &mut String) { self.as_array().j(o) }
}
impl<T: J, const M: usize, const N: usize> J for Matrix<T, M, N> {
    fn j(&self, o: &mut String) { self.as_vector_of_vectors().as_array().j(o) }
}
impl<T: J + Copy> J for Complex<T> {
    fn j(&self, o: &mut String) { self.into_array().j(o) }
}
impl<T: J + Copy> J for Quaternion<T> {
    fn j(&self, o: &mut String) { self.into_array().j(o) }
}
impl<T: J + Copy> J for Moebius<T> {
    fn j(&self, o: &mut String) { self.into_array().j(o) }
}
impl<T: J + Copy, const N: usize> J for Shift<T, N> {
    fn j(&self, o: &mut String) { self.into_vector().j(o) }
}
impl<T: J + Copy, const N: usize> J for Linear<T, N> {
    fn j(&self, o: &mut String) { self.into_matrix().j(o) }
}
impl<T: J + Copy> J for Scale<T> {
    fn j(&self, o: &mut String) { self.into_mag().j(o) }
}
impl<T: J + Copy> J for Rotation2<T> {
    fn j(&self, o: &mut String) { self.into_complex().j(o) }
}
impl<T: J + Copy> J for Rotation3<T> {
    fn j(&self, o: &mut String) { self.into_quaternion().j(o) }
}
impl<A: J, B: J, T> J for Chain<A, B, T> {
    fn j(&self, o: &mut String) {
        o.push('[');
        self.outer().j(o);
        o.push(',');
        self.inner().j(o);
        o.push(']');
    }
}
