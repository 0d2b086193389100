// Support code of the generated drivers: value objects that log their life, actions that log
// their arguments, and the interpreter of operation sequences.
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct Ctx {
    ev: Vec<String>,
    nid: i64,
    na: i64,
    nse: i64,
    fail_at: i64,
    se_err_at: i64,
    live: BTreeSet<i64>,
    fed: i64,
}
thread_local! {
    static CTX: RefCell<Vec<Ctx>> = RefCell::new(Vec::new());
    static CUR: Cell<usize> = Cell::new(0);
}
fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    let k = CUR.with(|c| c.get());
    CTX.with(|c| f(&mut c.borrow_mut()[k]))
}
fn ev(s: String) {
    with(|c| c.ev.push(s))
}
fn list(v: &[i64]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

/// A value object: it exists exactly once, from its creation to its drop.
pub struct V<const K: u32> {
    id: i64,
    ctx: usize,
}
impl<const K: u32> V<K> {
    fn new(id: i64) -> Self {
        let ctx = CUR.with(|c| c.get());
        CTX.with(|c| {
            let c = &mut c.borrow_mut()[ctx];
            if !c.live.insert(id) {
                c.ev.push(format!("[\"BAD\",\"twice\",{}]", id));
            }
        });
        V { id, ctx }
    }
}
impl<const K: u32> Drop for V<K> {
    fn drop(&mut self) {
        let _ = CTX.try_with(|c| {
            let c = &mut c.borrow_mut()[self.ctx];
            if !c.live.remove(&self.id) {
                c.ev.push(format!("[\"BAD\",\"drop\",{}]", self.id));
            }
        });
    }
}

#[derive(Debug, PartialEq)]
pub struct Loc(pub i64);
pub struct Ex {
    pub n: i64,
}
#[derive(Debug, PartialEq, Default)]
pub struct Er(pub i64);
pub trait Code {
    fn code(&self) -> i64;
}
impl Code for Er {
    fn code(&self) -> i64 {
        self.0
    }
}
impl Code for () {
    fn code(&self) -> i64 {
        0
    }
}

/// A stack with just the documented interface.
pub struct MyStack<T>(Vec<T>);
impl<T> MyStack<T> {
    pub fn new() -> Self {
        MyStack(Vec::new())
    }
    pub fn push(&mut self, t: T) {
        self.0.push(t)
    }
    pub fn pop(&mut self) -> Option<T> {
        self.0.pop()
    }
    pub fn last(&self) -> Option<&T> {
        self.0.last()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

pub trait Enc {
    fn enc(&self, v: &mut Vec<i64>);
}
impl<const K: u32> Enc for V<K> {
    fn enc(&self, v: &mut Vec<i64>) {
        v.push(self.id)
    }
}
impl Enc for () {
    fn enc(&self, v: &mut Vec<i64>) {
        v.push(0)
    }
}
impl Enc for Loc {
    fn enc(&self, v: &mut Vec<i64>) {
        v.push(self.0)
    }
}
impl<T: Enc> Enc for Option<T> {
    fn enc(&self, v: &mut Vec<i64>) {
        match self {
            None => v.push(-1),
            Some(x) => {
                v.push(-2);
                x.enc(v)
            }
        }
    }
}
impl<L: Lo + Enc, T: Enc> Enc for (L, T) {
    fn enc(&self, v: &mut Vec<i64>) {
        self.0.enc(v);
        self.1.enc(v)
    }
}
// Other shapes of the same types
pub struct Nil;
/// The extra data of tokens
pub trait Lo {
    fn at(&self) -> &Loc;
    fn at_mut(&mut self) -> &mut Loc;
}
impl Lo for Loc {
    fn at(&self) -> &Loc {
        self
    }
    fn at_mut(&mut self) -> &mut Loc {
        self
    }
}
impl Lo for (Loc, Nil) {
    fn at(&self) -> &Loc {
        &self.0
    }
    fn at_mut(&mut self) -> &mut Loc {
        &mut self.0
    }
}
impl Lo for [Loc; 1] {
    fn at(&self) -> &Loc {
        &self[0]
    }
    fn at_mut(&mut self) -> &mut Loc {
        &mut self[0]
    }
}
impl Lo for Box<Loc> {
    fn at(&self) -> &Loc {
        self
    }
    fn at_mut(&mut self) -> &mut Loc {
        self
    }
}
impl Enc for (Loc, Nil) {
    fn enc(&self, v: &mut Vec<i64>) {
        self.0.enc(v)
    }
}
impl<const K: u32> Enc for (V<K>, Nil) {
    fn enc(&self, v: &mut Vec<i64>) {
        self.0.enc(v)
    }
}
impl<T: Enc> Enc for Box<T> {
    fn enc(&self, v: &mut Vec<i64>) {
        (**self).enc(v)
    }
}
impl<T: Enc> Enc for [T; 1] {
    fn enc(&self, v: &mut Vec<i64>) {
        self[0].enc(v)
    }
}
impl<T: Enc> Enc for Vec<T> {
    fn enc(&self, v: &mut Vec<i64>) {
        for x in self {
            x.enc(v)
        }
    }
}
pub fn enc(x: &dyn Enc) -> Vec<i64> {
    let mut v = Vec::new();
    x.enc(&mut v);
    v
}

/// Token data built with number id.
pub trait Mk {
    fn mk(id: i64) -> Self;
}
impl<const K: u32> Mk for V<K> {
    fn mk(id: i64) -> Self {
        V::new(id)
    }
}
impl Mk for () {
    fn mk(_: i64) -> Self {}
}
impl Mk for Loc {
    fn mk(id: i64) -> Self {
        Loc(100000 + id)
    }
}
impl<L: Lo + Mk, T: Mk> Mk for (L, T) {
    fn mk(id: i64) -> Self {
        (L::mk(id), T::mk(id))
    }
}
impl Mk for (Loc, Nil) {
    fn mk(id: i64) -> Self {
        (Loc::mk(id), Nil)
    }
}
impl<const K: u32> Mk for (V<K>, Nil) {
    fn mk(id: i64) -> Self {
        (V::new(id), Nil)
    }
}
impl<T: Mk> Mk for Box<T> {
    fn mk(id: i64) -> Self {
        Box::new(T::mk(id))
    }
}
impl<T: Mk> Mk for [T; 1] {
    fn mk(id: i64) -> Self {
        [T::mk(id)]
    }
}
impl<T: Mk> Mk for Vec<T> {
    fn mk(id: i64) -> Self {
        vec![T::mk(id)]
    }
}
pub fn mk<T: Mk>(id: i64) -> T {
    T::mk(id)
}

/// Results of user code.
pub trait Res {
    fn res() -> Self;
}
impl<const K: u32> Res for V<K> {
    fn res() -> Self {
        let id = with(|c| {
            c.nid += 1;
            c.nid - 1
        });
        V::new(id)
    }
}
impl Res for () {
    fn res() -> Self {}
}

impl<const K: u32> Res for (V<K>, Nil) {
    fn res() -> Self {
        (V::res(), Nil)
    }
}
impl<T: Res> Res for Box<T> {
    fn res() -> Self {
        Box::new(T::res())
    }
}
impl<T: Res> Res for [T; 1] {
    fn res() -> Self {
        [T::res()]
    }
}
impl<T: Res> Res for Vec<T> {
    fn res() -> Self {
        vec![T::res()]
    }
}

pub fn act<T: Res>(tag: i64, args: &[&dyn Enc], ex: Option<&mut i64>) -> Result<T, i64> {
    let a: Vec<String> = args.iter().map(|x| list(&enc(*x))).collect();
    let x = bump(ex);
    ev(format!("[\"a\",{},[{}],{}]", tag, a.join(","), x));
    let fail = with(|c| {
        c.na += 1;
        c.na == c.fail_at
    });
    if fail {
        Err(1000 + tag)
    } else {
        Ok(T::res())
    }
}
fn bump(ex: Option<&mut i64>) -> i64 {
    match ex {
        None => 0,
        Some(n) => {
            *n += 1;
            *n - 1
        }
    }
}
pub type TokEnc = Option<(&'static str, Vec<i64>)>;
pub fn se<T: Res>(tok: TokEnc, exp: Vec<(&'static str, i64)>, ex: Option<&mut i64>) -> Result<T, i64> {
    let x = bump(ex);
    let (n, v) = tok.unwrap_or(("-", vec![]));
    let names: Vec<String> = exp.iter().map(|e| format!("\"{}\"", e.0)).collect();
    let flags: Vec<i64> = exp.iter().map(|e| e.1).collect();
    ev(format!("[\"s\",\"{}\",{},[{}],{},{}]", n, list(&v), names.join(","), list(&flags), x));
    let nse = with(|c| {
        c.nse += 1;
        if c.nse == c.se_err_at {
            c.nse
        } else {
            0
        }
    });
    if nse != 0 {
        Err(2000 + nse)
    } else {
        Ok(T::res())
    }
}
pub fn pf(ex: Option<&mut i64>) -> i64 {
    let x = bump(ex);
    // (the token that could not be parsed may still be around)
    let live = with(|c| c.live.iter().cloned().filter(|x| *x != c.fed).collect::<Vec<i64>>());
    ev(format!("[\"p\",{},{}]", x, list(&live)));
    3000
}
pub fn so(tok: TokEnc, ex: Option<&mut i64>) -> i64 {
    let x = bump(ex);
    let (n, v) = tok.unwrap_or(("-", vec![]));
    ev(format!("[\"o\",\"{}\",{},{}]", n, list(&v), x));
    4000
}
pub fn tokextra(before: i64) {
    ev(format!("[\"t\",{}]", before));
}
pub fn bad(what: &str) {
    ev(format!("[\"BAD\",\"{}\"]", what));
}

pub trait Px {
    fn feed(&mut self, k: i64, id: i64) -> Result<(), i64>;
    fn eoi(&mut self) -> Result<(Vec<i64>, i64), i64>;
    fn bump(&mut self) -> i64;
    fn end(&mut self) -> i64;
}

type Maker = fn(i64) -> Box<dyn Px>;

fn call(i: usize, p: &mut Box<dyn Px>, op: i64) -> String {
    CUR.with(|c| c.set(i));
    with(|c| c.fed = if op > 0 { c.nid } else { 0 });
    if op == -1 {
        let x = p.bump();
        ev(format!("[\"x\",{}]", x));
    } else if op == -2 {
        let x = p.end();
        ev(format!("[\"X\",{}]", x));
    } else if op == 0 {
        match catch_unwind(AssertUnwindSafe(|| p.eoi())) {
            Ok(Ok((v, x))) => ev(format!("[\"R\",{},{}]", list(&v), x)),
            Ok(Err(c)) => ev(format!("[\"r\",\"err\",{}]", c)),
            Err(_) => ev("[\"r\",\"panic\"]".to_string()),
        }
    } else {
        let id = with(|c| {
            c.nid += 1;
            c.nid - 1
        });
        match catch_unwind(AssertUnwindSafe(|| p.feed(op, id))) {
            Ok(Ok(())) => ev("[\"r\",\"ok\"]".to_string()),
            Ok(Err(c)) => ev(format!("[\"r\",\"err\",{}]", c)),
            Err(_) => ev("[\"r\",\"panic\"]".to_string()),
        }
    }
    let live = with(|c| c.live.iter().cloned().collect::<Vec<i64>>());
    ev(format!("[\"L\",{}]", list(&live)));
    let evs = with(|c| std::mem::replace(&mut c.ev, Vec::new()));
    format!("[{}]", evs.join(","))
}

/// Jobs: `J prog run fail_at se_err_at ex0 maker...` starts a run, `P op...` is a sequence of
/// operations done on new parsers. One line of output for each P.
pub fn main(makers: &[Maker]) {
    use std::io::Write;
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::env::args().nth(1).unwrap();
    let jobs = std::fs::read_to_string(file).unwrap();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::with_capacity(1 << 16, out.lock());
    let mut head: Vec<i64> = Vec::new();
    for line in jobs.lines() {
        let mut w = line.split_whitespace();
        let kind = w.next().unwrap();
        let n: Vec<i64> = w.map(|x| x.parse().unwrap()).collect();
        if kind == "J" {
            head = n;
            writeln!(out, "J {} {}", head[0], head[1]).unwrap();
            out.flush().unwrap();
            continue;
        }
        let np = head.len() - 5;
        CTX.with(|c| {
            *c.borrow_mut() = (0..np)
                .map(|_| Ctx { nid: 1, fail_at: head[2], se_err_at: head[3], ..Ctx::default() })
                .collect()
        });
        let mut ps: Vec<Box<dyn Px>> = (0..np).map(|i| makers[head[5 + i] as usize](head[4])).collect();
        let mut calls = Vec::new();
        for code in n {
            let i = (code / 10000 - 1) as usize;
            calls.push(call(i, &mut ps[i], code % 10000 - 2));
        }
        for (i, p) in ps.into_iter().enumerate() {
            CUR.with(|c| c.set(i));
            std::mem::drop(p);
        }
        // whatever was left in the parsers is gone now
        let left: Vec<String> = CTX.with(|c| {
            c.borrow()
                .iter()
                .map(|c| {
                    let live: Vec<i64> = c.live.iter().cloned().collect();
                    format!("[[{}],{}]", c.ev.join(","), list(&live))
                })
                .collect()
        });
        writeln!(out, "P\t[{}]\t[{}]", calls.join(","), left.join(",")).unwrap();
    }
    out.flush().unwrap();
}
