//! Support code linked with the generated programs (see engine/).
#![allow(clippy::all)]
extern crate oak_runtime;
pub use oak_runtime::*;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::io::{BufRead, Write};
use std::ops::Range;
use std::panic;

// ---------------------------------------------------------------- values

/// Canonical printing of AST values and of their types.
pub trait VShow {
  fn show(&self, o: &mut String);
  fn tname(o: &mut String);
}

pub fn show<T: VShow>(t: &T) -> String { let mut s = String::new(); t.show(&mut s); s }

/// Generic result of semantic actions.
#[derive(Clone, Debug, PartialEq)]
pub struct V(pub String);
/// A second, distinct, type of results.
#[derive(Clone, Debug, PartialEq)]
pub struct W(pub String);

impl VShow for V { fn show(&self, o: &mut String) { o.push_str(&self.0) } fn tname(o: &mut String) { o.push('V') } }
impl VShow for W { fn show(&self, o: &mut String) { o.push('w'); o.push_str(&self.0) } fn tname(o: &mut String) { o.push('W') } }
impl VShow for char { fn show(&self, o: &mut String) { o.push_str(&format!("c{:x}", *self as u32)) } fn tname(o: &mut String) { o.push_str("char") } }
impl VShow for u32 { fn show(&self, o: &mut String) { o.push_str(&format!("u{}", self)) } fn tname(o: &mut String) { o.push_str("u32") } }
impl VShow for String {
  fn show(&self, o: &mut String) { o.push_str("s"); o.push_str(&hex(self)) }
  fn tname(o: &mut String) { o.push_str("String") }
}
impl VShow for () { fn show(&self, o: &mut String) { o.push_str("()") } fn tname(o: &mut String) { o.push_str("()") } }
impl<T: VShow> VShow for Option<T> {
  fn show(&self, o: &mut String) { match self { None => o.push_str("N"), Some(x) => { o.push_str("S("); x.show(o); o.push(')') } } }
  fn tname(o: &mut String) { o.push_str("Option<"); T::tname(o); o.push('>') }
}
impl<T: VShow> VShow for Box<T> {
  fn show(&self, o: &mut String) { o.push_str("B("); (**self).show(o); o.push(')') }
  fn tname(o: &mut String) { o.push_str("Box<"); T::tname(o); o.push('>') }
}
impl<T: VShow> VShow for Vec<T> {
  fn show(&self, o: &mut String) { o.push('['); for x in self { x.show(o); o.push(';') } o.push(']') }
  fn tname(o: &mut String) { o.push_str("Vec<"); T::tname(o); o.push('>') }
}
impl VShow for Span {
  fn show(&self, o: &mut String) { o.push_str(&format!("sp{}-{}", self.lo.0, self.hi.0)) }
  fn tname(o: &mut String) { o.push_str("Span") }
}
impl<S: Off + Clone> VShow for Range<S> {
  fn show(&self, o: &mut String) { o.push_str(&format!("rg{}-{}", self.start.off(), self.end.off())) }
  fn tname(o: &mut String) { o.push_str("Range<Stream>") }
}
impl<T: VShow> VShow for &'static [T; 1] {
  fn show(&self, o: &mut String) { o.push_str("&["); self[0].show(o); o.push_str(";]") }
  fn tname(o: &mut String) { o.push_str("&'static["); T::tname(o); o.push_str(";1]") }
}
impl<T: VShow> VShow for [T; 2] {
  fn show(&self, o: &mut String) { o.push('['); for x in self { x.show(o); o.push(';') } o.push(']') }
  fn tname(o: &mut String) { o.push('['); T::tname(o); o.push_str(";2]") }
}
impl VShow for fn() -> u32 {
  fn show(&self, o: &mut String) { o.push_str(&format!("fn{}", self())) }
  fn tname(o: &mut String) { o.push_str("fn()->u32") }
}
/// Enumeration whose variants are used as semantic actions.
#[derive(Clone, Debug)]
pub enum En { K0, K1, A(char), L(Vec<char>), P(char, char) }
impl En {
  pub fn mk() -> En { En::K1 }
  pub fn of(c: char) -> En { En::A(c) }
  pub fn two(c: char, d: char) -> En { En::P(c, d) }
}
impl VShow for En {
  fn show(&self, o: &mut String) {
    match self {
      En::K0 => o.push_str("K0"), En::K1 => o.push_str("K1"),
      En::A(c) => { o.push_str("A("); c.show(o); o.push(')') }
      En::L(c) => { o.push_str("L("); c.show(o); o.push(')') }
      En::P(c, d) => { o.push_str("P("); c.show(o); o.push(','); d.show(o); o.push(')') }
    }
  }
  fn tname(o: &mut String) { o.push_str("En") }
}
macro_rules! tup {
  ($($t:ident $i:tt),*) => {
    impl<$($t: VShow),*> VShow for ($($t,)*) {
      fn show(&self, o: &mut String) { o.push('('); $(if $i > 0 { o.push(','); } self.$i.show(o);)* o.push(')') }
      fn tname(o: &mut String) { o.push('('); $(if $i > 0 { o.push(','); } $t::tname(o);)* o.push(')') }
    }
  }
}
macro_rules! tups {
  ([$($t:ident $i:tt),*]) => { };
  ([$($t:ident $i:tt),*] $u:ident $j:tt $($r:tt)*) => { tup!($($t $i,)* $u $j); tups!([$($t $i,)* $u $j] $($r)*); };
}
tup!(A 0);
tups!([A 0] T1 1 T2 2 T3 3 T4 4 T5 5 T6 6 T7 7 T8 8 T9 9 T10 10 T11 11 T12 12 T13 13 T14 14 T15 15 T16 16 T17 17 T18 18 T19 19 T20 20 T21 21 T22 22 T23 23 T24 24 T25 25 T26 26 T27 27 T28 28 T29 29 T30 30 T31 31 T32 32 T33 33 T34 34 T35 35 T36 36 T37 37 T38 38 T39 39 T40 40 T41 41 T42 42 T43 43 T44 44 T45 45 T46 46 T47 47 T48 48 T49 49 T50 50 T51 51 T52 52 T53 53 T54 54 T55 55 T56 56 T57 57 T58 58 T59 59 T60 60 T61 61 T62 62 T63 63);

pub fn hex(s: &str) -> String { let mut o = String::with_capacity(s.len() * 2); for b in s.bytes() { o.push_str(&format!("{:02x}", b)); } o }
pub fn unhex(s: &str) -> String {
  let b = s.as_bytes();
  let v: Vec<u8> = (0..b.len() / 2).map(|i| u8::from_str_radix(std::str::from_utf8(&b[2 * i..2 * i + 2]).unwrap(), 16).unwrap()).collect();
  String::from_utf8(v).unwrap()
}

// ---------------------------------------------------------------- semantic actions

thread_local! {
  static TRACE: RefCell<Vec<String>> = RefCell::new(vec![]);
  static FUEL: Cell<u64> = Cell::new(u64::max_value());
}

/// Called by each generated semantic action: records the call and returns its textual form.
pub fn call(name: &str, args: &[String]) -> String {
  let s = format!("{}({})", name, args.join(","));
  TRACE.with(|t| { let mut t = t.borrow_mut(); if t.len() < 5000 { t.push(s.clone()) } });
  s
}
pub trait FromCall { fn from_call(s: String) -> Self; }
impl FromCall for V { fn from_call(s: String) -> V { V(s) } }
impl FromCall for W { fn from_call(s: String) -> W { W(s) } }
impl FromCall for String { fn from_call(s: String) -> String { s } }
impl FromCall for char { fn from_call(s: String) -> char { s.chars().nth(s.len() / 2).unwrap_or('?') } }
impl FromCall for u32 { fn from_call(s: String) -> u32 { s.bytes().fold(7u32, |a, b| (a.wrapping_mul(31).wrapping_add(b as u32)) % 65521) } }
impl<T: FromCall> FromCall for Box<T> { fn from_call(s: String) -> Box<T> { Box::new(T::from_call(s)) } }
impl<T: FromCall> FromCall for Vec<T> { fn from_call(s: String) -> Vec<T> { if s.len() % 2 == 0 { vec![] } else { vec![T::from_call(s)] } } }
impl<T: FromCall> FromCall for Option<T> { fn from_call(s: String) -> Option<T> { if s.len() % 2 == 0 { None } else { Some(T::from_call(s)) } } }
impl<T: FromCall> FromCall for &'static [T; 1] { fn from_call(s: String) -> Self { Box::leak(Box::new([T::from_call(s)])) } }
impl<T: FromCall> FromCall for [T; 2] { fn from_call(s: String) -> Self { [T::from_call(s), T::from_call(String::new())] } }
fn nat0() -> u32 { 0 }
fn nat1() -> u32 { 1 }
fn nat2() -> u32 { 2 }
impl FromCall for fn() -> u32 { fn from_call(s: String) -> Self { [nat0, nat1, nat2][(u32::from_call(s) % 3) as usize] } }
impl<T: FromCall> FromCall for (T,) { fn from_call(s: String) -> Self { (T::from_call(s),) } }
impl<T: FromCall, U: FromCall> FromCall for (T, U) { fn from_call(s: String) -> (T, U) { (T::from_call(s.clone()), U::from_call(s)) } }
impl<T: FromCall, U: FromCall, X: FromCall> FromCall for (T, U, X) { fn from_call(s: String) -> (T, U, X) { (T::from_call(s.clone()), U::from_call(s.clone()), X::from_call(s)) } }

// ---------------------------------------------------------------- streams

pub trait Off { fn off(&self) -> usize; }
impl<'a> Off for file_map_stream::FileMapStream<'a> {
  // The absolute position is only observable through spans.
  fn off(&self) -> usize { (self.clone()..self.clone()).stream_span().lo.0 as usize - FILE_START }
}
pub const FILE_START: usize = 1000;
/// The file maps live as long as the process, as `FileMapStream` borrows them.
pub fn file_map(s: &str) -> &'static std::rc::Rc<file_map_stream::FileMap> { file_map_at(s, FILE_START) }
pub fn file_map_at(s: &str, start: usize) -> &'static std::rc::Rc<file_map_stream::FileMap> {
  let start_pos = make_span(start, start).lo;
  let end_pos = make_span(start + s.len(), start + s.len()).lo;
  Box::leak(Box::new(std::rc::Rc::new(file_map_stream::FileMap {
    name: "f".to_string(), abs_path: None, src: Some(std::rc::Rc::new(s.to_string())), start_pos, end_pos,
    lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) })))
}
impl<'a> Off for StrStream<'a> { fn off(&self) -> usize { self.bytes_offset() } }

pub struct OutOfFuel;
#[inline]
pub fn burn() {
  FUEL.with(|f| { let n = f.get(); if n == 0 { panic::panic_any(OutOfFuel) } f.set(n - 1) })
}
pub fn set_fuel(n: u64) { FUEL.with(|f| f.set(n)) }

/// A stream defined by the "user": same content as a string stream, but counts the operations.
#[derive(Debug)]
pub struct FuelStream<'a> { inner: StrStream<'a> }
impl<'a> FuelStream<'a> { pub fn new(s: &'a str) -> Self { FuelStream { inner: s.stream() } } }
impl<'a> Clone for FuelStream<'a> { fn clone(&self) -> Self { burn(); FuelStream { inner: self.inner.clone() } } }
impl<'a> Off for FuelStream<'a> { fn off(&self) -> usize { self.inner.bytes_offset() } }
impl<'a> Iterator for FuelStream<'a> { type Item = char; fn next(&mut self) -> Option<char> { burn(); self.inner.next() } }
impl<'a> PartialEq for FuelStream<'a> { fn eq(&self, o: &Self) -> bool { burn(); self.inner == o.inner } }
impl<'a> Eq for FuelStream<'a> {}
impl<'a> PartialOrd for FuelStream<'a> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { burn(); PartialOrd::partial_cmp(&self.inner, &o.inner) } }
impl<'a> Ord for FuelStream<'a> { fn cmp(&self, o: &Self) -> Ordering { burn(); Ord::cmp(&self.inner, &o.inner) } }
impl<'a> Location for FuelStream<'a> { fn location(&self) -> String { self.inner.location() } }
impl<'a> CodeSnippet for FuelStream<'a> { fn code_snippet(&self, n: usize) -> String { self.inner.code_snippet(n) } }
impl<'a> ConsumePrefix<&'static str> for FuelStream<'a> { fn consume_prefix(&mut self, p: &'static str) -> bool { burn(); self.inner.consume_prefix(p) } }
impl<'a> HasNext for FuelStream<'a> { fn has_next(&self) -> bool { burn(); self.inner.has_next() } }

/// A stream with a type parameter.
pub trait Marker {}
#[derive(Debug)]
pub struct Tag;
impl Marker for Tag {}
#[derive(Debug)]
pub struct GStream<'a, M: Marker> { inner: FuelStream<'a>, mark: std::marker::PhantomData<M> }
impl<'a, M: Marker> GStream<'a, M> { pub fn new(s: &'a str) -> Self { GStream { inner: FuelStream::new(s), mark: std::marker::PhantomData } } }
impl<'a, M: Marker> Clone for GStream<'a, M> { fn clone(&self) -> Self { GStream { inner: self.inner.clone(), mark: self.mark } } }
impl<'a, M: Marker> Off for GStream<'a, M> { fn off(&self) -> usize { self.inner.off() } }
impl<'a, M: Marker> Iterator for GStream<'a, M> { type Item = char; fn next(&mut self) -> Option<char> { self.inner.next() } }
impl<'a, M: Marker> PartialEq for GStream<'a, M> { fn eq(&self, o: &Self) -> bool { self.inner == o.inner } }
impl<'a, M: Marker> Eq for GStream<'a, M> {}
impl<'a, M: Marker> PartialOrd for GStream<'a, M> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { PartialOrd::partial_cmp(&self.inner, &o.inner) } }
impl<'a, M: Marker> Ord for GStream<'a, M> { fn cmp(&self, o: &Self) -> Ordering { Ord::cmp(&self.inner, &o.inner) } }
impl<'a, M: Marker> Location for GStream<'a, M> { fn location(&self) -> String { self.inner.location() } }
impl<'a, M: Marker> CodeSnippet for GStream<'a, M> { fn code_snippet(&self, n: usize) -> String { self.inner.code_snippet(n) } }
impl<'a, M: Marker> ConsumePrefix<&'static str> for GStream<'a, M> { fn consume_prefix(&mut self, p: &'static str) -> bool { self.inner.consume_prefix(p) } }
impl<'a, M: Marker> HasNext for GStream<'a, M> { fn has_next(&self) -> bool { self.inner.has_next() } }

/// A stream over a vector of characters, with byte offsets computed independently of `StrStream`.
#[derive(Clone, Debug)]
pub struct VecStream<'a> { chars: std::rc::Rc<Vec<(usize, char)>>, total: usize, i: usize, text: &'a str }
impl<'a> VecStream<'a> {
  pub fn new(s: &'a str) -> Self { VecStream { chars: std::rc::Rc::new(s.char_indices().collect()), total: s.len(), i: 0, text: s } }
}
impl<'a> Off for VecStream<'a> { fn off(&self) -> usize { self.chars.get(self.i).map(|c| c.0).unwrap_or(self.total) } }
impl<'a> Iterator for VecStream<'a> { type Item = char; fn next(&mut self) -> Option<char> { burn(); let c = self.chars.get(self.i).map(|c| c.1); if c.is_some() { self.i += 1 } c } }
impl<'a> PartialEq for VecStream<'a> { fn eq(&self, o: &Self) -> bool { self.i == o.i } }
impl<'a> Eq for VecStream<'a> {}
impl<'a> PartialOrd for VecStream<'a> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.i.partial_cmp(&o.i) } }
impl<'a> Ord for VecStream<'a> { fn cmp(&self, o: &Self) -> Ordering { self.i.cmp(&o.i) } }
impl<'a> Location for VecStream<'a> {
  fn location(&self) -> String {
    let before = &self.text[..self.off()];
    let line = before.matches('\n').count() + 1;
    let col = before.len() - before.rfind('\n').map(|i| i + 1).unwrap_or(0) + 1;
    format!("{}:{}", line, col)
  }
}
impl<'a> CodeSnippet for VecStream<'a> {
  fn code_snippet(&self, n: usize) -> String {
    if self.i == self.chars.len() { return "<end-of-file>".to_string() }
    let mut s = String::new();
    for (_, c) in &self.chars[self.i..] { if s.len() + c.len_utf8() > n { break } s.push(*c) }
    s
  }
}
impl<'a> ConsumePrefix<&'static str> for VecStream<'a> {
  fn consume_prefix(&mut self, p: &'static str) -> bool {
    burn();
    let n = p.chars().count();
    if self.i + n <= self.chars.len() && p.chars().enumerate().all(|(k, c)| self.chars[self.i + k].1 == c) { self.i += n; true } else { false }
  }
}
impl<'a> HasNext for VecStream<'a> { fn has_next(&self) -> bool { self.i < self.chars.len() } }

// ---------------------------------------------------------------- observations

pub struct Shown(pub String);
impl std::fmt::Debug for Shown { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }

/// Replaces the data of a state by its printed form.
pub fn conv<S: Ord + Clone + HasNext, T: VShow>(mut s: ParseState<S, T>) -> ParseState<S, Shown> {
  let failed = s.failed;
  let data = s.data.take();
  let mut t = s.failure::<Shown>();
  t.failed = failed;
  t.data = data.map(|d| Shown(show(&d)));
  t
}

pub fn tn<S, T: VShow>(_: fn(ParseState<S, ()>) -> ParseState<S, T>) -> String { let mut s = String::new(); T::tname(&mut s); s }

pub trait Str: Ord + Clone + HasNext + Location + CodeSnippet + Off {}
impl<T: Ord + Clone + HasNext + Location + CodeSnippet + Off> Str for T {}

fn snap<S: Str>(s: ParseState<S, Shown>, fuel0: u64) -> String {
  let used = FUEL.with(|f| fuel0 - f.get());
  set_fuel(u64::max_value());
  let ok = s.is_successful();
  let bad = s.is_failed();
  let exp: Vec<String> = s.expected.iter().map(|e| format!("x{}", hex(e))).collect();
  let data = match s.data { None => "-".to_string(), Some(ref d) => format!("={}", d.0) };
  let (cur, far) = (s.current.off(), s.farthest_read.off());
  let r = panic::catch_unwind(panic::AssertUnwindSafe(|| {
    let r = s.into_result();
    let k = match r { ParseResult::Success(_) => "F", ParseResult::Partial(_, _) => "P", ParseResult::Failure(_) => "E" };
    format!("{}{}", k, hex(&format!("{:?}", r)))
  })).unwrap_or_else(|e| format!("!{}", hex(&panic_msg(e))));
  let trace = TRACE.with(|t| t.borrow_mut().drain(..).collect::<Vec<_>>().join("|"));
  format!("{}{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", ok as u8, bad as u8, cur, far, exp.join(","), data, trace, r, used)
}

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
  if e.is::<OutOfFuel>() { "FUEL".to_string() }
  else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
  else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
  else { "?".to_string() }
}

/// Runs one generated function on a stream advanced by `skip` characters and prints everything observable.
/// With `pre`, the function is applied to a state on which it has already been run once (and which has been restored).
pub fn run1<S: Str + Iterator<Item = char>>(mut stream: S, skip: usize, again: bool, f: &dyn Fn(ParseState<S, ()>) -> ParseState<S, Shown>) -> String {
  for _ in 0..skip { stream.next(); }
  TRACE.with(|t| t.borrow_mut().clear());
  let fuel0 = FUEL.with(|f| f.get());
  let r = panic::catch_unwind(panic::AssertUnwindSafe(|| {
    let state = ParseState::new(stream.clone());
    let state = if again {
      let s = f(state);
      let s = s.failure::<()>();
      TRACE.with(|t| t.borrow_mut().clear());
      s.restore_from_failure(stream.clone())
    } else { state };
    f(state)
  }));
  match r {
    Ok(s) => snap(s, fuel0),
    Err(e) => { set_fuel(u64::max_value()); let m = panic_msg(e); if m == "FUEL" { "FUEL".to_string() } else { format!("PANIC {}", hex(&m)) } }
  }
}

/// Arguments of a case: module, function, fuel, number of characters to skip, whether to run twice, input.
pub type RunFn = fn(&Case) -> String;
pub struct Case { pub fun: usize, pub skip: usize, pub again: bool, pub input: String }

/// Protocol: one case per line `module fun fuel skip again hex-input`; one line of observations per case.
pub fn serve(mods: &[RunFn]) {
  panic::set_hook(Box::new(|_| {}));
  let mods: Vec<RunFn> = mods.to_vec();
  let stack = std::env::var("OAK_STACK_MB").ok().and_then(|x| x.parse().ok()).unwrap_or(256usize);
  std::thread::Builder::new().stack_size(stack << 20).spawn(move || {
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    for line in stdin.lock().lines() {
      let line = line.unwrap();
      let w: Vec<&str> = line.split(' ').collect();
      if w.len() < 5 { continue }
      let case = Case { fun: w[1].parse().unwrap(), skip: w[3].parse().unwrap(), again: w[4] == "1", input: unhex(w.get(5).unwrap_or(&"")) };
      set_fuel(w[2].parse().unwrap());
      let s = mods[w[0].parse::<usize>().unwrap()](&case);
      out.write_all(s.as_bytes()).unwrap();
      out.write_all(b"\n").unwrap();
      out.flush().unwrap();
    }
  }).unwrap().join().unwrap();
}
