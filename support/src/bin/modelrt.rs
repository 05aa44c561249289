//! Executes histories of operations on the runtime: one history per line `kind base hex-text op op ...`,
//! one line of tab separated observations per history. The expected observations are computed by engine/runtime.py.
#![allow(clippy::all)]
extern crate support;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, set_hook, AssertUnwindSafe};
use std::cmp::Ordering;
use support::*;
use support::file_map_stream::FileMapStream;

fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
fn ord(o: Ordering) -> &'static str { match o { Ordering::Less => "<", Ordering::Equal => "=", Ordering::Greater => ">" } }
fn guard<F: FnOnce() -> String>(f: F) -> String { catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "PANIC".to_string()) }
fn chr(c: Option<char>) -> String { match c { None => "-".to_string(), Some(c) => format!("{:x}", c as u32) } }

trait Probe { fn probe(&self) -> String; }
impl<'a> Probe for StrStream<'a> {
  fn probe(&self) -> String { let (l, c) = self.line_column(); format!("{} {} {}:{}", self.bytes_offset(), chr(self.current_char()), l, c) }
}
impl<'a> Probe for FileMapStream<'a> { fn probe(&self) -> String { "-".to_string() } }

fn streams<S, F: Fn() -> S>(init: S, again: F, ops: &[&str]) -> Vec<String> where
  S: Clone + Iterator<Item = char> + ConsumePrefix<&'static str> + HasNext + Location + CodeSnippet + Ord + Probe,
  std::ops::Range<S>: StreamSpan<Output = Span>
{
  let mut slots: Vec<S> = vec![init];
  let mut out = vec![];
  for op in ops {
    let w: Vec<&str> = op.split(':').collect();
    let i: usize = w[1].parse::<usize>().unwrap() % slots.len();
    let r = match w[0] {
      "next" => guard(|| chr(slots[i].next())),
      "take" => { let n: usize = w[2].parse().unwrap(); guard(|| { let s: String = slots[i].by_ref().take(n).collect(); hex(&s) }) }
      "rest" => guard(|| { let s: String = slots[i].clone().collect(); hex(&s) }),
      "prefix" => { let p = leak(unhex(w[2])); guard(|| slots[i].consume_prefix(p).to_string()) }
      "has" => guard(|| slots[i].has_next().to_string()),
      "fresh" => { slots.push(again()); "ok".to_string() }
      "clone" => { let s = slots[i].clone(); slots.push(s); "ok".to_string() }
      "cmp" => {
        let j: usize = w[2].parse::<usize>().unwrap() % slots.len();
        guard(|| {
          let (a, b) = (&slots[i], &slots[j]);
          format!("{}{}{}{}{}{}{}{}", ord(a.cmp(b)), a.partial_cmp(b).map(ord).unwrap_or("?"), (a == b) as u8, (a != b) as u8, (a < b) as u8, (a <= b) as u8, (a > b) as u8, (a >= b) as u8)
        })
      }
      "max" => {
        let j: usize = w[2].parse::<usize>().unwrap() % slots.len();
        guard(|| { let m = std::cmp::max(slots[i].clone(), slots[j].clone()); m.location() })
      }
      "loc" => guard(|| slots[i].location()),
      "snip" => { let n: usize = w[2].parse().unwrap(); guard(|| hex(&slots[i].code_snippet(n))) }
      "probe" => guard(|| slots[i].probe()),
      "span" => {
        let j: usize = w[2].parse::<usize>().unwrap() % slots.len();
        guard(|| { let s = (slots[i].clone()..slots[j].clone()).stream_span(); format!("{}-{}", s.lo.0, s.hi.0) })
      }
      _ => panic!("unknown operation"),
    };
    out.push(r);
  }
  out
}

enum St<S> { U(ParseState<S, ()>), D(ParseState<S, u32>) }

fn copy<S: Ord + Clone + HasNext, T: Clone>(s: &ParseState<S, T>) -> ParseState<S, T> {
  let mut c = ParseState::new(s.current.clone());
  c.farthest_read = s.farthest_read.clone();
  c.expected = s.expected.clone();
  c.failed = s.failed;
  c.data = s.data.clone();
  c
}

fn fields<S: Str, T>(s: &ParseState<S, T>, data: String) -> String where S: Off {
  let mut e: Vec<String> = s.expected.iter().map(|x| hex(x)).collect();
  e.sort();
  e.dedup();
  format!("{}{} {} {} {} {}", s.is_failed() as u8, s.is_successful() as u8, s.current.off(), s.farthest_read.off(), e.join(","), data)
}

impl<S: Str> St<S> {
  fn copy(&self) -> St<S> { match self { St::U(s) => St::U(copy(s)), St::D(s) => St::D(copy(s)) } }
  fn show(&self) -> String {
    match self {
      St::U(s) => fields(s, match s.data { None => "-".to_string(), Some(()) => "()".to_string() }),
      St::D(s) => fields(s, match s.data { None => "-".to_string(), Some(n) => n.to_string() }),
    }
  }
}

macro_rules! on { ($st:expr, $s:ident => $e:expr) => { match $st { St::U($s) => $e, St::D($s) => $e } } }

fn result<S: Str, T: std::fmt::Debug>(s: ParseState<S, T>) -> String {
  let r = s.into_result();
  let k = match r { ParseResult::Success(_) => "F", ParseResult::Partial(_, _) => "P", ParseResult::Failure(_) => "E" };
  format!("{} {}", k, hex(&format!("{:?}", r)))
}

fn states<S>(init: ParseState<S, ()>, ops: &[&str]) -> Vec<String> where S: Str + Iterator<Item = char> + ConsumePrefix<&'static str>
{
  let mut st: St<S> = St::U(init);
  let mut marks: Vec<S> = vec![];
  let mut out = vec![];
  for op in ops {
    let w: Vec<&str> = op.split(':').collect();
    // refused operations leave the previous state to the caller of this history
    let before = st.copy();
    let cur = std::mem::replace(&mut st, before);
    let r: Result<(Option<St<S>>, Option<S>, String), ()> = catch_unwind(AssertUnwindSafe(|| {
      let mut cur = cur;
      match w[0] {
        "next" => { let c = on!(&mut cur, s => s.next()); (Some(cur), None, chr(c)) }
        "prefix" => { let p = leak(unhex(w[1])); let b = on!(&mut cur, s => s.consume_prefix(p)); (Some(cur), None, b.to_string()) }
        "error" => { let p = leak(unhex(w[1])); on!(&mut cur, s => s.error(p)); (Some(cur), None, String::new()) }
        "success" => { let n: u32 = w[1].parse().unwrap(); (Some(St::D(on!(cur, s => s.success(n)))), None, String::new()) }
        "unit" => (Some(St::U(on!(cur, s => s.success(())))), None, String::new()),
        "failure" => (Some(St::U(on!(cur, s => s.failure::<()>()))), None, String::new()),
        "failured" => (Some(St::D(on!(cur, s => s.failure::<u32>()))), None, String::new()),
        "mark" => { let m = on!(&cur, s => s.mark()); (Some(cur), Some(m), String::new()) }
        "restore" | "restoref" => {
          if marks.is_empty() { return (Some(cur), None, "none".to_string()) }
          let m = marks[w[1].parse::<usize>().unwrap() % marks.len()].clone();
          if w[0] == "restore" { (Some(St::U(on!(cur, s => s.restore(m)))), None, String::new()) }
          else { (Some(St::U(on!(cur, s => s.restore_from_failure(m)))), None, String::new()) }
        }
        "extract" => match cur {
          St::U(s) => { let (s, _) = s.extract_data(); (Some(St::U(s)), None, "()".to_string()) }
          St::D(s) => { let (s, d) = s.extract_data(); (Some(St::U(s)), None, d.to_string()) }
        },
        "discard" => { if let St::U(ref mut s) = cur { s.discard_data() } (Some(cur), None, String::new()) }
        "unwrap" => match cur.copy() {
          St::U(s) => { s.unwrap_data(); (Some(cur), None, "()".to_string()) }
          St::D(s) => { let d = s.unwrap_data(); (Some(cur), None, d.to_string()) }
        },
        "result" => { let r = on!(cur.copy(), s => result(s)); (Some(cur), None, r) }
        _ => unreachable!(),
      }
    })).map_err(|_| ());
    match r {
      Ok((s, m, text)) => {
        if let Some(s) = s { st = s }
        if let Some(m) = m { marks.push(m) }
        out.push(format!("{} {}", text, st.show()));
      }
      Err(()) => out.push("PANIC".to_string()),
    }
  }
  out
}

fn main() {
  set_hook(Box::new(|_| {}));
  let stdin = std::io::stdin();
  let stdout = std::io::stdout();
  let mut o = stdout.lock();
  for line in stdin.lock().lines() {
    let line = line.unwrap();
    let w: Vec<&str> = line.split(' ').collect();
    let base: usize = w[1].parse().unwrap();
    let text: String = unhex(w[2].trim_start_matches('x'));
    let ops = &w[3..];
    let out = match w[0] {
      "str" => streams(text.as_str().stream(), || text.as_str().stream(), ops),
      "string" => streams((&text).stream(), || (&text).stream(), ops),
      "file" => {
        let f = file_map_at(&text, base);
        let first = f.stream();
        let lines = |f: &std::rc::Rc<file_map_stream::FileMap>| f.lines.borrow().iter().map(|b| b.0.to_string()).collect::<Vec<_>>().join(",");
        let l1 = lines(f);
        let mut out = streams(first, || f.stream(), ops);
        let _second = f.stream();
        out.push(format!("{} {} {}", f.count_lines(), l1, lines(f)));
        out
      }
      "state" => states(text.as_str().into_state(), ops),
      "statenew" => states(ParseState::new((&text).stream()), ops),
      "statefile" => states(file_map_at(&text, FILE_START).into_state(), ops),
      _ => panic!("unknown kind"),
    };
    o.write_all(out.join("\t").as_bytes()).unwrap();
    o.write_all(b"\n").unwrap();
  }
}
