//! Properties that observe log records, panics, time and files.

use mcx::{Ch, Ctx, Res, bail, catch, ensure, ensure_eq};
use std::cell::{Cell, RefCell};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// A logger that keeps the records of each thread.

struct Logger;

thread_local! {
  static EVENTS: RefCell<Vec<Event>> = const { RefCell::new(Vec::new()) };
  static ENABLED: Cell<bool> = const { Cell::new(true) };
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum Event {
  Log(log::Level, String),
  Mark(&'static str, u32),
}

fn event(e: Event) {
  EVENTS.with(|es| es.borrow_mut().push(e));
}

fn take_events() -> Vec<Event> {
  EVENTS.with(|es| std::mem::take(&mut *es.borrow_mut()))
}

impl log::Log for Logger {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    ENABLED.with(Cell::get)
  }
  fn log(&self, r: &log::Record<'_>) {
    if self.enabled(r.metadata()) {
      event(Event::Log(r.level(), r.args().to_string()));
    }
  }
  fn flush(&self) {}
}

pub fn install_logger() {
  log::set_logger(&Logger).expect("first logger");
  log::set_max_level(log::LevelFilter::Trace);
}

pub fn take_log() -> Vec<(log::Level, String)> {
  take_events()
    .into_iter()
    .filter_map(|e| match e {
      Event::Log(l, s) => Some((l, s)),
      Event::Mark(..) => None,
    })
    .collect()
}

// ---------------------------------------------------------------------------------------------
// P34

/// Evaluated as (part of) a condition.
fn cond(n: u32, v: bool) -> bool {
  event(Event::Mark("condition", n));
  v
}

/// Evaluated as (part of) a message.
fn arg(n: u32) -> u32 {
  event(Event::Mark("argument", n));
  n
}

/// The message of a panic, without its location.
fn message(s: String) -> String {
  s.rsplit_once(" (at ").map_or(s.clone(), |(m, _)| m.to_owned())
}

struct Form {
  name: &'static str,
  run: fn(u32, bool) -> bool,
  /// What the message has to contain.
  msg: fn(u32) -> String,
  /// Whether it is all of the message.
  exact: bool,
}

macro_rules! form {
  ($name:literal, |$n:ident, $v:ident| $e:expr, $exact:literal, $msg:expr) => {
    Form { name: $name, run: |$n, $v| $e, msg: |$n| $msg, exact: $exact }
  };
}

use always::always;

fn early(n: u32, v: bool) -> bool {
  if !always!(cond(n, v), "in a condition {n}") {
    event(Event::Mark("not", n));
    return false;
  }
  event(Event::Mark("held", n));
  true
}

const FORMS: &[Form] = &[
  form!("no message", |n, v| always!(cond(n, v)), false, {
    let _ = n;
    String::from("cond(n, v)")
  }),
  form!("literal", |n, v| always!(cond(n, v), "plain"), true, {
    let _ = n;
    String::from("plain")
  }),
  form!("literal with braces", |n, v| always!(cond(n, v), "a {{b}} %s {{}}"), true, {
    let _ = n;
    String::from("a {b} %s {}")
  }),
  form!("argument", |n, v| always!(cond(n, v), "argument {}", arg(n)), true, format!("argument {n}")),
  form!("captured", |n, v| always!(cond(n, v), "captured {n:>4}"), true, format!("captured {n:>4}")),
  form!("named", |n, v| always!(cond(n, v), "named {x:?} {0}", arg(n), x = "q"), true, format!("named \"q\" {n}")),
  form!("trailing comma", |n, v| always!(cond(n, v), "{}-{}", 1, n,), true, format!("1-{n}")),
  form!("empty message", |n, v| always!(cond(n, v), ""), true, {
    let _ = n;
    String::new()
  }),
  form!("multi-line", |n, v| always!(cond(n, v), "a\nb {n}\n"), true, format!("a\nb {n}\n")),
  form!(
    "operators",
    |n, v| always!(!cond(n, !v) && 1 + 1 == 2 || false, "operators {n}"),
    true,
    format!("operators {n}")
  ),
  form!(
    "block",
    |n, v| always!(
      {
        let w = cond(n, v);
        w
      },
      "block {n}"
    ),
    true,
    format!("block {n}")
  ),
  form!(
    "variable named like one of the macro",
    |n, v| {
      let cond = cond(n, v);
      always!(cond, "variable {n} {cond}")
    },
    true,
    format!("variable {n} false")
  ),
  form!("in a condition", |n, v| early(n, v), true, format!("in a condition {n}")),
  form!(
    "in a match",
    |n, v| match always!(cond(n, v), "in a match {n}") {
      true => true,
      false => false,
    },
    true,
    format!("in a match {n}")
  ),
];

fn p34(x: &mut Ctx, filter: log::LevelFilter, what: &str) {
  log::set_max_level(filter);
  let (debug, logs) = (x.debug, filter >= log::LevelFilter::Error);
  let depth = x.by(3, 4);
  let depth = if logs { depth } else { 2 };
  x.space(&format!("assertions, {what}"), format!("all sequences of {depth} assertions out of {} forms, each true or false", FORMS.len()), move |c: &mut Ch<'_>| {
    ENABLED.with(|e| e.set(true));
    take_events();
    for n in 0..depth as u32 {
      let f = c.of(FORMS);
      let v = c.flag();
      let want = (f.msg)(n);
      let fits = |m: &str| if f.exact { m == want } else { m.contains(&want) };
      let got = catch(|| (f.run)(n, v)).map_err(message);
      let events = take_events();
      let conds = events.iter().filter(|e| matches!(e, Event::Mark("condition", k) if *k == n)).count();
      let at = || format!("assertion {n} ({}, {v}): {events:?}, result {got:?}", f.name);
      c.checks(1);
      ensure_eq!(conds, 1, "evaluations of the condition: {}", at());
      let recs: Vec<(&log::Level, &String)> = events.iter().filter_map(|e| if let Event::Log(l, s) = e { Some((l, s)) } else { None }).collect();
      let first = events.iter().position(|e| matches!(e, Event::Mark("condition", _)));
      ensure_eq!(first, Some(0), "the condition is not evaluated first: {}", at());
      if v {
        ensure_eq!(got, Ok(true), "value: {}", at());
        ensure!(recs.is_empty(), "a true condition was logged: {}", at());
        ensure!(!events.iter().any(|e| matches!(e, Event::Mark("argument", _))), "arguments were evaluated: {}", at());
        c.outcome("true");
      } else if debug {
        match &got {
          Ok(_) => bail!("no panic: {}", at()),
          Err(m) => ensure!(fits(m), "message of the panic: {m:?} instead of {want:?}: {}", at()),
        }
        c.outcome("panic");
      } else {
        ensure_eq!(got, Ok(false), "value: {}", at());
        if logs {
          ensure!(recs.len() == 1 && *recs[0].0 == log::Level::Error && fits(recs[0].1), "not exactly one error {want:?}: {}", at());
          c.outcome("logged");
        } else {
          ensure!(recs.is_empty(), "logged although that is off: {}", at());
          c.outcome("continued");
        }
        if f.name == "in a condition" {
          ensure!(events.contains(&Event::Mark("not", n)), "did not continue: {}", at());
        }
      }
      c.state(&(f.name, v, n, filter));
    }
    Ok(())
  });
  if filter == log::LevelFilter::Trace {
    x.space("nested assertions, all logged", "an assertion in the condition of one in the condition of one: all truths", move |c: &mut Ch<'_>| {
      take_events();
      let (a, b, d) = (c.flag(), c.flag(), c.flag());
      let got = catch(|| always!(always!(always!(cond(0, a), "inner") && cond(1, b), "middle {}", arg(7)) && cond(2, d), "outer")).map_err(message);
      let events = take_events();
      let (m, o) = (a && b, a && b && d);
      let mut want = vec![Event::Mark("condition", 0)];
      let fail = |want: &mut Vec<Event>, v: bool, msg: &str| {
        if !v && !debug {
          want.push(Event::Log(log::Level::Error, msg.to_owned()));
        }
      };
      let msg = if !a { Some("inner") } else if !m { Some("middle 7") } else if !o { Some("outer") } else { None };
      fail(&mut want, a, "inner");
      if a {
        want.push(Event::Mark("condition", 1));
      }
      let stop = debug && msg.is_some_and(|m| m != "outer");
      fail(&mut want, m, "middle 7");
      if m {
        want.push(Event::Mark("condition", 2));
      }
      fail(&mut want, o, "outer");
      let seen: Vec<Event> = events.iter().filter(|e| !matches!(e, Event::Mark("argument", _))).cloned().collect();
      ensure_eq!(seen, want, "{a} {b} {d}: events (stops early: {stop})");
      match (got, msg) {
        (Ok(v), _) if !debug => ensure_eq!(v, o, "value"),
        (Ok(v), None) => ensure!(v, "value"),
        (Err(p), Some(m)) if debug => ensure_eq!(p, m, "message of the panic"),
        (g, m) => bail!("{a} {b} {d}: {g:?} instead of {m:?}"),
      }
      c.checks(1);
      c.state(&(a, b, d));
      Ok(())
    });
  }
  log::set_max_level(log::LevelFilter::Trace);
}

/// Runs what it holds when dropped, and keeps its result.
struct OnDrop<'a>(&'a dyn Fn());
impl Drop for OnDrop<'_> {
  fn drop(&mut self) {
    (self.0)();
  }
}

fn p34_more(x: &mut Ctx) {
  let debug = x.debug;
  // the events of one false assertion
  let failed = move |got: Result<bool, String>, want: &str| -> Res {
    let events = take_events();
    let mut evs = vec![Event::Mark("condition", 0)];
    if debug {
      ensure!(got.as_ref().err().is_some_and(|m| m == want), "the panic is {got:?} instead of {want:?}");
    } else {
      ensure_eq!(got, Ok(false), "value");
      evs.push(Event::Log(log::Level::Error, want.to_owned()));
    }
    ensure!(events == evs, "events {events:?} instead of {evs:?}");
    Ok(())
  };
  x.space("messages", "messages of every character, captured, as an argument, and between others; texts of up to 280000 bytes", move |c: &mut Ch<'_>| {
    take_events();
    let mut texts = vec![];
    if c.flag() {
      let unit = *c.of(&["x", " ", "\u{e9}", "a b\n", "{}"]);
      texts.push(unit.repeat(*c.of(&[1, 7, 31, 32, 63, 64, 80, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65_535, 65_537, 70_000])));
    } else {
      let hi = c.pick(0x1100) as u32;
      texts.extend((0..256).filter_map(|lo| char::from_u32(hi << 8 | lo)).map(String::from));
    }
    let form = c.pick(3);
    for m in &texts {
      let (got, want) = match form {
        0 => (catch(|| always!(cond(0, false), "{m}")), m.clone()),
        1 => (catch(|| always!(cond(0, false), "{}", m)), m.clone()),
        _ => (catch(|| always!(cond(0, false), "a {} b {m}.", m)), format!("a {m} b {m}.")),
      };
      failed(got.map_err(message), &want)?;
      c.checks(1);
    }
    c.state(&texts);
    Ok(())
  });
  x.space("repetitions", "one assertion 1-5000 times (true, false or turns), on one thread after the other and of a generic function at two types", move |c: &mut Ch<'_>| {
    fn one<T: Default>(n: u32, v: bool) -> bool {
      let _t = T::default();
      always!(cond(n, v), "one {n}")
    }
    take_events();
    let times = *c.of(&[1, 2, 3, 9, 17, 100, 257, 1025, 5000]);
    let how = c.pick(3);
    let what = c.pick(3);
    let go = move || -> Res {
      for i in 0..times {
        let v = match how {
          0 => true,
          1 => false,
          _ => i % 2 == 0,
        };
        let got = catch(|| if what == 1 && i % 3 == 0 { one::<u8>(0, v) } else { one::<u16>(0, v) }).map_err(message);
        if v {
          ensure_eq!(got, Ok(true), "value");
          ensure_eq!(take_events(), vec![Event::Mark("condition", 0)], "events of a true one");
        } else {
          failed(got, "one 0")?;
        }
      }
      Ok(())
    };
    go()?;
    if what == 2 {
      for _ in 0..2 {
        std::thread::scope(|s| s.spawn(go).join()).unwrap_or_else(|_| Err("a thread panicked".into()))?;
      }
    }
    c.checks(times);
    c.state(&(times, how, what));
    Ok(())
  });
  x.space("unwinding", "up to 3 assertions, true or false, in destructors run by a panic or not", move |c: &mut Ch<'_>| {
    take_events();
    let unwind = c.flag();
    let n = 1 + c.pick(3);
    let res: RefCell<Vec<(bool, Result<bool, String>, Vec<Event>)>> = RefCell::default();
    let vs: Vec<bool> = (0..n).map(|_| c.flag()).collect();
    let runs: Vec<Box<dyn Fn() + '_>> = vs
      .iter()
      .map(|&v| {
        let res = &res;
        Box::new(move || {
          // (the panic of an assertion must not leave the destructor)
          let got = catch(|| always!(cond(0, v), "in a destructor")).map_err(message);
          res.borrow_mut().push((v, got, take_events()));
        }) as Box<dyn Fn()>
      })
      .collect();
    let r = catch(|| {
      let _all: Vec<OnDrop<'_>> = runs.iter().map(|f| OnDrop(&**f)).collect();
      if unwind {
        std::panic::panic_any(Oops);
      }
    });
    ensure_eq!(r.is_err(), unwind, "the panic of the caller's own");
    drop(runs);
    let res = res.into_inner();
    ensure_eq!(res.iter().map(|r| r.0).collect::<Vec<_>>(), vs, "assertions");
    for (v, got, events) in res {
      c.checks(1);
      if v {
        ensure_eq!(got, Ok(true), "value");
        ensure_eq!(events, vec![Event::Mark("condition", 0)], "events of a true one");
      } else {
        events.into_iter().for_each(event);
        failed(got, "in a destructor")?;
      }
    }
    c.state(&(unwind, vs));
    Ok(())
  });
}

pub fn p34_all(x: &mut Ctx) {
  p34(x, log::LevelFilter::Trace, "all logged");
  p34(x, log::LevelFilter::Error, "errors logged");
  p34(x, log::LevelFilter::Off, "nothing logged");
  p34_more(x);
}

// ---------------------------------------------------------------------------------------------
// P37

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Kind {
  Time,
  Log,
}

/// A timed call.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Call {
  id: u32,
  kind: Kind,
  msg: &'static str,
  subs: Vec<Call>,
  /// The function panics at its end.
  panics: bool,
  /// The function logs something itself.
  chatty: bool,
}

const MSGS: &[&str] = &["m", " m\t ", "", "{}%s {0}", "two\nlines: 1s\n"];

fn gen_call(c: &mut Ch<'_>, left: &mut usize, depth: usize, next: &mut u32) -> Call {
  *left -= 1;
  let id = *next;
  *next += 1;
  let kind = if c.flag() { Kind::Log } else { Kind::Time };
  let msg = if kind == Kind::Log { MSGS[id as usize % MSGS.len()] } else { "" };
  let mut subs = vec![];
  if depth > 0 {
    while *left > 0 && subs.len() < 2 && c.flag() {
      subs.push(gen_call(c, left, depth - 1, next));
    }
  }
  let (panics, chatty) = match c.pick(3) {
    0 => (false, false),
    1 => (true, false),
    _ => (false, true),
  };
  Call { id, kind, msg, subs, panics, chatty }
}

struct Span {
  id: u32,
  kind: Kind,
  inside: Duration,
  got: Option<Duration>,
  outside: Duration,
}

#[derive(Debug)]
struct Oops;

/// Runs the call, gives its result.
fn run_call(call: &Call, spans: &RefCell<Vec<Span>>) -> String {
  let inside = Cell::new(Duration::ZERO);
  let out = Instant::now();
  let body = || {
    let start = Instant::now();
    event(Event::Mark("enter", call.id));
    let mut res = format!("r{}", call.id);
    for sub in &call.subs {
      res.push('(');
      res.push_str(&run_call(sub, spans));
      res.push(')');
    }
    while start.elapsed() < Duration::from_micros(2) {
      std::hint::spin_loop();
    }
    if call.chatty {
      log::warn!("chat {}", call.id);
    }
    event(Event::Mark("exit", call.id));
    if call.panics {
      std::panic::panic_any(Oops);
    }
    inside.set(start.elapsed());
    res
  };
  let (res, got) = match call.kind {
    Kind::Time => {
      let (res, d) = elapsed::time(body);
      (res, Some(d))
    }
    Kind::Log => (elapsed::log(call.msg, body), None),
  };
  let outside = out.elapsed();
  event(Event::Mark("return", call.id));
  spans.borrow_mut().push(Span { id: call.id, kind: call.kind, inside: inside.get(), got, outside });
  res
}

/// What should happen: the events (a record of `Log` calls is marked "record") and the result.
fn model_call(call: &Call, events: &mut Vec<Event>) -> Result<String, ()> {
  events.push(Event::Mark("enter", call.id));
  let mut res = format!("r{}", call.id);
  for sub in &call.subs {
    res.push('(');
    res.push_str(&model_call(sub, events)?);
    res.push(')');
  }
  if call.chatty {
    events.push(Event::Log(log::Level::Warn, format!("chat {}", call.id)));
  }
  events.push(Event::Mark("exit", call.id));
  if call.panics {
    return Err(());
  }
  if call.kind == Kind::Log {
    events.push(Event::Mark("record", call.id));
  }
  events.push(Event::Mark("return", call.id));
  Ok(res)
}

/// The duration that a text displays, with the unit of its last digit.
fn parse_duration(s: &str) -> Option<(f64, f64)> {
  let s = s.trim();
  let num = s.trim_end_matches(|c: char| !c.is_ascii_digit());
  let unit = match s[num.len()..].trim() {
    "ns" => 1.0,
    "\u{b5}s" | "us" | "\u{3bc}s" => 1e3,
    "ms" => 1e6,
    "s" => 1e9,
    _ => return None,
  };
  let digits = num.split_once('.').map_or(0, |(_, f)| f.len());
  Some((num.parse::<f64>().ok()? * unit, unit / 10_f64.powi(i32::try_from(digits).ok()?)))
}

fn texts<'m>(call: &'m Call, out: &mut Vec<(u32, &'m str)>) {
  out.push((call.id, call.msg));
  for s in &call.subs {
    texts(s, out);
  }
}

/// Spins (so that the time is that of the thread itself).
fn spin(us: u64) {
  let start = Instant::now();
  while us > 0 && start.elapsed() < Duration::from_micros(us) {
    std::hint::spin_loop();
  }
}

fn work(c: &mut Ch<'_>, filter: log::LevelFilter) -> Res {
  ENABLED.with(|e| e.set(true));
  take_events();
  const MSG: &str = "it took";
  let n = if filter == log::LevelFilter::Trace && c.flag() { 1 } else { 3 };
  for i in 0..n {
    let logs = c.flag();
    // (repetitions, microseconds of work)
    let (times, us) = if n == 1 { (1, 1_100_000) } else { *c.of(&[(100, 0), (1, 3), (1, 400), (1, 3000)]) };
    for k in 0..times {
      let out = Instant::now();
      let mut inside = Duration::ZERO;
      let (shown, unit) = if logs {
        // (nothing inside when there is no work)
        let v = if us == 0 {
          elapsed::log(MSG, || k)
        } else {
          elapsed::log(MSG, || {
            let s = Instant::now();
            spin(us);
            inside = s.elapsed();
            k
          })
        };
        ensure_eq!(v, k, "result");
        let outside = out.elapsed();
        let recs = take_log();
        let want = usize::from(filter >= log::LevelFilter::Info);
        ensure_eq!(recs.len(), want, "records of a call with {us} us of work, taking less than {outside:?}: {recs:?}");
        let Some((level, text)) = recs.into_iter().next() else { continue };
        ensure_eq!(level, log::Level::Info, "level of {text:?}");
        let rest = text.split_once(MSG).map(|t| t.1.to_owned());
        let Some(rest) = rest else { bail!("{text:?} lacks {MSG:?}") };
        let shown = rest.split(|ch: char| ch.is_whitespace() || ":()[],;=".contains(ch)).find_map(parse_duration);
        let Some(shown) = shown else { bail!("no duration in {text:?}") };
        let outside = outside.as_nanos() as f64;
        ensure!(shown.0 <= outside + shown.1, "{text:?} where it took {outside} ns outside");
        shown
      } else {
        let (v, d) = if us == 0 {
          elapsed::time(|| k)
        } else {
          elapsed::time(|| {
            let s = Instant::now();
            spin(us);
            inside = s.elapsed();
            k
          })
        };
        let outside = out.elapsed();
        ensure_eq!(v, k, "result");
        ensure!(d <= outside, "took {d:?}, but {outside:?} outside");
        ensure_eq!(take_log().len(), 0, "records of a timed call");
        (d.as_nanos() as f64, 0.0)
      };
      ensure!(inside.as_nanos() as f64 <= shown + unit, "{inside:?} inside, but {shown} ns");
      c.checks(1);
    }
    c.state(&(i, logs, us, filter));
  }
  Ok(())
}

/// Logs one call that does nothing with the message.
fn log_one(c: &mut Ch<'_>, m: &str) -> Res {
  take_events();
  let out = Instant::now();
  let v = elapsed::log(m, || 7);
  let outside = out.elapsed().as_nanos() as f64;
  ensure_eq!(v, 7, "result");
  let recs = take_log();
  ensure!(recs.len() == 1 && recs[0].0 == log::Level::Info, "records of a call with message {m:?}: {recs:?}");
  let text = &recs[0].1;
  ensure!(text.contains(m), "{text:?} lacks {m:?}");
  // the duration may come before or after, and the message may occur in it
  let fits = text.char_indices().map(|(at, _)| at).filter(|&at| text[at..].starts_with(m)).any(|at| {
    let around = [&text[at + m.len()..], &text[..at]];
    let mut parts = around.iter().flat_map(|s| s.split(|ch: char| ch.is_whitespace() || ":()[],;=".contains(ch)));
    parts.find_map(parse_duration).is_some_and(|(ns, unit)| ns <= outside + unit)
  });
  ensure!(fits, "{text:?} does not show {m:?} and at most {outside} ns");
  c.checks(1);
  Ok(())
}

pub fn p37(x: &mut Ctx) {
  for (filter, what) in [(log::LevelFilter::Trace, "all logged"), (log::LevelFilter::Info, "information logged"), (log::LevelFilter::Warn, "warnings logged"), (log::LevelFilter::Off, "nothing logged")] {
    log::set_max_level(filter);
    let most = x.by(4, 5);
    let most = if filter == log::LevelFilter::Trace { most } else { 3 };
    x.space(&format!("nested calls, {what}"), format!("all trees of up to {most} calls nested up to 3 deep, each timed or logged, returning, panicking or logging itself"), move |c: &mut Ch<'_>| {
      ENABLED.with(|e| e.set(true));
      take_events();
      let (mut left, mut next) = (most, 0);
      let call = gen_call(c, &mut left, 2, &mut next);
      let spans = RefCell::new(vec![]);
      let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_call(&call, &spans)));
      let got = match got {
        Ok(s) => Ok(s),
        Err(p) if p.is::<Oops>() => Err(()),
        Err(_) => bail!("{call:?}: another panic than that of the function"),
      };
      let events = take_events();
      let mut want = vec![];
      let res = model_call(&call, &mut want);
      want.retain(|e| match e {
        Event::Log(l, _) => *l <= filter,
        Event::Mark("record", _) => log::Level::Info <= filter,
        Event::Mark(..) => true,
      });
      c.checks(1);
      c.state(&(&call, filter));
      ensure_eq!(got, res, "{call:?}: result (events {events:?})");
      ensure_eq!(events.len(), want.len(), "{call:?}: number of events {events:?} where {want:?}");
      let spans = spans.into_inner();
      let mut msgs = vec![];
      texts(&call, &mut msgs);
      for (e, w) in events.iter().zip(&want) {
        let Event::Mark("record", id) = w else {
          ensure_eq!(e, w, "{call:?}: events {events:?} where {want:?}");
          continue;
        };
        let Event::Log(log::Level::Info, text) = e else {
          bail!("{call:?}: {e:?} instead of an information in {events:?}");
        };
        let msg = msgs.iter().find(|m| m.0 == *id).map_or("", |m| m.1);
        let Some(at) = text.find(msg) else { bail!("{call:?}: {text:?} lacks {msg:?}") };
        let rest = &text[at + msg.len()..];
        let shown = rest.split(|ch: char| ch.is_whitespace() || ":()[],;=".contains(ch)).find_map(parse_duration);
        let Some((ns, unit)) = shown else { bail!("{call:?}: no duration in {text:?}") };
        // the function may have returned before a caller panicked
        let span = spans.iter().find(|s| s.id == *id).unwrap_or_else(|| mcx::machinery("no span"));
        let (lo, hi) = (span.inside.as_nanos() as f64 - unit, span.outside.as_nanos() as f64 + unit);
        ensure!(lo <= ns && ns <= hi, "{call:?}: {text:?} where it took {:?} inside, {:?} outside", span.inside, span.outside);
      }
      for s in &spans {
        let Some(d) = s.got else { continue };
        ensure!(s.inside <= d && d <= s.outside, "{call:?}: {:?} {} took {d:?}, but {:?} inside and {:?} outside", s.kind, s.id, s.inside, s.outside);
      }
      c.outcome(if res.is_ok() { "returned" } else { "panicked" });
      Ok(())
    });
  }
  for filter in [log::LevelFilter::Trace, log::LevelFilter::Debug, log::LevelFilter::Info, log::LevelFilter::Warn] {
    log::set_max_level(filter);
    x.space(
      &format!("amounts of work, logged at {filter}"),
      "all sequences of 3 calls, each timed or logged, doing nothing 100 times over, or 3 us, 400 us, 3 ms of work; one of 1.1 s",
      move |c: &mut Ch<'_>| work(c, filter),
    );
  }
  log::set_max_level(log::LevelFilter::Trace);
  x.space("every character", "every character alone, first and last in a message", |c: &mut Ch<'_>| {
    let hi = c.pick(0x1100) as u32;
    for lo in 0..256 {
      let Some(ch) = char::from_u32(hi << 8 | lo) else { continue };
      for m in [format!("{ch}"), format!("{ch}m"), format!("m{ch}")] {
        log_one(c, &m)?;
      }
    }
    c.state(&hi);
    Ok(())
  });
  let long = x.by(4, 6);
  x.space("messages", format!("all texts of up to {long} of 9 characters; texts of 1-70000 bytes"), move |c: &mut Ch<'_>| {
    let m: String = if c.flag() {
      let unit = *c.of(&["x", " ", "\u{e9}", "a b\n"]);
      unit.repeat(*c.of(&[1, 7, 8, 63, 64, 80, 127, 128, 255, 256, 1023, 1024, 4096, 16_384, 17_500]))
    } else {
      let n = c.pick(long + 1);
      (0..n).map(|_| *c.of(&['m', ' ', '\n', '\t', '{', '}', '%', ':', '\0'])).collect()
    };
    c.state(&m);
    log_one(c, &m)
  });
  x.space("kinds of results", "nothing, values, references, functions moving and changing what they capture", |c: &mut Ch<'_>| {
    take_events();
    let owned = vec![String::from("a")];
    let mut count = 0;
    let n = c.pick(3);
    let v = match n {
      0 => elapsed::time(|| {
        count += 1;
        owned
      })
      .0,
      1 => elapsed::log("m", || {
        count += 1;
        owned
      }),
      _ => {
        let r: Result<Vec<String>, ()> = elapsed::log("m", || {
          count += 1;
          Err(())
        });
        ensure!(r.is_err(), "an error result was changed");
        let ((), _) = elapsed::time(|| ());
        owned
      }
    };
    ensure!(v == ["a"] && count == 1, "result {v:?}, {count} calls");
    ensure_eq!(take_events().len(), usize::from(n > 0), "records");
    c.checks(1);
    c.state(&n);
    Ok(())
  });
}

// ---------------------------------------------------------------------------------------------
// P38

static ENV: Mutex<()> = Mutex::new(());

struct Scratch(PathBuf);

impl Scratch {
  fn new() -> Self {
    use std::sync::atomic::{AtomicU32, Ordering};
    static N: AtomicU32 = AtomicU32::new(0);
    let dir = std::env::temp_dir().join(format!("mcx-p38-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir(&dir).unwrap_or_else(|e| mcx::machinery(&format!("scratch directory: {e}")));
    Self(dir)
  }
}

impl Drop for Scratch {
  fn drop(&mut self) {
    _ = std::fs::remove_dir_all(&self.0);
  }
}

/// Everything below a directory: path, contents (none for a directory).
fn listing(dir: &Path) -> Vec<(PathBuf, Option<Vec<u8>>)> {
  let mut out = vec![];
  for e in std::fs::read_dir(dir).unwrap_or_else(|e| mcx::machinery(&format!("scratch: {e}"))) {
    let p = e.unwrap_or_else(|e| mcx::machinery(&format!("scratch: {e}"))).path();
    if p.is_dir() {
      out.extend(listing(&p));
      out.push((p, None));
    } else {
      let b = std::fs::read(&p).ok();
      out.push((p, b));
    }
  }
  out.sort();
  out
}

/// Rust items. Canonical: formatting adds and removes only spaces and trailing commas.
const ITEMS: &[&str] = &[
  "use a :: { b , c as d } ;",
  "pub struct Unit ;",
  "#[derive(Debug, Clone)] pub struct S < 'a , T : Copy > { pub a : & 'a T , b : [ u8 ; 3 ] }",
  "enum E { A = 1 , B ( u8 , ) , C { x : i32 , } , }",
  "#[doc = \" about f\\n \\\"quoted\\\"\"] pub fn f ( x : u32 , y : & str ) -> u32 { let z = x + 1 ; if z > 3 { return z ; } y . len ( ) as u32 }",
  "const K : & [ ( & str , char ) ] = & [ ( \"a\\\"b\\u{e9}\" , '\\'' ) , ( \"{\" , '\\n' ) ] ;",
  "impl < T > std :: fmt :: Display for W < T > where T : Clone , { fn fmt ( & self , f : & mut std :: fmt :: Formatter < '_ > ) -> std :: fmt :: Result { match self . 0 { 0 ..= 3 | 7 => f . write_str ( \"low\" ) , n if n > 9 => todo ! ( ) , _ => f . write_str ( r#\"raw \"s\"\"# ) , } } }",
  "mod m { pub ( crate ) static X : u64 = 0x_ff_u64 ; #[cfg(test)] mod inner { } }",
  "macro_rules ! mac { ( $ ( $ x : ident ) , * ) => { $ ( $ x ; ) * } ; }",
  "pub trait Tr { type A : Sized ; fn m ( & self ) -> Self :: A ; }",
  "type L = dyn Fn ( u8 ) -> Box < dyn Send > ;",
  "pub fn long_name_number_one ( first_argument : SomeLongTypeName , second_argument : AnotherLongTypeName , third_argument : YetAnotherOne ) -> Result < Vec < SomeLongTypeName > , AnotherLongTypeName > { first_argument . one ( | x | x + 1 ) . two ( b\"bytes\" ) . three ( & mut third_argument [ 0 .. 2 ] ) ? ; loop { break ; } }",
];

/// Token streams that are no Rust files.
const JUNK: &[&str] = &["fn", "x", "1 + 1", "struct S { ", ") ;", "let x = 1 ;", "pub pub struct S ;", "fn f ( ) { } }", "; ; }", "use ;"];

fn stream(src: &str) -> Option<proc_macro2::TokenStream> {
  src.parse().ok()
}

/// Tokens without spacing, trailing commas and ways to write the same literal.
fn flat(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
  use proc_macro2::{Delimiter, TokenTree};
  for t in ts {
    match t {
      TokenTree::Group(g) => {
        let (o, c) = match g.delimiter() {
          Delimiter::Parenthesis => ("(", ")"),
          Delimiter::Brace => ("{", "}"),
          Delimiter::Bracket => ("[", "]"),
          Delimiter::None => ("", ""),
        };
        out.push(o.to_owned());
        flat(g.stream(), out);
        if out.last().is_some_and(|l| l == ",") {
          out.pop();
        }
        out.push(c.to_owned());
      }
      TokenTree::Literal(l) => out.push(match syn::Lit::new(l) {
        syn::Lit::Str(s) => format!("str {:?}", s.value()),
        syn::Lit::Char(s) => format!("char {:?}", s.value()),
        syn::Lit::ByteStr(s) => format!("bytes {:?}", s.value()),
        syn::Lit::Int(s) => format!("int {} {}", s.base10_digits(), s.suffix()),
        l => format!("{:?}", quote_lit(&l)),
      }),
      TokenTree::Ident(i) => out.push(i.to_string()),
      TokenTree::Punct(p) => {
        // a trailing comma in angle brackets
        if p.as_char() == '>' && out.last().is_some_and(|l| l == ",") {
          out.pop();
        }
        out.push(p.as_char().to_string());
      }
    }
  }
}

fn quote_lit(l: &syn::Lit) -> String {
  match l {
    syn::Lit::Float(f) => f.to_string(),
    syn::Lit::Bool(b) => b.value.to_string(),
    syn::Lit::Byte(b) => b.value().to_string(),
    syn::Lit::Verbatim(v) => v.to_string(),
    _ => String::from("another literal"),
  }
}

fn flatten(src: &str) -> Option<Vec<String>> {
  let mut out = vec![];
  flat(stream(src)?, &mut out);
  Some(out)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Before {
  Absent,
  Short,
  Long,
  /// Directories cannot be written to.
  Dir,
  /// What is written for these tokens, made by writing them to another directory, then changed.
  Like(Like),
}

/// How what was there before differs from what will be there.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Like {
  Same,
  FirstByte,
  LastByte,
  Spaces,
  Half,
  Twice,
  OneMore,
  OneLess,
  NoText,
}

const LIKE: &[Like] =
  &[Like::Same, Like::FirstByte, Like::LastByte, Like::Spaces, Like::Half, Like::Twice, Like::OneMore, Like::OneLess, Like::NoText];

fn like(mut text: Vec<u8>, how: Like) -> Vec<u8> {
  let n = text.len();
  match how {
    Like::Same => {}
    Like::FirstByte => text.iter_mut().take(1).for_each(|b| *b = b'#'),
    Like::LastByte => text.iter_mut().skip(n.saturating_sub(1)).for_each(|b| *b = b' '),
    Like::Spaces => text.fill(b' '),
    Like::Half => text.truncate(n / 2),
    Like::Twice => text.extend_from_within(..),
    Like::OneMore => text.push(b'\n'),
    Like::OneLess => drop(text.pop()),
    Like::NoText => text.fill(0xff),
  }
  text
}

/// Calls the function with the variable set to what is given.
fn go_with(out: Option<&Path>, ts: proc_macro2::TokenStream, name: &str) -> Result<(), String> {
  let _lock = ENV.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
  // SAFETY: only this function accesses the variable, and only with the lock.
  unsafe {
    match out {
      Some(p) => std::env::set_var("OUT_DIR", p),
      None => std::env::remove_var("OUT_DIR"),
    }
  }
  catch(|| write_rs_tokens::go(ts, name))
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum OutDir {
  Set,
  Unset,
  Missing,
  /// The variable names a file.
  File,
}

fn write_one(c: &mut Ch<'_>, src: &str, before: Before, out: OutDir, name: &str) -> Res {
  let scratch = Scratch::new();
  let dir = scratch.0.join("out dir");
  let io = |r: std::io::Result<()>| r.unwrap_or_else(|e| mcx::machinery(&format!("scratch: {e}")));
  io(std::fs::create_dir_all(dir.join("sub")));
  for (p, s) in [("out dir/other.rs", "other\n"), ("out dir/sub/f.rs", "keep\n"), ("f.rs", "not this\n"), ("out dir/f", "nor this")] {
    io(std::fs::write(scratch.0.join(p), s));
  }
  let dst = dir.join(name);
  let mut like_text = None;
  match before {
    Before::Absent => {
      if dst.exists() {
        io(std::fs::remove_file(&dst));
      }
    }
    Before::Short => io(std::fs::write(&dst, "// old\n")),
    Before::Long => io(std::fs::write(&dst, "// a very long line of what was there before\n".repeat(200))),
    Before::Dir => io(std::fs::create_dir_all(&dst)),
    Before::Like(how) => {
      let first = Scratch::new();
      let ts = stream(src).unwrap_or_else(|| mcx::machinery(&format!("no tokens: {src}")));
      let r = go_with(Some(&first.0), ts, name);
      ensure!(r.is_ok(), "{src:?} to {name}: {r:?}");
      let Ok(text) = std::fs::read(first.0.join(name)) else { bail!("{src:?}: no file was written") };
      like_text = Some(text.clone());
      io(std::fs::write(&dst, like(text, how)));
    }
  }
  let old = listing(&scratch.0);
  let ts = stream(src).unwrap_or_else(|| mcx::machinery(&format!("no tokens: {src}")));
  let parses = syn::parse2::<syn::File>(ts.clone()).is_ok();
  let (none, file) = (dir.join("none"), dir.join("other.rs"));
  let got = go_with(
    match out {
      OutDir::Set => Some(&dir),
      OutDir::Unset => None,
      OutDir::Missing => Some(&none),
      OutDir::File => Some(&file),
    },
    ts,
    name,
  );
  let new = listing(&scratch.0);
  let ok = parses && before != Before::Dir && out == OutDir::Set;
  let at = || format!("{src:?} to {name}, {before:?}, OUT_DIR {out:?}: ");
  c.checks(1);
  c.state(&(src, before, out, name));
  ensure_eq!(got.is_ok(), ok, "{}success ({got:?})", at());
  let others = |l: &[(PathBuf, Option<Vec<u8>>)]| -> Vec<(PathBuf, Option<Vec<u8>>)> { l.iter().filter(|e| e.0 != dst).cloned().collect() };
  ensure!(others(&old) == others(&new), "{}other files were touched", at());
  if !ok {
    ensure!(old == new, "{}a failed call changed the file", at());
    c.outcome("refused");
    return Ok(());
  }
  let Ok(text) = std::fs::read_to_string(&dst) else { bail!("{}no text file was written", at()) };
  ensure!(!text.is_empty() || src.trim().is_empty(), "{}wrote {text:?}", at());
  ensure!(text.is_empty() || text.ends_with('\n'), "{}no newline at the end of {text:?}", at());
  if let Some(t) = like_text {
    ensure!(t == text.as_bytes(), "{}what is written depends on what was there: {text:?}", at());
  }
  let want = flatten(src).unwrap_or_else(|| mcx::machinery("tokens"));
  let Some(tokens) = flatten(&text) else { bail!("{}not tokens: {text:?}", at()) };
  ensure_eq!(tokens, want, "{}tokens of {text:?}", at());
  ensure!(text.lines().all(|l| l.trim_end() == l || l.trim_start().starts_with("///")), "{}not formatted: {text:?}", at());
  // formatted: one line for each item at least, and no two tokens spaced as in the source
  let items = syn::parse_file(&text).map_or(0, |f| f.items.len());
  ensure!(text.lines().count() >= items, "{}{items} items on {} lines", at(), text.lines().count());
  c.outcome("written");
  Ok(())
}

pub fn p38(x: &mut Ctx) {
  const NAMES: &[&str] = &["f.rs", "f", "with space.rs"];
  let n = x.by(2, 3);
  x.space("streams", format!("all sequences of up to {n} of {} items, the file absent, shorter or longer before", ITEMS.len()), move |c: &mut Ch<'_>| {
    let k = c.pick(n + 1);
    let src: Vec<&str> = (0..k).map(|_| *c.of(ITEMS)).collect();
    let before = *c.of(&[Before::Absent, Before::Short, Before::Long]);
    write_one(c, &src.join(" "), before, OutDir::Set, "f.rs")
  });
  x.space(
    "similar files",
    format!("all pairs of {} items or nothing; the file before: what will be written, changed in {} ways (same length and other bytes, longer, shorter, no text)", ITEMS.len(), LIKE.len()),
    |c: &mut Ch<'_>| {
      let k = c.pick(3);
      let src: Vec<&str> = (0..k).map(|_| *c.of(ITEMS)).collect();
      let how = *c.of(LIKE);
      write_one(c, &src.join(" "), Before::Like(how), OutDir::Set, "f.rs")
    },
  );
  x.space("names", "all items, three names (one taken by another file's stem), the file absent or longer before", |c: &mut Ch<'_>| {
    let src = *c.of(ITEMS);
    let name = *c.of(NAMES);
    let before = *c.of(&[Before::Absent, Before::Long]);
    write_one(c, src, before, OutDir::Set, name)
  });
  x.space("failures", "all items and streams that are no files (alone, after or before an item) x all states of the variable, directory and file", |c: &mut Ch<'_>| {
    let junk: Vec<&str> = JUNK.iter().copied().filter(|s| stream(s).is_some()).collect();
    let src = match c.pick(4) {
      0 => (*c.of(ITEMS)).to_owned(),
      1 => (*c.of(&junk)).to_owned(),
      2 => format!("{} {}", c.of(ITEMS), c.of(&junk)),
      _ => format!("{} {}", c.of(&junk), c.of(ITEMS)),
    };
    let before = *c.of(&[Before::Absent, Before::Short, Before::Long, Before::Dir]);
    let out = *c.of(&[OutDir::Set, OutDir::Unset, OutDir::Missing, OutDir::File]);
    write_one(c, &src, before, out, "f.rs")
  });
  x.space("a full device", "all items, the file being on a device that takes no bytes: a panic, or a file with these tokens", |c: &mut Ch<'_>| {
    let src = *c.of(ITEMS);
    let scratch = Scratch::new();
    let dst = scratch.0.join("f.rs");
    if !Path::new("/dev/full").exists() || std::os::unix::fs::symlink("/dev/full", &dst).is_err() {
      mcx::machinery("no /dev/full");
    }
    let ts = stream(src).unwrap_or_else(|| mcx::machinery("tokens"));
    let got = go_with(Some(&scratch.0), ts, "f.rs");
    c.checks(1);
    c.state(&src);
    if got.is_ok() {
      ensure!(!dst.is_symlink(), "{src:?}: no panic, though nothing was written");
      let text = std::fs::read_to_string(&dst).unwrap_or_default();
      ensure_eq!(flatten(&text), flatten(src), "{src:?}: tokens of {text:?}");
      c.outcome("replaced");
    } else {
      c.outcome("refused");
    }
    Ok(())
  });
  x.space("histories", "all sequences of 4 writes to two files, of 4 items (two of the same length) and a stream that is no file: each file keeps the last good one", |c: &mut Ch<'_>| {
    let scratch = Scratch::new();
    let mut want: [Option<&str>; 2] = [None, None];
    const SRC: &[&str] = &["pub struct A ;", "pub struct B ;", "mod b { const B : u8 = 1 ; }", "use c :: d ;", "struct"];
    for _ in 0..4 {
      let f = c.pick(2);
      let src = *c.of(SRC);
      let ts = stream(src).unwrap_or_else(|| mcx::machinery("tokens"));
      let got = go_with(Some(&scratch.0), ts, ["a.rs", "b.rs"][f]);
      if src == "struct" {
        ensure!(got.is_err(), "no panic");
      } else {
        ensure!(got.is_ok(), "writing {src:?}: {got:?}");
        want[f] = Some(src);
      }
      for (name, w) in ["a.rs", "b.rs"].iter().zip(&want) {
        let text = std::fs::read_to_string(scratch.0.join(name)).ok();
        ensure_eq!(text.as_deref().and_then(flatten), w.and_then(flatten), "{name}");
      }
      ensure_eq!(listing(&scratch.0).len(), want.iter().flatten().count(), "files");
    }
    c.checks(4);
    c.state(&want);
    Ok(())
  });
  let (times, sizes): (&'static [usize], &'static [usize]) = x.by((&[100], &[6, 10, 13]), (&[10, 100, 1000], &[6, 8, 10, 12, 13, 14, 16]));
  x.space(
    "large files",
    "one item many times, and arrays, texts, functions and nestings of the sizes 2^6 to 2^16 +-1 (quick: to 2^13 but for texts; nestings: to 64), the file absent or like what will be written",
    move |c: &mut Ch<'_>| {
      let src = match c.pick(5) {
        0 => {
          let item = *c.of(ITEMS);
          format!("{item} ").repeat(*c.of(times))
        }
        4 => {
          let n = *c.of(&[1, 2, 7, 8, 31, 32, 64]);
          match c.pick(3) {
            0 => format!("{} {}", "mod m { ".repeat(n), "} ".repeat(n)),
            1 => format!("const N : u8 = {} 1 {} ;", "f ( ".repeat(n), ")".repeat(n)),
            _ => format!("type T = {} u8 {} ;", "Vec < ".repeat(n), "> ".repeat(n)),
          }
        }
        kind => {
          let n = (1usize << *c.of(if kind == 2 { &[6, 8, 10, 12, 13, 14, 16] } else { sizes })) + c.pick(3) - 1;
          match kind {
            1 => format!("const T : & [ u8 ] = & [ {} ] ;", "7 , ".repeat(n)),
            2 => format!("const T : & str = \"{}\" ;", "a b".repeat(n)),
            _ => format!("fn f ( ) {{ {} }}", "g ( 1 ) ; ".repeat(n)),
          }
        }
      };
      let before = *c.of(&[Before::Absent, Before::Like(Like::OneMore)]);
      write_one(c, &src, before, OutDir::Set, "f.rs")
    },
  );
}
