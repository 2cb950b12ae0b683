//! C18: meaning of arguments. C19: aborting reports. C20: help output.

use crate::core::{Ctx, R};
use crate::model::cli::{self, Bytes, Call, Err as E, Layout, Mode, Rep, Store, Value, Values};
use crate::runner::Prop;
use crate::{ensure, fail};
use osi::args::{
    Command, CommandContext, CommandReport, CommandSet, Error, Flag, FlagContext, FlagMode, FlagReport, FlagSet,
    FlagSetRef, ParserContext, ParserReport, Schema, Shared, help, parse,
};
use osi::compat::OsStr;
use std::cell::{Cell, RefCell};
use std::ops::ControlFlow;
use std::rc::Rc;

pub const C18: Prop = Prop {
    id: "C18", units: 2_000_000, sweep: true, run: run_c18,
    real: "osi::args::{parse, CommandSet, FlagSet, Schema, provided reports, Shared}",
    stub: "argument lists; recording reports beside the provided ones",
    rule: "one evaluation = one layout with up to 3 argument lists; distinct = distinct event logs (every argument taken, every report)",
    assumptions: &["up to 10 commands with up to 6 flags each, paths up to 6 deep, rarely up to 300 commands or flags and paths 100 deep, names unique as a layout demands"],
};
pub const C19: Prop = Prop {
    id: "C19", units: 800_000, sweep: true, run: run_c19,
    real: "osi::args::{parse, CommandSet, FlagSet, Schema, provided reports}",
    stub: "argument lists; recording reports that abort",
    rule: "one evaluation = one layout with up to 4 argument lists, parsed with one choice of aborts; distinct = distinct event logs",
    assumptions: &["up to 10 commands with up to 6 flags each, paths up to 6 deep, rarely up to 300 commands or flags and paths 100 deep"],
};
pub const C20: Prop = Prop {
    id: "C20", units: 800_000, sweep: true, run: run_c20,
    real: "osi::args::help::{Help, Flag}, osi::args::{parse, Schema}",
    stub: "argument lists; help writer that fails at any item",
    rule: "one evaluation = one layout, argument lists and up to 5 renderings each; distinct = distinct event logs (every item written)",
    assumptions: &["up to 10 commands with up to 6 flags each, paths up to 6 deep, rarely up to 300 commands or flags and paths 100 deep"],
};

/// Owner of everything a layout refers to. Values are handed out as raw
/// pointers and dropped in reverse order.
#[derive(Default)]
struct Arena(RefCell<Vec<(*mut u8, fn(*mut u8))>>);

impl Arena {
    fn put<T: 'static>(&self, v: T) -> *mut T {
        fn free<T>(p: *mut u8) {
            // SAFETY: created by `Box::into_raw()` below.
            drop(unsafe { Box::from_raw(p as *mut T) });
        }
        let p = Box::into_raw(Box::new(v));
        self.0.borrow_mut().push((p as *mut u8, free::<T>));
        p
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        while let Some((p, f)) = self.0.borrow_mut().pop() {
            f(p);
        }
    }
}

/// Values for aborting.
trait Val: Copy + 'static {
    fn of(v: u64) -> Self;
    fn get(self) -> u64;
}
impl Val for u64 {
    fn of(v: u64) -> Self {
        v
    }
    fn get(self) -> u64 {
        self
    }
}
impl Val for () {
    fn of(_: u64) -> Self {}
    fn get(self) -> u64 {
        0
    }
}

/// What recorders see.
struct Log {
    ctx: *const Ctx,
    seen: RefCell<Vec<(Rep, usize)>>,
    taken: Cell<usize>,
    abort: Cell<bool>,
    aborted: Cell<Option<u64>>,
    err: RefCell<Option<String>>,
}

impl Log {
    fn ctx(&self) -> &Ctx {
        // SAFETY: the execution outlives everything made for it.
        unsafe { &*self.ctx }
    }
    fn on<V: Val>(&self, r: Rep) -> ControlFlow<V> {
        let ctx = self.ctx();
        ctx.tick();
        ctx.ev("report", self.seen.borrow().len() as u64, self.taken.get() as u64);
        if self.aborted.get().is_some() {
            self.err.borrow_mut().get_or_insert(format!("{r:?} reported after an abort"));
        }
        self.seen.borrow_mut().push((r, self.taken.get()));
        if self.abort.get() && ctx.fault("report_aborts", 1, 10) {
            let v = ctx.u64();
            self.aborted.set(Some(v));
            return ControlFlow::Break(V::of(v));
        }
        ControlFlow::Continue(())
    }
}

struct RecFlag(Rc<Log>, usize, usize);
#[derive(Clone, Copy)]
struct CellFlag(&'static Log, usize, usize);
struct RecCmd(Rc<Log>, usize);
struct RecParser(Rc<Log>);
struct PlainFlag;
struct PlainCmd;

impl RecFlag {
    fn on<V: Val>(&self, c: &mut FlagContext<'_, 'static, V>, call: Call) -> ControlFlow<V> {
        let r = Rep::Flag(self.1, self.2, c.command_current(), c.flag_arg().as_encoded_bytes().into(), call);
        self.0.on(r)
    }
}

impl<V: Val> FlagReport<'static, V> for RecFlag {
    fn report_set(&mut self, c: &mut FlagContext<'_, 'static, V>) -> ControlFlow<V> {
        self.on(c, Call::Set)
    }
    fn report_toggle(&mut self, c: &mut FlagContext<'_, 'static, V>, v: bool) -> ControlFlow<V> {
        self.on(c, Call::Toggle(v))
    }
    fn report_parse(&mut self, c: &mut FlagContext<'_, 'static, V>, v: &'static OsStr) -> ControlFlow<V> {
        self.on(c, Call::Parse(v.as_encoded_bytes().into()))
    }
}
impl CellFlag {
    fn on<V: Val>(&self, c: &mut FlagContext<'_, 'static, V>, call: Call) -> ControlFlow<V> {
        let r = Rep::Flag(self.1, self.2, c.command_current(), c.flag_arg().as_encoded_bytes().into(), call);
        self.0.on(r)
    }
}

impl<V: Val> FlagReport<'static, V> for CellFlag {
    fn report_set(&mut self, c: &mut FlagContext<'_, 'static, V>) -> ControlFlow<V> {
        self.on(c, Call::Set)
    }
    fn report_toggle(&mut self, c: &mut FlagContext<'_, 'static, V>, v: bool) -> ControlFlow<V> {
        self.on(c, Call::Toggle(v))
    }
    fn report_parse(&mut self, c: &mut FlagContext<'_, 'static, V>, v: &'static OsStr) -> ControlFlow<V> {
        self.on(c, Call::Parse(v.as_encoded_bytes().into()))
    }
}
impl<V: Val> FlagReport<'static, V> for PlainFlag {}
impl<V: Val> CommandReport<'static, V> for PlainCmd {}
impl<V: Val> CommandReport<'static, V> for RecCmd {
    fn report_parameter(&mut self, _: &mut CommandContext<'_, 'static, V>, v: Option<&'static OsStr>) -> ControlFlow<V> {
        self.0.on(Rep::Param(self.1, v.map(|v| v.as_encoded_bytes().into())))
    }
}
impl<V: Val> ParserReport<'static, V> for RecParser {
    fn report_error(&mut self, _: &mut ParserContext<'_, 'static, V>, e: Error<'static>) -> ControlFlow<V> {
        self.0.on(Rep::Error(own(&e)))
    }
}

fn own(e: &Error<'_>) -> E {
    let b = |v: &OsStr| v.as_encoded_bytes().to_vec();
    match e {
        Error::Uncaught(_) => E::Uncaught,
        Error::ShortsUnknown { shorts } => E::ShortsUnknown(b(shorts)),
        Error::FlagUnknown { flag } => E::FlagUnknown(b(flag)),
        Error::FlagUnexpectedToggle { flag } => E::FlagUnexpectedToggle(b(flag)),
        Error::FlagUnexpectedValue { flag, value } => E::FlagUnexpectedValue(b(flag), b(value)),
        Error::FlagNoValue { flag } => E::FlagNoValue(b(flag)),
        Error::FlagValueNotUtf8 { flag, value } => E::FlagValueNotUtf8(b(flag), b(value)),
        Error::ParameterUnexpected { parameter } => E::ParameterUnexpected(b(parameter)),
        Error::ParameterNotUtf8 { parameter } => E::ParameterNotUtf8(b(parameter)),
    }
}

type Getter = Box<dyn Fn() -> Value>;
type Os = &'static OsStr;
type Str = &'static str;

/// Read a storage through its pointer while the layout is not in use.
fn getter<T: 'static>(p: *mut T, f: impl Fn(&T) -> Value + 'static) -> Getter {
    // SAFETY: the arena keeps it alive, and the layout is not in use.
    Box::new(move || f(unsafe { &*p }))
}

trait AsBytes {
    fn b(&self) -> Bytes;
}
impl AsBytes for Os {
    fn b(&self) -> Bytes {
        self.as_encoded_bytes().into()
    }
}
impl AsBytes for Str {
    fn b(&self) -> Bytes {
        self.as_bytes().into()
    }
}
impl AsBytes for String {
    fn b(&self) -> Bytes {
        self.as_bytes().into()
    }
}

fn list<T: AsBytes>(v: &[T]) -> Vec<Bytes> {
    v.iter().map(|v| v.b()).collect()
}

fn mode(m: Mode) -> FlagMode {
    match m {
        Mode::Set => FlagMode::Set,
        Mode::Toggle => FlagMode::Toggle,
        Mode::Parse => FlagMode::Parse,
    }
}

macro_rules! sized {
    ($set:ident, $arena:expr, $v:expr; $($n:literal)*) => {
        match $v.len() {
            $($n => {
                let a: [_; $n] = $v.try_into().ok().unwrap();
                let p = $arena.put($set::with(a));
                // SAFETY: handed out once, lives as long as the arena.
                unsafe { &mut *p }.as_mut()
            })*
            _ => unreachable!(),
        }
    };
}

/// A layout made real.
struct World<V: Val> {
    schema: Option<Schema<'static, 'static, V>>,
    log: Rc<Log>,
    cmd_get: Vec<Getter>,
    flag_get: Vec<Vec<Getter>>,
    /// Position in the layout for each index in the schema.
    index: Vec<usize>,
    arena: Arena,
}

fn leak_str(arena: &Arena, s: &str) -> Str {
    let p = arena.put(s.to_string());
    // SAFETY: lives as long as the arena.
    unsafe { (*p).as_str() }
}

impl<V: Val> World<V> {
    fn new(ctx: &Ctx, l: &Layout, help: Option<&'static help::Help<'static>>) -> Self {
        let arena = Arena::default();
        let log = Rc::new(Log {
            ctx,
            seen: Default::default(),
            taken: Cell::new(0),
            abort: Cell::new(false),
            aborted: Cell::new(None),
            err: Default::default(),
        });
        let mut cmds: Vec<Command<'static, 'static, V>> = Vec::new();
        let mut cmd_get = Vec::new();
        let mut flag_get = Vec::new();
        for (ci, c) in l.0.iter().enumerate() {
            let mut flags: Vec<Flag<'static, 'static, V>> = Vec::new();
            let mut gets = Vec::new();
            for (fi, f) in c.flags.iter().enumerate() {
                let (rep, get) = flag_store::<V>(&arena, &log, f.store, ci, fi, help);
                gets.push(get);
                flags.push(Flag::with(
                    leak_str(&arena, &f.name),
                    mode(f.mode),
                    rep,
                    f.help.as_ref().map(|h| leak_str(&arena, h)),
                ));
            }
            let set: &'static mut FlagSetRef<'static, 'static, V> = sized!(FlagSet, arena, flags; 0 1 2 3 4 5 6 33 70 140 300);
            let (rep, get) = cmd_store::<V>(&arena, &log, c.store, ci);
            cmd_get.push(get);
            flag_get.push(gets);
            let path: Vec<Str> = c.path.iter().map(|s| leak_str(&arena, s)).collect();
            let path = arena.put(path);
            // SAFETY: lives as long as the arena.
            let path: &'static [Str] = unsafe { &*path };
            cmds.push(Command::with(path, rep, set, c.help.as_ref().map(|h| leak_str(&arena, h))));
        }
        let set = sized!(CommandSet, arena, cmds; 0 1 2 3 4 5 6 7 8 9 10 33 70 140 300);
        let schema = Schema::with(set);
        let index = schema
            .commands_iter()
            .map(|c| l.0.iter().position(|v| v.path == c.path()).unwrap_or(usize::MAX))
            .collect();
        Self { schema: Some(schema), log, cmd_get, flag_get, index, arena }
    }

    fn values(&self) -> Values {
        self.cmd_get.iter().zip(&self.flag_get).map(|(c, f)| (c(), f.iter().map(|g| g()).collect())).collect()
    }

    /// The layout itself must be what was asked for.
    fn check_layout(&self, l: &Layout) -> R {
        let s = self.schema.as_ref().unwrap();
        ensure!(s.commands().len() == l.0.len(), "{} commands in the layout", s.commands().len());
        let mut seen: Vec<usize> = self.index.clone();
        seen.sort();
        ensure!(seen == (0..l.0.len()).collect::<Vec<_>>(), "commands got lost in the layout");
        for (i, c) in s.commands_iter().enumerate() {
            let spec = &l.0[self.index[i]];
            ensure!(c.help_short() == spec.help.as_deref(), "command help mixed up");
            ensure!(c.flags().len() == spec.flags.len(), "flags of a command mixed up");
            for f in &spec.flags {
                ensure!(c.flags_iter().any(|v| v.name() == f.name), "flag {:?} got lost", f.name);
            }
            // One level up is the nearest defined command around it.
            let up = (0..spec.path.len()).rev().find_map(|n| l.0.iter().position(|v| v.path == spec.path[..n]));
            let got = s.commands().up_from(i).map(|v| self.index[v]);
            ensure!(got == up, "command {:?} is below {got:?} instead of {up:?}", spec.path);
        }
        Ok(())
    }
}

type DynFlag<V> = &'static mut dyn FlagReport<'static, V>;
type DynCmd<V> = &'static mut dyn CommandReport<'static, V>;

fn flag_store<V: Val>(
    arena: &Arena,
    log: &Rc<Log>,
    store: Store,
    ci: usize,
    fi: usize,
    help: Option<&'static help::Help<'static>>,
) -> (DynFlag<V>, Getter) {
    // SAFETY (all below): handed out once, lives as long as the arena.
    macro_rules! put {
        ($v:expr, $t:ty, $get:expr) => {{
            let p = arena.put::<$t>($v);
            (unsafe { &mut *p } as DynFlag<V>, getter(p, $get))
        }};
    }
    macro_rules! shared {
        ($v:expr, $t:ty, $get:expr) => {{
            let c = arena.put::<$t>($v);
            let p = arena.put(Shared::with(unsafe { &*c }));
            (unsafe { &mut *p } as DynFlag<V>, getter(c, $get))
        }};
    }
    match store {
        Store::Record => put!(RecFlag(log.clone(), ci, fi), RecFlag, |_| Value::None),
        Store::RefRecord => {
            shared!(RefCell::new(RecFlag(log.clone(), ci, fi)), RefCell<RecFlag>, |_| Value::None)
        }
        Store::CellRecord => {
            // The log outlives the layout.
            let r = CellFlag(unsafe { &*Rc::as_ptr(log) }, ci, fi);
            shared!(Cell::new(r), Cell<CellFlag>, |_| Value::None)
        }
        Store::Plain => put!(PlainFlag, PlainFlag, |_| Value::None),
        Store::Help => put!(help.unwrap().flag(), help::Flag<'static, 'static>, |_| Value::None),
        Store::Bool => put!(false, bool, |v| Value::Bool(*v)),
        Store::OptUnit => put!(None, Option<()>, |v| Value::Bool(v.is_some())),
        Store::CellBool => shared!(Cell::new(false), Cell<bool>, |v| Value::Bool(v.get())),
        Store::CellLast => shared!(Cell::new("".into()), Cell<Os>, |v| Value::Last(Some(v.get().b()))),
        Store::SharedList => {
            shared!(RefCell::new(Vec::new()), RefCell<Vec<String>>, |v| Value::List(Some(list(&v.borrow()))))
        }
        Store::Last { opt, text, owned } => match (opt, text, owned) {
            (false, false, _) => put!("".into(), Os, |v| Value::Last(Some(v.b()))),
            (true, false, _) => put!(None, Option<Os>, |v| Value::Last(v.as_ref().map(|v| v.b()))),
            (false, true, false) => put!("", Str, |v| Value::Last(Some(v.b()))),
            (true, true, false) => put!(None, Option<Str>, |v| Value::Last(v.as_ref().map(|v| v.b()))),
            (false, true, true) => put!(String::new(), String, |v| Value::Last(Some(v.b()))),
            (true, true, true) => put!(None, Option<String>, |v| Value::Last(v.as_ref().map(|v| v.b()))),
        },
        Store::List { opt, text, owned } => match (opt, text, owned) {
            (false, false, _) => put!(Vec::new(), Vec<Os>, |v| Value::List(Some(list(v)))),
            (true, false, _) => put!(None, Option<Vec<Os>>, |v| Value::List(v.as_ref().map(|v| list(v)))),
            (false, true, false) => put!(Vec::new(), Vec<Str>, |v| Value::List(Some(list(v)))),
            (true, true, false) => put!(None, Option<Vec<Str>>, |v| Value::List(v.as_ref().map(|v| list(v)))),
            (false, true, true) => put!(Vec::new(), Vec<String>, |v| Value::List(Some(list(v)))),
            (true, true, true) => put!(None, Option<Vec<String>>, |v| Value::List(v.as_ref().map(|v| list(v)))),
        },
    }
}

fn cmd_store<V: Val>(arena: &Arena, log: &Rc<Log>, store: Store, ci: usize) -> (DynCmd<V>, Getter) {
    // SAFETY (all below): handed out once, lives as long as the arena.
    macro_rules! put {
        ($v:expr, $t:ty, $get:expr) => {{
            let p = arena.put::<$t>($v);
            (unsafe { &mut *p } as DynCmd<V>, getter(p, $get))
        }};
    }
    match store {
        Store::Record => put!(RecCmd(log.clone(), ci), RecCmd, |_| Value::None),
        Store::Plain => {
            if ci % 2 == 0 {
                put!(PlainCmd, PlainCmd, |_| Value::None)
            } else {
                put!((), (), |_| Value::None)
            }
        }
        Store::List { opt, text, owned } => match (opt, text, owned) {
            (false, false, _) => put!(Vec::new(), Vec<Os>, |v| Value::List(Some(list(v)))),
            (true, false, _) => put!(None, Option<Vec<Os>>, |v| Value::List(v.as_ref().map(|v| list(v)))),
            (false, true, false) => put!(Vec::new(), Vec<Str>, |v| Value::List(Some(list(v)))),
            (true, true, false) => put!(None, Option<Vec<Str>>, |v| Value::List(v.as_ref().map(|v| list(v)))),
            (false, true, true) => put!(Vec::new(), Vec<String>, |v| Value::List(Some(list(v)))),
            (true, true, true) => put!(None, Option<Vec<String>>, |v| Value::List(v.as_ref().map(|v| list(v)))),
        },
        _ => unreachable!(),
    }
}

fn any_store(ctx: &Ctx, flag: bool) -> Store {
    if ctx.chance(1, 2) {
        return Store::Record;
    }
    let kind = || (ctx.chance(1, 2), ctx.chance(1, 2), ctx.chance(1, 2));
    if !flag {
        if ctx.chance(1, 3) {
            return Store::Plain;
        }
        let (opt, text, owned) = kind();
        return Store::List { opt, text, owned };
    }
    match ctx.draw(11) {
        9 => Store::CellRecord,
        10 => Store::RefRecord,
        0 => Store::Plain,
        1 => Store::Bool,
        2 => Store::OptUnit,
        3 => Store::CellBool,
        4 => Store::SharedList,
        5 => Store::CellLast,
        6 => {
            let (opt, text, owned) = kind();
            Store::List { opt, text, owned }
        }
        _ => {
            let (opt, text, owned) = kind();
            Store::Last { opt, text, owned }
        }
    }
}

/// Arguments with a count of how many were taken.
struct Args {
    list: Vec<Os>,
    log: Rc<Log>,
}

impl Iterator for Args {
    type Item = Os;
    fn next(&mut self) -> Option<Os> {
        self.log.ctx().tick();
        if self.log.aborted.get().is_some() {
            self.log.err.borrow_mut().get_or_insert("argument fetched after an abort".into());
        }
        let n = self.log.taken.get();
        let v = self.list.get(n).copied();
        if v.is_some() {
            self.log.taken.set(n + 1);
        }
        v
    }
}

fn os(arena: &Arena, b: &[u8]) -> Os {
    let p = arena.put(b.to_vec());
    // SAFETY: lives as long as the arena; any bytes are fine on Unix.
    unsafe { OsStr::from_encoded_bytes_unchecked(&*p) }
}

fn show(args: &[Bytes]) -> String {
    args.iter().map(|a| format!("\"{}\"", a.escape_ascii())).collect::<Vec<_>>().join(" ")
}

/// Parse one list and compare with the reference. Returns whether aborted.
fn drive<V: Val>(
    ctx: &Ctx,
    l: &Layout,
    w: &mut World<V>,
    model: &mut Values,
    args: &[Bytes],
    plain: Option<&mut Vec<Error<'static>>>,
) -> R<bool>
where
    Vec<Error<'static>>: MaybeReport<V>,
{
    let log = w.log.clone();
    log.seen.borrow_mut().clear();
    log.taken.set(0);
    log.aborted.set(None);
    let mut it = Args { list: args.iter().map(|a| os(&w.arena, a)).collect(), log: log.clone() };
    let mut rec = RecParser(log.clone());
    let collected = plain.is_some();
    let res = match plain {
        Some(v) => {
            let from = v.len();
            let r = parse(v.report().unwrap(), w.schema.as_mut().unwrap(), &mut it);
            // Errors go to the list rather than to the recorder.
            let seen: Vec<E> = v[from..].iter().map(own).collect();
            let want: Vec<E> = cli::parse(l, &mut model.clone(), args, None)
                .log
                .into_iter()
                .filter_map(|e| match e.rep {
                    Rep::Error(e) => Some(e),
                    _ => None,
                })
                .collect();
            ensure!(same_errors(&seen, &want), "errors collected for {}: {seen:?}, expected {want:?}", show(args));
            r
        }
        None => parse(&mut rec, w.schema.as_mut().unwrap(), &mut it),
    };
    if let Some(e) = log.err.borrow_mut().take() {
        fail!("{e}, arguments {}", show(args));
    }
    let aborted = log.aborted.get();
    let mut seen = log.seen.borrow().clone();
    for (r, _) in &mut seen {
        if let Rep::Flag(_, _, cur, _, _) = r {
            *cur = w.index.get(*cur).copied().unwrap_or(usize::MAX);
        }
    }
    let stop = aborted.map(|_| seen.len());
    let want = cli::parse(l, model, args, stop);
    let expect: Vec<_> =
        want.log.iter().filter(|e| e.seen && !(collected && matches!(e.rep, Rep::Error(_)))).collect();
    for i in 0..expect.len().max(seen.len()) {
        let (Some(e), Some((r, taken))) = (expect.get(i), seen.get(i)) else {
            fail!(
                "{} reports for {}, expected {}; report {i} is {:?}, expected {:?}",
                seen.len(), show(args), expect.len(), seen.get(i), expect.get(i).map(|e| &e.rep)
            );
        };
        ensure!(same(r, &e.rep), "report {i} for {} is {r:?}, expected {:?}", show(args), e.rep);
        ensure!(*taken == e.taken, "{taken} arguments consumed at report {i} for {}, expected {}", show(args), e.taken);
    }
    ensure!(log.taken.get() == want.taken, "{} arguments of {} consumed, expected {}", log.taken.get(), show(args), want.taken);
    match (res, aborted) {
        (Err(Some(v)), Some(a)) => ensure!(v.get() == V::of(a).get(), "aborted with {a}, got {}", v.get()),
        (Ok(i), None) => {
            let i = w.index.get(i).copied();
            ensure!(i == want.selected, "selected {i:?} instead of {:?} for {}", want.selected, show(args));
        }
        (Err(None), None) => ensure!(want.selected.is_none(), "no command selected for {}", show(args)),
        (Err(Some(_)), None) => fail!("parsing {} broke without an abort", show(args)),
        (_, Some(a)) => fail!("abort {a} was swallowed, arguments {}", show(args)),
    }
    let got = w.values();
    for (c, (a, b)) in got.iter().zip(model.iter()).enumerate() {
        ensure!(a.0 == b.0, "command {:?} holds {:?}, expected {:?} after {}", l.0[c].path, a.0, b.0, show(args));
        for (f, (a, b)) in a.1.iter().zip(&b.1).enumerate() {
            let s = &l.0[c].flags[f];
            ensure!(
                s.store == Store::Help || a == b,
                "flag {:?} of {:?} ({:?}) holds {a:?}, expected {b:?} after {}",
                s.name, l.0[c].path, s.store, show(args)
            );
        }
    }
    ctx.state(want.selected.map_or(99, |v| v as u64), expect.len() as u64, aborted.is_some() as u64);
    Ok(aborted.is_some())
}

/// The name in errors about names that are not UTF-8 may come with dashes.
fn same(a: &Rep, b: &Rep) -> bool {
    match (a, b) {
        (Rep::Error(E::FlagUnknown(x)), Rep::Error(E::FlagUnknown(y))) if core::str::from_utf8(y).is_err() => {
            x == y || Some(x.as_slice()) == y.strip_prefix(b"--")
        }
        _ => a == b,
    }
}

fn same_errors(a: &[E], b: &[E]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(&Rep::Error(a.clone()), &Rep::Error(b.clone())))
}

/// The provided error list only exists for one kind of result.
trait MaybeReport<V> {
    fn report(&mut self) -> Option<&mut dyn ParserReport<'static, V>>;
}
impl MaybeReport<()> for Vec<Error<'static>> {
    fn report(&mut self) -> Option<&mut dyn ParserReport<'static, ()>> {
        Some(self)
    }
}
impl MaybeReport<u64> for Vec<Error<'static>> {
    fn report(&mut self) -> Option<&mut dyn ParserReport<'static, u64>> {
        None
    }
}

fn describe(ctx: &Ctx, l: &Layout) {
    ctx.describe(|| {
        let mut s = String::new();
        for c in &l.0 {
            s += &format!("{:?}{{", c.path);
            for f in &c.flags {
                s += &format!("{}:{:?}:{:?} ", f.name, f.mode, f.store);
            }
            s += &format!("}}:{:?} ", c.store);
        }
        s
    });
}

fn run_c18(ctx: &Ctx) -> R {
    let l = cli::layout(ctx, any_store, 10);
    describe(ctx, &l);
    let mut model = cli::initial(&l);
    if ctx.chance(1, 4) {
        // With the provided list of errors.
        let mut w = World::<()>::new(ctx, &l, None);
        let mut errors: Vec<Error<'static>> = Vec::new();
        for _ in 0..ctx.range(1, 3) {
            let args = cli::arguments(ctx, &l);
            ctx.ev_str("parse", &show(&args));
            drive(ctx, &l, &mut w, &mut model, &args, Some(&mut errors))?;
        }
        return Ok(());
    }
    let mut w = World::<u64>::new(ctx, &l, None);
    w.check_layout(&l)?;
    for _ in 0..ctx.range(1, 3) {
        let args = cli::arguments(ctx, &l);
        ctx.ev_str("parse", &show(&args));
        drive(ctx, &l, &mut w, &mut model, &args, None)?;
    }
    Ok(())
}

fn run_c19(ctx: &Ctx) -> R {
    let l = cli::layout(ctx, any_store, 10);
    describe(ctx, &l);
    let mut model = cli::initial(&l);
    let mut w = World::<u64>::new(ctx, &l, None);
    w.log.abort.set(true);
    for _ in 0..ctx.range(1, 4) {
        let args = cli::arguments(ctx, &l);
        ctx.ev_str("parse", &show(&args));
        if drive(ctx, &l, &mut w, &mut model, &args, None)? {
            ctx.probe("aborted");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Item {
    Info(String),
    Section(String),
    Usage(String, Vec<String>),
    Flag(String, String, Option<String>, usize),
    Command(String, Option<String>, usize),
}

struct Writer<'a> {
    ctx: &'a Ctx,
    items: Vec<Item>,
    rate: u64,
    failed: Option<u64>,
    err: Option<String>,
}

impl Writer<'_> {
    fn on(&mut self, i: Item) -> ControlFlow<u64> {
        self.ctx.tick();
        self.ctx.ev("item", self.items.len() as u64, 0);
        if self.failed.is_some() {
            self.err.get_or_insert(format!("{i:?} written after a failure"));
        }
        self.items.push(i);
        if self.ctx.fault("writer_fails", 1, self.rate) {
            let v = self.ctx.u64();
            self.failed = Some(v);
            return ControlFlow::Break(v);
        }
        ControlFlow::Continue(())
    }
}

impl help::Write<u64> for Writer<'_> {
    fn write_info(&mut self, v: &str) -> ControlFlow<u64> {
        self.on(Item::Info(v.into()))
    }
    fn write_section(&mut self, v: &str) -> ControlFlow<u64> {
        self.on(Item::Section(v.into()))
    }
    fn write_usage(&mut self, e: &str, p: &[&str]) -> ControlFlow<u64> {
        self.on(Item::Usage(e.into(), p.iter().map(|v| v.to_string()).collect()))
    }
    fn write_flag(&mut self, f: &str, m: FlagMode, i: Option<&str>, w: usize) -> ControlFlow<u64> {
        self.on(Item::Flag(f.into(), format!("{m:?}"), i.map(|v| v.into()), w))
    }
    fn write_command(&mut self, c: &str, i: Option<&str>, w: usize) -> ControlFlow<u64> {
        self.on(Item::Command(c.into(), i.map(|v| v.into()), w))
    }
}

fn expected_help(l: &Layout, c: usize, entry: &str, info: &str) -> Vec<Item> {
    let cmd = &l.0[c];
    let mut out = vec![
        Item::Info(info.into()),
        Item::Section("Usage".into()),
        Item::Usage(entry.into(), cmd.path.clone()),
    ];
    let mut flags: Vec<_> = cmd.flags.iter().collect();
    flags.sort_by(|a, b| a.name.cmp(&b.name));
    if !flags.is_empty() {
        out.push(Item::Section("Flags".into()));
    }
    let w = flags.iter().map(|f| f.name.chars().count()).max().unwrap_or(0);
    for f in flags {
        out.push(Item::Flag(f.name.clone(), format!("{:?}", mode(f.mode)), f.help.clone(), w));
    }
    let n = cmd.path.len();
    let mut subs: Vec<_> = l.0.iter().filter(|v| v.path.len() == n + 1 && v.path.starts_with(&cmd.path)).collect();
    subs.sort_by(|a, b| a.path.cmp(&b.path));
    if !subs.is_empty() {
        out.push(Item::Section("Commands".into()));
    }
    let w = subs.iter().map(|v| v.path[n].chars().count()).max().unwrap_or(0);
    for v in subs {
        out.push(Item::Command(v.path[n].clone(), v.help.clone(), w));
    }
    out
}

fn run_c20(ctx: &Ctx) -> R {
    let l = cli::layout(
        ctx,
        |ctx, flag| {
            if flag && ctx.chance(1, 2) { Store::Help } else { any_store(ctx, flag) }
        },
        10,
    );
    describe(ctx, &l);
    let (entry, info) = (*ctx.pick(&["prog", "", "é"]), *ctx.pick(&["info", "", "two\nlines"]));
    let outer = Arena::default();
    let help: *mut help::Help<'static> = outer.put(help::Help::with(entry, info));
    // SAFETY: lives until the end of this function, after the layout.
    let help: &'static help::Help<'static> = unsafe { &*help };
    let mut model = cli::initial(&l);
    let mut w = World::<u64>::new(ctx, &l, Some(help));
    // All help flags share one request: the last report wins.
    let mut request: Option<usize> = None;
    let rate = *ctx.pick(&[12, 12, 1000]);
    for _ in 0..ctx.range(1, 3) {
        let args = cli::arguments(ctx, &l);
        ctx.ev_str("parse", &show(&args));
        drive(ctx, &l, &mut w, &mut model, &args, None)?;
        for e in cli::parse(&l, &mut model.clone(), &args, None).log {
            if let Rep::Flag(c, f, cur, _, call) = e.rep
                && l.0[c].flags[f].store == Store::Help
            {
                request = match call {
                    Call::Toggle(false) => None,
                    _ => Some(cur),
                };
            }
        }
        let schema = w.schema.as_ref().unwrap();
        for _ in 0..ctx.range(1, 5) {
            let mut wr = Writer { ctx, items: Vec::new(), rate, failed: None, err: None };
            let copy;
            let h: &help::Help<'static> = if ctx.chance(1, 8) {
                copy = help.clone();
                &copy
            } else {
                help
            };
            let res = if ctx.chance(1, 2) { h.help(&mut wr, schema) } else { h.try_help(&mut wr, schema) };
            ctx.ev("render", wr.items.len() as u64, request.map_or(99, |v| v as u64));
            if let Some(e) = wr.err {
                fail!("{e}");
            }
            let Some(c) = request else {
                ensure!(res == Ok(false) && wr.items.is_empty(), "help without request: {res:?}, {:?}", wr.items);
                ctx.probe("not_requested");
                continue;
            };
            ctx.probe("rendered");
            let want = expected_help(&l, c, entry, info);
            match wr.failed {
                None => {
                    ensure!(res == Ok(true), "rendering yields {res:?}");
                    ensure!(wr.items == want, "help of {:?} after {} is {:?}, expected {want:?}", l.0[c].path, show(&args), wr.items);
                }
                Some(v) => {
                    ensure!(res == Err(v), "writer failed with {v}, rendering yields {res:?}");
                    ensure!(want.starts_with(&wr.items), "partial help is {:?}, expected a start of {want:?}", wr.items);
                }
            }
            ctx.state(1, want.len() as u64, wr.items.len() as u64);
        }
    }
    w.schema = None;
    drop(w);
    Ok(())
}
