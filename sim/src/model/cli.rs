//! Reference for command-line parsing: command tree by path, no indices.

use crate::core::Ctx;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Set,
    Toggle,
    Parse,
}

/// What stands behind a flag or command.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Store {
    /// Records every call and may abort.
    Record,
    /// Records every call and may abort, behind a shared reference.
    CellRecord,
    RefRecord,
    /// Implements nothing itself.
    Plain,
    /// Remembers whether and where it was requested.
    Help,
    Bool,
    OptUnit,
    CellBool,
    /// Last value: optional, text only, owned.
    Last { opt: bool, text: bool, owned: bool },
    /// All values.
    List { opt: bool, text: bool, owned: bool },
    /// All values, owned text, shared.
    SharedList,
    /// Last value, shared.
    CellLast,
}

#[derive(Clone, Debug)]
pub struct Flag {
    pub name: String,
    pub mode: Mode,
    pub store: Store,
    pub help: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Cmd {
    pub path: Vec<String>,
    pub flags: Vec<Flag>,
    pub store: Store,
    pub help: Option<String>,
}

/// Commands by position in the list given, flags likewise.
#[derive(Clone, Debug)]
pub struct Layout(pub Vec<Cmd>);

pub type Bytes = Vec<u8>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call {
    Set,
    Toggle(bool),
    Parse(Bytes),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Err {
    Uncaught,
    ShortsUnknown(Bytes),
    FlagUnknown(Bytes),
    FlagUnexpectedToggle(Bytes),
    FlagUnexpectedValue(Bytes, Bytes),
    FlagNoValue(Bytes),
    FlagValueNotUtf8(Bytes, Bytes),
    ParameterUnexpected(Bytes),
    ParameterNotUtf8(Bytes),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Rep {
    /// Command, parameter.
    Param(usize, Option<Bytes>),
    /// Command and flag, command in use, name as given, call.
    Flag(usize, usize, usize, Bytes, Call),
    Error(Err),
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub rep: Rep,
    /// Arguments consumed before.
    pub taken: usize,
    /// Whether a recorder sees this, rather than a provided storage.
    pub seen: bool,
}

/// Contents of a storage.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Value {
    None,
    Bool(bool),
    Last(Option<Bytes>),
    List(Option<Vec<Bytes>>),
    Help(Option<usize>),
}

impl Value {
    pub fn initial(s: Store) -> Value {
        match s {
            Store::Record | Store::CellRecord | Store::RefRecord | Store::Plain => Value::None,
            Store::Help => Value::Help(None),
            Store::Bool | Store::OptUnit | Store::CellBool => Value::Bool(false),
            Store::Last { opt, .. } => Value::Last((!opt).then(Vec::new)),
            Store::CellLast => Value::Last(Some(Vec::new())),
            Store::List { opt, .. } => Value::List((!opt).then(Vec::new)),
            Store::SharedList => Value::List(Some(Vec::new())),
        }
    }
}

/// State behind a layout: per command its own value, then those of its flags.
pub type Values = Vec<(Value, Vec<Value>)>;

pub fn initial(l: &Layout) -> Values {
    l.0.iter()
        .map(|c| (Value::initial(c.store), c.flags.iter().map(|f| Value::initial(f.store)).collect()))
        .collect()
}

pub struct Parsed {
    pub log: Vec<Entry>,
    pub selected: Option<usize>,
    pub taken: usize,
}

pub struct Parse<'a> {
    l: &'a Layout,
    path: Vec<String>,
    log: Vec<Entry>,
    taken: usize,
    /// Stop after this many recorded reports.
    stop: Option<usize>,
    seen: usize,
}

struct Stop;

impl Parse<'_> {
    fn at(&self, path: &[String]) -> Option<usize> {
        self.l.0.iter().position(|c| c.path == path)
    }

    /// Defined commands on the selected path, innermost first.
    fn chain(&self) -> Vec<usize> {
        (0..=self.path.len()).rev().filter_map(|n| self.at(&self.path[..n])).collect()
    }

    fn put(&mut self, rep: Rep, seen: bool) -> Result<(), Stop> {
        self.log.push(Entry { rep, taken: self.taken, seen });
        if seen {
            self.seen += 1;
            if Some(self.seen) == self.stop {
                return Err(Stop);
            }
        }
        Ok(())
    }

    fn error(&mut self, e: Err) -> Result<(), Stop> {
        self.put(Rep::Error(e), true)
    }

    fn find(&self, name: &[u8]) -> Option<(usize, usize)> {
        self.chain().into_iter().find_map(|c| {
            let f = self.l.0[c].flags.iter().position(|f| f.name.as_bytes() == name)?;
            Some((c, f))
        })
    }

    fn param(&mut self, v: &mut Values, p: Option<&[u8]>) -> Result<(), Stop> {
        let Some(c) = self.at(&self.path) else {
            return match p {
                None => Ok(()),
                Some(p) => self.error(Err::ParameterUnexpected(p.into())),
            };
        };
        let store = self.l.0[c].store;
        let Some(b) = p else {
            return match store {
                Store::Record => self.put(Rep::Param(c, None), true),
                _ => Ok(()),
            };
        };
        match store {
            Store::Record => self.put(Rep::Param(c, Some(b.into())), true),
            Store::List { text, .. } => {
                if text && core::str::from_utf8(b).is_err() {
                    return self.error(Err::ParameterNotUtf8(b.into()));
                }
                self.put(Rep::Param(c, Some(b.into())), false)?;
                let Value::List(l) = &mut v[c].0 else { unreachable!() };
                l.get_or_insert_default().push(b.into());
                Ok(())
            }
            _ => self.error(Err::ParameterUnexpected(b.into())),
        }
    }

    fn flag(&mut self, v: &mut Values, (c, f): (usize, usize), name: &[u8], call: Call) -> Result<(), Stop> {
        let cur = self.chain()[0];
        let store = self.l.0[c].flags[f].store;
        let rep = Rep::Flag(c, f, cur, name.into(), call.clone());
        let val = &mut v[c].1[f];
        let text = match store {
            Store::Last { text, .. } | Store::List { text, .. } => text,
            Store::SharedList => true,
            _ => false,
        };
        match (store, call) {
            (Store::Record | Store::CellRecord | Store::RefRecord, _) => return self.put(rep, true),
            (Store::Help, Call::Set | Call::Toggle(true)) => *val = Value::Help(Some(cur)),
            (Store::Help, Call::Toggle(false)) => *val = Value::Help(None),
            (Store::Bool | Store::OptUnit | Store::CellBool, Call::Set) => *val = Value::Bool(true),
            (Store::Bool | Store::OptUnit | Store::CellBool, Call::Toggle(b)) => *val = Value::Bool(b),
            (Store::Help | Store::Bool | Store::OptUnit | Store::CellBool | Store::Plain, Call::Parse(b)) => {
                return self.error(Err::FlagUnexpectedValue(name.into(), b));
            }
            (_, Call::Set | Call::Toggle(true)) => return self.error(Err::FlagNoValue(name.into())),
            (_, Call::Toggle(false)) => return self.error(Err::FlagUnexpectedToggle(name.into())),
            (_, Call::Parse(b)) => {
                if text && core::str::from_utf8(&b).is_err() {
                    return self.error(Err::FlagValueNotUtf8(name.into(), b));
                }
                match val {
                    Value::Last(l) => *l = Some(b),
                    Value::List(l) => l.get_or_insert_default().push(b),
                    _ => unreachable!(),
                }
            }
        }
        self.put(rep, false)
    }

    fn run(&mut self, v: &mut Values, args: &[Bytes]) -> Result<(), Stop> {
        let mut flags = true;
        let mut commands = true;
        while self.taken < args.len() {
            let a = &args[self.taken];
            self.taken += 1;
            if flags && a.starts_with(b"--") {
                let body = &a[2..];
                let eq = body.iter().position(|b| *b == b'=');
                let name = &body[..eq.unwrap_or(body.len())];
                let value = eq.map(|e| &body[e + 1..]);
                if body.is_empty() {
                    flags = false;
                    commands = false;
                    continue;
                }
                if core::str::from_utf8(name).is_err() {
                    self.error(Err::FlagUnknown(a.clone()))?;
                    continue;
                }
                let found = match (self.find(name), name.strip_prefix(b"no-")) {
                    (Some(i), _) => Some((i, true)),
                    (None, Some(n)) => self.find(n).map(|i| (i, false)),
                    (None, None) => None,
                };
                let Some((i, on)) = found else {
                    self.error(Err::FlagUnknown(name.into()))?;
                    continue;
                };
                match (self.l.0[i.0].flags[i.1].mode, value) {
                    (Mode::Set | Mode::Parse, _) if !on => self.error(Err::FlagUnexpectedToggle(name.into()))?,
                    (Mode::Set | Mode::Toggle, Some(b)) => {
                        self.error(Err::FlagUnexpectedValue(name.into(), b.into()))?
                    }
                    (Mode::Set, None) => self.flag(v, i, name, Call::Set)?,
                    (Mode::Toggle, None) => self.flag(v, i, name, Call::Toggle(on))?,
                    (Mode::Parse, Some(b)) => self.flag(v, i, name, Call::Parse(b.into()))?,
                    (Mode::Parse, None) => {
                        if self.taken < args.len() {
                            self.taken += 1;
                            self.flag(v, i, name, Call::Parse(args[self.taken - 1].clone()))?;
                        } else {
                            self.error(Err::FlagNoValue(name.into()))?;
                        }
                    }
                }
                continue;
            }
            if flags && a.len() >= 2 && a[0] == b'-' {
                self.error(Err::ShortsUnknown(a[1..].into()))?;
                continue;
            }
            if commands && let Ok(s) = core::str::from_utf8(a) {
                let mut p = self.path.clone();
                p.push(s.into());
                if self.l.0.iter().any(|c| c.path.starts_with(&p)) {
                    self.path = p;
                    continue;
                }
            }
            commands = false;
            self.param(v, Some(a))?;
        }
        self.param(v, None)
    }
}

/// Parse `args`, updating `v`. Stops after the `stop`-th recorded report.
pub fn parse(l: &Layout, v: &mut Values, args: &[Bytes], stop: Option<usize>) -> Parsed {
    let mut p = Parse { l, path: Vec::new(), log: Vec::new(), taken: 0, stop, seen: 0 };
    let _ = p.run(v, args);
    let selected = p.at(&p.path);
    Parsed { selected, taken: p.taken, log: p.log }
}

const WORDS: &[&str] = &["a", "b", "ab", "foo", "foo-bar", "fo", "x", "é", "aa", "b\u{10ffff}", "-", ""];
const FLAGS: &[&str] = &["x", "no-x", "y", "verbose", "ver", "no-", "no-no-x", "é", "a", "", "verbose2", "no", "x-", "日本"];

fn long(ctx: &Ctx) -> String {
    ctx.pick(&["long-", "é", "no-", "日本"]).repeat(ctx.range(2, 60))
}

/// Sizes of large layouts.
pub const LARGE: &[usize] = &[33, 70, 140, 300];

/// Many commands or many flags.
fn large(ctx: &Ctx, store: impl Fn(&Ctx, bool) -> Store) -> Layout {
    let mut rng = crate::core::Rng::new(ctx.draw(1 << 32));
    let mut below = |n: usize| (rng.next() % n as u64) as usize;
    let size = *ctx.pick(LARGE);
    let (n, flags) = match ctx.draw(3) {
        0 => (size, 3),
        1 => (ctx.range(1, 3), size),
        _ => (size.min(70), 33),
    };
    let shape = ctx.draw(3);
    let mut out: Vec<Cmd> = Vec::new();
    while out.len() < n {
        let mut path: Vec<String> = match shape {
            // All beside each other.
            0 => Vec::new(),
            // All below each other.
            1 => out.last().map_or(Vec::new(), |c| c.path.clone()),
            _ if out.is_empty() => Vec::new(),
            _ => out[below(out.len())].path.clone(),
        };
        if shape == 1 && path.len() > 100 {
            path.clear();
        }
        if !out.is_empty() || below(2) == 0 {
            path.push(if below(8) == 0 { WORDS[below(WORDS.len())].into() } else { format!("w{}", below(1000)) });
        }
        if out.iter().any(|c| c.path == path) {
            continue;
        }
        out.push(Cmd { path, flags: Vec::new(), store: store(ctx, false), help: (below(2) == 0).then(|| format!("command {}", below(100))) });
    }
    if flags > 0 {
        let c = if flags == 3 { 0 } else { below(out.len()) };
        while out[c].flags.len() < flags {
            let name = if below(8) == 0 { FLAGS[below(FLAGS.len())].into() } else { format!("f{}", below(1000)) };
            if out[c].flags.iter().any(|f| f.name == name) {
                continue;
            }
            out[c].flags.push(Flag {
                name,
                mode: [Mode::Set, Mode::Toggle, Mode::Parse][below(3)],
                store: store(ctx, true),
                help: (below(2) == 0).then(|| format!("flag {}", below(100))),
            });
        }
    }
    Layout(out)
}

pub fn layout(ctx: &Ctx, store: impl Fn(&Ctx, bool) -> Store, max: usize) -> Layout {
    if ctx.chance(1, 400) {
        return large(ctx, store);
    }
    let n = ctx.range(0, max);
    let words = ctx.range(1, WORDS.len());
    let mut out: Vec<Cmd> = Vec::new();
    for _ in 0..n {
        // Mostly grow from what is there, sometimes leave holes.
        let mut path: Vec<String> = match out.last() {
            Some(_) if ctx.chance(2, 3) => {
                let i = ctx.below(out.len());
                let p: &Cmd = &out[i];
                p.path.clone()
            }
            _ => Vec::new(),
        };
        let grow = if ctx.chance(1, 12) { ctx.range(3, 5) } else { ctx.draw(3) as usize };
        for _ in 0..grow {
            path.push(if ctx.chance(1, 80) { long(ctx) } else { WORDS[ctx.below(words)].into() });
        }
        path.truncate(6);
        if out.iter().any(|c| c.path == path) {
            continue;
        }
        let mut flags: Vec<Flag> = Vec::new();
        for _ in 0..ctx.size(5).min(6) {
            let name = if ctx.chance(1, 40) { long(ctx) } else { ctx.pick(FLAGS).to_string() };
            if flags.iter().any(|f| f.name == name) {
                continue;
            }
            flags.push(Flag {
                name,
                mode: *ctx.pick(&[Mode::Set, Mode::Toggle, Mode::Parse]),
                store: store(ctx, true),
                help: ctx.chance(1, 2).then(|| format!("flag {}", ctx.draw(100))),
            });
        }
        out.push(Cmd {
            path,
            flags,
            store: store(ctx, false),
            help: ctx.chance(1, 2).then(|| format!("command {}", ctx.draw(100))),
        });
    }
    Layout(out)
}

pub fn arguments(ctx: &Ctx, l: &Layout) -> Vec<Bytes> {
    let mut out: Vec<Bytes> = Vec::new();
    // Usually select an existing command first.
    if !l.0.is_empty() && ctx.chance(3, 4) {
        let mut c = &l.0[ctx.below(l.0.len())];
        if l.0.len() > 10 && ctx.chance(1, 2) {
            c = l.0.iter().max_by_key(|c| c.flags.len()).unwrap();
        }
        let n = ctx.range(0, c.path.len());
        for w in &c.path[..n] {
            out.push(w.clone().into_bytes());
            if ctx.chance(1, 4) {
                out.push(flag_arg(ctx, l));
            }
        }
    }
    let n = if ctx.chance(1, 200) { ctx.range(9, if ctx.chance(1, 10) { 700 } else { 80 }) } else { ctx.size(8) };
    for _ in 0..n {
        let a: Bytes = match ctx.weighted(&[6, 3, 2, 1, 1, 1]) {
            0 => flag_arg(ctx, l),
            1 => ctx.pick(WORDS).as_bytes().to_vec(),
            2 if ctx.chance(1, 40) => "long".repeat(ctx.range(1, if ctx.chance(1, 20) { 20_000 } else { 100 })).into_bytes(),
            2 => ctx.pick(&["p", "value", "null", "é", "", "日本語", "\0", "a b"]).as_bytes().to_vec(),
            3 => b"--".to_vec(),
            4 => ctx.pick(&["-x", "-", "-é", "-xyz", "-=", "-1"]).as_bytes().to_vec(),
            _ => ctx.pick(&["---", "--=", "--=v", "--no-", "--no-=1", "--unknown", "--x=a=b", "--no", "--é=é"]).as_bytes().to_vec(),
        };
        out.push(a);
    }
    if ctx.fault("arguments_not_utf8", 1, 3) {
        for _ in 0..ctx.range(1, 3) {
            if out.is_empty() {
                break;
            }
            let i = ctx.below(out.len());
            let k = ctx.range(0, out[i].len());
            out[i].insert(k, *ctx.pick(&[0xff, 0x80, 0xc3]));
        }
    }
    out
}

fn flag_arg(ctx: &Ctx, l: &Layout) -> Bytes {
    let mut s = String::from("--");
    if ctx.chance(1, 4) {
        s.push_str("no-");
    }
    let mut cmd = if l.0.is_empty() { None } else { Some(&l.0[ctx.below(l.0.len())]) };
    if l.0.len() > 10 {
        // Few of many commands have flags.
        cmd = l.0.iter().max_by_key(|c| c.flags.len());
    }
    match cmd {
        Some(c) if !c.flags.is_empty() && ctx.chance(5, 6) => s.push_str(&c.flags[ctx.below(c.flags.len())].name),
        _ => s.push_str(*ctx.pick(FLAGS)),
    }
    if ctx.chance(1, 4) {
        s.push('=');
        s.push_str(*ctx.pick(&["", "v", "a=b", "--x", "é", "日本語"]));
        if ctx.chance(1, 40) {
            s.push_str(&"long".repeat(ctx.range(1, 100)));
        }
    }
    s.into_bytes()
}
