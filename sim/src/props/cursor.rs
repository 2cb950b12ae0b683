//! C31: positions in type signatures.

use crate::core::{Ctx, R};
use crate::runner::Prop;
use crate::{ensure, fail};
use osi::mown::Mown;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;
use tmp::fmt::dbus::Sig;
use tmp::fmt::dbus::signature::{Cursor, builtin, sig};

pub const C31: Prop = Prop {
    id: "C31",
    units: 100_000,
    sweep: true,
    run: run_c31,
    real: "tmp::fmt::dbus::signature::{Sig, Cursor}, tmp::fmt::dbus::Element, osi::mown",
    stub: "callers (interleaving of up to 6 positions, copies, parts, drops, iteration that stops or panics midway, text sinks that fail); reference is a table of containers computed from the text",
    rule: "one evaluation = one history of up to 80 operations on up to 6 positions over up to 4 signatures; distinct = distinct event logs (every operation with its position and result)",
    assumptions: &[
        "valid signatures of up to about 300 elements, rarely up to 66000",
        "alignment is not compared at closing elements, nor the D-Bus alignment of types it does not define",
    ],
};

/// What the text says about each element.
#[derive(Clone, Copy, Debug)]
struct Node {
    code: u8,
    up: Option<usize>,
    pos: usize,
    len: usize,
    dvar: Option<u8>,
    gvar: Option<u8>,
}

#[derive(Clone, Debug)]
struct Model {
    text: Vec<u8>,
    nodes: Vec<Node>,
}

impl Model {
    fn new(text: &[u8]) -> Self {
        let mut m = Model { text: text.to_vec(), nodes: Vec::new() };
        let end = m.value(0, None, 0);
        assert_eq!(end, text.len());
        m
    }

    /// Describe the type at `at`; returns its end.
    fn value(&mut self, at: usize, up: Option<usize>, pos: usize) -> usize {
        let code = self.text[at];
        let (d, g) = match code {
            b'y' | b'g' => (0, 0),
            b'q' | b'n' => (1, 1),
            b'u' | b'i' | b'h' => (2, 2),
            b't' | b'x' | b'd' => (3, 3),
            b'b' | b's' | b'o' => (2, 0),
            b'v' => (0, 3),
            b'a' | b'm' => (2, 0),
            _ => (3, 0),
        };
        self.nodes.push(Node { code, up, pos, len: 1, dvar: (code != b'm').then_some(d), gvar: Some(g) });
        let mut end = at + 1;
        match code {
            b'a' | b'm' => end = self.value(end, Some(at), 0),
            b'(' | b'{' => {
                let mut n = 0;
                while !matches!(self.text[end], b')' | b'}') {
                    end = self.value(end, Some(at), n);
                    n += 1;
                }
                let code = self.text[end];
                self.nodes.push(Node { code, up: Some(at), pos: n, len: 1, dvar: None, gvar: None });
                end += 1;
            }
            _ => {}
        }
        self.nodes[at].len = end - at;
        let g = self.nodes[at..end].iter().filter_map(|n| n.gvar).max();
        self.nodes[at].gvar = g;
        end
    }

    fn part(&self, at: usize) -> Option<&[u8]> {
        let n = self.nodes.get(at)?;
        (!self.closes(at)).then(|| &self.text[at..at + n.len])
    }
    fn closes(&self, at: usize) -> bool {
        matches!(self.text[at], b')' | b'}')
    }
    fn next(&self, at: usize) -> Option<usize> {
        (at < self.text.len()).then_some(at + 1)
    }
    fn prev(&self, at: usize) -> Option<usize> {
        at.checked_sub(1)
    }
    fn step(&self, at: usize) -> Option<usize> {
        let n = self.nodes.get(at)?;
        match n.up {
            None => Some(at + n.len),
            Some(u) if matches!(self.text[u], b'a' | b'm') => None,
            _ if self.closes(at) => None,
            _ => Some(at + n.len),
        }
    }
    fn down(&self, at: usize) -> Option<usize> {
        matches!(self.text.get(at)?, b'a' | b'm' | b'(' | b'{').then_some(at + 1)
    }
    fn up(&self, at: usize) -> Option<usize> {
        self.nodes.get(at)?.up
    }
}

enum Real<'a> {
    Ref(Cursor<'a>),
    Box(Cursor<'a, Box<Sig>>),
    Arc(Cursor<'a, Arc<Sig>>),
}

macro_rules! on {
    ($r:expr, $c:ident => $e:expr) => {
        match $r {
            Real::Ref($c) => $e,
            Real::Box($c) => $e,
            Real::Arc($c) => $e,
        }
    };
}

struct Pos<'a> {
    real: Real<'a>,
    model: Model,
    at: usize,
}

struct Gen<'c> {
    ctx: &'c Ctx,
    left: Cell<usize>,
}

impl Gen<'_> {
    fn basic(&self, out: &mut Vec<u8>) {
        out.push(*self.ctx.pick(b"yqnuitxdbsogh"));
    }
    fn ty(&self, out: &mut Vec<u8>, depth: usize) {
        if self.left.get() == 0 || depth > 90 {
            return match self.ctx.draw(6) {
                0 => out.push(b'v'),
                1 => out.extend_from_slice(b"()"),
                _ => self.basic(out),
            };
        }
        self.left.set(self.left.get() - 1);
        match self.ctx.weighted(&[2, 1, 4, 1, 5, 2]) {
            0 => self.basic(out),
            1 => out.push(b'v'),
            2 => {
                out.push(b'a');
                self.ty(out, depth + 1);
            }
            3 => {
                out.push(b'm');
                self.ty(out, depth + 1);
            }
            4 => {
                out.push(b'(');
                for _ in 0..self.ctx.size(6) {
                    self.ty(out, depth + 1);
                }
                out.push(b')');
            }
            _ => {
                out.push(b'{');
                self.basic(out);
                self.ty(out, depth + 1);
                out.push(b'}');
            }
        }
    }
}

fn text(ctx: &Ctx) -> Vec<u8> {
    let n = *ctx.pick(&[0, 2, 5, 12, 30, 60, 120]);
    let mut v = Vec::new();
    Gen { ctx, left: Cell::new(n) }.ty(&mut v, 0);
    // Exactly around the size where another representation is used.
    if ctx.chance(1, 6) && v.len() < 30 {
        let n = ctx.range(29, 34);
        v.insert(0, b'(');
        while v.len() + 1 < n {
            v.push(*ctx.pick(b"yqutsv"));
        }
        v.push(b')');
    }
    if ctx.chance(1, 200) {
        // A very wide structure around it.
        let n = 1 << *ctx.pick(&[8, 10, 12, 13, 16]);
        let n = n + ctx.range(0, 40);
        let mut w = vec![b'('];
        let before = ctx.chance(1, 2);
        if !before {
            w.append(&mut v);
        }
        w.extend(ctx.bytes(n).iter().map(|b| b"yqutsvdo"[*b as usize % 8]));
        w.append(&mut v);
        w.push(b')');
        v = w;
        ctx.probe("wide_structure");
    }
    if ctx.chance(1, 30) {
        let n = ctx.range(10, if ctx.chance(1, 10) { 1100 } else { 200 });
        v.splice(0..0, std::iter::repeat_n(b'a', n));
    }
    v
}

/// Accepts a limited amount of text.
struct Limited(String, usize);

impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

fn hash(s: &Sig) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// Compare everything there is to know about an element.
fn look(ctx: &Ctx, p: &Pos<'_>, at: usize) -> R {
    let n = p.model.nodes.get(at);
    let show = || format!("{} of {}", at, p.model.text.escape_ascii());
    on!(&p.real, c => {
        let e = c.element_at(at).map(|e| e.code());
        ensure!(e == n.map(|n| n.code), "element {} is {e:?}", show());
        let v = c.position_at(at);
        ensure!(v == n.map(|n| n.pos), "position at {} is {v:?}", show());
        let v = c.length_at(at);
        ensure!(v == n.map(|n| n.len), "length at {} is {v:?}", show());
        let v = c.sig_at(at).map(|s| s.to_string().into_bytes());
        ensure!(v.as_deref() == p.model.part(at), "part at {} is {:?}", show(), v.map(|v| v.escape_ascii().to_string()));
        ctx.ev("look", at as u64, e.unwrap_or(0) as u64);
    });
    Ok(())
}

/// Compare what is known about the current position.
fn check(ctx: &Ctx, p: &Pos<'_>) -> R {
    let m = &p.model;
    let n = m.nodes.get(p.at);
    let show = || format!("{} of {}", p.at, m.text.escape_ascii());
    on!(&p.real, c => {
        ensure!(c.idx() == p.at, "at {}, expected at {}", c.idx(), show());
        let v = c.element().map(|e| e.code());
        ensure!(v == n.map(|n| n.code), "element {} is {v:?}", show());
        let v = (c.idx_next(), c.idx_prev(), c.idx_step(), c.idx_down(), c.idx_up());
        let w = (m.next(p.at), m.prev(p.at), m.step(p.at), m.down(p.at), m.up(p.at));
        ensure!(v == w, "next, previous, step, down and up from {} are {v:?}, expected {w:?}", show());
        let v = c.up().map(|e| e.code());
        ensure!(v == w.4.map(|i| m.text[i]), "element above {} is {v:?}", show());
        let v = c.down().map(|e| e.code());
        ensure!(v == w.3.map(|i| m.text[i]), "element below {} is {v:?}", show());
        ensure!(c.position() == n.map(|n| n.pos), "position at {} is {:?}", show(), c.position());
        ensure!(c.length() == n.map(|n| n.len), "length at {} is {:?}", show(), c.length());
        let s = c.sig().map(|s| s.len());
        ensure!(s == m.part(p.at).map(|v| v.len()), "part at {} has length {s:?}", show());
        let v = c.dvar_alignment_exp();
        match n {
            Some(n) => if let Some(w) = n.dvar {
                ensure!(v == Some(w), "D-Bus alignment at {} is {v:?}, expected {w}", show());
            }
            None => ensure!(v.is_none(), "alignment {v:?} past the end at {}", show()),
        }
        let v = c.gvar_alignment_exp();
        match n {
            Some(n) => if let Some(w) = n.gvar {
                ensure!(v == Some(w), "GVariant alignment at {} is {v:?}, expected {w}", show());
            }
            None => ensure!(v.is_none(), "alignment {v:?} past the end at {}", show()),
        }
        let left = m.text.len() - p.at;
        ensure!(c.size_hint() == (left, Some(left)) && c.len() == left, "{:?} elements left at {}", c.size_hint(), show());
    });
    ctx.state(n.map_or(0, |n| n.code) as u64, n.and_then(|n| n.up).map_or(0, |u| m.text[u]) as u64, (m.text.len() > 31) as u64);
    Ok(())
}

fn run_c31(ctx: &Ctx) -> R {
    // Signatures that outlive all borrowed positions.
    let mut keep: Vec<(Box<Sig>, Vec<u8>)> = Vec::new();
    for _ in 0..ctx.range(1, 4) {
        let mut t = text(ctx);
        let s = match Sig::new(&t) {
            Ok(s) => s,
            Err(e) => fail!("{} is refused: {e:?}", t.escape_ascii()),
        };
        let copy = t.clone();
        // The text is not referred to anymore.
        t.fill(b'z');
        drop(t);
        keep.push((s, copy));
    }
    let fixed: [&'static Sig; 4] = [builtin::s, builtin::asv, sig!(b"(uuta{sv}a{sv})"), sig!(b"(yqnuitxdbsoghv(())a{s(yyyyyyyyyy)})")];
    ctx.describe(|| format!("signatures {:?}", keep.iter().map(|k| k.1.escape_ascii().to_string()).collect::<Vec<_>>()));

    let mut all: Vec<Pos<'_>> = Vec::new();
    let steps = ctx.range(4, 80);
    for _ in 0..steps {
        ctx.tick();
        if all.is_empty() || all.len() < 6 && ctx.chance(1, 10) {
            all.push(fresh(ctx, &keep, &fixed));
        }
        let i = ctx.below(all.len());
        if all.len() > 1 && ctx.fault("position_dropped", 1, 30) {
            all.swap_remove(i);
            continue;
        }
        let room = all.len() < 6;
        let p = &mut all[i];
        let op = ctx.weighted(&[3, 3, 6, 6, 4, 4, 4, 2, 2, 3, 2, 2, 1]);
        ctx.ev("op", op as u64, (i as u64) << 32 | p.at as u64);
        let to = match op {
            0 => Some(p.model.next(p.at)),
            1 => Some(p.model.prev(p.at)),
            2 => Some(p.model.step(p.at)),
            3 => Some(p.model.down(p.at)),
            4 => Some(p.model.up(p.at)),
            _ => None,
        };
        if let Some(to) = to {
            p.at = to.unwrap_or(p.at);
            let got = on!(&mut p.real, c => match op {
                0 => c.move_next(),
                1 => c.move_prev(),
                2 => c.move_step(),
                3 => c.move_down(),
                _ => c.move_up(),
            }.idx());
            ensure!(got == p.at, "moved to {got} instead of {} in {}", p.at, p.model.text.escape_ascii());
        }
        match op {
            0..=4 => {}
            // Jump, also beyond the end.
            5 => {
                let n = p.model.text.len();
                let to = match ctx.draw(5) {
                    0 => n,
                    1 => n + ctx.range(1, 3),
                    _ => ctx.range(0, n),
                };
                if to > n {
                    ctx.probe("beyond_the_end");
                }
                p.at = to.min(n);
                on!(&mut p.real, c => match ctx.draw(3) {
                    0 => { c.maybe_move(Some(to)); }
                    1 if to <= n => *c.raw().1 = to,
                    _ => { c.move_to(to); }
                });
                on!(&mut p.real, c => { c.maybe_move(None); });
            }
            // Iterate for a while.
            6 => iterate(ctx, p)?,
            // A copy moves on its own.
            7 if room => {
                let real = match &all[i].real {
                    Real::Ref(c) => Real::Ref(c.clone()),
                    Real::Box(c) => Real::Box(c.clone()),
                    Real::Arc(c) => Real::Arc(c.clone()),
                };
                ctx.probe("copied");
                let (model, at) = (all[i].model.clone(), all[i].at);
                all.push(Pos { real, model, at });
            }
            // Part becomes independent and replaces the whole.
            8 => {
                let part = on!(&p.real, c => c.sig().map(|s| if ctx.chance(1, 2) { s.clone() } else { s.to_owned() }));
                if let (Some(s), Some(t)) = (part, p.model.part(p.at)) {
                    ctx.probe("part_taken");
                    let model = Model::new(t);
                    let real = if ctx.chance(1, 2) {
                        Real::Box(Cursor::new_owned(s))
                    } else {
                        Real::Arc(Cursor::new_owned(Arc::from(s)))
                    };
                    *p = Pos { real, model, at: 0 };
                }
            }
            // Look elsewhere.
            9 => {
                let n = p.model.text.len();
                for _ in 0..ctx.range(1, 4) {
                    look(ctx, p, ctx.range(0, n + 2))?;
                }
            }
            10 => print(ctx, p)?,
            11 => {
                let j = ctx.below(all.len());
                compare(ctx, &all[i], &all[j])?;
            }
            // A part in place.
            _ => {
                if let Real::Ref(c) = &p.real {
                    let k = ctx.below(keep.len());
                    let (s, t) = &keep[k];
                    let at = if c.root() == &**s { p.at } else { ctx.below(t.len()) };
                    if let Some(s) = s.at(at) {
                        ctx.probe("part_in_place");
                        let w = Model::new(t).part(at).map(|v| v.to_vec());
                        let Some(w) = w else { fail!("part at {at} of {} granted", t.escape_ascii()) };
                        *p = Pos { real: Real::Ref(s.cursor()), model: Model::new(&w), at: 0 };
                    }
                }
            }
        }
        for p in &all {
            check(ctx, p)?;
        }
    }
    Ok(())
}

fn fresh<'a>(ctx: &Ctx, keep: &'a [(Box<Sig>, Vec<u8>)], fixed: &[&'static Sig]) -> Pos<'a> {
    let (s, t): (&'a Sig, Vec<u8>) = if ctx.chance(1, 6) {
        let s = *ctx.pick(fixed);
        (s, s.to_string().into_bytes())
    } else {
        let k = &keep[ctx.below(keep.len())];
        (&k.0, k.1.clone())
    };
    let model = Model::new(&t);
    let at = if ctx.chance(2, 3) { 0 } else { ctx.range(0, t.len() + 2) };
    let real = match ctx.draw(7) {
        0 => Real::Ref(Cursor::with(Mown::new_borrowed(s), at)),
        1 => Real::Box(Cursor::with(Mown::new_borrowed(s), at)),
        2 => Real::Box(Cursor::with(Mown::new_owned(s.clone()), at)),
        3 => Real::Arc(Cursor::with(Mown::new_owned(Sig::arc(&t).unwrap()), at)),
        _ => {
            let real = match ctx.draw(4) {
                0 => Real::Ref(s.cursor()),
                1 => Real::Ref(s.into_iter()),
                2 => Real::Box(Cursor::new_borrowed(s)),
                _ => Real::Arc(Cursor::new(Mown::new_owned(Sig::arc(&t).unwrap()))),
            };
            return Pos { real, model, at: 0 };
        }
    };
    let at = at.min(t.len());
    Pos { real, model, at }
}

fn iterate(ctx: &Ctx, p: &mut Pos<'_>) -> R {
    let n = ctx.range(0, 12);
    let rest = p.model.text[p.at..].to_vec();
    let mode = ctx.draw(5);
    let explode = ctx.fault("iteration_panics", 1, 8).then_some(n);
    let (got, used): (Vec<u8>, usize) = match (mode, explode) {
        // The consumer panics at the element number `n`.
        (_, Some(n)) => {
            let mut got = Vec::new();
            let r = catch_unwind(AssertUnwindSafe(|| {
                on!(&mut p.real, c => c.by_ref().for_each(|e| {
                    got.push(e.code());
                    if got.len() > n {
                        std::panic::resume_unwind(Box::new(0u8));
                    }
                }))
            }));
            ensure!(r.is_err() == (rest.len() > n), "iteration stopped after {} of {} elements", got.len(), rest.len());
            let used = got.len();
            (got, used)
        }
        (0, _) => {
            let v = on!(&mut p.real, c => c.nth(n));
            let w = rest.get(n).copied();
            ensure!(v.map(|e| e.code()) == w, "element {n} further on is {v:?}");
            (rest[..rest.len().min(n + 1)].to_vec(), rest.len().min(n + 1))
        }
        (1, _) => {
            let v: Vec<u8> = on!(&mut p.real, c => c.by_ref().take(n).map(|e| e.code()).collect());
            let used = rest.len().min(n);
            (v, used)
        }
        (2, _) => {
            let v: Vec<u8> = on!(&mut p.real, c => c.by_ref().map(|e| e.code()).collect());
            ensure!(on!(&mut p.real, c => c.next().is_none() && c.next().is_none()), "iteration goes on after its end");
            (v, rest.len())
        }
        (3, _) => {
            let k = on!(&p.real, c => c.clone().count());
            ensure!(k == rest.len(), "{k} elements left instead of {}", rest.len());
            (Vec::new(), 0)
        }
        _ => {
            let v: Vec<u8> = on!(&mut p.real, c => (0..n).map_while(|_| c.next().map(|e| e.code())).collect());
            let used = rest.len().min(n);
            (v, used)
        }
    };
    ensure!(got == rest[..used], "elements {} instead of {}", got.escape_ascii(), rest[..used].escape_ascii());
    p.at += used;
    Ok(())
}

fn print(ctx: &Ctx, p: &Pos<'_>) -> R {
    let t = std::str::from_utf8(&p.model.text).unwrap();
    on!(&p.real, c => {
        let s = c.root();
        ensure!(s.len() == t.len(), "length of {t} is {}", s.len());
        ensure!(s.to_string() == t && format!("{s}") == t && format!("{s:?}") == t, "{t} printed as {s} or {s:?}");
        // A sink that runs full.
        if ctx.fault("text_sink_full", 1, 2) {
            let n = ctx.range(0, t.len() + 1);
            let mut w = Limited(String::new(), n);
            let debug = ctx.chance(1, 2);
            let r = if debug { write!(w, "{s:?}") } else { write!(w, "{s}") };
            ensure!(r.is_ok() == (t.len() <= n), "printing {t} into {n} bytes yields {r:?}");
            ensure!(t.starts_with(&w.0), "{:?} is no beginning of {t}", w.0);
            ensure!(r.is_err() || w.0 == t, "only {:?} of {t} printed", w.0);
        }
    });
    Ok(())
}

fn compare(ctx: &Ctx, a: &Pos<'_>, b: &Pos<'_>) -> R {
    let (x, y) = (on!(&a.real, c => c.root()), on!(&b.real, c => c.root()));
    let (s, t) = (&a.model.text, &b.model.text);
    let show = || format!("{} and {}", s.escape_ascii(), t.escape_ascii());
    ensure!((x == y) == (s == t) && (x != y) == (s != t), "{} compare wrong", show());
    ensure!(x.cmp(y) == s.cmp(t) && x.partial_cmp(y) == Some(s.cmp(t)), "{} ordered wrong: {:?}", show(), x.cmp(y));
    if s.cmp(t) == Ordering::Equal {
        ctx.probe("equal");
        ensure!(hash(x) == hash(y), "{} hash differently", show());
    }
    // Parts, wherever they are.
    let (p, q) = (on!(&a.real, c => c.sig()), on!(&b.real, c => c.sig()));
    if let (Some(p), Some(q)) = (p, q) {
        let (s, t) = (a.model.part(a.at), b.model.part(b.at));
        ensure!((p == q) == (s == t) && p.cmp(q) == s.cmp(&t), "parts {p} and {q} compare wrong");
        if s == t {
            ensure!(hash(p) == hash(q), "equal parts {p} hash differently");
        }
    }
    Ok(())
}
