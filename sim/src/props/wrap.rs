//! C32: pointer wrappers, maybe-owned values and folded errors.

use crate::core::{Ctx, R};
use crate::runner::Prop;
use crate::{ensure, fail};
use osi::cmp::Identity;
use osi::convert::{FromDeref, IntoDeref};
use osi::error::Uncaught;
use osi::mown::Mown;
use osi::ptr::{NonNull4, OnceRef, Ptr};
use std::any::Any;
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::error::Error;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::num::NonZero;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::pin::Pin;
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::Arc;

pub const C32: Prop = Prop {
    id: "C32",
    units: 600_000,
    sweep: true,
    run: run_c32,
    real: "osi::ptr::{NonNull4, Ptr, OnceRef}, osi::pin, osi::convert, osi::cmp, osi::mown, osi::error",
    stub: "callers (interleaved histories on up to 6 wrappers of each kind), owned values whose copying panics, payloads whose printing fails or panics, text sinks that run full; reference keeps address, tag, text and owner separately",
    rule: "one evaluation = one history of up to 60 operations on up to 6 wrappers; distinct = distinct event logs (every operation with its operands and result, addresses as offsets)",
    assumptions: &["tag bits up to 63", "addresses that are never accessed may be anything that is not null"],
};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static CLONES: Cell<u64> = const { Cell::new(0) };
    static PANIC: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f` and reports whether it panicked on behalf of the simulation.
fn survives<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) if e.is::<Planned>() => None,
        Err(e) => resume_unwind(e),
    }
}

struct Planned;

fn panics() {
    if PANIC.replace(false) {
        resume_unwind(Box::new(Planned));
    }
}

/// Owner of a text.
struct Own(String);

impl Own {
    fn new(v: &str) -> Self {
        LIVE.set(LIVE.get() + 1);
        Own(v.into())
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        LIVE.set(LIVE.get() - 1);
        self.0.clear();
        self.0.push_str("released");
    }
}
impl Clone for Own {
    fn clone(&self) -> Self {
        panics();
        CLONES.set(CLONES.get() + 1);
        Own::new(&self.0)
    }
}
impl Default for Own {
    fn default() -> Self {
        Own::new("by default")
    }
}
impl Borrow<str> for Own {
    fn borrow(&self) -> &str {
        &self.0
    }
}

/// Accepts a limited amount of text.
struct Limited(String, usize);

impl fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

fn hash(v: &(impl Hash + ?Sized)) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn run_c32(ctx: &Ctx) -> R {
    LIVE.set(0);
    CLONES.set(0);
    PANIC.set(false);
    match ctx.draw(6) {
        0 => thin(ctx),
        1 => wide(ctx),
        2 => owned(ctx),
        3 => errors(ctx),
        4 => lend(ctx),
        _ => refs(ctx),
    }
}

/// What a tagged pointer should hold.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Tagged {
    addr: usize,
    size: usize,
    meta: usize,
}

/// One history on tagged pointers of one type.
fn tagged<T: ?Sized + Ord + Hash>(ctx: &Ctx, base: usize, pick: &dyn Fn(bool) -> (NonNull<T>, usize), size: &dyn Fn(NonNull<T>) -> usize, copy: &dyn Fn(&NonNull4<T>) -> Option<NonNull4<T>>) -> R {
    let mut all: Vec<(NonNull4<T>, Tagged)> = Vec::new();
    for _ in 0..ctx.range(2, 60) {
        ctx.tick();
        if all.is_empty() || all.len() < 6 && ctx.chance(1, 6) {
            let (p, n) = pick(ctx.chance(1, 2));
            let addr = p.addr().get();
            let v = NonNull4::new(p);
            ensure!(v.is_some() == (addr % 4 == 0), "pointer with low bits {} taken: {}", addr % 4, v.is_some());
            let seen = if addr.wrapping_sub(base) < 128 { addr - base } else { addr };
            ctx.ev("new", seen as u64, v.is_some() as u64);
            if let Some(mut v) = v {
                if ctx.chance(1, 3) {
                    // SAFETY: The address was just checked.
                    v = unsafe { NonNull4::new_unchecked(p) };
                }
                all.push((v, Tagged { addr, size: n, meta: 0 }));
            }
            continue;
        }
        let i = ctx.below(all.len());
        let (v, m) = &mut all[i];
        let op = ctx.draw(8);
        let arg = match op {
            0 | 1 => *ctx.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 8, u64::MAX, u64::MAX - 1, u64::MAX - 2, u64::MAX - 3, 1 << 63, 0x8000_0002]) as usize,
            2 | 3 => *ctx.pick(&[0usize, 1, 0, 1, 0, 1, 2, 3, 31, 32, 63]),
            _ => 0,
        };
        let flag = ctx.chance(1, 2);
        ctx.ev("op", op << 8 | flag as u64, (i as u64) << 32 | arg as u64 & 0xff);
        match op {
            0 | 1 => {
                v.set_meta(arg);
                m.meta = arg & 3;
            }
            2 | 3 => {
                v.set_meta_bit(arg as u8, flag);
                if arg < 2 {
                    m.meta = m.meta & !(1 << arg) | (flag as usize) << arg;
                }
            }
            4 => {
                v.set0(flag);
                m.meta = m.meta & 2 | flag as usize;
            }
            5 => {
                v.set1(flag);
                m.meta = m.meta & 1 | (flag as usize) << 1;
            }
            6 => {
                let (p, n) = pick(true);
                // SAFETY: `pick(true)` only yields aligned addresses.
                unsafe { v.set_ptr_unchecked(p) };
                m.addr = p.addr().get();
                m.size = n;
            }
            _ => {
                let c = (copy(v), *m);
                if let (Some(v), m) = c && all.len() < 6 {
                    all.push((v, m));
                }
            }
        }
        for (v, m) in &all {
            let p = v.ptr();
            ensure!(p.addr().get() == m.addr, "address off by {}", p.addr().get().wrapping_sub(m.addr) as isize);
            ensure!(size(p) == m.size, "extent {} instead of {}", size(p), m.size);
            ensure!(v.meta() == m.meta, "tag {} instead of {}", v.meta(), m.meta);
            ensure!(v.get0() == (m.meta & 1 != 0) && v.get1() == (m.meta & 2 != 0), "bits {} and {} of tag {}", v.get0(), v.get1(), m.meta);
            let b = ctx.draw(64) as u8;
            let w = b < 2 && m.meta >> b & 1 != 0;
            ensure!(v.meta_bit(b) == w, "bit {b} of tag {} is {}", m.meta, v.meta_bit(b));
        }
        let (a, b) = (&all[ctx.below(all.len())], &all[ctx.below(all.len())]);
        let same = a.1 == b.1;
        ensure!((a.0 == b.0) == same, "{:?} and {:?} compare wrong", a.1, b.1);
        let (x, y) = (a.0.cmp(&b.0), b.0.cmp(&a.0));
        ensure!(x == y.reverse() && (x == Ordering::Equal) == same && a.0.partial_cmp(&b.0) == Some(x), "{:?} and {:?} ordered wrong", a.1, b.1);
        if same {
            ensure!(hash(&a.0) == hash(&b.0), "{:?} hashes differently", a.1);
        }
        ctx.state(0, all[i.min(all.len() - 1)].1.meta as u64, op);
    }
    Ok(())
}

fn somewhere(ctx: &Ctx, base: usize, aligned: bool) -> usize {
    let v = match ctx.draw(6) {
        0 => *ctx.pick(&[4usize, 8, 1 << 12, 1 << 31, 1 << 32, 1 << 47, 1 << 63, usize::MAX - 3, (isize::MAX as usize) - 3, 0xffff_fffc]),
        _ => base + 4 * ctx.below(16),
    };
    if aligned { v & !3 } else { v | ctx.draw(4) as usize }
}

fn thin(ctx: &Ctx) -> R {
    let mem = [0u64; 16];
    let base = mem.as_ptr() as usize;
    let pick = |aligned| (NonNull::<u32>::without_provenance(NonZero::new(somewhere(ctx, base, aligned)).unwrap()), 0);
    tagged(ctx, base, &pick, &|_| 0, &|v| Some(*v))
}

fn wide(ctx: &Ctx) -> R {
    let mem = [0u64; 16];
    let base = mem.as_ptr() as usize;
    let pick = |aligned| {
        let p = NonNull::<u8>::without_provenance(NonZero::new(somewhere(ctx, base, aligned)).unwrap());
        let n = ctx.below(4);
        (NonNull::slice_from_raw_parts(p, n), n)
    };
    tagged(ctx, base, &pick, &|p| p.len(), &|_| None)
}

fn owned(ctx: &Ctx) -> R {
    let texts: Vec<String> = (0..3).map(|_| word(ctx)).collect();
    // Value, expected text, source if borrowed.
    let mut all: Vec<(Mown<'_, str, Own>, String, Option<usize>)> = Vec::new();
    for _ in 0..ctx.range(2, 60) {
        ctx.tick();
        let op = if all.is_empty() { 0 } else { ctx.draw(8) };
        let clones = CLONES.get();
        ctx.ev("owned", op, all.len() as u64);
        match op {
            0 | 1 if all.len() < 6 => {
                let k = ctx.below(3);
                let t = texts[k].as_str();
                all.push(match ctx.draw(5) {
                    0 => (Mown::new_borrowed(t), t.into(), Some(k)),
                    1 => (Mown::from(t), t.into(), Some(k)),
                    2 => (Mown::default(), "by default".into(), None),
                    _ => (Mown::new_owned(Own::new(t)), t.into(), None),
                });
            }
            2 if all.len() < 6 => {
                let i = ctx.below(all.len());
                let explode = all[i].2.is_none() && ctx.fault("copy_panics", 1, 3);
                PANIC.set(explode);
                let c = survives(|| all[i].0.clone());
                PANIC.set(false);
                ensure!(c.is_none() == explode, "copying an owned value did not copy what it owns");
                let want = clones + (c.is_some() && all[i].2.is_none()) as u64;
                ensure!(CLONES.get() == want, "{} copies instead of {want}", CLONES.get());
                if let Some(c) = c {
                    let (t, k) = (all[i].1.clone(), all[i].2);
                    all.push((c, t, k));
                }
            }
            3 => {
                let i = ctx.below(all.len());
                all.swap_remove(i);
            }
            4 => {
                let (a, b) = (&all[ctx.below(all.len())], &all[ctx.below(all.len())]);
                ensure!((a.0 == b.0) == (a.1 == b.1) && (a.0 != b.0) == (a.1 != b.1), "{} and {} compare wrong", a.1, b.1);
                let w = a.1.cmp(&b.1);
                ensure!(a.0.cmp(&b.0) == w && a.0.partial_cmp(&b.0) == Some(w), "{} and {} ordered wrong", a.1, b.1);
            }
            5 => {
                let i = ctx.below(all.len());
                let (v, t, k) = &all[i];
                let w = format!("Mown::{}({t:?})", if k.is_some() { "Borrowed" } else { "Owned" });
                sink(ctx, &|s| write!(s, "{v:?}"), &w, true)?;
            }
            6 => {
                // Taken apart and put together.
                let i = ctx.below(all.len());
                let (v, t, k) = all.swap_remove(i);
                let v = match v {
                    Mown::Borrowed(v) => Mown::new_borrowed(v),
                    Mown::Owned(v) => Mown::new_owned(v),
                };
                all.push((v, t, k));
            }
            _ => {}
        }
        let mut live = 0;
        for (v, t, k) in &all {
            let s: &str = v;
            let d: &str = Mown::deref(v);
            let b: &[u8] = v.as_ref();
            ensure!(s == t && d == t && b == t.as_bytes(), "shows {s:?} instead of {t:?}");
            ensure!(v.is_borrowed() == k.is_some() && v.is_owned() == k.is_none(), "{t:?} owned: {}", v.is_owned());
            ensure!(hash(v) == hash(t.as_str()), "{t:?} hashes differently");
            match (v, k) {
                (Mown::Borrowed(_), Some(k)) => ensure!(std::ptr::eq(s, texts[*k].as_str()), "{t:?} is not the text it was borrowed from"),
                (Mown::Owned(o), None) => {
                    live += 1;
                    ensure!(std::ptr::eq(s, o.0.as_str()), "{t:?} is not the text that is owned");
                }
                _ => fail!("{t:?} changed between borrowed and owned"),
            }
        }
        ensure!(LIVE.get() == live, "{} texts alive instead of {live}", LIVE.get());
        if op != 2 {
            ensure!(CLONES.get() == clones, "copied without being asked to");
        }
        ctx.state(1, op, live as u64);
    }
    drop(all);
    ensure!(LIVE.get() == 0, "{} texts alive at the end", LIVE.get());
    Ok(())
}

fn word(ctx: &Ctx) -> String {
    (0..ctx.size(5)).map(|_| *ctx.pick(&['a', 'b', '"', '\\', '\n', 'ä', '€', '\u{1f600}'])).collect()
}

/// Print into a sink that runs full at any byte, or without limit.
fn sink(ctx: &Ctx, f: &dyn Fn(&mut dyn fmt::Write) -> fmt::Result, want: &str, works: bool) -> R {
    let n = if ctx.fault("text_sink_full", 1, 2) { ctx.range(0, want.len()) } else { usize::MAX };
    let mut w = Limited(String::new(), n);
    let r = f(&mut w);
    ensure!(want.starts_with(&w.0), "{:?} is no beginning of {want:?}", w.0);
    if works {
        ensure!(r.is_ok() == (want.len() <= n), "printing {want:?} into {n} bytes yields {r:?}");
    } else {
        ensure!(r.is_err(), "{want:?} printed although its text failed");
    }
    ensure!(r.is_err() || w.0 == want, "only {:?} of {want:?} printed", w.0);
    Ok(())
}

/// Cause of another error.
#[derive(Debug)]
struct Cause(u64);

impl Display for Cause {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "cause {}", self.0)
    }
}
impl Error for Cause {}

/// Something that went wrong, printed in pieces.
struct Payload {
    debug: Vec<String>,
    display: Vec<String>,
    fails_at: Cell<Option<usize>>,
    cause: Option<Cause>,
    counted: bool,
}

// SAFETY: Only used by statics that never change.
unsafe impl Sync for Payload {}

impl Payload {
    fn pieces(&self, f: &mut fmt::Formatter<'_>, v: &[String]) -> fmt::Result {
        for (i, s) in v.iter().enumerate() {
            if self.fails_at.get() == Some(i) {
                panics();
                return Err(fmt::Error);
            }
            f.write_str(s)?;
        }
        Ok(())
    }
}
impl Debug for Payload {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.pieces(f, &self.debug)
    }
}
impl Display for Payload {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.pieces(f, &self.display)
    }
}
impl Error for Payload {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        self.cause.as_ref().map(|v| v as _)
    }
}
impl Drop for Payload {
    fn drop(&mut self) {
        if self.counted {
            LIVE.set(LIVE.get() - 1);
        }
    }
}

static FIXED: [Payload; 2] = [
    Payload { debug: Vec::new(), display: Vec::new(), fails_at: Cell::new(None), cause: None, counted: false },
    Payload { debug: Vec::new(), display: Vec::new(), fails_at: Cell::new(None), cause: Some(Cause(7)), counted: false },
];
static TEXT: &str = "fixed \"text\"";

struct Known {
    kind: usize,
    debug: String,
    display: String,
    pieces: usize,
    cause: Option<u64>,
}

fn errors(ctx: &Ctx) -> R {
    let mut all: Vec<(Uncaught, Known)> = Vec::new();
    let mut next = 0;
    for _ in 0..ctx.range(2, 40) {
        ctx.tick();
        if all.is_empty() || all.len() < 6 && ctx.chance(1, 4) {
            let kind = ctx.below(8);
            let words = |n| (0..n).map(|_| word(ctx)).collect::<Vec<_>>();
            ctx.ev("fold", kind as u64, all.len() as u64);
            if kind < 4 {
                let n = ctx.range(1, 3);
                let (debug, display) = (words(n), words(n));
                next += 1;
                let cause = ctx.chance(1, 2).then_some(next);
                let k = Known { kind, debug: debug.concat(), display: display.concat(), pieces: n, cause };
                LIVE.set(LIVE.get() + 1);
                let p = Payload { debug, display, fails_at: Cell::new(None), cause: cause.map(Cause), counted: true };
                let boxed = ctx.chance(1, 2);
                let e = match (kind, boxed) {
                    (0, false) => Uncaught::fold_any(Box::new(p)),
                    (0, true) => Uncaught::box_any(p),
                    (1, false) => Uncaught::fold_debug(Box::new(p)),
                    (1, true) => Uncaught::box_debug(p),
                    (2, false) => Uncaught::fold_display(Box::new(p)),
                    (2, true) => Uncaught::box_display(p),
                    (_, false) => Uncaught::fold_error(Box::new(p)),
                    (_, true) => Uncaught::box_error(p),
                };
                all.push((e, k));
            } else {
                let i = ctx.below(2);
                let text = matches!(kind, 5 | 6);
                let (debug, display) = if text { (format!("{TEXT:?}"), TEXT.to_string()) } else { Default::default() };
                let k = Known { kind, debug, display, pieces: 0, cause: FIXED[i].cause.as_ref().map(|v| v.0) };
                let e = match kind {
                    4 => Uncaught::fold_static_any(&FIXED[i]),
                    5 => Uncaught::fold_static_debug(&TEXT),
                    6 => Uncaught::fold_static_display(&TEXT),
                    _ => Uncaught::fold_static_error(&FIXED[i]),
                };
                all.push((e, k));
            }
            continue;
        }
        let i = ctx.below(all.len());
        let op = ctx.draw(6);
        ctx.ev("error", op, all[i].1.kind as u64);
        let (e, k) = &all[i];
        match op {
            0..=2 => {
                let debug = ctx.chance(1, 2);
                let name = ["Any", "Debug", "Display", "Error", "StaticAny", "StaticDebug", "StaticDisplay", "StaticError"][k.kind];
                let want = match (debug, k.kind % 4) {
                    (true, 0) => format!("Uncaught::{name}()"),
                    (true, 2) => format!("Uncaught::{name}({})", k.display),
                    (true, _) => format!("Uncaught::{name}({})", k.debug),
                    (false, 0) => format!("Uncaught({name})"),
                    (false, 1) => format!("Uncaught({name}): {}", k.debug),
                    (false, _) => format!("Uncaught({name}): {}", k.display),
                };
                // The payload itself fails or panics.
                let fails = (k.pieces > 0 && k.kind != 0).then(|| ctx.fault("payload_fails", 1, 4)).unwrap_or(false);
                let explodes = fails && ctx.chance(1, 2);
                let at = fails.then(|| ctx.below(k.pieces));
                payload(e, k, |p| p.fails_at.set(at))?;
                PANIC.set(explodes);
                let r = survives(|| sink(ctx, &|s| if debug { write!(s, "{e:?}") } else { write!(s, "{e}") }, &want, !fails));
                PANIC.set(false);
                payload(e, k, |p| p.fails_at.set(None))?;
                if let Some(r) = r {
                    r?;
                } else {
                    ensure!(explodes, "panicked without reason");
                    ctx.probe("printing_panicked");
                }
            }
            3 => {
                let v = e.source().map(|v| v.to_string());
                let w = (k.kind % 4 == 3).then_some(k.cause).flatten().map(|v| format!("cause {v}"));
                ensure!(v == w, "cause is {v:?} instead of {w:?}");
            }
            4 => {
                all.swap_remove(i);
            }
            _ => payload(e, k, |_| ())?,
        }
        let live = all.iter().filter(|v| v.1.kind < 4).count() as i64;
        ensure!(LIVE.get() == live, "{} errors alive instead of {live}", LIVE.get());
        ctx.state(2, op, live as u64);
    }
    drop(all);
    ensure!(LIVE.get() == 0, "{} errors alive at the end", LIVE.get());
    Ok(())
}

/// Access what was folded.
fn payload(e: &Uncaught, k: &Known, f: impl FnOnce(&Payload)) -> R {
    let (kind, p): (usize, Option<&Payload>) = match e {
        Uncaught::Any(v) => (0, (**v).downcast_ref::<Payload>()),
        // SAFETY: These kinds are only made from `Payload` here.
        Uncaught::Debug(v) => (1, Some(unsafe { &*(&raw const **v as *const Payload) })),
        Uncaught::Display(v) => (2, Some(unsafe { &*(&raw const **v as *const Payload) })),
        Uncaught::Error(v) => (3, v.downcast_ref::<Payload>()),
        Uncaught::StaticAny(v) => (4, <dyn Any>::downcast_ref::<Payload>(*v)),
        Uncaught::StaticDebug(_) => (5, None),
        Uncaught::StaticDisplay(_) => (6, None),
        Uncaught::StaticError(v) => (7, v.downcast_ref::<Payload>()),
    };
    ensure!(kind == k.kind, "kind {kind} instead of {}", k.kind);
    ensure!(p.is_some() == !matches!(kind, 5 | 6), "something else was folded");
    if let Some(p) = p {
        ensure!(p.debug.concat() == k.debug && p.display.concat() == k.display, "folded error changed");
        ensure!(p.cause.as_ref().map(|v| v.0) == k.cause, "cause of folded error changed");
        if kind < 4 {
            f(p);
        }
    }
    Ok(())
}

/// Pointers with a lifetime always show what they were made from.
fn refs(ctx: &Ctx) -> R {
    let mut cells: Vec<u32> = (0..4).map(|_| ctx.draw(1 << 20) as u32).collect();
    for _ in 0..ctx.range(2, 40) {
        ctx.tick();
        let i = ctx.below(4);
        let op = ctx.draw(9);
        let value = ctx.draw(1 << 20) as u32;
        ctx.ev("ref", op, (i as u64) << 32 | value as u64);
        let at = &raw mut cells[i];
        let was = cells[i];
        match op {
            0 => {
                let p = Ptr::from_ref(&cells[i]);
                let q = Ptr::from(&cells[i]);
                let o = Ptr::from(&cells[(i + 1) % 4]);
                ensure!(p == q && p != o && p.cmp(&q) == Ordering::Equal && p.cmp(&o) == o.cmp(&p).reverse(), "pointers compare wrong");
                ensure!(hash(&p) == hash(&q), "equal pointers hash differently");
                ensure!(p.as_ptr() == at && p.into_ptr() == at && p.as_nonnull().as_ptr() == at && p.into_nonnull().as_ptr() == at, "pointer moved");
                ensure!(<*mut u32>::from(p) == at && <*const u32>::from(p) == at && NonNull::from(p).as_ptr() == at, "pointer moved");
                // SAFETY: Nothing else refers to the cell.
                ensure!(unsafe { *p.as_ref() == was && *p.into_ref() == was }, "wrong value");
            }
            1 => {
                // SAFETY: Made from, and used as, the only reference.
                let mut p = unsafe { Ptr::from_ptr(at) };
                let q = p;
                unsafe { *p.as_mut() = value };
                cells[i] = value.max(unsafe { *q.into_mut() });
                ensure!(cells[i] == value, "write was lost");
            }
            2 => {
                let mut r = OnceRef::from_mut(&mut cells[i]);
                // SAFETY: Made from a mutable reference.
                unsafe { *r.as_mut() = value };
                ensure!(*r == value && *r.as_ref() == value, "write was lost");
                unsafe { *r.into_mut() = value ^ 1 };
                ensure!(cells[i] == value ^ 1, "write was lost");
            }
            3 => {
                let r = OnceRef::from(&cells[i]);
                ensure!(r.as_ptr() == at && r.as_nonnull().as_ptr() == at && *r == was, "pointer moved");
                let v: &u32 = r.into_ref();
                ensure!(std::ptr::eq(v, at), "pointer moved");
            }
            4 => {
                let r: OnceRef<'_, u32> = OnceRef::from(&mut cells[i]);
                let p: *mut u32 = match ctx.draw(4) {
                    0 => r.into(),
                    1 => <*const u32>::from(r).cast_mut(),
                    2 => NonNull::from(r).as_ptr(),
                    _ => r.into_nonnull().as_ptr(),
                };
                ensure!(p == at, "pointer moved");
            }
            5 => {
                let r: Pin<OnceRef<'_, u32>> = Pin::new(&cells[i]).into();
                ensure!(*r == was, "wrong value");
                ensure!(osi::pin::as_ptr(r).cast_const() == at.cast_const(), "pointer moved");
            }
            6 => {
                let r: Pin<OnceRef<'_, u32>> = Pin::new(&mut cells[i]).into();
                // SAFETY: Integers may be moved.
                let p = unsafe { osi::pin::as_inner(&r).as_ptr() };
                ensure!(p == at && *r == was, "pointer moved");
            }
            7 => {
                let p = osi::ptr::nonnull_from_mut(&mut cells[i]).as_ptr();
                let q = osi::ptr::nonnull_from_ref(&cells[i]).as_ptr();
                let r = osi::ptr::nonnull_from_pin_mut(Pin::new(&mut cells[i])).as_ptr();
                let s = osi::ptr::nonnull_from_pin_ref(Pin::new(&cells[i])).as_ptr();
                ensure!([p, q, r, s] == [at; 4], "pointer moved");
            }
            _ => {
                // SAFETY: Made from a mutable reference.
                let r = unsafe { OnceRef::from_ptr(&raw mut cells[i]) };
                let mut t = unsafe { NonNull4::new_unchecked(r.into_nonnull()) };
                t.set_meta(value as usize);
                unsafe { *t.ptr().as_ptr() = value };
                ensure!(cells[i] == value && t.meta() == (value & 3) as usize, "write was lost");
            }
        }
        ctx.state(3, op, 0);
    }
    Ok(())
}

enum Handle {
    Box(Box<Own>),
    Rc(Rc<Own>),
    Arc(Arc<Own>),
    PinBox(Pin<Box<Own>>),
    PinRc(Pin<Rc<Own>>),
    PinArc(Pin<Arc<Own>>),
    Lent(u8, OnceRef<'static, Own>),
    PinLent(u8, Pin<OnceRef<'static, Own>>),
}

impl Handle {
    fn get(&self) -> &Own {
        match self {
            Handle::Box(v) => v,
            Handle::Rc(v) => v,
            Handle::Arc(v) => v,
            Handle::PinBox(v) => v,
            Handle::PinRc(v) => v,
            Handle::PinArc(v) => v,
            Handle::Lent(_, v) => v,
            Handle::PinLent(_, v) => v,
        }
    }
    fn lend(self) -> Self {
        match self {
            Handle::Box(v) => Handle::Lent(0, IntoDeref::into_deref(v)),
            Handle::Rc(v) => Handle::Lent(1, IntoDeref::into_deref(v)),
            Handle::Arc(v) => Handle::Lent(2, IntoDeref::into_deref(v)),
            Handle::PinBox(v) => Handle::PinLent(0, IntoDeref::pin_into_deref(v)),
            Handle::PinRc(v) => Handle::PinLent(1, IntoDeref::pin_into_deref(v)),
            Handle::PinArc(v) => Handle::PinLent(2, IntoDeref::pin_into_deref(v)),
            v => v,
        }
    }
    fn back(self) -> Self {
        // SAFETY: Only ever lent from a handle of the same kind.
        unsafe {
            match self {
                Handle::Lent(0, v) => Handle::Box(FromDeref::from_deref(v)),
                Handle::Lent(1, v) => Handle::Rc(FromDeref::from_deref(v)),
                Handle::Lent(_, v) => Handle::Arc(FromDeref::from_deref(v)),
                Handle::PinLent(0, v) => Handle::PinBox(FromDeref::pin_from_deref(v)),
                Handle::PinLent(1, v) => Handle::PinRc(FromDeref::pin_from_deref(v)),
                Handle::PinLent(_, v) => Handle::PinArc(FromDeref::pin_from_deref(v)),
                v => v,
            }
        }
    }
    fn count(&self) -> Option<usize> {
        match self {
            Handle::Rc(v) => Some(Rc::strong_count(v)),
            Handle::Arc(v) => Some(Arc::strong_count(v)),
            _ => None,
        }
    }
    fn again(&self) -> Option<Self> {
        match self {
            Handle::Rc(v) => Some(Handle::Rc(v.clone())),
            Handle::Arc(v) => Some(Handle::Arc(v.clone())),
            Handle::PinRc(v) => Some(Handle::PinRc(v.clone())),
            Handle::PinArc(v) => Some(Handle::PinArc(v.clone())),
            _ => None,
        }
    }
}

/// Smart pointers turned into plain ones and back.
fn lend(ctx: &Ctx) -> R {
    struct Entry {
        handle: Handle,
        group: usize,
        at: *const Own,
        text: String,
    }
    let mut all: Vec<Entry> = Vec::new();
    let mut groups = 0;
    let mut run = || -> R {
        for _ in 0..ctx.range(2, 50) {
            ctx.tick();
            let op = if all.is_empty() { 0 } else { ctx.draw(7) };
            ctx.ev("lend", op, all.len() as u64);
            match op {
                0 if all.len() < 6 => {
                    let text = word(ctx);
                    let v = Own::new(&text);
                    let handle = match ctx.draw(6) {
                        0 => Handle::Box(Box::new(v)),
                        1 => Handle::Rc(Rc::new(v)),
                        2 => Handle::Arc(Arc::new(v)),
                        3 => Handle::PinBox(Box::pin(v)),
                        4 => Handle::PinRc(Rc::pin(v)),
                        _ => Handle::PinArc(Arc::pin(v)),
                    };
                    groups += 1;
                    let at = &raw const *handle.get();
                    all.push(Entry { handle, group: groups, at, text });
                }
                1 | 2 => {
                    let i = ctx.below(all.len());
                    let mut e = all.swap_remove(i);
                    e.handle = if ctx.chance(1, 2) { e.handle.lend() } else { e.handle.lend().back() };
                    all.push(e);
                }
                3 => {
                    let i = ctx.below(all.len());
                    let mut e = all.swap_remove(i);
                    e.handle = e.handle.back();
                    all.push(e);
                }
                4 if all.len() < 6 => {
                    let e = &all[ctx.below(all.len())];
                    if let Some(handle) = e.handle.again() {
                        let e = Entry { handle, group: e.group, at: e.at, text: e.text.clone() };
                        all.push(e);
                    }
                }
                5 if ctx.fault("handle_dropped", 1, 2) => {
                    let i = ctx.below(all.len());
                    let e = all.swap_remove(i);
                    drop(e.handle.back());
                }
                _ => {
                    let (a, b) = (&all[ctx.below(all.len())], &all[ctx.below(all.len())]);
                    let (x, y) = (Identity(a.handle.get()), Identity(b.handle.get()));
                    let same = a.group == b.group;
                    ensure!((x == y) == same && (x.cmp(&y) == Ordering::Equal) == same, "identity of {} and {} wrong", a.group, b.group);
                    ensure!(x.cmp(&y) == y.cmp(&x).reverse() && x.partial_cmp(&y) == Some(x.cmp(&y)), "order of {} and {} wrong", a.group, b.group);
                    if same {
                        ensure!(hash(&x) == hash(&y), "identical objects hash differently");
                    }
                }
            }
            let mut live: Vec<usize> = all.iter().map(|e| e.group).collect();
            live.sort_unstable();
            live.dedup();
            ensure!(LIVE.get() == live.len() as i64, "{} objects alive instead of {}", LIVE.get(), live.len());
            for e in &all {
                ensure!(std::ptr::eq(e.handle.get(), e.at) && e.handle.get().0 == e.text, "points to something else");
                if let Some(n) = e.handle.count() {
                    let w = all.iter().filter(|o| o.group == e.group).count();
                    ensure!(n == w, "{n} handles instead of {w}");
                }
            }
            ctx.state(4, op, live.len() as u64);
        }
        Ok(())
    };
    run()?;
    for e in all.drain(..) {
        drop(e.handle.back());
    }
    ensure!(LIVE.get() == 0, "{} objects alive at the end", LIVE.get());
    Ok(())
}
