//! Simulated mapped memory: hands out random chunks, over-long pieces, stale
//! content, and interruptions.

use crate::core::Ctx;
use std::cell::{Cell, RefCell};
use std::mem::MaybeUninit as Uninit;
use std::ops::ControlFlow as Flow;
use std::rc::Rc;
use tmp::io::map::{Error, Read, Write};

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub chunk: u64,
    pub over: u64,
    /// Interrupt probability out of 64.
    pub intr: u64,
    /// Reads past the end: refuse whole range or hand out what is there.
    pub partial: bool,
}

impl Profile {
    pub fn draw(ctx: &Ctx) -> Self {
        Self {
            chunk: ctx.draw(4),
            over: *ctx.pick(&[0, 1, 4]),
            intr: *ctx.pick(&[0, 1, 4, 16]),
            partial: ctx.chance(1, 2),
        }
    }
    fn size(&self, ctx: &Ctx, len: usize) -> usize {
        match self.chunk {
            0 => len,
            1 => 1,
            2 => ctx.range(1, len.min(4)),
            _ => ctx.range(1, len),
        }
        .min(len)
    }
}

/// What the environment did since the driver last asked.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cause {
    None,
    Overflow,
    Exceeded,
}

impl Cause {
    pub fn draw(ctx: &Ctx) -> Self {
        *ctx.pick(&[Cause::None, Cause::Overflow, Cause::Exceeded])
    }
    pub fn flow(self) -> Option<Error> {
        match self {
            Cause::None => None,
            Cause::Overflow => Some(Error::Overflow),
            Cause::Exceeded => Some(Error::Exceeded),
        }
    }
}

pub struct WShared {
    pub mem: RefCell<Vec<u8>>,
    pub commits: RefCell<Vec<usize>>,
    /// Interruption not yet seen by the driver.
    pub broke: Cell<Option<Cause>>,
    /// No memory at or beyond this offset.
    pub limit: Cell<Option<usize>>,
    pub quiet: Cell<bool>,
    pub err: RefCell<Option<String>>,
    pub calls: Cell<u64>,
}

pub struct SimWrite<'c> {
    ctx: &'c Ctx,
    prof: Profile,
    pub sh: Rc<WShared>,
    win: Vec<u8>,
    /// Offset, requested length, granted length.
    pend: Option<(usize, usize, usize)>,
}

const CANARY: usize = 8;
const CANARY_BYTE: u8 = 0xc9;

impl<'c> SimWrite<'c> {
    pub fn new(ctx: &'c Ctx, prof: Profile, size: usize) -> Self {
        let stale = ctx.draw(3);
        let mem = match stale {
            0 => vec![0xaa; size],
            1 => vec![0x00; size],
            _ => {
                let mut r = crate::core::Rng::new(ctx.draw(1 << 16));
                (0..size).map(|_| r.next() as u8 | 1).collect()
            }
        };
        Self {
            ctx,
            prof,
            sh: Rc::new(WShared {
                mem: RefCell::new(mem),
                commits: Default::default(),
                broke: Cell::new(None),
                limit: Cell::new(None),
                quiet: Cell::new(false),
                err: Default::default(),
                calls: Cell::new(0),
            }),
            win: Vec::new(),
            pend: None,
        }
    }

    fn error(&self, s: String) {
        self.sh.err.borrow_mut().get_or_insert(s);
    }

    /// Take back what was handed out last.
    pub fn sync(&mut self) {
        let Some((idx, len, n)) = self.pend.take() else { return };
        let c = CANARY;
        if self.win[..c].iter().chain(&self.win[c + n..]).any(|b| *b != CANARY_BYTE) {
            self.error(format!("write outside of the piece at {idx}+{n}"));
        }
        let mut mem = self.sh.mem.borrow_mut();
        let used = len.min(n);
        if mem[idx + used..idx + n] != self.win[c + used..c + n] {
            drop(mem);
            self.error(format!("write beyond the request at {idx}+{len} in a piece of {n}"));
            return;
        }
        mem[idx..idx + used].copy_from_slice(&self.win[c..c + used]);
    }
}

impl Write for SimWrite<'_> {
    unsafe fn commit(&mut self, len: usize) {
        self.sync();
        self.ctx.tick();
        self.ctx.ev("commit", len as u64, 0);
        self.sh.commits.borrow_mut().push(len);
    }

    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<Error>, &mut [Uninit<u8>]> {
        self.sync();
        let ctx = self.ctx;
        ctx.tick();
        self.sh.calls.set(self.sh.calls.get() + 1);
        let brk = |c: Cause| {
            self.sh.broke.set(Some(c));
            ctx.ev("wbreak", idx as u64, c as u64);
            Flow::Break(c.flow())
        };
        if self.sh.limit.get().is_some_and(|l| idx >= l) {
            return brk(Cause::Exceeded);
        }
        if !self.sh.quiet.get() && ctx.fault("interrupt_write", self.prof.intr, 64) {
            return brk(Cause::draw(ctx));
        }
        let Some(end) = idx.checked_add(len) else {
            return brk(Cause::Overflow);
        };
        let mut n = if len == 0 { 0 } else { self.prof.size(ctx, len) };
        if self.prof.over > 0 && ctx.chance(self.prof.over, 8) {
            n = len + ctx.range(1, 20);
        }
        if let Some(l) = self.sh.limit.get() {
            n = n.min(l - idx);
        }
        if idx + n.max(1) > (1 << 26) || end > (1 << 26) {
            self.error(format!("absurd request {idx}+{len}"));
            return brk(Cause::Exceeded);
        }
        ctx.ev("wmap", (idx as u64) << 24 | len as u64, n as u64);
        let mut mem = self.sh.mem.borrow_mut();
        if mem.len() < idx + n {
            let old = mem.len();
            mem.resize(idx + n, 0);
            for (i, b) in mem[old..].iter_mut().enumerate() {
                *b = 0x55 ^ (i as u8);
            }
        }
        self.win.clear();
        self.win.resize(CANARY * 2 + n, CANARY_BYTE);
        self.win[CANARY..CANARY + n].copy_from_slice(&mem[idx..idx + n]);
        self.pend = Some((idx, len, n));
        drop(mem);
        let w = &mut self.win[CANARY..CANARY + n];
        // SAFETY: `MaybeUninit<u8>` has the layout of `u8`; the code under test
        // is trusted not to de-initialize.
        Flow::Continue(unsafe { &mut *(w as *mut [u8] as *mut [Uninit<u8>]) })
    }
}

pub struct RShared {
    pub broke: Cell<Option<Cause>>,
    pub quiet: Cell<bool>,
    pub calls: Cell<u64>,
    /// Whether the last refusal was genuine (beyond the data).
    pub past: Cell<bool>,
}

pub struct SimRead<'c> {
    ctx: &'c Ctx,
    prof: Profile,
    data: Vec<u8>,
    pub sh: Rc<RShared>,
}

impl<'c> SimRead<'c> {
    pub fn new(ctx: &'c Ctx, prof: Profile, data: Vec<u8>) -> Self {
        Self {
            ctx,
            prof,
            data,
            sh: Rc::new(RShared {
                broke: Cell::new(None),
                quiet: Cell::new(false),
                calls: Cell::new(0),
                past: Cell::new(false),
            }),
        }
    }
}

impl Read for SimRead<'_> {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<Error>, &[u8]> {
        let ctx = self.ctx;
        ctx.tick();
        self.sh.calls.set(self.sh.calls.get() + 1);
        let brk = |c: Cause| {
            self.sh.broke.set(Some(c));
            ctx.ev("rbreak", idx as u64, c as u64);
            Flow::Break(c.flow())
        };
        self.sh.past.set(false);
        if !self.sh.quiet.get() && ctx.fault("interrupt_read", self.prof.intr, 64) {
            return brk(Cause::draw(ctx));
        }
        let Some(end) = idx.checked_add(len) else {
            self.sh.past.set(true);
            return brk(Cause::Overflow);
        };
        let have = self.data.len();
        if idx >= have && len > 0 || end > have && !self.prof.partial {
            self.sh.past.set(true);
            return brk(Cause::Exceeded);
        }
        let mut n = if len == 0 { 0 } else { self.prof.size(ctx, len) };
        if self.prof.over > 0 && ctx.chance(self.prof.over, 8) {
            n = len.saturating_add(ctx.range(1, 20));
        }
        n = n.min(have.saturating_sub(idx));
        ctx.ev("rmap", (idx as u64) << 24 | len as u64, n as u64);
        let idx = idx.min(have);
        Flow::Continue(&self.data[idx..idx + n])
    }
}
