//! Simulated buffered stream: bytes arrive in pieces, the mapped extent
//! varies, the buffer moves, discarded bytes are poisoned.

use crate::core::Ctx;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::ops::ControlFlow as Flow;
use std::rc::Rc;
use tmp::io::stream::{More, Read};

pub struct Shared {
    data: Vec<u8>,
    /// Consumed and delivered bytes, absolute.
    pub pos: Cell<usize>,
    pub avail: Cell<usize>,
    /// Buffered bytes `pos..avail`, followed by poison. Only replaced while
    /// nothing is borrowed from it.
    buf: UnsafeCell<Vec<u8>>,
    old: RefCell<Vec<Vec<u8>>>,
    pub maps: Cell<u64>,
    /// Arguments of mappings since the driver last looked.
    pub mins: RefCell<Vec<usize>>,
    pub err: RefCell<Option<String>>,
    exact: bool,
}

const POISON: u8 = 0xdd;

impl Shared {
    pub fn buffered(&self) -> usize {
        self.avail.get() - self.pos.get()
    }
    pub fn rest(&self) -> usize {
        self.data.len() - self.avail.get()
    }
    fn rebuild(&self) {
        let mut v = self.data[self.pos.get()..self.avail.get()].to_vec();
        v.extend_from_slice(&[POISON; 4]);
        // SAFETY: called with no borrow of the buffer alive: either from
        // `advance(&mut self)` or by the driver between calls.
        let mut old = std::mem::replace(unsafe { &mut *self.buf.get() }, v);
        old.fill(POISON);
        // Keep the memory around, so stale references see poison.
        let mut o = self.old.borrow_mut();
        o.push(old);
        if o.len() > 4 {
            o.remove(0);
        }
    }
    /// Deliver `n` more bytes. Nothing may be borrowed from the stream.
    pub fn deliver(&self, n: usize) {
        let n = n.min(self.rest());
        self.avail.set(self.avail.get() + n);
        self.rebuild();
    }
}

pub struct SimStream<'c> {
    ctx: &'c Ctx,
    pub sh: Rc<Shared>,
}

impl<'c> SimStream<'c> {
    pub fn new(ctx: &'c Ctx, data: Vec<u8>) -> Self {
        let exact = ctx.chance(1, 3);
        Self {
            ctx,
            sh: Rc::new(Shared {
                data,
                pos: Cell::new(0),
                avail: Cell::new(0),
                buf: UnsafeCell::new(vec![POISON; 4]),
                old: Default::default(),
                maps: Cell::new(0),
                mins: Default::default(),
                err: Default::default(),
                exact,
            }),
        }
    }
}

impl Read for SimStream<'_> {
    fn advance(&mut self, len: usize) {
        self.ctx.tick();
        self.ctx.ev("advance", len as u64, self.sh.pos.get() as u64);
        if len > self.sh.buffered() {
            let m = format!("advance({len}) with only {} bytes buffered", self.sh.buffered());
            self.sh.err.borrow_mut().get_or_insert(m);
        }
        let len = len.min(self.sh.buffered());
        self.sh.pos.set(self.sh.pos.get() + len);
        self.sh.rebuild();
    }

    fn map(&self, min: usize, max: Option<usize>) -> Flow<More, &[u8]> {
        self.ctx.tick();
        self.sh.maps.set(self.sh.maps.get() + 1);
        self.sh.mins.borrow_mut().push(min);
        let have = self.sh.buffered();
        if min > have {
            self.ctx.ev("smap_short", min as u64, have as u64);
            return Flow::Break(More { min, max });
        }
        let n = if self.sh.exact {
            min
        } else {
            match self.ctx.draw(3) {
                0 => have,
                1 => self.ctx.range(min, have),
                _ => self.ctx.range(min, have.min(min + 3)),
            }
        };
        self.ctx.ev("smap", min as u64, n as u64);
        // SAFETY: the buffer is not replaced while `self` is borrowed.
        let b = unsafe { &*self.sh.buf.get() };
        Flow::Continue(&b[..n])
    }
}

/// How a driver feeds a starved stream.
pub struct Feed {
    mode: u64,
}

impl Feed {
    pub fn draw(ctx: &Ctx) -> Self {
        Self { mode: ctx.draw(5) }
    }
    /// Deliver after a request for at least `min` buffered bytes. Returns
    /// whether anything was delivered.
    pub fn feed(&self, ctx: &Ctx, sh: &Shared, min: usize) -> bool {
        if ctx.fault("starved_retry", 1, 16) {
            // Called again although nothing has arrived.
            sh.deliver(0);
            return true;
        }
        let rest = sh.rest();
        if rest == 0 {
            return false;
        }
        if rest > 20_000 {
            // Not byte by byte all the way.
            sh.deliver(rest / 40);
        }
        let need = min.saturating_sub(sh.buffered()).clamp(1, rest);
        let n = match self.mode {
            0 => rest,
            1 => 1,
            2 => need,
            3 => ctx.range(1, rest.min(4)),
            _ => ctx.range(1, rest),
        };
        ctx.ev("deliver", n as u64, 0);
        sh.deliver(n);
        true
    }
}
