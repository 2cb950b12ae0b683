//! C21: formatting into a byte sink.

use crate::core::{Ctx, R};
use crate::ensure;
use crate::runner::Prop;
use osi::compat::Write;
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

pub const C21: Prop = Prop {
    id: "C21", units: 120_000, sweep: true, run: run_c21,
    real: "osi::compat::Write (fmt::Write over io::Write)",
    stub: "byte sink with short writes, interruptions, refusals and failures; format arguments",
    rule: "one evaluation = up to 8 formatting calls on one sink; distinct = distinct event logs (every write with offered and accepted length)",
    assumptions: &["texts up to 300 bytes, rarely up to 264000; formatted values do not fail by themselves"],
};

#[derive(Default)]
struct State {
    got: Vec<u8>,
    /// Whether the sink failed or refused in this call.
    failed: Option<&'static str>,
    calls: u64,
}

struct Sink<'a> {
    ctx: &'a Ctx,
    st: Rc<RefCell<State>>,
    short: u64,
    intr: u32,
    /// Capacity left, if limited.
    cap: Option<usize>,
}

impl io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.ctx.tick();
        let mut st = self.st.borrow_mut();
        st.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.intr < 6 && self.ctx.fault("interrupted", 1, 16) {
            self.intr += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.intr = 0;
        if self.ctx.fault("sink_fails", 1, 40) {
            st.failed = Some("failed");
            let kind = *self.ctx.pick(&[io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock]);
            return Err(kind.into());
        }
        if self.ctx.fault("sink_refuses", 1, 40) {
            st.failed = Some("refused");
            return Ok(0);
        }
        let mut n = match self.short {
            0 => b.len(),
            1 => 1,
            _ => self.ctx.range(1, b.len()),
        };
        if let Some(c) = &mut self.cap {
            n = n.min(*c);
            *c -= n;
            if n == 0 {
                st.failed = Some("full");
            }
        }
        self.ctx.ev("write", b.len() as u64, n as u64);
        st.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn text(ctx: &Ctx) -> String {
    let n = if ctx.chance(1, 100) { *ctx.pick(&[1000, 2100, 4097, 8200, if ctx.chance(1, 6) { 66_000 } else { 20_000 }]) } else { ctx.size(100) };
    let set = *ctx.pick(&["a", "é", "日本語", "a😀b", "{}", "\0\n", "xyz"]);
    set.chars().cycle().take(n).collect()
}

/// One formatting call; returns what it should produce.
fn call(ctx: &Ctx, w: &mut dyn std::fmt::Write, which: u64) -> (String, std::fmt::Result) {
    let (a, b) = (text(ctx), text(ctx));
    let n = ctx.draw(1 << 20);
    macro_rules! both {
        ($($t:tt)*) => {{
            (format!($($t)*), w.write_fmt(format_args!($($t)*)))
        }};
    }
    match which {
        0 => {
            let r = w.write_str(&a);
            (a, r)
        }
        1 => {
            let c = *ctx.pick(&['a', 'é', '日', '😀', '\0']);
            (c.to_string(), w.write_char(c))
        }
        2 => both!("constant"),
        3 => both!("{a}{b}"),
        4 => both!("<{a:>40}|{b:^30}>"),
        5 => both!("{n} {n:#x} {n:08b}"),
        6 => both!("{a:?} {:?}", Some(&b)),
        7 => both!(""),
        _ => both!("{a}:{n}:{b}:{}", 'é'),
    }
}

fn run_c21(ctx: &Ctx) -> R {
    let st = Rc::new(RefCell::new(State::default()));
    let cap = ctx.chance(1, 6).then(|| if ctx.chance(1, 10) { ctx.size(9000) } else { ctx.size(200) });
    let mut sink = Sink { ctx, st: st.clone(), short: ctx.draw(3), intr: 0, cap };
    ctx.describe(|| format!("short writes {} capacity {:?}", sink.short, cap));
    let by_ref = ctx.chance(1, 2);
    let mut owned;
    let mut refd;
    let w: &mut dyn std::fmt::Write = if by_ref {
        refd = Write(&mut sink);
        &mut refd
    } else {
        owned = Write(sink);
        &mut owned
    };
    let mut want: Vec<u8> = Vec::new();
    for _ in 0..ctx.range(1, 8) {
        ctx.tick();
        let which = ctx.draw(9);
        st.borrow_mut().failed = None;
        let (text, res) = call(ctx, w, which);
        let s = st.borrow();
        ensure!(s.got.starts_with(&want), "earlier output was changed");
        let new = &s.got[want.len()..];
        ctx.ev("formatted", which, new.len() as u64);
        ensure!(text.as_bytes().starts_with(new), "sink got {:?} of {text:?}", new.escape_ascii().to_string());
        let all = new.len() == text.len();
        ensure!(
            res.is_ok() == (s.failed.is_none() && all),
            "{} of {} bytes delivered, sink {:?}, result {res:?}",
            new.len(), text.len(), s.failed
        );
        ensure!(all || s.failed.is_some(), "{} of {} bytes delivered to a working sink", new.len(), text.len());
        ctx.state(which, res.is_ok() as u64, (new.len().min(20)) as u64);
        want = s.got.clone();
    }
    Ok(())
}
