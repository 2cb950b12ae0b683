//! Generator of JSON-like byte strings.

use crate::core::Ctx;

const PIECES: &[&str] = &[
    " ", "1", ",", "null", "\"a\"", "[", "]", "{", "}", ":", "true", "false", "\n", "\t", "\r", "-1", "0", "12.5",
    "1e5", "1E-2", "-0.0e+0", "+7", "--3", "-", "1.", ".5", "1e", "1e++2", "1.2.3", "1-2", "nul", "nulll", "tru.e",
    "x", "\"\"", "\"", "\"\\n\"", "\"\\", "\"\\u00e9\"", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "\"\\udc00\"", "é", "#",
    "//", "=", "\u{2028}", "00", "01", "-01", "+", "/", "\"é\"", "\u{1}", "\\", "\"\u{7f}\"",
];

const STR_PIECES: &[&str] = &[
    "a", "b0", "\\n", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\t", "é", "😀", "\\u0041", "\\u00e9", "\\uFFFF",
    "\\ud83d", "\\ude00", "\\uD83D\\uDE00", "\\udbff\\udfff", "\\ud800\\udc00", "\\ud8", "\\u", "\\u1", "\\u12g", "\\x",
    "\\", "\u{1}", "\u{1f}", "\n", "\\ud83d\\n", "\\ud83d\\x", "\\ud83d\\u", "\\ud83d\\u00", "\\ud83d\\u0041", "\\u0000",
    "\\é", "u", "d83d", "\u{7f}", "\\U0041", "\\u00E9", "\\udfff",
];

const NUM_PIECES: &[&str] = &[
    "1", "0", "9", ".", "e", "-", "+", "E", "007", "1234567890", "e-", "e+", ".5", "1.5e3",
];

/// Every character Unicode regards as whitespace.
const SPACES: &[char] = &[
    ' ', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}',
    '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}',
    '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];

/// Any character, mostly at the edges of ranges.
fn any_char(ctx: &Ctx) -> char {
    match ctx.draw(5) {
        0 => ctx.range(0x20, 0x7e) as u8 as char,
        1 => *ctx.pick(SPACES),
        2 => ctx.range(0, 0xff) as u8 as char,
        3 => *ctx.pick(&[
            '\u{7f}', '\u{80}', '\u{9f}', '\u{7ff}', '\u{800}', '\u{180e}', '\u{200b}', '\u{2060}', '\u{d7ff}',
            '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{ff11}', '\u{0661}',
        ]),
        _ => char::from_u32(ctx.draw(0x110000) as u32).unwrap_or('\u{fffd}'),
    }
}

/// Escape sequence by code, mostly at the edges of ranges.
fn escape(ctx: &Ctx, out: &mut String, valid: bool) {
    let mut code = match ctx.draw(4) {
        0 => ctx.range(0x20, 0x7e),
        1 => *ctx.pick(&[
            0, 0x1f, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff,
        ]),
        2 => ctx.range(0xd800, 0xdfff),
        _ => ctx.range(0, 0xffff),
    };
    if valid && (0xd800..0xe000).contains(&code) {
        code -= 0x1000;
    }
    let hex = format!("{code:04x}");
    let case = ctx.draw(16);
    out.push_str("\\u");
    for (i, c) in hex.chars().enumerate() {
        out.push(if case >> i & 1 == 1 { c.to_ascii_uppercase() } else { c });
    }
}

fn string(ctx: &Ctx, out: &mut String, valid: bool) {
    out.push('"');
    let n = if ctx.chance(1, 300) { *ctx.pick(&[3000, 1400, 4100, 30, 90, 350, 1400, if ctx.chance(1, 6) { 25000 } else { 90 }]) } else { ctx.size(8) };
    let valid_n = 14;
    let one = n > 100;
    let fixed = *ctx.pick(STR_PIECES);
    for i in 0..n {
        if !one && ctx.chance(1, 6) {
            match (valid, ctx.draw(2)) {
                (false, 0) => out.push(any_char(ctx)),
                (true, 0) => out.push(*ctx.pick(SPACES[6..].as_ref())),
                _ => escape(ctx, out, valid),
            }
            continue;
        }
        let p = if one && i > 4 { if valid || n > 20000 && fixed.len() < 3 { "abc" } else { fixed } } else if valid { STR_PIECES[ctx.below(valid_n)] } else { *ctx.pick(STR_PIECES) };
        out.push_str(p);
    }
    if valid || !ctx.chance(1, 10) {
        out.push('"');
    }
}

fn number(ctx: &Ctx, out: &mut String) {
    if ctx.chance(1, 3) {
        out.push('-');
    }
    if ctx.chance(1, 60) {
        // Many digits.
        let n = *ctx.pick(&[20, 39, 70, 300, 1100, 4096, 4200]);
        let d = *ctx.pick(&["1", "9", "10", "0"]);
        out.push('1');
        out.push_str(&d.repeat(n));
    }
    out.push_str(&ctx.draw(200).to_string());
    if ctx.chance(1, 3) {
        out.push('.');
        out.push_str(&ctx.draw(1000).to_string());
    }
    if ctx.chance(1, 3) {
        out.push(*ctx.pick(&['e', 'E']));
        out.push_str(*ctx.pick(&["", "+", "-"]));
        out.push_str(&ctx.draw(50).to_string());
    }
}

fn ws(ctx: &Ctx, out: &mut String) {
    if ctx.chance(1, 500) {
        let n = *ctx.pick(&[70, 300, 1030, 4100, 9000]);
        out.push_str(&ctx.pick(&[" ", "\n", "\t"]).repeat(n));
    }
    if ctx.chance(1, 4) {
        for _ in 0..ctx.range(1, 3) {
            out.push_str(*ctx.pick(&[" ", "\n", "\t", "\r"]));
        }
    }
}

/// A valid value.
fn value(ctx: &Ctx, out: &mut String, depth: usize, left: &mut usize) {
    ws(ctx, out);
    *left = left.saturating_sub(1);
    let k = if depth == 0 || *left == 0 { 4 } else { 6 };
    match ctx.draw(k) {
        0 => number(ctx, out),
        1 => out.push_str(*ctx.pick(&["null", "true", "false"])),
        2 | 3 => string(ctx, out, true),
        4 => {
            out.push('[');
            for i in 0..ctx.range(0, 4) {
                if i > 0 {
                    out.push(',');
                }
                value(ctx, out, depth - 1, left);
            }
            ws(ctx, out);
            out.push(']');
        }
        _ => {
            out.push('{');
            for i in 0..ctx.range(0, 3) {
                if i > 0 {
                    out.push(',');
                }
                ws(ctx, out);
                string(ctx, out, true);
                ws(ctx, out);
                out.push(':');
                value(ctx, out, depth - 1, left);
            }
            ws(ctx, out);
            out.push('}');
        }
    }
    ws(ctx, out);
}

pub fn document(ctx: &Ctx) -> String {
    let mut s = String::new();
    if ctx.chance(1, 30) {
        // Deep nesting, both kinds mixed.
        let n = if ctx.chance(1, 40) { ctx.range(400, 2100) } else { ctx.range(10, 400) };
        let seed = ctx.draw(1 << 32);
        let mut r = crate::core::Rng::new(seed);
        let kinds: Vec<bool> = (0..n).map(|_| r.next() & 1 == 1).collect();
        for k in &kinds {
            s.push_str(if *k { "{\"k\":" } else { "[" });
        }
        value(ctx, &mut s, 1, &mut 4);
        for i in (0..n).rev() {
            s.push(if kinds[i] { '}' } else { ']' });
            if i > 0 && r.next() & 1 == 1 {
                // A sibling on the way back.
                s.push_str(if kinds[i - 1] { ",\"s\":1" } else { ",2" });
            }
        }
    } else {
        let mut left = 30;
        value(ctx, &mut s, ctx.range(1, 5), &mut left);
    }
    s
}

/// Text of any validity.
pub fn text(ctx: &Ctx) -> String {
    let mut s = String::new();
    match ctx.draw(9) {
        0 => {
            for _ in 0..ctx.size(12) {
                s.push_str(*ctx.pick(PIECES));
            }
        }
        1 => s = document(ctx),
        2 => {
            for _ in 0..ctx.range(1, 3) {
                string(ctx, &mut s, false);
                s.push_str(*ctx.pick(&["", ",", " "]));
            }
        }
        3 => {
            for _ in 0..ctx.range(1, 10) {
                s.push_str(*ctx.pick(NUM_PIECES));
            }
            s.push_str(*ctx.pick(&[",", "", " ", "a", "\""]));
        }
        4 => {
            // Characters of a small alphabet.
            let all: Vec<char> = "\"\\u0d8cDe+-.E1 ,:[]{}ntfx\u{1}é/#=\n😀\u{a0}\u{3000}\u{feff}'_b".chars().collect();
            let k = ctx.range(2, 8);
            let alpha: Vec<char> = (0..k).map(|_| if ctx.chance(1, 10) { any_char(ctx) } else { *ctx.pick(&all) }).collect();
            for _ in 0..ctx.size(40) {
                s.push(*ctx.pick(&alpha));
            }
        }
        5 => {
            // A document with pieces put in, taken out or repeated.
            s = document(ctx);
            for _ in 0..ctx.range(1, 3) {
                let cs: Vec<char> = s.chars().collect();
                let at = ctx.range(0, cs.len());
                let end = (at + ctx.size(4)).min(cs.len());
                let ins = if ctx.chance(1, 2) { *ctx.pick(PIECES) } else { "" };
                s = cs[..at].iter().collect::<String>() + ins + &cs[end..].iter().collect::<String>();
            }
        }
        7 => {
            // Any character after anything that starts or ends something.
            for _ in 0..ctx.range(1, 6) {
                s.push_str(*ctx.pick(&[
                    "", "#", "//", "/", "x", "-", "1", "1.", "1e", "0", "\"", "\"\\", "\"\\u00", "\"\\ud83d", "\"\\ud83d\\", " ", "null",
                ]));
                for _ in 0..ctx.range(1, 3) {
                    s.push(if ctx.chance(1, 2) { ctx.draw(0x80) as u8 as char } else { any_char(ctx) });
                }
                s.push_str(*ctx.pick(&["", "", "\n", "\"", ","]));
            }
        }
        6 => {
            // Whitespace of all kinds, and what may be mistaken for it.
            for _ in 0..ctx.range(1, 6) {
                match ctx.draw(4) {
                    0 => s.push_str(*ctx.pick(PIECES)),
                    1 => s.push(any_char(ctx)),
                    _ => {
                        let n = if ctx.chance(1, 60) { 5000 } else { ctx.range(1, 5) };
                        for _ in 0..n {
                            s.push(*ctx.pick(SPACES));
                        }
                    }
                }
            }
        }
        _ => {
            for _ in 0..ctx.range(1, 3) {
                match ctx.draw(4) {
                    0 => string(ctx, &mut s, false),
                    1 => number(ctx, &mut s),
                    2 => s.push_str(*ctx.pick(PIECES)),
                    _ => s.push_str(&document(ctx)),
                }
            }
        }
    }
    s
}

/// Bytes of any validity; corruption is an injected fault.
pub fn bytes(ctx: &Ctx) -> Vec<u8> {
    let mut d = text(ctx).into_bytes();
    if ctx.fault("bytes_corrupted", 1, 4) {
        for _ in 0..ctx.range(1, 3) {
            if d.is_empty() {
                break;
            }
            let i = ctx.below(d.len());
            d[i] = match ctx.draw(3) {
                0 => d[i] ^ (1 << ctx.draw(8)),
                1 => ctx.draw(256) as u8,
                _ => *ctx.pick(&[0x80, 0xff, 0xc3, b'"', b'\\', 0]),
            };
        }
    }
    d
}

/// A token sequence close to a valid document.
pub fn structured(ctx: &Ctx) -> Vec<u8> {
    if ctx.chance(1, 6) {
        return bytes(ctx);
    }
    let mut d = document(ctx).into_bytes();
    if ctx.fault("token_damage", 1, 2) {
        let toks = super::jtok::lex(&d);
        let mut cuts: Vec<usize> = toks.evs.iter().filter_map(|e| e.end).collect();
        cuts.insert(0, 0);
        cuts.push(d.len());
        for _ in 0..ctx.range(1, 2) {
            let i = ctx.below(cuts.len() - 1);
            let (a, b) = (cuts[i].min(d.len()), cuts[i + 1].min(d.len()));
            let piece = d[a..b].to_vec();
            let new: Vec<u8> = match ctx.draw(4) {
                0 => Vec::new(),
                1 => [piece.clone(), b" ".to_vec(), piece.clone()].concat(),
                2 => ctx.pick(PIECES[..14].as_ref()).as_bytes().to_vec(),
                _ => [piece.clone(), ctx.pick(PIECES[..14].as_ref()).as_bytes().to_vec()].concat(),
            };
            d.splice(a..b, new);
            cuts = vec![0, d.len()];
            let l = super::jtok::lex(&d);
            cuts.splice(1..1, l.evs.iter().filter_map(|e| e.end));
        }
    }
    d
}
