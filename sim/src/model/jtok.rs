//! Reference for the pull-style JSON tokenizer: looks at a whole byte string
//! at once and tells each token, and how many bytes decide it.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    BufferRemaining,
    BufferChanged,
    ItemNonUtf8(Vec<u8>, core::str::Utf8Error),
    ItemUnknown(Vec<u8>),
    NumberIncomplete,
    LeadingPlus,
    MultipleSigns,
    RangeEmpty,
    StringIncomplete,
    StringNonUtf8(Vec<u8>, Vec<u8>, core::str::Utf8Error),
    Unescaped(u8),
    EscapeUnknown(u8),
    EscapeInvalid,
    Lead(u32),
    Trail(u32),
    Whitespace(Vec<u8>),
    Colon,
    Comma,
    ArrayOpen,
    ArrayClose,
    ObjectOpen,
    ObjectClose,
    Null,
    False,
    True,
    Number { raw: Vec<u8>, minus: bool, int: String, frac: Option<String>, exp: Option<(bool, String)> },
    Str(Vec<u8>, String),
}

impl Tok {
    pub fn is_error(&self) -> bool {
        use Tok::*;
        matches!(
            self,
            BufferRemaining | BufferChanged | ItemNonUtf8(..) | ItemUnknown(_) | NumberIncomplete
                | LeadingPlus | MultipleSigns | RangeEmpty | StringIncomplete | StringNonUtf8(..)
                | Unescaped(_) | EscapeUnknown(_) | EscapeInvalid | Lead(_) | Trail(_)
        )
    }
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub tok: Tok,
    /// Bytes that must have arrived, counted from the start of the data.
    pub need: usize,
    /// Start of the token this belongs to.
    pub start: usize,
    /// End of the token if this completes it.
    pub end: Option<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Lex {
    pub evs: Vec<Ev>,
    /// What finalization yields for the unfinished token at the end, if any.
    pub tail: Vec<Tok>,
    pub tail_start: Option<usize>,
}

fn item(raw: &[u8]) -> Tok {
    match raw {
        b"null" => Tok::Null,
        b"true" => Tok::True,
        b"false" => Tok::False,
        _ => match core::str::from_utf8(raw) {
            Ok(_) => Tok::ItemUnknown(raw.to_vec()),
            Err(e) => Tok::ItemNonUtf8(raw.to_vec(), e),
        },
    }
}

fn run(d: &[u8], from: usize, f: impl Fn(u8) -> bool) -> usize {
    d[from..].iter().position(|b| !f(*b)).map_or(d.len(), |n| from + n)
}

fn text(d: &[u8]) -> String {
    String::from_utf8(d.to_vec()).unwrap()
}

/// Tokens of a whole byte string.
pub fn lex(d: &[u8]) -> Lex {
    let mut out = Lex::default();
    let mut at = 0;
    while at < d.len() {
        let single = match d[at] {
            b':' => Some(Tok::Colon),
            b',' => Some(Tok::Comma),
            b'[' => Some(Tok::ArrayOpen),
            b']' => Some(Tok::ArrayClose),
            b'{' => Some(Tok::ObjectOpen),
            b'}' => Some(Tok::ObjectClose),
            _ => None,
        };
        if let Some(tok) = single {
            out.evs.push(Ev { tok, need: at + 1, start: at, end: Some(at + 1) });
            at += 1;
            continue;
        }
        let end = match d[at] {
            b' ' | b'\t' | b'\r' | b'\n' => {
                let e = run(d, at + 1, |b| b" \t\r\n".contains(&b));
                out.delimited(d, at, e, vec![Tok::Whitespace(d[at..e].to_vec())])
            }
            b'"' => out.string(d, at),
            b'+' | b'-' | b'0'..=b'9' => out.number(d, at),
            _ => {
                let e = run(d, at + 1, |b| b.is_ascii_alphanumeric() || b"+-.".contains(&b));
                out.delimited(d, at, e, vec![item(&d[at..e])])
            }
        };
        match end {
            Some(e) => at = e,
            None => {
                out.tail_start = Some(at);
                break;
            }
        }
    }
    out
}

impl Lex {
    /// A token that ends where the next begins: decided by one byte more.
    fn delimited(&mut self, d: &[u8], start: usize, end: usize, toks: Vec<Tok>) -> Option<usize> {
        if end == d.len() {
            self.tail = toks;
            return None;
        }
        let n = toks.len();
        for (i, tok) in toks.into_iter().enumerate() {
            self.evs.push(Ev { tok, need: end + 1, start, end: (i + 1 == n).then_some(end) });
        }
        Some(end)
    }

    fn inline(&mut self, tok: Tok, need: usize, start: usize) {
        self.evs.push(Ev { tok, need, start, end: None });
    }

    fn number(&mut self, d: &[u8], start: usize) -> Option<usize> {
        let sign = |b: u8| b == b'+' || b == b'-';
        let digit = |b: u8| b.is_ascii_digit();
        if d[start] == b'+' {
            self.inline(Tok::LeadingPlus, start + 1, start);
        }
        let int = run(d, start, sign);
        if int - start >= 2 {
            self.inline(Tok::MultipleSigns, start + 2, start);
        }
        let minus = int > start && d[int - 1] == b'-';
        let mut at = run(d, int, digit);
        let int = text(&d[int..at]);
        let mut frac = None;
        if d.get(at) == Some(&b'.') {
            let e = run(d, at + 1, digit);
            frac = Some(text(&d[at + 1..e]));
            at = e;
        }
        let mut exp = None;
        if matches!(d.get(at), Some(b'e' | b'E')) {
            let s = run(d, at + 1, sign);
            for k in at + 2..s {
                self.inline(Tok::MultipleSigns, k + 1, start);
            }
            let neg = s > at + 1 && d[s - 1] == b'-';
            let e = run(d, s, digit);
            exp = Some((neg, text(&d[s..e])));
            at = e;
        }
        let empty = int.is_empty()
            || frac.as_ref().is_some_and(|v| v.is_empty())
            || exp.as_ref().is_some_and(|v| v.1.is_empty());
        let num = Tok::Number { raw: d[start..at].to_vec(), minus, int, frac, exp };
        let toks = if empty { vec![Tok::RangeEmpty, num] } else { vec![num] };
        self.delimited(d, start, at, toks)
    }

    fn string(&mut self, d: &[u8], start: usize) -> Option<usize> {
        let hex = |at: usize| {
            let n = (0..4).take_while(|i| d.get(at + i).is_some_and(|b| b.is_ascii_hexdigit())).count();
            let v = d.get(at..at + n).map_or(0, |s| s.iter().fold(0u32, |a, b| a * 16 + (*b as char).to_digit(16).unwrap()));
            (n, v)
        };
        let mut s: Vec<u8> = Vec::new();
        fn put(s: &mut Vec<u8>, v: u32) {
            let c = char::from_u32(v).unwrap_or('\u{fffd}');
            s.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        }
        const BAD: u32 = 0xfffd;
        self.tail = vec![Tok::StringIncomplete];
        let mut at = start + 1;
        loop {
            match *d.get(at)? {
                b'"' => {
                    at += 1;
                    let raw = d[start..at].to_vec();
                    let tok = match String::from_utf8(s.clone()) {
                        Ok(v) => Tok::Str(raw, v),
                        Err(e) => Tok::StringNonUtf8(raw, s, e.utf8_error()),
                    };
                    self.evs.push(Ev { tok, need: at, start, end: Some(at) });
                    self.tail.clear();
                    return Some(at);
                }
                b'\\' => {
                    let e = *d.get(at + 1)?;
                    if e != b'u' {
                        let v = match e {
                            b'b' => 8,
                            b'f' => 12,
                            b'n' => 10,
                            b'r' => 13,
                            b't' => 9,
                            v => v,
                        };
                        s.push(v);
                        at += 2;
                        if !b"bfnrt\"\\/".contains(&e) {
                            self.inline(Tok::EscapeUnknown(e), at, start);
                        }
                        continue;
                    }
                    let (n, mut code) = hex(at + 2);
                    at += 2 + n;
                    if n < 4 {
                        d.get(at)?;
                        put(&mut s, BAD);
                        self.inline(Tok::EscapeInvalid, at + 1, start);
                        continue;
                    }
                    // `at` is behind a complete escape of `code`.
                    loop {
                        match code {
                            0xdc00..=0xdfff => {
                                put(&mut s, BAD);
                                self.inline(Tok::Trail(code), at, start);
                                break;
                            }
                            0xd800..=0xdbff => {}
                            _ => {
                                put(&mut s, code);
                                break;
                            }
                        }
                        // A lead surrogate: does an escape follow?
                        let k = if d.get(at) != Some(&b'\\') {
                            0
                        } else if d.get(at + 1) != Some(&b'u') {
                            1
                        } else {
                            2 + hex(at + 2).0
                        };
                        if k < 6 {
                            d.get(at + k)?;
                            put(&mut s, BAD);
                            self.inline(Tok::Lead(code), at + k + 1, start);
                            break;
                        }
                        let next = hex(at + 2).1;
                        at += 6;
                        if (0xdc00..=0xdfff).contains(&next) {
                            put(&mut s, 0x10000 + (code - 0xd800) * 0x400 + (next - 0xdc00));
                            break;
                        }
                        put(&mut s, BAD);
                        self.inline(Tok::Lead(code), at, start);
                        code = next;
                    }
                }
                v => {
                    s.push(v);
                    at += 1;
                    if v < 0x20 {
                        self.inline(Tok::Unescaped(v), at, start);
                    }
                }
            }
        }
    }
}

/// Structural events.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Item {
    Error,
    Prim,
    Key,
    ArrayOpen,
    ArrayClose,
    ObjectOpen,
    ObjectClose,
}

/// Structural events up to and including the first error.
pub fn structure(evs: &[Ev]) -> Vec<(Item, usize)> {
    #[derive(PartialEq, Clone, Copy)]
    enum At {
        Value,
        ValueOrEnd,
        AfterValue,
        Key,
        KeyOrEnd,
        Colon,
    }
    let mut stack: Vec<bool> = Vec::new();
    let mut at = At::Value;
    let mut out = Vec::new();
    for e in evs {
        let value_ok = at == At::Value || at == At::ValueOrEnd;
        let top = stack.last().copied();
        let item = match &e.tok {
            Tok::Whitespace(_) => continue,
            t if t.is_error() => Item::Error,
            Tok::Str(..) if at == At::Key || at == At::KeyOrEnd => {
                at = At::Colon;
                Item::Key
            }
            Tok::Null | Tok::True | Tok::False | Tok::Number { .. } | Tok::Str(..) if value_ok => {
                at = At::AfterValue;
                Item::Prim
            }
            Tok::ArrayOpen if value_ok => {
                stack.push(false);
                at = At::ValueOrEnd;
                Item::ArrayOpen
            }
            Tok::ObjectOpen if value_ok => {
                stack.push(true);
                at = At::KeyOrEnd;
                Item::ObjectOpen
            }
            Tok::ArrayClose if top == Some(false) && (at == At::ValueOrEnd || at == At::AfterValue) => {
                stack.pop();
                at = At::AfterValue;
                Item::ArrayClose
            }
            Tok::ObjectClose if top == Some(true) && (at == At::KeyOrEnd || at == At::AfterValue) => {
                stack.pop();
                at = At::AfterValue;
                Item::ObjectClose
            }
            Tok::Comma if at == At::AfterValue && top.is_some() => {
                at = if top == Some(true) { At::Key } else { At::Value };
                continue;
            }
            Tok::Colon if at == At::Colon => {
                at = At::Value;
                continue;
            }
            _ => Item::Error,
        };
        out.push((item, e.need));
        if item == Item::Error {
            break;
        }
    }
    out
}
