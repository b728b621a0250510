//! A recursive descent YAML parser emitting yaml-rust style events.
use crate::scanner::{Marker, ScanError, TScalarStyle, TokenType};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Nothing,
    StreamStart,
    StreamEnd,
    DocumentStart,
    DocumentEnd,
    Alias(usize),
    Scalar(String, TScalarStyle, usize, Option<TokenType>),
    SequenceStart(usize),
    SequenceEnd,
    MappingStart(usize),
    MappingEnd,
}

pub trait MarkedEventReceiver {
    fn on_event(&mut self, ev: Event, mark: Marker);
}

pub struct Parser<T> {
    chars: Option<T>,
}

type R<T> = Result<T, ScanError>;

impl<T: Iterator<Item = char>> Parser<T> {
    pub fn new(src: T) -> Parser<T> {
        Parser { chars: Some(src) }
    }

    pub fn load<V: MarkedEventReceiver>(&mut self, recv: &mut V, multi: bool) -> R<()> {
        let text: Vec<char> = self.chars.take().map(|c| c.collect()).unwrap_or_default();
        let mut p = P { s: text, i: 0, line: 1, col: 0, anchors: HashMap::new(), next_anchor: 1, depth: 0, recv };
        p.stream(multi)
    }
}

struct P<'a, V: MarkedEventReceiver> {
    s: Vec<char>,
    i: usize,
    line: usize,
    col: usize,
    anchors: HashMap<String, usize>,
    next_anchor: usize,
    depth: usize,
    recv: &'a mut V,
}

#[derive(Default, Clone)]
struct Props {
    anchor: usize,
    tag: Option<TokenType>,
    any: bool,
}

fn is_break(c: char) -> bool {
    c == '\n' || c == '\r'
}
fn is_blank(c: char) -> bool {
    c == ' ' || c == '\t'
}
fn is_flow_ind(c: char) -> bool {
    matches!(c, ',' | '[' | ']' | '{' | '}')
}

const MAX_DEPTH: usize = 2000;

impl<V: MarkedEventReceiver> P<'_, V> {
    fn mark(&self) -> Marker {
        Marker::new(self.i, self.line, self.col)
    }
    fn err<T>(&self, m: &str) -> R<T> {
        Err(ScanError::new(self.mark(), m))
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn at(&self, k: usize) -> Option<char> {
        self.s.get(self.i + k).copied()
    }
    fn bump(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.i += 1;
        if c == '\n' || (c == '\r' && self.peek() != Some('\n')) {
            self.line += 1;
            self.col = 0;
        } else {
            self.col += 1;
        }
        Some(c)
    }
    fn emit(&mut self, e: Event, m: Marker) {
        self.recv.on_event(e, m)
    }
    fn blank_or_end(c: Option<char>) -> bool {
        c.is_none_or(|c| is_blank(c) || is_break(c))
    }

    /// Skip blanks, comments and line breaks. Returns true if a break was crossed.
    fn skip_ws(&mut self) -> bool {
        let mut broke = false;
        loop {
            match self.peek() {
                Some(c) if is_blank(c) => {
                    self.bump();
                }
                Some(c) if is_break(c) => {
                    self.bump();
                    broke = true;
                }
                Some('#')
                    if self.i == 0
                        || is_blank(self.s[self.i - 1])
                        || is_break(self.s[self.i - 1])
                        || self.s[self.i - 1] == '\u{feff}' =>
                {
                    while self.peek().is_some_and(|c| !is_break(c)) {
                        self.bump();
                    }
                }
                _ => return broke,
            }
        }
    }

    fn doc_marker(&self) -> Option<char> {
        if self.col != 0 {
            return None;
        }
        for c in ['-', '.'] {
            if (0..3).all(|k| self.at(k) == Some(c)) && Self::blank_or_end(self.at(3)) {
                return Some(c);
            }
        }
        None
    }

    fn stream(&mut self, multi: bool) -> R<()> {
        let m = self.mark();
        self.emit(Event::StreamStart, m);
        if self.peek() == Some('\u{feff}') {
            self.bump();
            self.col = 0;
        }
        let mut docs = 0;
        loop {
            self.skip_ws();
            let mut explicit = false;
            while self.col == 0 && self.peek() == Some('%') {
                while self.peek().is_some_and(|c| !is_break(c)) {
                    self.bump();
                }
                self.skip_ws();
            }
            while self.doc_marker() == Some('.') {
                for _ in 0..3 {
                    self.bump();
                }
                self.skip_ws();
            }
            if self.doc_marker() == Some('-') {
                for _ in 0..3 {
                    self.bump();
                }
                explicit = true;
                self.skip_ws();
            }
            if self.peek().is_none() && !explicit {
                break;
            }
            let m = self.mark();
            self.emit(Event::DocumentStart, m);
            if self.peek().is_none() || self.doc_marker().is_some() {
                self.emit(Event::Scalar("~".into(), TScalarStyle::Plain, 0, None), m);
            } else {
                self.block_node(-1, false)?;
            }
            self.skip_ws();
            let m = self.mark();
            self.emit(Event::DocumentEnd, m);
            docs += 1;
            if !multi && docs == 1 {
                break;
            }
            if self.peek().is_some() && self.doc_marker().is_none() {
                return self.err("did not find expected <document start>");
            }
        }
        if !multi && docs > 0 && self.peek().is_some() && self.doc_marker().is_none() {
            return self.err("did not find expected <document start>");
        }
        let m = self.mark();
        self.emit(Event::StreamEnd, m);
        Ok(())
    }

    fn props(&mut self) -> R<Props> {
        let mut p = Props::default();
        loop {
            match self.peek() {
                Some('&') => {
                    self.bump();
                    let n = self.anchor_name()?;
                    p.anchor = self.next_anchor;
                    self.next_anchor += 1;
                    self.anchors.insert(n, p.anchor);
                    p.any = true;
                }
                Some('!') => {
                    p.tag = Some(self.tag()?);
                    p.any = true;
                }
                _ => return Ok(p),
            }
            while self.peek().is_some_and(is_blank) {
                self.bump();
            }
        }
    }

    fn anchor_name(&mut self) -> R<String> {
        let mut n = String::new();
        while let Some(c) = self.peek() {
            if is_blank(c) || is_break(c) || is_flow_ind(c) {
                break;
            }
            n.push(c);
            self.bump();
        }
        if n.is_empty() {
            return self.err("while scanning an anchor or alias, did not find expected alphabetic or numeric character");
        }
        Ok(n)
    }

    fn tag(&mut self) -> R<TokenType> {
        self.bump();
        let mut handle = String::from("!");
        let mut text = String::new();
        if self.peek() == Some('<') {
            self.bump();
            while let Some(c) = self.peek() {
                if c == '>' {
                    break;
                }
                text.push(c);
                self.bump();
            }
            if self.bump() != Some('>') {
                return self.err("while scanning a tag, did not find the expected '>'");
            }
            return Ok(TokenType::Tag(String::new(), text));
        }
        if self.peek() == Some('!') {
            self.bump();
            handle.push('!');
        }
        while let Some(c) = self.peek() {
            if is_blank(c) || is_break(c) || is_flow_ind(c) {
                break;
            }
            text.push(c);
            self.bump();
        }
        if handle == "!" {
            if let Some(k) = text.find('!') {
                let rest = text.split_off(k + 1);
                handle.push_str(&text);
                text = rest;
            }
        }
        Ok(TokenType::Tag(handle, text))
    }

    fn empty(&mut self, p: &Props) {
        let m = self.mark();
        self.emit(Event::Scalar("~".into(), TScalarStyle::Plain, p.anchor, p.tag.clone()), m);
    }

    fn enter(&mut self) -> R<()> {
        self.depth += 1;
        if self.depth > MAX_DEPTH {
            return self.err("recursion limit exceeded");
        }
        Ok(())
    }

    /// Parse a block node whose parent has indentation `n`. The cursor is at
    /// the first character of the node. `seq_ok`: a sequence may sit at column n.
    fn block_node(&mut self, n: isize, seq_ok: bool) -> R<()> {
        self.enter()?;
        let start_col = self.col as isize;
        let start_line = self.line;
        let m = self.mark();
        // look for an implicit key on this line before consuming properties
        if self.implicit_key_ahead() {
            let r = self.block_map(start_col, Props::default(), m);
            self.depth -= 1;
            return r;
        }
        let p = self.props()?;
        if p.any {
            let broke = self.skip_ws();
            if self.peek().is_none() || self.doc_marker().is_some() {
                self.empty(&p);
                self.depth -= 1;
                return Ok(());
            }
            if broke || self.line != start_line {
                let c = self.col as isize;
                let seq = self.is_seq_entry();
                if c <= n && !(seq && seq_ok && c == n) {
                    self.empty(&p);
                    self.depth -= 1;
                    return Ok(());
                }
                let r = self.block_content(c, n, p);
                self.depth -= 1;
                return r;
            }
        }
        let r = self.block_content(start_col, n, p);
        self.depth -= 1;
        r
    }

    fn is_seq_entry(&self) -> bool {
        self.peek() == Some('-') && Self::blank_or_end(self.at(1))
    }

    fn block_content(&mut self, col: isize, n: isize, p: Props) -> R<()> {
        let m = self.mark();
        match self.peek() {
            None => {
                self.empty(&p);
                Ok(())
            }
            Some('*') if !self.implicit_key_ahead() => {
                if p.any {
                    return self.err("while parsing a node, did not find expected node content");
                }
                self.alias()
            }
            Some('-') if self.is_seq_entry() => self.block_seq(self.col as isize, p, m),
            Some('?') if Self::blank_or_end(self.at(1)) => self.block_map(self.col as isize, p, m),
            Some('|') | Some('>') => self.block_scalar(n, p),
            Some(_) => {
                if self.implicit_key_ahead() {
                    let c = if p.any && self.line > 0 && self.col as isize != col { self.col as isize } else { col };
                    return self.block_map(c, p, m);
                }
                self.inline_node(p, n, false)
            }
        }
    }

    fn alias(&mut self) -> R<()> {
        let m = self.mark();
        self.bump();
        let name = self.anchor_name()?;
        match self.anchors.get(&name) {
            Some(&id) => {
                self.emit(Event::Alias(id), m);
                Ok(())
            }
            None => Err(ScanError::new(m, "while parsing node, found unknown anchor")),
        }
    }

    /// Is there an implicit key `... :` on the current line starting here?
    fn implicit_key_ahead(&mut self) -> bool {
        let mut k = self.i;
        let s = &self.s;
        let get = |k: usize| s.get(k).copied();
        // properties
        loop {
            match get(k) {
                Some('&') | Some('!') => {
                    while get(k).is_some_and(|c| !is_blank(c) && !is_break(c)) {
                        k += 1;
                    }
                    while get(k).is_some_and(is_blank) {
                        k += 1;
                    }
                }
                _ => break,
            }
        }
        match get(k) {
            None => return false,
            Some('"') => {
                k += 1;
                loop {
                    match get(k) {
                        None => return false,
                        Some('\\') => k += 2,
                        Some('"') => {
                            k += 1;
                            break;
                        }
                        Some(c) if is_break(c) => return false,
                        _ => k += 1,
                    }
                }
            }
            Some('\'') => {
                k += 1;
                loop {
                    match get(k) {
                        None => return false,
                        Some('\'') if get(k + 1) == Some('\'') => k += 2,
                        Some('\'') => {
                            k += 1;
                            break;
                        }
                        Some(c) if is_break(c) => return false,
                        _ => k += 1,
                    }
                }
            }
            Some('[') | Some('{') => {
                let mut depth = 0usize;
                let mut q: Option<char> = None;
                loop {
                    match (q, get(k)) {
                        (_, None) => return false,
                        (_, Some(c)) if is_break(c) => return false,
                        (Some('"'), Some('\\')) => k += 1,
                        (Some(x), Some(c)) if c == x => q = None,
                        (Some(_), _) => {}
                        (None, Some(c @ ('"' | '\''))) => q = Some(c),
                        (None, Some('[' | '{')) => depth += 1,
                        (None, Some(']' | '}')) => {
                            depth -= 1;
                            if depth == 0 {
                                k += 1;
                                break;
                            }
                        }
                        _ => {}
                    }
                    k += 1;
                }
            }
            Some('*') => {
                while get(k).is_some_and(|c| !is_blank(c) && !is_break(c)) {
                    k += 1;
                }
            }
            Some('-') if Self::blank_or_end(get(k + 1)) => return false,
            Some('?') if Self::blank_or_end(get(k + 1)) => return false,
            Some('|') | Some('>') | Some('%') | Some('@') | Some('`') | Some('#') => return false,
            Some(c) if c == ':' && Self::blank_or_end(get(k + 1)) => return true,
            Some(_) => loop {
                match get(k) {
                    None => return false,
                    Some(c) if is_break(c) => return false,
                    Some(':') if Self::blank_or_end(get(k + 1)) => return true,
                    Some('#') if is_blank(s[k - 1]) => return false,
                    _ => k += 1,
                }
            },
        }
        while get(k).is_some_and(is_blank) {
            k += 1;
        }
        get(k) == Some(':') && Self::blank_or_end(get(k + 1))
    }

    fn block_seq(&mut self, col: isize, p: Props, m: Marker) -> R<()> {
        self.emit(Event::SequenceStart(p.anchor), m);
        loop {
            self.bump(); // '-'
            let line = self.line;
            self.skip_ws();
            if self.peek().is_none() || self.doc_marker().is_some() {
                self.empty(&Props::default());
            } else if self.line == line || self.col as isize > col {
                self.block_node(col, false)?;
            } else {
                self.empty(&Props::default());
            }
            self.skip_ws();
            if self.peek().is_none() || self.doc_marker().is_some() || (self.col as isize) < col {
                break;
            }
            if self.col as isize > col {
                return self.err("while parsing a block collection, did not find expected '-' indicator");
            }
            if !self.is_seq_entry() {
                break;
            }
        }
        let m = self.mark();
        self.emit(Event::SequenceEnd, m);
        Ok(())
    }

    fn block_map(&mut self, col: isize, p: Props, m: Marker) -> R<()> {
        self.emit(Event::MappingStart(p.anchor), m);
        loop {
            if self.peek() == Some('?') && Self::blank_or_end(self.at(1)) {
                self.bump();
                let line = self.line;
                self.skip_ws();
                if self.line == line || self.col as isize > col {
                    self.block_node(col, false)?;
                } else {
                    self.empty(&Props::default());
                }
                self.skip_ws();
                if self.col as isize == col && self.peek() == Some(':') && Self::blank_or_end(self.at(1)) {
                    self.bump();
                    self.map_value(col)?;
                } else {
                    self.empty(&Props::default());
                }
            } else if self.implicit_key_ahead() {
                if self.peek() == Some(':') {
                    self.empty(&Props::default());
                } else {
                    let kp = self.props()?;
                    if self.peek() == Some('*') {
                        self.alias()?;
                    } else if self.peek() == Some(':') && Self::blank_or_end(self.at(1)) {
                        self.empty(&kp);
                    } else {
                        self.inline_node(kp, col, true)?;
                    }
                }
                while self.peek().is_some_and(is_blank) {
                    self.bump();
                }
                if self.peek() != Some(':') {
                    return self.err("could not find expected ':'");
                }
                self.bump();
                self.map_value(col)?;
            } else {
                return self.err("while scanning a simple key, could not find expected ':'");
            }
            self.skip_ws();
            if self.peek().is_none() || self.doc_marker().is_some() || (self.col as isize) < col {
                break;
            }
            if self.col as isize > col {
                return self.err("while parsing a block mapping, did not find expected key");
            }
            if self.is_seq_entry() {
                return self.err("while parsing a block mapping, did not find expected key");
            }
        }
        let m = self.mark();
        self.emit(Event::MappingEnd, m);
        Ok(())
    }

    fn map_value(&mut self, col: isize) -> R<()> {
        let line = self.line;
        self.skip_ws();
        if self.peek().is_none() || self.doc_marker().is_some() {
            self.empty(&Props::default());
            return Ok(());
        }
        if self.line == line {
            // same line: an implicit key here would be a nested one-line map
            if self.implicit_key_ahead() {
                return self.err("mapping values are not allowed in this context");
            }
            if self.is_seq_entry() {
                return self.err("block sequence entries are not allowed in this context");
            }
            return self.block_node(col, true);
        }
        let c = self.col as isize;
        if c > col || (c == col && self.is_seq_entry()) {
            self.block_node(col, true)
        } else {
            self.empty(&Props::default());
            Ok(())
        }
    }

    /// Flow collection, quoted or plain scalar.
    fn inline_node(&mut self, p: Props, n: isize, key: bool) -> R<()> {
        let m = self.mark();
        match self.peek() {
            Some('[') => self.flow_seq(p),
            Some('{') => self.flow_map(p),
            Some('"') => {
                let s = self.double()?;
                self.emit(Event::Scalar(s, TScalarStyle::DoubleQuoted, p.anchor, p.tag), m);
                self.after_inline(key)
            }
            Some('\'') => {
                let s = self.single()?;
                self.emit(Event::Scalar(s, TScalarStyle::SingleQuoted, p.anchor, p.tag), m);
                self.after_inline(key)
            }
            Some('%') | Some('@') | Some('`') | Some(']') | Some('}') | Some(',') => {
                self.err("while parsing a node, did not find expected node content")
            }
            _ => {
                let s = self.plain(n, key, false)?;
                self.emit(Event::Scalar(s, TScalarStyle::Plain, p.anchor, p.tag), m);
                Ok(())
            }
        }
        .and_then(|_| if matches!(self.s.get(m.index()), Some('[' | '{')) { self.after_inline(key) } else { Ok(()) })
    }

    fn after_inline(&mut self, key: bool) -> R<()> {
        if key {
            return Ok(());
        }
        let mut k = 0;
        while self.at(k).is_some_and(is_blank) {
            k += 1;
        }
        match self.at(k) {
            None => Ok(()),
            Some(c) if is_break(c) => Ok(()),
            Some('#') if k > 0 => Ok(()),
            _ => self.err("did not find expected <document start>"),
        }
    }

    fn plain(&mut self, n: isize, key: bool, flow: bool) -> R<String> {
        let mut out = String::new();
        loop {
            // one line
            let mut lineb = String::new();
            while let Some(c) = self.peek() {
                if is_break(c) {
                    break;
                }
                if c == ':'
                    && (Self::blank_or_end(self.at(1)) || (flow && self.at(1).is_some_and(is_flow_ind)))
                {
                    break;
                }
                if c == '#' && self.i > 0 && is_blank(self.s[self.i - 1]) {
                    break;
                }
                if flow && is_flow_ind(c) {
                    break;
                }
                lineb.push(c);
                self.bump();
            }
            let ended_early = self.peek().is_some_and(|c| !is_break(c));
            let t = lineb.trim_end_matches([' ', '\t']);
            out.push_str(t);
            if key || ended_early || self.peek().is_none() {
                return Ok(out);
            }
            // continuation?
            let save = (self.i, self.line, self.col);
            let mut breaks = 0;
            loop {
                while self.peek().is_some_and(is_blank) {
                    self.bump();
                }
                match self.peek() {
                    Some(c) if is_break(c) => {
                        if c == '\r' && self.at(1) == Some('\n') {
                            self.bump();
                        }
                        self.bump();
                        breaks += 1;
                    }
                    _ => break,
                }
            }
            let stop = match self.peek() {
                None => true,
                Some('#') => true,
                Some(c) if flow => is_flow_ind(c) || (c == ':' && (Self::blank_or_end(self.at(1)) || self.at(1).is_some_and(is_flow_ind))),
                Some(_) => {
                    self.doc_marker().is_some()
                        || self.col as isize <= n
                        || self.implicit_key_ahead()
                }
            };
            if stop {
                (self.i, self.line, self.col) = save;
                return Ok(out);
            }
            if breaks == 1 {
                out.push(' ');
            } else {
                for _ in 1..breaks {
                    out.push('\n');
                }
            }
        }
    }

    fn fold_break(&mut self, out: &mut String) {
        // at a break inside a quoted scalar
        while out.ends_with([' ', '\t']) {
            out.pop();
        }
        let mut breaks = 0;
        loop {
            match self.peek() {
                Some(c) if is_break(c) => {
                    if c == '\r' && self.at(1) == Some('\n') {
                        self.bump();
                    }
                    self.bump();
                    breaks += 1;
                }
                Some(c) if is_blank(c) => {
                    self.bump();
                }
                _ => break,
            }
        }
        if breaks == 1 {
            out.push(' ');
        } else {
            for _ in 1..breaks {
                out.push('\n');
            }
        }
    }

    fn single(&mut self) -> R<String> {
        self.bump();
        let mut out = String::new();
        loop {
            match self.peek() {
                None => return self.err("while scanning a quoted scalar, found unexpected end of stream"),
                Some('\'') => {
                    self.bump();
                    if self.peek() == Some('\'') {
                        self.bump();
                        out.push('\'');
                    } else {
                        return Ok(out);
                    }
                }
                Some(c) if is_break(c) => self.fold_break(&mut out),
                Some(c) => {
                    out.push(c);
                    self.bump();
                }
            }
        }
    }

    fn hex(&mut self, n: usize) -> R<u32> {
        let mut v = 0u32;
        for _ in 0..n {
            match self.peek().and_then(|c| c.to_digit(16)) {
                Some(d) => {
                    v = v.wrapping_mul(16).wrapping_add(d);
                    self.bump();
                }
                None => return self.err("while parsing a quoted scalar, did not find expected hexadecimal number"),
            }
        }
        Ok(v)
    }

    fn double(&mut self) -> R<String> {
        self.bump();
        let mut out = String::new();
        // bytes of `out` that came from escapes must not be folded away
        let mut keep = 0usize;
        loop {
            match self.peek() {
                None => return self.err("while scanning a quoted scalar, found unexpected end of stream"),
                Some('"') => {
                    self.bump();
                    return Ok(out);
                }
                Some(c) if is_break(c) => {
                    let tail = out.split_off(keep);
                    let mut t = tail;
                    self.fold_break(&mut t);
                    out.push_str(&t);
                }
                Some('\\') => {
                    self.bump();
                    let Some(c) = self.bump() else {
                        return self.err("while scanning a quoted scalar, found unexpected end of stream");
                    };
                    match c {
                        '0' => out.push('\0'),
                        'a' => out.push('\x07'),
                        'b' => out.push('\x08'),
                        't' | '\t' => out.push('\t'),
                        'n' => out.push('\n'),
                        'v' => out.push('\x0b'),
                        'f' => out.push('\x0c'),
                        'r' => out.push('\r'),
                        'e' => out.push('\x1b'),
                        ' ' => out.push(' '),
                        '"' => out.push('"'),
                        '/' => out.push('/'),
                        '\\' => out.push('\\'),
                        'N' => out.push('\u{85}'),
                        '_' => out.push('\u{a0}'),
                        'L' => out.push('\u{2028}'),
                        'P' => out.push('\u{2029}'),
                        'x' | 'u' | 'U' => {
                            let n = match c {
                                'x' => 2,
                                'u' => 4,
                                _ => 8,
                            };
                            let mut v = self.hex(n)?;
                            if (0xd800..0xdc00).contains(&v) && self.peek() == Some('\\') && self.at(1) == Some('u') {
                                self.bump();
                                self.bump();
                                let lo = self.hex(4)?;
                                if (0xdc00..0xe000).contains(&lo) {
                                    v = 0x10000 + ((v - 0xd800) << 10) + (lo - 0xdc00);
                                }
                            }
                            match char::from_u32(v) {
                                Some(ch) => out.push(ch),
                                None => return self.err("while parsing a quoted scalar, found invalid Unicode character escape code"),
                            }
                        }
                        '\n' | '\r' => {
                            if c == '\r' && self.peek() == Some('\n') {
                                self.bump();
                            }
                            while self.peek().is_some_and(|c| is_blank(c)) {
                                self.bump();
                            }
                        }
                        _ => return self.err("while parsing a quoted scalar, found unknown escape character"),
                    }
                    keep = out.len();
                }
                Some(c) => {
                    out.push(c);
                    self.bump();
                }
            }
        }
    }

    fn block_scalar(&mut self, n: isize, p: Props) -> R<()> {
        let m = self.mark();
        let literal = self.bump() == Some('|');
        let mut chomp = ' ';
        let mut explicit: Option<isize> = None;
        while let Some(c) = self.peek() {
            match c {
                '+' | '-' => chomp = c,
                '1'..='9' => explicit = Some(c as isize - '0' as isize),
                _ => break,
            }
            self.bump();
        }
        while self.peek().is_some_and(is_blank) {
            self.bump();
        }
        if self.peek() == Some('#') {
            while self.peek().is_some_and(|c| !is_break(c)) {
                self.bump();
            }
        }
        match self.peek() {
            None => {}
            Some(c) if is_break(c) => {
                if c == '\r' && self.at(1) == Some('\n') {
                    self.bump();
                }
                self.bump();
            }
            _ => return self.err("while scanning a block scalar, did not find expected comment or line break"),
        }
        // gather raw lines
        let mut indent: isize = match explicit {
            Some(e) => n.max(0) + e,
            None => -1,
        };
        let mut lines: Vec<String> = Vec::new();
        let mut pending = 0usize;
        loop {
            if self.peek().is_none() {
                break;
            }
            if self.doc_marker().is_some() && indent <= 0 {
                break;
            }
            // measure indentation of this line
            let mut k = 0;
            while self.at(k) == Some(' ') && (indent < 0 || (k as isize) < indent) {
                k += 1;
            }
            let c = self.at(k);
            if c.is_none() || c.is_some_and(is_break) {
                for _ in 0..k {
                    self.bump();
                }
                if self.peek().is_none() {
                    break;
                }
                if self.peek() == Some('\r') && self.at(1) == Some('\n') {
                    self.bump();
                }
                self.bump();
                pending += 1;
                continue;
            }
            if indent < 0 {
                if (k as isize) <= n {
                    break;
                }
                indent = k as isize;
            }
            if (k as isize) < indent {
                break;
            }
            for _ in 0..pending {
                lines.push(String::new());
            }
            pending = 0;
            for _ in 0..k {
                self.bump();
            }
            let mut l = String::new();
            while let Some(c) = self.peek() {
                if is_break(c) {
                    break;
                }
                l.push(c);
                self.bump();
            }
            lines.push(l);
            if self.peek() == Some('\r') && self.at(1) == Some('\n') {
                self.bump();
            }
            self.bump();
        }
        let mut out = String::new();
        if literal {
            out = lines.join("\n");
        } else {
            let mut prev_more = true;
            let mut blanks = 0;
            let mut first = true;
            for l in &lines {
                if l.is_empty() {
                    blanks += 1;
                    continue;
                }
                let more = l.starts_with([' ', '\t']);
                if first {
                    for _ in 0..blanks {
                        out.push('\n');
                    }
                } else if more || prev_more {
                    for _ in 0..blanks + 1 {
                        out.push('\n');
                    }
                } else if blanks == 0 {
                    out.push(' ');
                } else {
                    for _ in 0..blanks {
                        out.push('\n');
                    }
                }
                blanks = 0;
                first = false;
                prev_more = more;
                out.push_str(l);
            }
        }
        match chomp {
            '-' => {}
            '+' => {
                if !lines.is_empty() {
                    out.push('\n');
                }
                for _ in 0..pending {
                    out.push('\n');
                }
            }
            _ => {
                if !lines.is_empty() {
                    out.push('\n');
                }
            }
        }
        let style = if literal { TScalarStyle::Literal } else { TScalarStyle::Foled };
        self.emit(Event::Scalar(out, style, p.anchor, p.tag), m);
        Ok(())
    }

    fn flow_node(&mut self) -> R<()> {
        self.enter()?;
        let p = self.props()?;
        self.skip_ws();
        let m = self.mark();
        let r = match self.peek() {
            None => self.err("while parsing a flow node, found unexpected end of stream"),
            Some('[') => self.flow_seq(p),
            Some('{') => self.flow_map(p),
            Some('"') => {
                let s = self.double()?;
                self.emit(Event::Scalar(s, TScalarStyle::DoubleQuoted, p.anchor, p.tag), m);
                Ok(())
            }
            Some('\'') => {
                let s = self.single()?;
                self.emit(Event::Scalar(s, TScalarStyle::SingleQuoted, p.anchor, p.tag), m);
                Ok(())
            }
            Some('*') => self.alias(),
            Some(c) if matches!(c, ',' | ']' | '}' | ':') && p.any => {
                self.empty(&p);
                Ok(())
            }
            Some('%') | Some('@') | Some('`') | Some(']') | Some('}') | Some(',') => {
                self.err("while parsing a node, did not find expected node content")
            }
            Some(_) => {
                let s = self.plain(-1, false, true)?;
                self.emit(Event::Scalar(s, TScalarStyle::Plain, p.anchor, p.tag), m);
                Ok(())
            }
        };
        self.depth -= 1;
        r
    }

    /// Would the flow item starting here be a `key: value` pair?
    fn flow_pair_ahead(&self) -> bool {
        let mut k = self.i;
        let get = |k: usize| self.s.get(k).copied();
        match get(k) {
            Some('?') if Self::blank_or_end(get(k + 1)) => return true,
            Some('"') => {
                k += 1;
                while let Some(c) = get(k) {
                    if c == '\\' {
                        k += 2;
                        continue;
                    }
                    if c == '"' {
                        break;
                    }
                    k += 1;
                }
                k += 1;
                while get(k).is_some_and(is_blank) {
                    k += 1;
                }
                return get(k) == Some(':');
            }
            Some('\'') | Some('[') | Some('{') => return false,
            _ => {}
        }
        while let Some(c) = get(k) {
            if is_break(c) || is_flow_ind(c) {
                return false;
            }
            if c == ':' && Self::blank_or_end(get(k + 1)) {
                return true;
            }
            k += 1;
        }
        false
    }

    fn flow_seq(&mut self, p: Props) -> R<()> {
        let m = self.mark();
        self.emit(Event::SequenceStart(p.anchor), m);
        self.bump();
        loop {
            self.skip_ws();
            match self.peek() {
                None => return self.err("while parsing a flow sequence, expected ',' or ']'"),
                Some(']') => {
                    let m = self.mark();
                    self.bump();
                    self.emit(Event::SequenceEnd, m);
                    return Ok(());
                }
                _ => {}
            }
            if self.flow_pair_ahead() {
                let m = self.mark();
                self.emit(Event::MappingStart(0), m);
                self.flow_pair()?;
                let m = self.mark();
                self.emit(Event::MappingEnd, m);
            } else {
                self.flow_node()?;
            }
            self.skip_ws();
            match self.peek() {
                Some(',') => {
                    self.bump();
                }
                Some(']') => {}
                _ => return self.err("while parsing a flow sequence, expected ',' or ']'"),
            }
        }
    }

    fn flow_pair(&mut self) -> R<()> {
        if self.peek() == Some('?') && Self::blank_or_end(self.at(1)) {
            self.bump();
            self.skip_ws();
        }
        if self.peek() == Some(':') && Self::blank_or_end(self.at(1)) {
            self.empty(&Props::default());
        } else {
            self.flow_node()?;
        }
        self.skip_ws();
        if self.peek() == Some(':') {
            self.bump();
            self.skip_ws();
            match self.peek() {
                Some(',') | Some('}') | Some(']') => self.empty(&Props::default()),
                _ => self.flow_node()?,
            }
        } else {
            self.empty(&Props::default());
        }
        Ok(())
    }

    fn flow_map(&mut self, p: Props) -> R<()> {
        let m = self.mark();
        self.emit(Event::MappingStart(p.anchor), m);
        self.bump();
        loop {
            self.skip_ws();
            match self.peek() {
                None => return self.err("while parsing a flow mapping, did not find expected ',' or '}'"),
                Some('}') => {
                    let m = self.mark();
                    self.bump();
                    self.emit(Event::MappingEnd, m);
                    return Ok(());
                }
                _ => {}
            }
            self.flow_pair()?;
            self.skip_ws();
            match self.peek() {
                Some(',') => {
                    self.bump();
                }
                Some('}') => {}
                _ => return self.err("while parsing a flow mapping, did not find expected ',' or '}'"),
            }
        }
    }
}
