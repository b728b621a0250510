use crate::yaml::{Tag, Yaml};
use std::fmt::{self, Write};

#[derive(Clone, Copy, Debug)]
pub enum EmitError {
    FmtError(fmt::Error),
    BadHashmapKey,
}
impl fmt::Display for EmitError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for EmitError {}
impl From<fmt::Error> for EmitError {
    fn from(e: fmt::Error) -> Self {
        EmitError::FmtError(e)
    }
}

pub type EmitResult = Result<(), EmitError>;

pub struct YamlEmitter<'a> {
    w: &'a mut dyn Write,
    level: isize,
}

impl<'a> YamlEmitter<'a> {
    pub fn new(w: &'a mut dyn Write) -> YamlEmitter<'a> {
        YamlEmitter { w, level: -1 }
    }

    pub fn dump(&mut self, doc: &Yaml) -> EmitResult {
        self.level = -1;
        writeln!(self.w, "---")?;
        self.node(doc)
    }

    fn tag(&mut self, t: &Option<Tag>) -> EmitResult {
        if let Some(Tag(h, s)) = t {
            write!(self.w, "{h}{s} ")?;
        }
        Ok(())
    }

    fn indent(&mut self) -> EmitResult {
        for _ in 0..self.level.max(0) {
            write!(self.w, "  ")?;
        }
        Ok(())
    }

    fn node(&mut self, n: &Yaml) -> EmitResult {
        match n {
            Yaml::Array(t, v) => {
                self.tag(t)?;
                if v.is_empty() {
                    write!(self.w, "[]")?;
                    return Ok(());
                }
                self.level += 1;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        writeln!(self.w)?;
                        self.indent()?;
                    }
                    write!(self.w, "-")?;
                    self.val(true, x)?;
                }
                self.level -= 1;
            }
            Yaml::Hash(t, h) => {
                self.tag(t)?;
                if h.0.is_empty() {
                    write!(self.w, "{{}}")?;
                    return Ok(());
                }
                self.level += 1;
                for (i, (k, v)) in h.0.iter().enumerate() {
                    if i > 0 {
                        writeln!(self.w)?;
                        self.indent()?;
                    }
                    if matches!(k, Yaml::Hash(..) | Yaml::Array(..)) {
                        write!(self.w, "?")?;
                        self.val(true, k)?;
                        writeln!(self.w)?;
                        self.indent()?;
                        write!(self.w, ":")?;
                        self.val(true, v)?;
                    } else {
                        self.node(k)?;
                        write!(self.w, ":")?;
                        self.val(false, v)?;
                    }
                }
                self.level -= 1;
            }
            Yaml::String(t, s) => {
                self.tag(t)?;
                if need_quotes(s) {
                    self.quoted(s)?;
                } else {
                    write!(self.w, "{s}")?;
                }
            }
            Yaml::Boolean(t, b) => {
                self.tag(t)?;
                write!(self.w, "{b}")?;
            }
            Yaml::Integer(t, i) => {
                self.tag(t)?;
                write!(self.w, "{i}")?;
            }
            Yaml::Real(t, s) => {
                self.tag(t)?;
                write!(self.w, "{s}")?;
            }
            Yaml::Null(t) => {
                self.tag(t)?;
                write!(self.w, "~")?;
            }
            Yaml::Alias(_) | Yaml::BadValue => {}
        }
        Ok(())
    }

    /// A value after `-`, `:` or `?`.
    fn val(&mut self, inline: bool, v: &Yaml) -> EmitResult {
        let (tag, empty) = match v {
            Yaml::Array(t, x) => (t, x.is_empty()),
            Yaml::Hash(t, h) => (t, h.0.is_empty()),
            _ => {
                write!(self.w, " ")?;
                return self.node(v);
            }
        };
        if (inline && tag.is_none()) || empty {
            write!(self.w, " ")?;
            return self.node(v);
        }
        if let Some(Tag(h, s)) = tag {
            write!(self.w, " {h}{s}")?;
        }
        writeln!(self.w)?;
        self.level += 1;
        self.indent()?;
        self.level -= 1;
        let bare = match v {
            Yaml::Array(_, x) => Yaml::Array(None, x.clone()),
            Yaml::Hash(_, h) => Yaml::Hash(None, h.clone()),
            _ => unreachable!(),
        };
        self.node(&bare)
    }

    fn quoted(&mut self, s: &str) -> EmitResult {
        write!(self.w, "\"")?;
        for c in s.chars() {
            match c {
                '"' => write!(self.w, "\\\"")?,
                '\\' => write!(self.w, "\\\\")?,
                '\n' => write!(self.w, "\\n")?,
                '\r' => write!(self.w, "\\r")?,
                '\t' => write!(self.w, "\\t")?,
                c if (c as u32) < 0x20 || c == '\u{7f}' => write!(self.w, "\\u{:04x}", c as u32)?,
                c => write!(self.w, "{c}")?,
            }
        }
        write!(self.w, "\"")?;
        Ok(())
    }
}

fn need_quotes(s: &str) -> bool {
    s.is_empty()
        || s.starts_with(' ')
        || s.ends_with(' ')
        || s.starts_with(|c: char| {
            matches!(c, '&' | '*' | '?' | '|' | '-' | '<' | '>' | '=' | '!' | '%' | '@' | '.' | '~')
        })
        || s.contains(|c: char| {
            matches!(c, ':' | '{' | '}' | '[' | ']' | ',' | '#' | '`' | '"' | '\'' | '\\')
                || c.is_control()
                || ('\u{80}'..='\u{9f}').contains(&c)
                || matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}')
        })
        || matches!(
            s,
            "yes" | "Yes" | "YES" | "no" | "No" | "NO" | "True" | "TRUE" | "true" | "False"
                | "FALSE" | "false" | "on" | "On" | "ON" | "off" | "Off" | "OFF" | "null" | "Null"
                | "NULL" | "y" | "Y" | "n" | "N"
        )
        || s.starts_with("0x")
        || s.starts_with(|c: char| c.is_ascii_digit() || c == '+')
        || s.parse::<f64>().is_ok()
}
