use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TScalarStyle {
    Any,
    Plain,
    SingleQuoted,
    DoubleQuoted,
    Literal,
    Foled,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Marker {
    index: usize,
    line: usize,
    col: usize,
}

impl Marker {
    pub fn new(index: usize, line: usize, col: usize) -> Self {
        Marker { index, line, col }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn line(&self) -> usize {
        self.line
    }
    pub fn col(&self) -> usize {
        self.col
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ScanError {
    mark: Marker,
    info: String,
}

impl ScanError {
    pub fn new(mark: Marker, info: &str) -> Self {
        ScanError { mark, info: info.to_owned() }
    }
    pub fn marker(&self) -> &Marker {
        &self.mark
    }
}

impl fmt::Display for ScanError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} at line {} column {}", self.info, self.mark.line, self.mark.col + 1)
    }
}

impl std::error::Error for ScanError {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TokenType {
    NoToken,
    Tag(String, String),
}
