#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tag(pub String, pub String);

pub type Array = Vec<Yaml>;

/// Insertion ordered mapping; a repeated key replaces the value and moves the
/// entry to the end (linked-hash-map's behaviour).
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Hash(pub Vec<(Yaml, Yaml)>);

impl FromIterator<(Yaml, Yaml)> for Hash {
    fn from_iter<I: IntoIterator<Item = (Yaml, Yaml)>>(iter: I) -> Self {
        let mut out: Vec<(Yaml, Yaml)> = Vec::new();
        let mut seen: std::collections::HashMap<Yaml, usize> = Default::default();
        let mut dead: Vec<bool> = Vec::new();
        for (k, v) in iter {
            if let Some(i) = seen.insert(k.clone(), out.len()) {
                dead[i] = true;
            }
            out.push((k, v));
            dead.push(false);
        }
        let mut it = dead.into_iter();
        out.retain(|_| !it.next().unwrap());
        Hash(out)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Yaml {
    Real(Option<Tag>, String),
    Integer(Option<Tag>, i64),
    String(Option<Tag>, String),
    Boolean(Option<Tag>, bool),
    Array(Option<Tag>, Array),
    Hash(Option<Tag>, Hash),
    Alias(usize),
    Null(Option<Tag>),
    BadValue,
}
