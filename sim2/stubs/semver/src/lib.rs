//! Stand-in for `semver`: parsing and precedence of versions.
use std::cmp::Ordering;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Version {
    pub major: u64,
    pub minor: u64,
    pub patch: u64,
    pre: Vec<String>,
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("not a version")
    }
}
impl std::error::Error for Error {}

impl Version {
    pub fn parse(s: &str) -> Result<Self, Error> {
        let s = s.split('+').next().unwrap();
        let (core, pre) = s.split_once('-').unwrap_or((s, ""));
        let n: Vec<u64> = core
            .split('.')
            .map(|x| if x.is_empty() || (x.len() > 1 && x.starts_with('0')) { Err(Error) } else { x.parse().map_err(|_| Error) })
            .collect::<Result<_, _>>()?;
        let [major, minor, patch] = n[..] else { return Err(Error) };
        let pre: Vec<String> = if s.contains('-') { pre.split('.').map(|x| x.to_string()).collect() } else { vec![] };
        if pre.iter().any(|p| p.is_empty() || !p.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-')) {
            return Err(Error);
        }
        Ok(Version { major, minor, patch, pre })
    }
}
impl PartialOrd for Version {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Version {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.major, self.minor, self.patch).cmp(&(o.major, o.minor, o.patch)).then_with(|| {
            match (self.pre.is_empty(), o.pre.is_empty()) {
                (true, true) => return Ordering::Equal,
                (true, false) => return Ordering::Greater,
                (false, true) => return Ordering::Less,
                _ => {}
            }
            for (a, b) in self.pre.iter().zip(&o.pre) {
                let c = match (a.parse::<u64>(), b.parse::<u64>()) {
                    (Ok(x), Ok(y)) => x.cmp(&y),
                    (Ok(_), Err(_)) => Ordering::Less,
                    (Err(_), Ok(_)) => Ordering::Greater,
                    _ => a.cmp(b),
                };
                if c != Ordering::Equal {
                    return c;
                }
            }
            self.pre.len().cmp(&o.pre.len())
        })
    }
}
