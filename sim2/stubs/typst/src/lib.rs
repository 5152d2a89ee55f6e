//! Stub of typst: the parts of its interface that tinymist's file, world and
//! project crates use, over a tiny document language. A document's text is
//! the concatenation of everything its compilation read, so two compilations
//! are equal exactly when they saw the same files.
pub use ecow;

pub mod diag {
    use crate::syntax::package::PackageSpec;
    use crate::syntax::Span;
    use std::fmt::{self, Display};
    use std::path::{Path, PathBuf};
    use std::str::Utf8Error;

    pub use ecow::{eco_format, EcoString, EcoVec};

    pub type SourceResult<T> = Result<T, EcoVec<SourceDiagnostic>>;
    pub type StrResult<T> = Result<T, EcoString>;
    pub type FileResult<T> = Result<T, FileError>;
    pub type PackageResult<T> = Result<T, PackageError>;

    #[derive(Debug, Clone, Eq, PartialEq, Hash)]
    pub struct Warned<T> {
        pub output: T,
        pub warnings: EcoVec<SourceDiagnostic>,
    }
    #[derive(Debug, Clone, Eq, PartialEq, Hash)]
    pub struct SourceDiagnostic {
        pub severity: Severity,
        pub span: Span,
        pub message: EcoString,
        pub trace: EcoVec<crate::syntax::Spanned<Tracepoint>>,
        pub hints: EcoVec<EcoString>,
    }
    #[derive(Debug, Clone, Eq, PartialEq, Hash)]
    pub enum Tracepoint {
        Call(Option<EcoString>),
        Show(EcoString),
        Import,
    }
    impl Display for Tracepoint {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            match self {
                Tracepoint::Import => write!(f, "error occurred while importing this module"),
                _ => write!(f, "error occurred in this call of function"),
            }
        }
    }
    #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
    pub enum Severity {
        Error,
        Warning,
    }
    impl SourceDiagnostic {
        pub fn with_hint(mut self, hint: impl Into<EcoString>) -> Self {
            self.hints.push(hint.into());
            self
        }
        pub fn error(span: Span, message: impl Into<EcoString>) -> Self {
            Self { severity: Severity::Error, span, message: message.into(), trace: EcoVec::new(), hints: EcoVec::new() }
        }
        pub fn warning(span: Span, message: impl Into<EcoString>) -> Self {
            Self { severity: Severity::Warning, span, message: message.into(), trace: EcoVec::new(), hints: EcoVec::new() }
        }
    }

    pub trait At<T> {
        fn at(self, span: Span) -> SourceResult<T>;
    }
    impl<T, S: Into<EcoString>> At<T> for Result<T, S> {
        fn at(self, span: Span) -> SourceResult<T> {
            self.map_err(|m| {
                let mut v = EcoVec::new();
                v.push(SourceDiagnostic::error(span, m));
                v
            })
        }
    }

    #[derive(Debug, Clone, Eq, PartialEq, Hash)]
    pub enum FileError {
        NotFound(PathBuf),
        AccessDenied,
        IsDirectory,
        NotSource,
        InvalidUtf8,
        Package(PackageError),
        Other(Option<EcoString>),
    }
    impl FileError {
        pub fn from_io(err: std::io::Error, path: &Path) -> Self {
            match err.kind() {
                std::io::ErrorKind::NotFound => Self::NotFound(path.into()),
                std::io::ErrorKind::PermissionDenied => Self::AccessDenied,
                std::io::ErrorKind::InvalidData if err.to_string().contains("stream did not contain valid UTF-8") => {
                    Self::InvalidUtf8
                }
                _ => Self::Other(Some(eco_format!("{err}"))),
            }
        }
    }
    impl std::error::Error for FileError {}
    impl Display for FileError {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            match self {
                Self::NotFound(path) => write!(f, "file not found (searched at {})", path.display()),
                Self::AccessDenied => f.pad("failed to load file (access denied)"),
                Self::IsDirectory => f.pad("failed to load file (is a directory)"),
                Self::NotSource => f.pad("not a typst source file"),
                Self::InvalidUtf8 => f.pad("file is not valid utf-8"),
                Self::Package(error) => error.fmt(f),
                Self::Other(Some(err)) => write!(f, "failed to load file ({err})"),
                Self::Other(None) => f.pad("failed to load file"),
            }
        }
    }
    impl From<Utf8Error> for FileError {
        fn from(_: Utf8Error) -> Self {
            Self::InvalidUtf8
        }
    }
    impl From<std::string::FromUtf8Error> for FileError {
        fn from(_: std::string::FromUtf8Error) -> Self {
            Self::InvalidUtf8
        }
    }
    impl From<PackageError> for FileError {
        fn from(err: PackageError) -> Self {
            Self::Package(err)
        }
    }
    impl From<FileError> for EcoString {
        fn from(err: FileError) -> Self {
            eco_format!("{err}")
        }
    }

    #[derive(Debug, Clone, Eq, PartialEq, Hash)]
    pub enum PackageError {
        NotFound(PackageSpec),
        VersionNotFound(PackageSpec, crate::syntax::package::PackageVersion),
        NetworkFailed(Option<EcoString>),
        MalformedArchive(Option<EcoString>),
        Other(Option<EcoString>),
    }
    impl std::error::Error for PackageError {}
    impl Display for PackageError {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            match self {
                Self::NotFound(spec) => write!(f, "package not found (searched for {spec})"),
                Self::VersionNotFound(spec, v) => write!(f, "package found, but version {spec} does not exist (latest is {v})"),
                Self::NetworkFailed(Some(err)) => write!(f, "failed to download package ({err})"),
                Self::NetworkFailed(None) => f.pad("failed to download package"),
                Self::MalformedArchive(Some(err)) => write!(f, "failed to decompress package ({err})"),
                Self::MalformedArchive(None) => f.pad("failed to decompress package (archive malformed)"),
                Self::Other(Some(err)) => write!(f, "failed to load package ({err})"),
                Self::Other(None) => f.pad("failed to load package"),
            }
        }
    }
    impl From<PackageError> for EcoString {
        fn from(err: PackageError) -> Self {
            eco_format!("{err}")
        }
    }
}

pub mod syntax {
    use std::collections::HashMap;
    use std::fmt;
    use std::num::NonZeroU16;
    use std::ops::Range;
    use std::path::{Component, Path, PathBuf};
    use std::sync::{Arc, LazyLock, RwLock};

    pub mod package {
        use ecow::{eco_format, EcoString};
        use serde::{Deserialize, Deserializer, Serialize, Serializer};
        use std::fmt::{self, Debug, Display};
        use std::str::FromStr;

        #[derive(Clone, Eq, PartialEq, Hash)]
        pub struct PackageSpec {
            pub namespace: EcoString,
            pub name: EcoString,
            pub version: PackageVersion,
        }
        impl PackageSpec {
            pub fn versionless(&self) -> VersionlessPackageSpec {
                VersionlessPackageSpec { namespace: self.namespace.clone(), name: self.name.clone() }
            }
        }
        impl FromStr for PackageSpec {
            type Err = EcoString;
            fn from_str(s: &str) -> Result<Self, EcoString> {
                let s = s.strip_prefix('@').ok_or("package specification must start with '@'")?;
                let (ns, rest) = s.split_once('/').ok_or("package specification is missing name")?;
                let (name, v) = rest.split_once(':').ok_or("package specification is missing version")?;
                Ok(Self { namespace: ns.into(), name: name.into(), version: v.parse()? })
            }
        }
        impl Debug for PackageSpec {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                Display::fmt(self, f)
            }
        }
        impl Display for PackageSpec {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "@{}/{}:{}", self.namespace, self.name, self.version)
            }
        }
        #[derive(Clone, Eq, PartialEq, Hash)]
        pub struct VersionlessPackageSpec {
            pub namespace: EcoString,
            pub name: EcoString,
        }
        impl VersionlessPackageSpec {
            pub fn at(self, version: PackageVersion) -> PackageSpec {
                PackageSpec { namespace: self.namespace, name: self.name, version }
            }
        }
        impl FromStr for VersionlessPackageSpec {
            type Err = EcoString;
            fn from_str(s: &str) -> Result<Self, EcoString> {
                let s = s.strip_prefix('@').ok_or("package specification must start with '@'")?;
                let (ns, name) = s.split_once('/').ok_or("package specification is missing name")?;
                Ok(Self { namespace: ns.into(), name: name.into() })
            }
        }
        impl Debug for VersionlessPackageSpec {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                Display::fmt(self, f)
            }
        }
        impl Display for VersionlessPackageSpec {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "@{}/{}", self.namespace, self.name)
            }
        }
        #[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct PackageVersion {
            pub major: u32,
            pub minor: u32,
            pub patch: u32,
        }
        impl FromStr for PackageVersion {
            type Err = EcoString;
            fn from_str(s: &str) -> Result<Self, EcoString> {
                let mut it = s.split('.').map(|p| p.parse::<u32>());
                match (it.next(), it.next(), it.next(), it.next()) {
                    (Some(Ok(major)), Some(Ok(minor)), Some(Ok(patch)), None) => Ok(Self { major, minor, patch }),
                    _ => Err(eco_format!("`{s}` is not a valid version")),
                }
            }
        }
        impl Debug for PackageVersion {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                Display::fmt(self, f)
            }
        }
        impl Display for PackageVersion {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}.{}.{}", self.major, self.minor, self.patch)
            }
        }
        impl Serialize for PackageVersion {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.collect_str(self)
            }
        }
        impl<'de> Deserialize<'de> for PackageVersion {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let s = EcoString::deserialize(d)?;
                s.parse().map_err(serde::de::Error::custom)
            }
        }
    }
    use package::PackageSpec;

    #[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
    pub struct VirtualPath(PathBuf);
    impl VirtualPath {
        pub fn new(path: impl AsRef<Path>) -> Self {
            Self::new_impl(path.as_ref())
        }
        fn new_impl(path: &Path) -> Self {
            let mut out = Path::new(&Component::RootDir).to_path_buf();
            for component in path.components() {
                match component {
                    Component::Prefix(_) | Component::RootDir => {}
                    Component::CurDir => {}
                    Component::ParentDir => match out.components().next_back() {
                        Some(Component::Normal(_)) => {
                            out.pop();
                        }
                        _ => out.push(component),
                    },
                    Component::Normal(_) => out.push(component),
                }
            }
            Self(out)
        }
        pub fn within_root(path: &Path, root: &Path) -> Option<Self> {
            path.strip_prefix(root).ok().map(Self::new)
        }
        pub fn as_rooted_path(&self) -> &Path {
            &self.0
        }
        pub fn as_rootless_path(&self) -> &Path {
            self.0.strip_prefix(Component::RootDir).unwrap_or(&self.0)
        }
        pub fn resolve(&self, root: &Path) -> Option<PathBuf> {
            let root_len = root.as_os_str().len();
            let mut out = root.to_path_buf();
            for component in self.0.components() {
                match component {
                    Component::Prefix(_) => {}
                    Component::RootDir => {}
                    Component::CurDir => {}
                    Component::ParentDir => {
                        out.pop();
                        if out.as_os_str().len() < root_len {
                            return None;
                        }
                    }
                    Component::Normal(_) => out.push(component),
                }
            }
            Some(out)
        }
        pub fn join(&self, path: impl AsRef<Path>) -> Self {
            if let Some(parent) = self.0.parent() {
                Self::new(parent.join(path))
            } else {
                Self::new(path)
            }
        }
        pub fn with_extension(&self, extension: &str) -> Self {
            Self(self.0.with_extension(extension))
        }
    }
    impl fmt::Debug for VirtualPath {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            fmt::Display::fmt(&self.0.display(), f)
        }
    }

    type Pair = &'static (Option<PackageSpec>, VirtualPath);
    struct Interner {
        to_id: HashMap<Pair, FileId>,
        from_id: Vec<Pair>,
    }
    static INTERNER: LazyLock<RwLock<Interner>> =
        LazyLock::new(|| RwLock::new(Interner { to_id: HashMap::new(), from_id: Vec::new() }));

    #[derive(Copy, Clone, Eq, PartialEq, Hash, Ord, PartialOrd)]
    pub struct FileId(NonZeroU16);
    impl FileId {
        #[track_caller]
        pub fn new(package: Option<PackageSpec>, path: VirtualPath) -> Self {
            let pair = (package, path);
            if let Some(&id) = INTERNER.read().unwrap().to_id.get(&pair) {
                return id;
            }
            let mut interner = INTERNER.write().unwrap();
            if let Some(&id) = interner.to_id.get(&pair) {
                return id;
            }
            let num = u16::try_from(interner.from_id.len() + 1).and_then(NonZeroU16::try_from).expect("out of file ids");
            let id = FileId(num);
            let leaked: Pair = Box::leak(Box::new(pair));
            interner.to_id.insert(leaked, id);
            interner.from_id.push(leaked);
            id
        }
        pub fn package(&self) -> Option<&'static PackageSpec> {
            self.pair().0.as_ref()
        }
        pub fn vpath(&self) -> &'static VirtualPath {
            &self.pair().1
        }
        pub fn join(self, path: &str) -> Self {
            Self::new(self.package().cloned(), self.vpath().join(path))
        }
        pub fn with_extension(&self, extension: &str) -> Self {
            Self::new(self.package().cloned(), self.vpath().with_extension(extension))
        }
        fn pair(&self) -> Pair {
            INTERNER.read().unwrap().from_id[usize::from(self.0.get() - 1)]
        }
    }
    impl fmt::Debug for FileId {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            match self.package() {
                Some(p) => write!(f, "{p:?}{:?}", self.vpath()),
                None => write!(f, "{:?}", self.vpath()),
            }
        }
    }

    /// A place: a file, or one of its lines (as `str::lines` counts them).
    #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
    pub struct Span(Option<FileId>, Option<u32>);
    impl Span {
        pub const fn detached() -> Self {
            Self(None, None)
        }
        pub fn of(id: FileId) -> Self {
            Self(Some(id), None)
        }
        pub fn line(id: FileId, line: usize) -> Self {
            Self(Some(id), Some(line as u32))
        }
        pub const fn is_detached(self) -> bool {
            self.0.is_none()
        }
        pub fn number(self) -> Option<u32> {
            self.1
        }
        pub fn id(self) -> Option<FileId> {
            self.0
        }
    }
    #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
    pub struct Spanned<T> {
        pub v: T,
        pub span: Span,
    }
    impl<T> Spanned<T> {
        pub fn new(v: T, span: Span) -> Self {
            Self { v, span }
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum SyntaxKind {
        Markup,
        Text,
        MathText,
        Hash,
    }
    #[derive(Clone, Hash, PartialEq, Eq)]
    pub struct SyntaxNode(Arc<Repr>);
    /// A source, or one of its lines.
    #[derive(Clone)]
    pub struct LinkedNode {
        root: SyntaxNode,
        range: Range<usize>,
        span: Span,
    }
    impl LinkedNode {
        pub fn new(root: &SyntaxNode) -> Self {
            Self { root: root.clone(), range: 0..root.0.text.len(), span: Span::of(root.0.id) }
        }
        pub fn range(&self) -> Range<usize> {
            self.range.clone()
        }
        pub fn offset(&self) -> usize {
            self.range.start
        }
        pub fn span(&self) -> Span {
            self.span
        }
        pub fn kind(&self) -> SyntaxKind {
            match self.span.1 {
                None => SyntaxKind::Markup,
                _ if self.root.0.text[self.range.clone()].starts_with('#') => SyntaxKind::Hash,
                _ => SyntaxKind::Text,
            }
        }
        /// The line before which, or in which, a byte is.
        pub fn leaf_at(&self, cursor: usize) -> Option<LinkedNode> {
            let mut at = 0;
            for (n, l) in self.root.0.text.split_inclusive('\n').enumerate() {
                let range = at..at + l.trim_end_matches(['\n', '\r']).len();
                at += l.len();
                if cursor < at || cursor <= range.end {
                    return Some(LinkedNode { root: self.root.clone(), range, span: Span::line(self.root.0.id, n) });
                }
            }
            None
        }
    }
    pub fn is_newline(c: char) -> bool {
        matches!(c, '\n' | '\x0B' | '\x0C' | '\r' | '\u{0085}' | '\u{2028}' | '\u{2029}')
    }
    /// The byte and UTF-16 offset at which each line of a text starts.
    fn lines(text: &str) -> Vec<(usize, usize)> {
        let mut out = vec![(0, 0)];
        let (mut u, mut it) = (0, text.char_indices().peekable());
        while let Some((i, c)) = it.next() {
            u += c.len_utf16();
            if !is_newline(c) {
                continue;
            }
            let mut end = i + c.len_utf8();
            if c == '\r' && it.peek().is_some_and(|x| x.1 == '\n') {
                it.next();
                u += 1;
                end += 1;
            }
            out.push((end, u));
        }
        out
    }

    #[derive(Clone)]
    pub struct Source(SyntaxNode);
    #[derive(Clone, Hash, PartialEq, Eq)]
    struct Repr {
        id: FileId,
        text: String,
    }
    impl Source {
        pub fn new(id: FileId, text: String) -> Self {
            Self(SyntaxNode(Arc::new(Repr { id, text })))
        }
        pub fn detached(text: impl Into<String>) -> Self {
            Self::new(FileId::new(None, VirtualPath::new("main.typ")), text.into())
        }
        pub fn id(&self) -> FileId {
            self.0 .0.id
        }
        pub fn text(&self) -> &str {
            &self.0 .0.text
        }
        pub fn replace(&mut self, new: &str) -> Range<usize> {
            let old = self.text();
            let mut prefix = old.bytes().zip(new.bytes()).take_while(|(x, y)| x == y).count();
            if prefix == old.len() && prefix == new.len() {
                return 0..0;
            }
            while !old.is_char_boundary(prefix) || !new.is_char_boundary(prefix) {
                prefix -= 1;
            }
            let mut suffix =
                old[prefix..].bytes().rev().zip(new[prefix..].bytes().rev()).take_while(|(x, y)| x == y).count();
            while !old.is_char_boundary(old.len() - suffix) || !new.is_char_boundary(new.len() - suffix) {
                suffix -= 1;
            }
            let replace = prefix..old.len() - suffix;
            let with = new[prefix..new.len() - suffix].to_owned();
            self.edit(replace, &with)
        }
        pub fn edit(&mut self, replace: Range<usize>, with: &str) -> Range<usize> {
            let inner = Arc::make_mut(&mut self.0 .0);
            inner.text.replace_range(replace.clone(), with);
            replace.start..replace.start + with.len()
        }
        pub fn root(&self) -> &SyntaxNode {
            &self.0
        }
        pub fn find(&self, span: Span) -> Option<LinkedNode> {
            let range = self.range(span)?;
            Some(LinkedNode { root: self.0.clone(), range, span })
        }
        pub fn range(&self, span: Span) -> Option<Range<usize>> {
            let n = span.1? as usize;
            let mut at = 0;
            for (i, l) in self.0 .0.text.split_inclusive('\n').enumerate() {
                if i == n {
                    return Some(at..at + l.trim_end_matches(['\n', '\r']).len());
                }
                at += l.len();
            }
            None
        }
        pub fn len_bytes(&self) -> usize {
            self.0 .0.text.len()
        }
        pub fn len_utf16(&self) -> usize {
            self.0 .0.text.encode_utf16().count()
        }
        fn line_table(&self) -> Vec<(usize, usize)> {
            lines(&self.0 .0.text)
        }
        pub fn len_lines(&self) -> usize {
            self.line_table().len()
        }
        pub fn byte_to_line(&self, byte: usize) -> Option<usize> {
            (byte <= self.0 .0.text.len()).then(|| match self.line_table().binary_search_by_key(&byte, |l| l.0) {
                Ok(i) => i,
                Err(i) => i - 1,
            })
        }
        pub fn byte_to_column(&self, byte: usize) -> Option<usize> {
            let line = self.byte_to_line(byte)?;
            Some(self.0 .0.text.get(self.line_to_byte(line)?..byte)?.chars().count())
        }
        pub fn byte_to_utf16(&self, byte: usize) -> Option<usize> {
            let line = self.line_table()[self.byte_to_line(byte)?];
            let head = self.0 .0.text.get(line.0..byte)?;
            Some(line.1 + head.encode_utf16().count())
        }
        pub fn utf16_to_byte(&self, utf16: usize) -> Option<usize> {
            let t = self.line_table();
            let line = t[match t.binary_search_by_key(&utf16, |l| l.1) {
                Ok(i) => i,
                Err(i) => i - 1,
            }];
            let mut k = line.1;
            for (i, c) in self.0 .0.text[line.0..].char_indices() {
                if k >= utf16 {
                    return Some(line.0 + i);
                }
                k += c.len_utf16();
            }
            (k == utf16).then_some(self.0 .0.text.len())
        }
        pub fn line_to_byte(&self, line: usize) -> Option<usize> {
            self.line_table().get(line).map(|l| l.0)
        }
        pub fn line_to_range(&self, line: usize) -> Option<Range<usize>> {
            let start = self.line_to_byte(line)?;
            let end = self.line_to_byte(line + 1).unwrap_or(self.0 .0.text.len());
            Some(start..end)
        }
        pub fn line_column_to_byte(&self, line: usize, column: usize) -> Option<usize> {
            let range = self.line_to_range(line)?;
            let line = &self.0 .0.text[range.clone()];
            let mut chars = line.chars();
            for _ in 0..column {
                chars.next();
            }
            Some(range.start + (line.len() - chars.as_str().len()))
        }
    }
    impl fmt::Debug for Source {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "Source({:?})", self.id())
        }
    }
    impl AsRef<str> for Source {
        fn as_ref(&self) -> &str {
            self.text()
        }
    }
    impl std::hash::Hash for Source {
        fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
            self.0.hash(h)
        }
    }
}

pub mod foundations {
    use ecow::EcoString;
    use serde::{Deserialize, Serialize};
    use std::collections::BTreeMap;
    use std::sync::Arc;

    pub use elements::*;
    mod elements {
        use crate::introspection::Location;
        use crate::model::HeadingElem;
        use crate::syntax::Span;
        use ecow::EcoString;
        use std::num::NonZeroUsize;
        use std::sync::Arc;
        #[derive(Debug, Clone)]
        pub struct Content {
            text: EcoString,
            span: Span,
            heading: Option<Arc<Heading>>,
        }
        #[derive(Debug, Clone)]
        pub struct Heading {
            pub body: Content,
            level: usize,
            bookmarked: bool,
            at: usize,
        }
        /// Says which elements there can be.
        pub trait NativeElement {
            type Packed;
            fn elem() -> Element;
        }
        pub struct Element;
        pub struct Selector;
        impl Element {
            pub fn select(&self) -> Selector {
                Selector
            }
        }
        impl NativeElement for HeadingElem {
            type Packed = Heading;
            fn elem() -> Element {
                Element
            }
        }
        pub type Packed<T> = <T as NativeElement>::Packed;
        #[derive(Default)]
        pub struct StyleChain;
        impl Content {
            /// A title: its number says how deep it is, and if it is in the
            /// outline.
            pub fn heading(text: EcoString, span: Span, at: usize) -> Self {
                let n = text.chars().rev().find_map(|c| c.to_digit(10)).unwrap_or(0) as usize;
                let body = Content { text: text.clone(), span, heading: None };
                let h = Heading { body, level: n % 3 + 1, bookmarked: n % 4 != 3, at };
                Self { text, span, heading: Some(Arc::new(h)) }
            }
            pub fn to_packed<T: NativeElement<Packed = Heading>>(&self) -> Option<&Heading> {
                self.heading.as_deref()
            }
            pub fn plain_text(&self) -> EcoString {
                self.text.clone()
            }
            pub fn span(&self) -> Span {
                self.span
            }
        }
        impl Heading {
            pub fn at(&self) -> (usize, usize, bool) {
                (self.at, self.level, self.bookmarked)
            }
            pub fn location(&self) -> Option<Location> {
                Some(Location(self.at))
            }
            pub fn resolve_level(&self, _s: StyleChain) -> NonZeroUsize {
                NonZeroUsize::new(self.level).unwrap()
            }
            pub fn bookmarked(&self, _s: StyleChain) -> Option<bool> {
                Some(self.bookmarked)
            }
            pub fn outlined(&self, _s: StyleChain) -> bool {
                self.bookmarked
            }
            pub fn span(&self) -> Span {
                self.body.span
            }
        }
    }
    #[derive(Clone, Eq, PartialEq, Hash)]
    pub struct Bytes(Arc<Vec<u8>>);
    impl Bytes {
        pub fn new<T: AsRef<[u8]> + Send + Sync + 'static>(data: T) -> Self {
            Self(Arc::new(data.as_ref().to_vec()))
        }
        pub fn from_string<T: AsRef<str> + Send + Sync + 'static>(data: T) -> Self {
            Self(Arc::new(data.as_ref().as_bytes().to_vec()))
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn as_slice(&self) -> &[u8] {
            &self.0
        }
    }
    impl std::fmt::Debug for Bytes {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "Bytes({})", self.len())
        }
    }
    impl std::ops::Deref for Bytes {
        type Target = [u8];
        fn deref(&self) -> &[u8] {
            &self.0
        }
    }
    impl AsRef<[u8]> for Bytes {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }

    #[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]
    pub struct Str(EcoString);
    impl From<&str> for Str {
        fn from(s: &str) -> Self {
            Str(s.into())
        }
    }
    impl From<String> for Str {
        fn from(s: String) -> Self {
            Str(s.into())
        }
    }
    impl From<EcoString> for Str {
        fn from(s: EcoString) -> Self {
            Str(s)
        }
    }
    impl Str {
        pub fn as_str(&self) -> &str {
            &self.0
        }
    }
    #[derive(Debug, Clone, PartialEq, Hash, Serialize, Deserialize)]
    pub enum Value {
        None,
        Bool(bool),
        Int(i64),
        Str(Str),
    }
    pub trait IntoValue {
        fn into_value(self) -> Value;
    }
    impl IntoValue for &str {
        fn into_value(self) -> Value {
            Value::Str(self.into())
        }
    }
    impl IntoValue for String {
        fn into_value(self) -> Value {
            Value::Str(self.into())
        }
    }
    impl IntoValue for i64 {
        fn into_value(self) -> Value {
            Value::Int(self)
        }
    }
    #[derive(Debug, Clone, Default, PartialEq, Hash, Serialize, Deserialize)]
    pub struct Dict(Arc<BTreeMap<Str, Value>>);
    impl Dict {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn insert(&mut self, k: Str, v: Value) {
            Arc::make_mut(&mut self.0).insert(k, v);
        }
        pub fn iter(&self) -> impl Iterator<Item = (&Str, &Value)> {
            self.0.iter()
        }
    }
    impl FromIterator<(Str, Value)> for Dict {
        fn from_iter<T: IntoIterator<Item = (Str, Value)>>(iter: T) -> Self {
            Self(Arc::new(iter.into_iter().collect()))
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Hash)]
    pub enum Datetime {
        Date(time::Date),
        Time(time::Time),
        Datetime(time::PrimitiveDateTime),
    }
    impl Datetime {
        pub fn from_ymd(year: i32, month: u8, day: u8) -> Option<Self> {
            Some(Datetime::Date(
                time::Date::from_calendar_date(year, time::Month::try_from(month).ok()?, day).ok()?,
            ))
        }
    }
}

pub mod visualize {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Color(u32);
    impl Color {
        pub const BLACK: Self = Color(0x000000ff);
        pub const WHITE: Self = Color(0xffffffff);
        pub const RED: Self = Color(0xff4136ff);
        pub const GREEN: Self = Color(0x2ecc40ff);
        pub const BLUE: Self = Color(0x0074d9ff);
    }
    impl std::str::FromStr for Color {
        type Err = &'static str;
        fn from_str(s: &str) -> Result<Self, Self::Err> {
            u32::from_str_radix(s, 16).map(Color).map_err(|_| "color string has wrong length")
        }
    }
}

pub mod utils {
    pub trait OptionExt<T> {
        fn map_or_default<U: Default, F: FnOnce(T) -> U>(self, f: F) -> U;
    }
    impl<T> OptionExt<T> for Option<T> {
        fn map_or_default<U: Default, F: FnOnce(T) -> U>(self, f: F) -> U {
            match self {
                Some(x) => f(x),
                None => U::default(),
            }
        }
    }
    use siphasher::sip128::{Hasher128, SipHasher13};
    use std::hash::{Hash, Hasher};
    #[derive(Clone)]
    pub struct LazyHash<T: ?Sized> {
        hash: std::sync::OnceLock<u128>,
        value: T,
    }
    fn item<T: Hash + ?Sized>(v: &T) -> u128 {
        let mut s = SipHasher13::new();
        v.hash(&mut s);
        s.finish128().as_u128()
    }
    impl<T: Hash + 'static> LazyHash<T> {
        pub fn new(value: T) -> Self {
            Self { hash: Default::default(), value }
        }
        pub fn into_inner(self) -> T {
            self.value
        }
    }
    impl<T: Default + Hash + 'static> Default for LazyHash<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T: Hash + ?Sized> LazyHash<T> {
        fn item(&self) -> u128 {
            *self.hash.get_or_init(|| item(&self.value))
        }
    }
    impl<T: Hash + ?Sized> Hash for LazyHash<T> {
        fn hash<H: Hasher>(&self, s: &mut H) {
            s.write_u128(self.item())
        }
    }
    impl<T: Hash + ?Sized> PartialEq for LazyHash<T> {
        fn eq(&self, o: &Self) -> bool {
            self.item() == o.item()
        }
    }
    impl<T: Hash + ?Sized> Eq for LazyHash<T> {}
    impl<T: ?Sized> std::ops::DerefMut for LazyHash<T> {
        fn deref_mut(&mut self) -> &mut T {
            self.hash = Default::default();
            &mut self.value
        }
    }
    impl<T: ?Sized> std::ops::Deref for LazyHash<T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.value
        }
    }
    impl<T: std::fmt::Debug> std::fmt::Debug for LazyHash<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.value.fmt(f)
        }
    }
}

pub mod model {
    use ecow::EcoString;
    pub struct HeadingElem;
    #[derive(Debug, Clone, Default, PartialEq, Hash)]
    pub struct DocumentInfo {
        pub title: Option<EcoString>,
    }
}
pub mod introspection {
    use crate::foundations::{Content, Selector};
    use crate::layout::{Abs, Point, Position};
    /// The elements of a document: its titles.
    #[derive(Debug, Clone, Default)]
    pub struct Introspector(pub std::sync::Arc<Vec<Content>>);
    #[derive(Debug, Clone, Copy)]
    pub struct Location(pub usize);
    impl Introspector {
        pub fn query(&self, _s: &Selector) -> Vec<Content> {
            self.0.to_vec()
        }
        /// A title is on top of the line of text that follows.
        pub fn position(&self, l: Location) -> Position {
            Position { page: std::num::NonZeroUsize::MIN, point: Point { x: Abs(0.), y: Abs(l.0 as f64) } }
        }
    }
}
pub mod layout {
    use crate::introspection::Introspector;
    use crate::model::DocumentInfo;
    #[derive(Debug, Clone, Copy, Default, PartialEq)]
    pub struct Abs(pub f64);
    impl Abs {
        pub fn to_pt(self) -> f64 {
            self.0
        }
        pub fn pt(v: f64) -> Self {
            Abs(v)
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Point {
        pub x: Abs,
        pub y: Abs,
    }
    impl Point {
        pub const fn new(x: Abs, y: Abs) -> Self {
            Self { x, y }
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Position {
        pub page: std::num::NonZeroUsize,
        pub point: Point,
    }
    /// Where the lines of a page come from.
    #[derive(Debug, Clone, Default)]
    pub struct Frame(pub std::sync::Arc<Vec<crate::syntax::Span>>);
    #[derive(Debug, Clone, Default)]
    pub struct Page {
        pub text: String,
        pub frame: Frame,
    }
    #[derive(Debug, Clone, Default)]
    pub struct PagedDocument {
        pub pages: Vec<Page>,
        pub info: DocumentInfo,
        pub introspector: Introspector,
    }
}
pub mod html {
    #[derive(Debug, Clone, Default)]
    pub struct HtmlDocument {
        pub text: String,
        pub info: crate::model::DocumentInfo,
        pub introspector: crate::introspection::Introspector,
    }
}
pub mod text {
    use crate::foundations::Bytes;
    #[derive(Debug, Clone, PartialEq, Hash)]
    pub struct Font(Bytes, u32);
    impl Font {
        pub fn new(data: Bytes, index: u32) -> Option<Self> {
            Some(Font(data, index))
        }
    }
    #[derive(Debug, Clone, Copy, Default, PartialEq, Hash)]
    pub struct FontVariant;
    #[derive(Debug, Clone, Default, PartialEq, Hash)]
    pub struct Coverage;
    impl Coverage {
        pub fn iter(&self) -> impl Iterator<Item = u32> {
            std::iter::empty()
        }
    }
    #[derive(Debug, Clone, Default, PartialEq, Hash)]
    pub struct FontInfo {
        pub family: String,
        pub variant: FontVariant,
        pub coverage: Coverage,
    }
    #[derive(Debug, Clone, Default, Hash)]
    pub struct FontBook {
        infos: Vec<FontInfo>,
    }
    impl FontBook {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn push(&mut self, info: FontInfo) {
            self.infos.push(info)
        }
        pub fn info(&self, index: usize) -> Option<&FontInfo> {
            self.infos.get(index)
        }
        pub fn select_fallback(&self, _like: Option<&FontInfo>, _v: FontVariant, _t: &str) -> Option<usize> {
            (!self.infos.is_empty()).then_some(0)
        }
    }
}

#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
#[non_exhaustive]
pub enum Feature {
    Html,
}
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)]
pub struct Features(bool);
impl From<Feature> for Features {
    fn from(f: Feature) -> Self {
        Features::from_iter([f])
    }
}
impl Features {
    pub fn is_enabled(&self, _f: Feature) -> bool {
        self.0
    }
}
impl FromIterator<Feature> for Features {
    fn from_iter<T: IntoIterator<Item = Feature>>(iter: T) -> Self {
        Features(iter.into_iter().next().is_some())
    }
}
#[derive(Debug, Clone, Default, Hash)]
pub struct Library {
    pub inputs: foundations::Dict,
    pub features: Features,
}
#[derive(Debug, Clone, Default)]
pub struct LibraryBuilder {
    inputs: Option<foundations::Dict>,
    features: Features,
}
impl Library {
    pub fn builder() -> LibraryBuilder {
        LibraryBuilder::default()
    }
}
impl LibraryBuilder {
    pub fn with_inputs(mut self, inputs: foundations::Dict) -> Self {
        self.inputs = Some(inputs);
        self
    }
    pub fn with_features(mut self, features: Features) -> Self {
        self.features = features;
        self
    }
    pub fn build(self) -> Library {
        Library { inputs: self.inputs.unwrap_or_default(), features: self.features }
    }
}

use std::sync::Arc;
use diag::{eco_format, At, EcoString, EcoVec, FileResult, SourceDiagnostic, SourceResult, Warned};
use syntax::{FileId, Source, Span, Spanned};

pub trait World: Send + Sync {
    fn library(&self) -> &utils::LazyHash<Library>;
    fn book(&self) -> &utils::LazyHash<text::FontBook>;
    fn main(&self) -> FileId;
    fn source(&self, id: FileId) -> FileResult<Source>;
    fn file(&self, id: FileId) -> FileResult<foundations::Bytes>;
    fn font(&self, index: usize) -> Option<text::Font>;
    fn today(&self, offset: Option<i64>) -> Option<foundations::Datetime>;
}
pub trait WorldExt {
    fn range(&self, span: Span) -> Option<std::ops::Range<usize>>;
}
impl<T: World + ?Sized> WorldExt for T {
    fn range(&self, span: Span) -> Option<std::ops::Range<usize>> {
        self.source(span.id()?).ok()?.range(span)
    }
}

pub trait Document {
    fn info(&self) -> &model::DocumentInfo;
    fn make(c: Made) -> Self
    where
        Self: Sized;
}
impl Document for layout::PagedDocument {
    fn info(&self) -> &model::DocumentInfo {
        &self.info
    }
    fn make(c: Made) -> Self {
        let mut p = vec![layout::Page::default(); c.pages];
        p[0].text = c.text;
        p[0].frame = layout::Frame(Arc::new(c.spans));
        Self { pages: p, info: c.info, introspector: introspection::Introspector(Arc::new(c.headings)) }
    }
}
impl Document for html::HtmlDocument {
    fn info(&self) -> &model::DocumentInfo {
        &self.info
    }
    fn make(c: Made) -> Self {
        Self { text: c.text, info: c.info, introspector: introspection::Introspector(Arc::new(c.headings)) }
    }
}

/// Compiling takes time.
pub mod sim {
    /// Called as a compilation starts (0) and as it has read a source (1).
    pub static PAUSE: std::sync::Mutex<Option<fn(u32)>> = std::sync::Mutex::new(None);
    pub fn pause(n: u32) {
        let f = *PAUSE.lock().unwrap();
        if let Some(f) = f {
            f(n)
        }
    }
}

/// What documents are made of.
#[derive(Default)]
pub struct Made {
    pub text: String,
    /// where each line of the text comes from
    pub spans: Vec<Span>,
    pub pages: usize,
    pub info: model::DocumentInfo,
    pub headings: Vec<foundations::Content>,
}
struct Ctx {
    made: Made,
    depth: usize,
    errors: EcoVec<SourceDiagnostic>,
    warnings: EcoVec<SourceDiagnostic>,
}

/// Compiles the world's main file: a line is text, or `#include P` (a source
/// file), `#read P` (any file), `#error M`, `#warn M`, `#title T`, `#page`.
pub fn compile<D: Document>(world: &dyn World) -> Warned<SourceResult<D>> {
    sim::pause(0);
    let mut c = Ctx {
        made: Made { pages: 1, ..Made::default() },
        depth: 0,
        errors: EcoVec::new(),
        warnings: EcoVec::new(),
    };
    if let Err(e) = source(world, world.main(), &mut c, Span::detached()) {
        c.errors.extend(e);
    }
    let output = if c.errors.is_empty() { Ok(D::make(c.made)) } else { Err(c.errors) };
    Warned { output, warnings: c.warnings }
}

fn target(id: FileId, p: &str) -> Result<FileId, EcoString> {
    let p = p.trim().trim_matches('"');
    if p.starts_with('@') {
        let spec: syntax::package::PackageSpec = p.parse()?;
        return Ok(FileId::new(Some(spec), syntax::VirtualPath::new("lib.typ")));
    }
    Ok(id.join(p))
}

fn source(world: &dyn World, id: FileId, c: &mut Ctx, at: Span) -> SourceResult<()> {
    if c.depth > 6 {
        return Err(eco_format!("too deep")).at(at);
    }
    let src = world.source(id).at(at)?;
    sim::pause(1);
    c.depth += 1;
    for (n, line) in src.text().lines().enumerate() {
        let span = Span::line(id, n);
        if let Some(p) = line.strip_prefix("#include ") {
            let t = target(id, p).at(span)?;
            let (e, w) = (c.errors.len(), c.warnings.len());
            let r = source(world, t, c, span);
            let trace = |d: &mut SourceDiagnostic| {
                if d.span != span {
                    d.trace.push(Spanned::new(diag::Tracepoint::Import, span))
                }
            };
            c.errors.make_mut()[e..].iter_mut().for_each(trace);
            c.warnings.make_mut()[w..].iter_mut().for_each(trace);
            if let Err(mut e) = r {
                e.make_mut().iter_mut().for_each(trace);
                return Err(e);
            }
        } else if let Some(p) = line.strip_prefix("#read ") {
            let t = target(id, p).at(span)?;
            let b = world.file(t).at(span)?;
            let text = String::from_utf8_lossy(&b);
            c.made.spans.extend(text.split('\n').map(|_| span));
            c.made.text.push_str(&text);
            c.made.text.push('\n');
        } else if let Some(m) = line.strip_prefix("#error ") {
            c.errors.push(SourceDiagnostic::error(span, m));
        } else if let Some(m) = line.strip_prefix("#warn ") {
            c.warnings.push(SourceDiagnostic::warning(span, m));
        } else if line.starts_with("#lint ") {
            // says nothing in the document
        } else if let Some(t) = line.strip_prefix("#title ") {
            c.made.info.title = Some(t.into());
            c.made.headings.push(foundations::Content::heading(t.into(), span, c.made.spans.len()));
        } else if line == "#page" {
            c.made.pages += 1;
        } else {
            c.made.spans.push(span);
            c.made.text.push_str(line);
            c.made.text.push('\n');
        }
    }
    c.depth -= 1;
    Ok(())
}
