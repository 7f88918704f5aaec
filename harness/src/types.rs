//! One uniform view of every primitive type of the library, so that the same monitors run over all.
use cesride::{
    Bexter, Cigar, Dater, Diger, Indexer, Matter, Number, Pather, Prefixer, Saider, Salter, Seqner,
    Siger, Signer, Verfer,
};

pub type R<T> = Result<T, String>;
pub fn es<T, E: std::fmt::Debug>(r: Result<T, E>) -> R<T> {
    r.map_err(|e| format!("{e:?}"))
}

/// A bare implementation of the public codec trait: accepts every code of the table.
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Bare {
    pub code: String,
    pub raw: Vec<u8>,
    pub size: u32,
}
impl Matter for Bare {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn size(&self) -> u32 {
        self.size
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string();
    }
    fn set_size(&mut self, size: u32) {
        self.size = size;
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct BareIx {
    pub code: String,
    pub raw: Vec<u8>,
    pub index: u32,
    pub ondex: u32,
}
impl Indexer for BareIx {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string();
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
    fn index(&self) -> u32 {
        self.index
    }
    fn set_index(&mut self, index: u32) {
        self.index = index;
    }
    fn ondex(&self) -> u32 {
        self.ondex
    }
    fn set_ondex(&mut self, ondex: u32) {
        self.ondex = ondex;
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct View {
    pub code: String,
    pub raw: Vec<u8>,
    pub size: u32,
    pub qb64: R<String>,
    pub qb64b: R<Vec<u8>>,
    pub qb2: R<Vec<u8>>,
    pub full: R<usize>,
    pub transferable: bool,
    pub digestive: bool,
}

pub fn view<M: Matter>(m: &M) -> View {
    View {
        code: m.code(),
        raw: m.raw(),
        size: m.size(),
        qb64: es(m.qb64()),
        qb64b: es(m.qb64b()),
        qb2: es(m.qb2()),
        full: es(m.full_size()),
        transferable: m.transferable(),
        digestive: m.digestive(),
    }
}

pub struct Ty {
    pub name: &'static str,
    pub codes: &'static [&'static str],
    /// code taken when raw material is given without one (None: refuses)
    pub default: Option<&'static str>,
    pub raw: fn(&[u8], Option<&str>) -> R<View>,
    pub text: fn(&str) -> R<View>,
    pub bytes: fn(&[u8]) -> R<View>,
    pub bin: fn(&[u8]) -> R<View>,
    /// text together with an explicit code argument through the general constructor
    pub text_with_code: fn(&str, &str) -> R<View>,
    pub bin_with_code: fn(&[u8], &str) -> R<View>,
}

macro_rules! v {
    ($e:expr) => {
        es($e).map(|m| view(&m))
    };
}

const VERKEYS: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];
const DIGESTS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
const PREFIX: &[&str] =
    &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
const STRB64: &[&str] = &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"];

pub const TYPES: &[Ty] = &[
    Ty {
        name: "Bare",
        codes: &[],
        default: None,
        raw: |r, c| v!(<Bare as Matter>::new(c, Some(r), None, None, None)),
        text: |s| v!(<Bare as Matter>::new_with_qb64(s)),
        bytes: |s| v!(<Bare as Matter>::new_with_qb64b(s)),
        bin: |s| v!(<Bare as Matter>::new_with_qb2(s)),
        text_with_code: |s, c| v!(<Bare as Matter>::new(Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(<Bare as Matter>::new(Some(c), None, None, None, Some(s))),
    },
    Ty {
        name: "Verfer",
        codes: VERKEYS,
        default: Some("B"),
        raw: |r, c| v!(Verfer::new_with_raw(r, c)),
        text: |s| v!(Verfer::new_with_qb64(s)),
        bytes: |s| v!(Verfer::new_with_qb64b(s)),
        bin: |s| v!(Verfer::new_with_qb2(s)),
        text_with_code: |s, c| v!(Verfer::new(Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(Verfer::new(Some(c), None, None, None, Some(s))),
    },
    Ty {
        name: "Cigar",
        codes: &["0B", "0C", "0I"],
        default: None,
        raw: |r, c| v!(Cigar::new_with_raw(r, None, c)),
        text: |s| v!(Cigar::new_with_qb64(s, None)),
        bytes: |s| v!(Cigar::new_with_qb64b(s, None)),
        bin: |s| v!(Cigar::new_with_qb2(s, None)),
        text_with_code: |s, c| v!(Cigar::new(None, Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(Cigar::new(None, Some(c), None, None, None, Some(s))),
    },
    Ty {
        name: "Signer",
        codes: &["A", "J", "Q"],
        default: Some("A"),
        raw: |r, c| v!(Signer::new_with_raw(r, None, c)),
        text: |s| v!(Signer::new_with_qb64(s, None)),
        bytes: |s| v!(Signer::new_with_qb64b(s, None)),
        bin: |s| v!(Signer::new_with_qb2(s, None)),
        text_with_code: |s, c| v!(Signer::new(None, Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(Signer::new(None, Some(c), None, None, None, Some(s))),
    },
    Ty {
        name: "Salter",
        codes: &["0A"],
        default: Some("0A"),
        raw: |r, c| v!(Salter::new_with_raw(r, c, None)),
        text: |s| v!(Salter::new_with_qb64(s, None)),
        bytes: |s| v!(Salter::new_with_qb64b(s, None)),
        bin: |s| v!(Salter::new_with_qb2(s, None)),
        text_with_code: |s, c| v!(Salter::new(None, Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(Salter::new(None, Some(c), None, None, None, Some(s))),
    },
    Ty {
        name: "Diger",
        codes: DIGESTS,
        default: None,
        raw: |r, c| v!(Diger::new_with_raw(r, c)),
        text: |s| v!(Diger::new_with_qb64(s)),
        bytes: |s| v!(Diger::new_with_qb64b(s)),
        bin: |s| v!(Diger::new_with_qb2(s)),
        text_with_code: |s, c| v!(Diger::new(None, Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(Diger::new(None, Some(c), None, None, None, Some(s))),
    },
    Ty {
        name: "Saider",
        codes: DIGESTS,
        default: None,
        raw: |r, c| v!(Saider::new_with_raw(r, c)),
        text: |s| v!(Saider::new_with_qb64(s)),
        bytes: |s| v!(Saider::new_with_qb64b(s)),
        bin: |s| v!(Saider::new_with_qb2(s)),
        text_with_code: |s, c| v!(Saider::new(None, None, None, None, Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(Saider::new(None, None, None, None, Some(c), None, None, None, Some(s))),
    },
    Ty {
        name: "Prefixer",
        codes: PREFIX,
        default: None,
        raw: |r, c| v!(Prefixer::new_with_raw(r, c)),
        text: |s| v!(Prefixer::new_with_qb64(s)),
        bytes: |s| v!(Prefixer::new_with_qb64b(s)),
        bin: |s| v!(Prefixer::new_with_qb2(s)),
        text_with_code: |s, c| v!(Prefixer::new(None, None, Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(Prefixer::new(None, None, Some(c), None, None, None, Some(s))),
    },
    Ty {
        name: "Number",
        codes: &["M", "0H", "N", "0A"],
        default: Some("M"),
        raw: |r, c| v!(Number::new_with_raw(r, c)),
        text: |s| v!(Number::new_with_qb64(s)),
        bytes: |s| v!(Number::new_with_qb64b(s)),
        bin: |s| v!(Number::new_with_qb2(s)),
        text_with_code: |s, c| v!(Number::new(None, None, Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(Number::new(None, None, Some(c), None, None, None, Some(s))),
    },
    Ty {
        name: "Seqner",
        codes: &["0A"],
        default: Some("0A"),
        raw: |r, c| v!(Seqner::new_with_raw(r, c)),
        text: |s| v!(Seqner::new_with_qb64(s)),
        bytes: |s| v!(Seqner::new_with_qb64b(s)),
        bin: |s| v!(Seqner::new_with_qb2(s)),
        text_with_code: |s, c| v!(Seqner::new(None, None, Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(Seqner::new(None, None, Some(c), None, None, None, Some(s))),
    },
    Ty {
        name: "Dater",
        codes: &["1AAG"],
        default: Some("1AAG"),
        raw: |r, c| v!(Dater::new_with_raw(r, c)),
        text: |s| v!(Dater::new_with_qb64(s)),
        bytes: |s| v!(Dater::new_with_qb64b(s)),
        bin: |s| v!(Dater::new_with_qb2(s)),
        text_with_code: |s, c| v!(Dater::new(None, Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(Dater::new(None, Some(c), None, None, None, Some(s))),
    },
    Ty {
        name: "Bexter",
        codes: STRB64,
        default: Some("4A"),
        raw: |r, c| v!(Bexter::new_with_raw(r, c)),
        text: |s| v!(Bexter::new_with_qb64(s)),
        bytes: |s| v!(Bexter::new_with_qb64b(s)),
        bin: |s| v!(Bexter::new_with_qb2(s)),
        text_with_code: |s, c| v!(Bexter::new(None, Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(Bexter::new(None, Some(c), None, None, None, Some(s))),
    },
    Ty {
        name: "Pather",
        codes: STRB64,
        default: Some("4A"),
        raw: |r, c| v!(Pather::new_with_raw(r, c)),
        text: |s| v!(Pather::new_with_qb64(s)),
        bytes: |s| v!(Pather::new_with_qb64b(s)),
        bin: |s| v!(Pather::new_with_qb2(s)),
        text_with_code: |s, c| v!(Pather::new(None, None, Some(c), None, None, Some(s), None)),
        bin_with_code: |s, c| v!(Pather::new(None, None, Some(c), None, None, None, Some(s))),
    },
];

pub fn owns(t: &Ty, code: &str) -> bool {
    t.name == "Bare" || t.codes.contains(&code)
}

#[derive(Debug, Clone, PartialEq)]
pub struct IView {
    pub code: String,
    pub raw: Vec<u8>,
    pub index: u32,
    pub ondex: u32,
    pub qb64: R<String>,
    pub qb64b: R<Vec<u8>>,
    pub qb2: R<Vec<u8>>,
    pub full: R<usize>,
}
pub fn iview<M: Indexer>(m: &M) -> IView {
    IView {
        code: m.code(),
        raw: m.raw(),
        index: m.index(),
        ondex: m.ondex(),
        qb64: es(m.qb64()),
        qb64b: es(m.qb64b()),
        qb2: es(m.qb2()),
        full: es(m.full_size()),
    }
}
macro_rules! iv {
    ($e:expr) => {
        es($e).map(|m| iview(&m))
    };
}
pub struct ITy {
    pub name: &'static str,
    pub parts: fn(&str, &[u8], u32, Option<u32>) -> R<IView>,
    pub text: fn(&str) -> R<IView>,
    pub bytes: fn(&[u8]) -> R<IView>,
    pub bin: fn(&[u8]) -> R<IView>,
}
pub const ITYPES: &[ITy] = &[
    ITy {
        name: "BareIx",
        parts: |c, r, i, o| iv!(<BareIx as Indexer>::new(Some(i), o, Some(c), Some(r), None, None, None)),
        text: |s| iv!(<BareIx as Indexer>::new_with_qb64(s)),
        bytes: |s| iv!(<BareIx as Indexer>::new_with_qb64b(s)),
        bin: |s| iv!(<BareIx as Indexer>::new_with_qb2(s)),
    },
    ITy {
        name: "Siger",
        parts: |c, r, i, o| iv!(Siger::new_with_raw(r, None, Some(i), o, Some(c))),
        text: |s| iv!(Siger::new_with_qb64(s, None)),
        bytes: |s| iv!(Siger::new_with_qb64b(s, None)),
        bin: |s| iv!(Siger::new_with_qb2(s, None)),
    },
];
/// codes Siger takes
pub const SIGER_CODES: &[&str] = &["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"];
