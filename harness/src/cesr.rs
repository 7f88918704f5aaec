//! Independent reference model of the CESR encodings (tables written out from the specification,
//! bit-level codec written from scratch; shares nothing with the code under test).

pub const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn b64_char(i: u8) -> char {
    ALPHABET[i as usize] as char
}
pub fn b64_val(c: u8) -> Option<u8> {
    ALPHABET.iter().position(|x| *x == c).map(|x| x as u8)
}

/// bytes (multiple of 3) to text
pub fn enc(b: &[u8]) -> String {
    assert!(b.len() % 3 == 0);
    let mut s = String::with_capacity(b.len() / 3 * 4);
    for t in b.chunks(3) {
        let v = ((t[0] as u32) << 16) | ((t[1] as u32) << 8) | t[2] as u32;
        for k in [18, 12, 6, 0] {
            s.push(b64_char(((v >> k) & 63) as u8));
        }
    }
    s
}
/// text (multiple of 4) to bytes; None outside the alphabet
pub fn dec(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::with_capacity(s.len() / 4 * 3);
    for q in s.chunks(4) {
        let mut v = 0u32;
        for c in q {
            v = (v << 6) | b64_val(*c)? as u32;
        }
        out.extend_from_slice(&[(v >> 16) as u8, (v >> 8) as u8, v as u8]);
    }
    Some(out)
}
/// integer to exactly n base64 digits
pub fn int_b64(mut v: u64, n: usize) -> String {
    let mut d = vec![b'A'; n];
    for i in (0..n).rev() {
        d[i] = ALPHABET[(v & 63) as usize];
        v >>= 6;
    }
    assert!(v == 0, "does not fit");
    String::from_utf8(d).unwrap()
}
pub fn b64_int(s: &[u8]) -> Option<u64> {
    let mut v = 0u64;
    for c in s {
        v = (v << 6) | b64_val(*c)? as u64;
    }
    Some(v)
}

#[derive(Clone, Copy, Debug)]
pub struct MCode {
    pub code: &'static str,
    /// raw size, None for variable length
    pub raw: Option<usize>,
    pub lead: usize,
    pub soft: usize,
}

const fn f(code: &'static str, raw: usize) -> MCode {
    MCode { code, raw: Some(raw), lead: 0, soft: 0 }
}
const fn v(code: &'static str, lead: usize, soft: usize) -> MCode {
    MCode { code, raw: None, lead, soft }
}

pub const MATTER: &[MCode] = &[
    f("A", 32), f("B", 32), f("C", 32), f("D", 32), f("E", 32), f("F", 32), f("G", 32), f("H", 32),
    f("I", 32), f("J", 32), f("K", 56), f("L", 56), f("M", 2), f("N", 8), f("O", 32), f("P", 92),
    f("Q", 32),
    f("0A", 16), f("0B", 64), f("0C", 64), f("0D", 64), f("0E", 64), f("0F", 64), f("0G", 64),
    f("0H", 4), f("0I", 64),
    f("1AAA", 33), f("1AAB", 33), f("1AAC", 57), f("1AAD", 57), f("1AAE", 39), f("1AAF", 3),
    f("1AAG", 24), f("1AAH", 72), f("1AAI", 33), f("1AAJ", 33),
    MCode { code: "2AAA", raw: Some(2), lead: 1, soft: 0 },
    MCode { code: "3AAA", raw: Some(1), lead: 2, soft: 0 },
    v("4A", 0, 2), v("5A", 1, 2), v("6A", 2, 2), v("7AAA", 0, 4), v("8AAA", 1, 4), v("9AAA", 2, 4),
    v("4B", 0, 2), v("5B", 1, 2), v("6B", 2, 2), v("7AAB", 0, 4), v("8AAB", 1, 4), v("9AAB", 2, 4),
];

pub fn mcode(code: &str) -> Option<&'static MCode> {
    MATTER.iter().find(|c| c.code == code)
}

/// hard-code length by first character of an unindexed primitive
pub fn hard_len(c: u8) -> Option<usize> {
    match c {
        b'A'..=b'Z' | b'a'..=b'z' => Some(1),
        b'0' | b'4' | b'5' | b'6' => Some(2),
        b'1' | b'2' | b'3' | b'7' | b'8' | b'9' => Some(4),
        _ => None,
    }
}

/// the code that variable-length material of n bytes must get, given any code of its family
pub fn var_code(code: &str, n: usize) -> Option<&'static str> {
    let c = mcode(code)?;
    if c.raw.is_some() {
        return None;
    }
    let fam = *code.as_bytes().last().unwrap() as char;
    let lead = (3 - n % 3) % 3;
    let quads = (n + lead) / 3;
    let small_family = c.soft == 2;
    let soft = if small_family && quads < 64 * 64 {
        2
    } else if quads < 64 * 64 * 64 * 64 {
        4
    } else {
        return None;
    };
    MATTER
        .iter()
        .find(|m| m.raw.is_none() && m.soft == soft && m.lead == lead && m.code.ends_with(fam))
        .map(|m| m.code)
}

/// exact text form of a primitive with the given final code
pub fn matter_qb64(code: &str, raw: &[u8]) -> String {
    let c = mcode(code).expect("code");
    match c.raw {
        Some(n) => {
            assert_eq!(n, raw.len());
            // bits: hard code, zero pad bits, lead bytes, raw; all on a 24 bit boundary
            let pad = (3 - (raw.len() + c.lead) % 3) % 3;
            assert_eq!(code.len() % 4, pad % 4, "{code}");
            let mut b = vec![0u8; pad + c.lead];
            b.extend_from_slice(raw);
            let t = enc(&b);
            format!("{code}{}", &t[pad..])
        }
        None => {
            assert_eq!((raw.len() + c.lead) % 3, 0);
            let quads = (raw.len() + c.lead) / 3;
            let mut b = vec![0u8; c.lead];
            b.extend_from_slice(raw);
            format!("{code}{}{}", int_b64(quads as u64, c.soft), enc(&b))
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Decoded {
    pub code: String,
    pub raw: Vec<u8>,
    /// characters consumed
    pub size: usize,
}

/// strict decoding of the primitive at the front of a text
pub fn matter_decode(s: &[u8]) -> Option<Decoded> {
    let h = hard_len(*s.first()?)?;
    let code = std::str::from_utf8(s.get(..h)?).ok()?;
    let c = mcode(code)?;
    let (head, fs) = match c.raw {
        Some(n) => {
            let pad = (3 - (n + c.lead) % 3) % 3;
            (h, h + (n + c.lead + pad) / 3 * 4 - pad)
        }
        None => {
            let q = b64_int(s.get(h..h + c.soft)?)? as usize;
            (h + c.soft, h + c.soft + 4 * q)
        }
    };
    let body = s.get(head..fs)?;
    let pad = head % 4;
    let mut t = vec![b'A'; pad];
    t.extend_from_slice(body);
    let b = dec(&t)?;
    let skip = if pad != 0 { pad } else { c.lead };
    let lead = b.get(..skip)?;
    if lead.iter().any(|x| *x != 0) {
        return None;
    }
    Some(Decoded { code: code.to_string(), raw: b[skip..].to_vec(), size: fs })
}

/// strict decoding of the primitive at the front of binary data
pub fn matter_decode_b2(b: &[u8]) -> Option<Decoded> {
    // convert as much as can be converted; a primitive always ends on a 24 bit boundary
    let whole = b.len() / 3 * 3;
    let d = matter_decode(enc(&b[..whole]).as_bytes());
    d
}

// ---------------------------------------------------------------- indexed signatures

#[derive(Clone, Copy, Debug)]
pub struct ICode {
    pub code: &'static str,
    /// index digits
    pub ms: usize,
    /// other-index digits
    pub os: usize,
    pub raw: Option<usize>,
    pub lead: usize,
    pub current_only: bool,
    pub sig: bool,
}
const fn ic(code: &'static str, ms: usize, os: usize, raw: usize, current_only: bool) -> ICode {
    ICode { code, ms, os, raw: Some(raw), lead: 0, current_only, sig: true }
}
pub const INDEXED: &[ICode] = &[
    ic("A", 1, 0, 64, false), ic("B", 1, 0, 64, true), ic("C", 1, 0, 64, false),
    ic("D", 1, 0, 64, true), ic("E", 1, 0, 64, false), ic("F", 1, 0, 64, true),
    ic("0A", 1, 1, 114, false), ic("0B", 1, 1, 114, true),
    ic("2A", 2, 2, 64, false), ic("2B", 2, 2, 64, true), ic("2C", 2, 2, 64, false),
    ic("2D", 2, 2, 64, true), ic("2E", 2, 2, 64, false), ic("2F", 2, 2, 64, true),
    ic("3A", 3, 3, 114, false), ic("3B", 3, 3, 114, true),
    ICode { code: "0z", ms: 2, os: 0, raw: None, lead: 0, current_only: false, sig: false },
    ICode { code: "1z", ms: 1, os: 1, raw: Some(53), lead: 1, current_only: false, sig: false },
    ICode { code: "4z", ms: 3, os: 3, raw: Some(53), lead: 1, current_only: false, sig: false },
];

pub fn icode(code: &str) -> Option<&'static ICode> {
    INDEXED.iter().find(|c| c.code == code)
}

pub fn indexer_qb64(code: &str, raw: &[u8], index: u32, ondex: u32) -> String {
    let c = icode(code).expect("icode");
    let head = format!("{code}{}{}", int_b64(index as u64, c.ms), int_b64(ondex as u64, c.os));
    let pad = head.len() % 4;
    let zeros = if pad != 0 { pad } else { c.lead };
    let mut b = vec![0u8; zeros];
    b.extend_from_slice(raw);
    let t = enc(&b);
    format!("{head}{}", &t[pad..])
}

#[derive(Clone, Debug, PartialEq)]
pub struct IDecoded {
    pub code: String,
    pub raw: Vec<u8>,
    pub index: u32,
    /// None when the code has no other-index field and is for the current list only
    pub ondex: Option<u32>,
    pub size: usize,
}

pub fn indexer_decode(s: &[u8]) -> Option<IDecoded> {
    let h = match *s.first()? {
        b'A'..=b'Z' | b'a'..=b'z' => 1,
        b'0'..=b'4' => 2,
        _ => return None,
    };
    let code = std::str::from_utf8(s.get(..h)?).ok()?;
    let c = icode(code)?;
    let index = b64_int(s.get(h..h + c.ms)?)? as u32;
    let odx = b64_int(s.get(h + c.ms..h + c.ms + c.os)?)? as u32;
    let head = h + c.ms + c.os;
    let ondex = if c.current_only {
        if c.os > 0 && odx != 0 {
            return None;
        }
        if c.os > 0 { Some(0) } else { None }
    } else if c.os > 0 {
        Some(odx)
    } else {
        Some(index)
    };
    let pad = head % 4;
    let fs = match c.raw {
        Some(n) => {
            let zeros = if pad != 0 { pad } else { c.lead };
            head + (n + zeros) / 3 * 4 - pad
        }
        None => head + index as usize * 4,
    };
    let mut t = vec![b'A'; pad];
    t.extend_from_slice(s.get(head..fs)?);
    let b = dec(&t)?;
    let skip = if pad != 0 { pad } else { c.lead };
    if b.get(..skip)?.iter().any(|x| *x != 0) {
        return None;
    }
    Some(IDecoded { code: code.to_string(), raw: b[skip..].to_vec(), index, ondex, size: fs })
}

// ---------------------------------------------------------------- counters

pub const COUNTERS: &[(&str, usize)] = &[
    ("-A", 2), ("-B", 2), ("-C", 2), ("-D", 2), ("-E", 2), ("-F", 2), ("-G", 2), ("-H", 2),
    ("-I", 2), ("-J", 2), ("-K", 2), ("-L", 2), ("-V", 2), ("-0V", 5), ("--AAA", 3),
];
pub fn counter_soft(code: &str) -> Option<usize> {
    COUNTERS.iter().find(|c| c.0 == code).map(|c| c.1)
}
pub fn counter_qb64(code: &str, count: u32) -> String {
    format!("{code}{}", int_b64(count as u64, counter_soft(code).expect("counter")))
}
pub fn counter_decode(s: &[u8]) -> Option<(String, u32, usize)> {
    let two = s.get(..2)?;
    let h = match two {
        b"-0" => 3,
        b"--" => 5,
        _ => 2,
    };
    let code = std::str::from_utf8(s.get(..h)?).ok()?;
    let ss = counter_soft(code)?;
    let n = b64_int(s.get(h..h + ss)?)? as u32;
    Some((code.to_string(), n, h + ss))
}

/// structured hostile text generator seeds: valid encodings of every kind
pub fn valid_matter(rng: &mut crate::fw::Rng) -> (String, &'static MCode, Vec<u8>) {
    let c = rng.pick(MATTER);
    let n = match c.raw {
        Some(n) => n,
        None => {
            let q = if c.soft == 2 { rng.below(12) } else { rng.below(14) };
            if q == 0 { 0 } else { q * 3 - c.lead }
        }
    };
    let n = if c.raw.is_none() && (n + c.lead) % 3 != 0 { 3 - c.lead } else { n };
    let raw = rng.raw(n);
    (matter_qb64(c.code, &raw), c, raw)
}

// ---------------------------------------------------------------- Base64 text primitives

/// raw material and small code of a Base64URL text
pub fn bext_raw(t: &str) -> (Vec<u8>, &'static str) {
    let ts = t.len() % 4;
    let ws = (4 - ts) % 4;
    let ls = (3 - ts) % 3;
    let base = "A".repeat(ws) + t;
    let raw = dec(base.as_bytes()).expect("b64 text");
    (raw[ls..].to_vec(), ["4A", "5A", "6A"][ls])
}

pub fn bext_qb64(t: &str) -> String {
    let (raw, small) = bext_raw(t);
    let code = var_code(small, raw.len()).expect("length");
    matter_qb64(code, &raw)
}
