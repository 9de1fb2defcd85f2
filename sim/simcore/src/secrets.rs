//! A recognisable secret for the run, and a search for any of its renderings in what the code
//! under test shows.
use std::cell::RefCell;

thread_local! {
    static SECRET: RefCell<Option<Secret>> = const { RefCell::new(None) };
}

struct Secret {
    text: String,
    label: &'static str,
    needles: Vec<String>,
    checked: u64,
}

/// Letters that never follow each other like this in anything else that is generated or printed.
const LOWER: &[u8] = b"qxzjkv";
const UPPER: &[u8] = b"QXZJKV";
const WINDOW: usize = 6;

/// From now on (to the end of the run) there is a secret.
pub fn arm(label: &'static str) -> String {
    let mut x = crate::draw(1 << 20) as u64 + 1;
    let text: String = (0..14)
        .map(|i| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let l = if i % 2 == 0 { LOWER } else { UPPER };
            l[(x >> 33) as usize % l.len()] as char
        })
        .collect();
    let b = text.as_bytes();
    let mut needles = vec![];
    for w in b.windows(WINDOW) {
        needles.push(String::from_utf8(w.to_vec()).unwrap());
        needles.extend(numbers(w));
    }
    for lead in 0..3 {
        let mut padded = vec![b'a'; lead];
        padded.extend(b);
        let enc = base64(&padded);
        // Without the characters that depend on what surrounds the secret.
        let inner = &enc[(lead * 8).div_ceil(6)..(padded.len() * 8) / 6];
        for w in inner.as_bytes().windows(8) {
            needles.push(String::from_utf8(w.to_vec()).unwrap());
        }
    }
    needles.sort();
    needles.dedup();
    SECRET.with(|s| *s.borrow_mut() = Some(Secret { text: text.clone(), label, needles, checked: 0 }));
    text
}

/// How bytes look when they are printed as numbers.
fn numbers(w: &[u8]) -> Vec<String> {
    let list = |f: fn(&u8) -> String, sep: &str| w.iter().map(f).collect::<Vec<_>>().join(sep);
    let mut v = vec![];
    for sep in ["", ":", " "] {
        v.push(list(|b| format!("{b:02x}"), sep));
        v.push(list(|b| format!("{b:02X}"), sep));
    }
    for sep in [", ", ",", " ", ",\n    ", ",\n        "] {
        v.push(list(|b| b.to_string(), sep));
        v.push(list(|b| format!("0x{b:02x}"), sep));
        v.push(list(|b| format!("{b:02x}"), sep));
    }
    v
}

/// Something else that must not be shown, too long to look for all of it: a private key
/// (PKCS #8). In it there are bytes that are no secret: algorithm, public key.
pub fn also(key: &[u8]) {
    // Elliptic curves have their scalar near the start, RSA has its primes in the middle.
    let from = if key.len() < 300 { 39 } else { key.len() / 2 / 48 * 48 };
    let w = &key[from..from + 9];
    SECRET.with(|s| {
        if let Some(s) = s.borrow_mut().as_mut() {
            s.needles.extend(numbers(w));
            // As it is in the lines of the file.
            s.needles.push(base64(w));
        }
    })
}

fn base64(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            s.push(A[(v >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    s
}

pub fn disarm() {
    SECRET.with(|s| *s.borrow_mut() = None);
}

pub fn armed() -> Option<String> {
    SECRET.with(|s| s.borrow().as_ref().map(|s| s.text.clone()))
}

/// How many texts were searched so far.
pub fn searched() -> u64 {
    SECRET.with(|s| s.borrow().as_ref().map_or(0, |s| s.checked))
}

fn found(text: &str) -> Option<(&'static str, String)> {
    SECRET.with(|s| {
        let mut s = s.try_borrow_mut().ok()?;
        let s = s.as_mut()?;
        s.checked += 1;
        // Every rendering of a secret is longer than this.
        if text.len() < WINDOW {
            return None;
        }
        s.needles.iter().find(|n| text.contains(n.as_str())).map(|n| (s.label, n.clone()))
    })
}

/// Like [`shown`], but the bytes of the secret may have ended up in `public`, the parts that are
/// no credentials: a literal that was announced too large swallows what follows it.
pub fn shown_beside(site: &str, text: &str, public: impl FnOnce() -> String) {
    if found(text).is_some() && found(&public()).is_none() {
        shown(site, text);
    }
}

/// `text` is shown to somebody who must not learn the secret.
pub fn shown(site: &str, text: &str) {
    if let Some((label, n)) = found(text) {
        crate::violate(&[label], format!("secret-shown:{site}"), format!("\"{n}\", a part of a secret, shows up in: {text}"));
    }
}
