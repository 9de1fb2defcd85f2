//! Stand-in for rustls-pemfile 2: PEM sections from a reader.
use std::io::{self, BufRead, ErrorKind};

use rustls::pki_types::{CertificateDer, PrivateKeyDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer, PrivateSec1KeyDer};

fn b64(s: &str) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            b'=' => continue,
            _ => return None,
        };
        acc = acc << 6 | v as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(out)
}

fn next(rd: &mut dyn BufRead) -> io::Result<Option<(String, Vec<u8>)>> {
    let mut section: Option<(String, String)> = None;
    loop {
        let mut line = Vec::new();
        if rd.read_until(b'\n', &mut line)? == 0 {
            return match section {
                Some((label, _)) => Err(io::Error::new(
                    ErrorKind::InvalidData,
                    format!("section end \"-----END {label}-----\" missing"),
                )),
                None => Ok(None),
            };
        }
        let line = String::from_utf8_lossy(&line).trim().to_string();
        if let Some(l) = line.strip_prefix("-----BEGIN ") {
            section = Some((l.trim_end_matches('-').to_string(), String::new()));
        } else if line.starts_with("-----END ") {
            if let Some((label, text)) = section.take() {
                return match b64(&text) {
                    Some(d) => Ok(Some((label, d))),
                    None => Err(io::Error::new(ErrorKind::InvalidData, "base64 decode error")),
                };
            }
        } else if let Some((_, text)) = &mut section {
            text.push_str(&line);
        }
    }
}

fn items<'a, T>(
    rd: &'a mut dyn BufRead,
    f: impl Fn(&str, Vec<u8>) -> Option<T> + 'a,
) -> impl Iterator<Item = Result<T, io::Error>> + 'a {
    let mut dead = false;
    std::iter::from_fn(move || loop {
        if dead {
            return None;
        }
        match next(rd) {
            Err(e) => {
                dead = true;
                return Some(Err(e));
            }
            Ok(None) => return None,
            Ok(Some((l, d))) => {
                if let Some(t) = f(&l, d) {
                    return Some(Ok(t));
                }
            }
        }
    })
}

pub fn certs(rd: &mut dyn BufRead) -> impl Iterator<Item = Result<CertificateDer<'static>, io::Error>> + '_ {
    items(rd, |l, d| (l == "CERTIFICATE").then(|| CertificateDer::from(d)))
}

pub fn pkcs8_private_keys(
    rd: &mut dyn BufRead,
) -> impl Iterator<Item = Result<PrivatePkcs8KeyDer<'static>, io::Error>> + '_ {
    items(rd, |l, d| (l == "PRIVATE KEY").then(|| PrivatePkcs8KeyDer::from(d)))
}

pub fn private_key(rd: &mut dyn BufRead) -> Result<Option<PrivateKeyDer<'static>>, io::Error> {
    let r = items(rd, |l, d| match l {
        "PRIVATE KEY" => Some(PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(d))),
        "RSA PRIVATE KEY" => Some(PrivateKeyDer::Pkcs1(PrivatePkcs1KeyDer::from(d))),
        "EC PRIVATE KEY" => Some(PrivateKeyDer::Sec1(PrivateSec1KeyDer::from(d))),
        _ => None,
    })
    .next()
    .transpose();
    r
}
