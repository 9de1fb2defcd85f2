//! Virtual file system seen by the code under test.
use std::collections::BTreeMap;
use std::io;

#[derive(Clone)]
pub enum Entry {
    Data(Vec<u8>),
    Error(io::ErrorKind),
}

#[derive(Default)]
pub struct Vfs {
    pub files: BTreeMap<String, Entry>,
    pub reads: Vec<String>,
    /// Reads return short counts.
    pub short_reads: bool,
    /// One-shot fault: the n-th file read from now fails with this error.
    pub fail_in: Option<(u32, io::ErrorKind)>,
}

pub fn read(path: &str) -> io::Result<Vec<u8>> {
    crate::world::with(|w| {
        w.fs.reads.push(path.to_string());
        w.logf(|| format!("fs read {path}"));
        if let Some((n, kind)) = w.fs.fail_in {
            if n == 0 {
                w.fs.fail_in = None;
                w.fault("fs.read_error");
                return Err(io::Error::new(kind, "simulated file error"));
            }
            w.fs.fail_in = Some((n - 1, kind));
        }
        match w.fs.files.get(path) {
            None => {
                w.fault("fs.not_found");
                Err(io::Error::new(io::ErrorKind::NotFound, "No such file or directory"))
            }
            Some(Entry::Error(kind)) => {
                let kind = *kind;
                w.fault("fs.open_error");
                Err(io::Error::new(kind, "simulated file error"))
            }
            Some(Entry::Data(d)) => Ok(d.clone()),
        }
    })
}
