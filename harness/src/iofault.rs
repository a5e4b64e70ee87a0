//! Readers and writers that misbehave: short transfers, interruptions, and single failing calls.
use crate::report::{guard, Case};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use std::io::{Error, ErrorKind, Read, Result, Write};

struct W {
    out: Vec<u8>,
    calls: usize,
    fail: usize,
    most: usize,
    interrupt: bool,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.calls += 1;
        if self.calls == self.fail {
            return Err(Error::new(ErrorKind::Other, "fault"));
        }
        if self.interrupt && self.calls % 2 == 1 {
            return Err(Error::new(ErrorKind::Interrupted, "again"));
        }
        let n = b.len().min(self.most);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
struct R<'a> {
    b: &'a [u8],
    calls: usize,
    fail: usize,
    most: usize,
    interrupt: bool,
}
impl Read for R<'_> {
    fn read(&mut self, o: &mut [u8]) -> Result<usize> {
        self.calls += 1;
        if self.calls == self.fail {
            return Err(Error::new(ErrorKind::Other, "fault"));
        }
        if self.interrupt && self.calls % 2 == 1 {
            return Err(Error::new(ErrorKind::Interrupted, "again"));
        }
        let n = self.b.len().min(self.most).min(o.len());
        o[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}

/// A value written to a misbehaving writer either arrives in full or the error is reported.
pub fn writing<T: CanonicalSerialize>(c: &mut Case, what: &str, v: &T, m: Compress) {
    let mut plain = vec![];
    v.serialize_with_mode(&mut plain, m).unwrap();
    let go = |fail, most, interrupt| {
        guard(|| {
            let mut w = W { out: vec![], calls: 0, fail, most, interrupt };
            let r = v.serialize_with_mode(&mut w, m).is_ok();
            (r, w.out, w.calls)
        })
    };
    let mut calls = 0;
    for (most, interrupt, name) in [(usize::MAX, false, "plain"), (1, false, "one byte at a time"), (7, true, "short and interrupted"), (usize::MAX, true, "interrupted")] {
        match go(0, most, interrupt) {
            Ok((ok, out, n)) => {
                c.check(ok && out == plain, || format!("{}: a {} writer gets {} ({} of {} bytes)", what, name, ok, out.len(), plain.len()));
                if most == usize::MAX && !interrupt {
                    calls = n;
                }
            }
            Err(p) => c.fail(format!("{}: writing panicked: {}", what, p)),
        }
    }
    let step = 1 + calls / 60;
    let off = 1 + c.below(step);
    for k in (off..=calls).step_by(step).chain([1, calls]) {
        match go(k, usize::MAX, false) {
            Ok((ok, out, _)) => {
                c.check(!ok, || format!("{}: write call {} of {} failed, yet the encoding reports success with {} of {} bytes", what, k, calls, out.len(), plain.len()));
            }
            Err(p) => c.fail(format!("{}: writing to a failing writer panicked: {}", what, p)),
        }
        c.count("failing writes", 1);
    }
}

/// The same for reading.
pub fn reading<T: CanonicalSerialize + CanonicalDeserialize>(c: &mut Case, what: &str, v: &T, m: Compress) {
    let mut plain = vec![];
    v.serialize_with_mode(&mut plain, m).unwrap();
    let go = |fail, most, interrupt| {
        guard(|| {
            let mut r = R { b: &plain, calls: 0, fail, most, interrupt };
            let t = T::deserialize_with_mode(&mut r, m, Validate::Yes).ok().map(|t| {
                let mut b = vec![];
                t.serialize_with_mode(&mut b, m).unwrap();
                b
            });
            (t, r.calls)
        })
    };
    let mut calls = 0;
    for (most, interrupt, name) in [(usize::MAX, false, "plain"), (1, false, "one byte at a time"), (5, true, "short and interrupted")] {
        match go(0, most, interrupt) {
            Ok((t, n)) => {
                c.check(t.as_ref() == Some(&plain), || format!("{}: a {} reader decodes {}", what, name, if t.is_some() { "another value" } else { "nothing" }));
                if most == usize::MAX {
                    calls = n;
                }
            }
            Err(p) => c.fail(format!("{}: reading panicked: {}", what, p)),
        }
    }
    let step = 1 + calls / 12;
    let off = 1 + c.below(step);
    for k in (off..=calls).step_by(step) {
        match go(k, usize::MAX, false) {
            Ok((t, _)) => {
                c.check(t.is_none(), || format!("{}: read call {} of {} failed, yet a value was decoded", what, k, calls));
            }
            Err(p) => c.fail(format!("{}: reading from a failing reader panicked: {}", what, p)),
        }
        c.count("failing reads", 1);
    }
}
