use crate::error::{err, Error, ErrorKind};
use std::fmt;
use std::ops::{Deref, Range};

pub trait WriteBuffer: fmt::Debug {
    fn buffer_write(&mut self, data: &[u8]) -> Result<(), Error>;
}

pub trait ResizeBuffer: WriteBuffer + AsRef<[u8]> + AsMut<[u8]> {
    fn buffer_insert(&mut self, pos: usize, data: &[u8]) -> Result<(), Error>;
    fn buffer_remove(&mut self, range: Range<usize>) -> Result<(), Error>;
    fn buffer_resize(&mut self, len: usize) -> Result<(), Error>;
    fn buffer_extend(&mut self, len: usize) -> Result<&mut [u8], Error> {
        let pos = self.as_ref().len();
        self.buffer_resize(pos + len)?;
        Ok(&mut self.as_mut()[pos..(pos + len)])
    }
}

impl WriteBuffer for Vec<u8> {
    fn buffer_write(&mut self, data: &[u8]) -> Result<(), Error> {
        self.extend_from_slice(data);
        Ok(())
    }
}

impl ResizeBuffer for Vec<u8> {
    fn buffer_insert(&mut self, pos: usize, data: &[u8]) -> Result<(), Error> {
        if pos > self.len() {
            return err(ErrorKind::ExceededBuffer, "insert out of range");
        }
        self.splice(pos..pos, data.iter().cloned());
        Ok(())
    }
    fn buffer_remove(&mut self, range: Range<usize>) -> Result<(), Error> {
        if range.end > self.len() || range.start > range.end {
            return err(ErrorKind::ExceededBuffer, "remove out of range");
        }
        self.drain(range);
        Ok(())
    }
    fn buffer_resize(&mut self, len: usize) -> Result<(), Error> {
        self.resize(len, 0);
        Ok(())
    }
}

/// A heap-allocated secret buffer.
#[derive(Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct SecretBytes(Vec<u8>);

impl SecretBytes {
    pub fn new_with(len: usize, f: impl FnOnce(&mut [u8])) -> Self {
        let mut s = Self::with_capacity(len);
        s.0.resize(len, 0);
        f(s.0.as_mut());
        s
    }
    pub fn with_capacity(max_len: usize) -> Self {
        SecretBytes(Vec::with_capacity(max_len))
    }
    pub fn from_slice(data: &[u8]) -> Self {
        SecretBytes(data.to_vec())
    }
    pub fn from_slice_reserve(data: &[u8], reserve: usize) -> Self {
        let mut v = Vec::with_capacity(data.len() + reserve);
        v.extend_from_slice(data);
        SecretBytes(v)
    }
    pub fn as_opt_str(&self) -> Option<&str> {
        std::str::from_utf8(&self.0).ok()
    }
    pub fn ensure_capacity(&mut self, min: usize) {
        if self.0.capacity() < min {
            self.0.reserve(min - self.0.len());
        }
    }
    pub fn extend_from_slice(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data)
    }
    pub fn reserve(&mut self, extra: usize) {
        self.0.reserve(extra)
    }
    pub fn shrink_to_fit(&mut self) {
        self.0.shrink_to_fit()
    }
    pub fn into_vec(self) -> Vec<u8> {
        self.0
    }
    pub fn into_boxed_slice(self) -> Box<[u8]> {
        self.0.into_boxed_slice()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}

impl fmt::Debug for SecretBytes {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("<secret>")
    }
}
impl AsRef<[u8]> for SecretBytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for SecretBytes {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl Deref for SecretBytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl From<&[u8]> for SecretBytes {
    fn from(d: &[u8]) -> Self {
        SecretBytes(d.to_vec())
    }
}
impl From<&str> for SecretBytes {
    fn from(d: &str) -> Self {
        SecretBytes(d.as_bytes().to_vec())
    }
}
impl From<String> for SecretBytes {
    fn from(d: String) -> Self {
        SecretBytes(d.into_bytes())
    }
}
impl From<Vec<u8>> for SecretBytes {
    fn from(d: Vec<u8>) -> Self {
        SecretBytes(d)
    }
}
impl From<Box<[u8]>> for SecretBytes {
    fn from(d: Box<[u8]>) -> Self {
        SecretBytes(d.into_vec())
    }
}
impl PartialEq<[u8]> for SecretBytes {
    fn eq(&self, o: &[u8]) -> bool {
        &self.0[..] == o
    }
}
impl PartialEq<&[u8]> for SecretBytes {
    fn eq(&self, o: &&[u8]) -> bool {
        &self.0[..] == *o
    }
}
impl PartialEq<Vec<u8>> for SecretBytes {
    fn eq(&self, o: &Vec<u8>) -> bool {
        &self.0 == o
    }
}
impl WriteBuffer for SecretBytes {
    fn buffer_write(&mut self, data: &[u8]) -> Result<(), Error> {
        self.0.buffer_write(data)
    }
}
impl ResizeBuffer for SecretBytes {
    fn buffer_insert(&mut self, pos: usize, data: &[u8]) -> Result<(), Error> {
        self.0.buffer_insert(pos, data)
    }
    fn buffer_remove(&mut self, range: Range<usize>) -> Result<(), Error> {
        self.0.buffer_remove(range)
    }
    fn buffer_resize(&mut self, len: usize) -> Result<(), Error> {
        self.0.buffer_resize(len)
    }
}

/// A fixed-size byte array (stands in for askar's generic-array based one).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct ArrayKey<const N: usize>(pub [u8; N]);

impl<const N: usize> AsRef<[u8]> for ArrayKey<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
