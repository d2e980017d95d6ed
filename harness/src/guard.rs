//! Buffers placed directly against inaccessible pages, so that an access one byte past either
//! chosen edge faults.
use std::ops::{Deref, DerefMut};

pub struct Guarded {
    map: *mut u8,
    map_len: usize,
    ptr: *mut u8,
    len: usize,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Edge {
    /// the byte after the buffer is inaccessible
    End,
    /// the byte before the buffer is inaccessible
    Start,
}
const PAGE: usize = 4096;

impl Guarded {
    pub fn new(data: &[u8], edge: Edge) -> Self {
        let body = (data.len() + PAGE - 1) / PAGE * PAGE + if data.is_empty() { PAGE } else { 0 };
        let map_len = body + 2 * PAGE;
        unsafe {
            let map = libc::mmap(
                std::ptr::null_mut(),
                map_len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(map != libc::MAP_FAILED, "mmap");
            let map = map as *mut u8;
            assert_eq!(libc::mprotect(map.cast(), PAGE, libc::PROT_NONE), 0);
            assert_eq!(libc::mprotect(map.add(PAGE + body).cast(), PAGE, libc::PROT_NONE), 0);
            let ptr = match edge {
                Edge::End => map.add(PAGE + body - data.len()),
                Edge::Start => map.add(PAGE),
            };
            // canary fill around
            std::ptr::write_bytes(map.add(PAGE), 0xC9, body);
            std::ptr::copy_nonoverlapping(data.as_ptr(), ptr, data.len());
            Guarded {
                map,
                map_len,
                ptr,
                len: data.len(),
            }
        }
    }
    /// make the buffer itself read-only
    pub fn readonly(self) -> Self {
        unsafe {
            libc::mprotect(self.map.add(PAGE).cast(), self.map_len - 2 * PAGE, libc::PROT_READ);
        }
        self
    }
    /// bytes around the buffer that were not ours to write are unchanged
    pub fn canary_ok(&self) -> bool {
        unsafe {
            let start = self.map.add(PAGE);
            let body = self.map_len - 2 * PAGE;
            let off = self.ptr.offset_from(start) as usize;
            (0..body).all(|i| (i >= off && i < off + self.len) || *start.add(i) == 0xC9)
        }
    }
}
impl Deref for Guarded {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}
impl DerefMut for Guarded {
    fn deref_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.map.cast(), self.map_len);
        }
    }
}
