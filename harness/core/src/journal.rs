//! A memory-mapped file per shard holding the case being executed, so that the case which killed
//! the process (abort, segfault, stack overflow) can be read back by the parent.

use std::{fs::OpenOptions, os::unix::io::AsRawFd, path::Path};

const SIZE: usize = 4 << 20;

pub struct Journal {
    ptr: *mut u8,
}

unsafe impl Send for Journal {}

impl Journal {
    pub fn create(path: &Path) -> Self {
        let f = OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .expect("journal file");
        f.set_len(SIZE as u64).expect("journal size");
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED, "mmap failed");
        Self {
            ptr: ptr as *mut u8,
        }
    }

    pub fn put(&mut self, facet: usize, bytes: &[u8]) {
        let n = bytes.len().min(SIZE - 16);
        unsafe {
            let head = self.ptr as *mut u32;
            head.write_volatile(0);
            head.add(1).write_volatile(facet as u32);
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), self.ptr.add(8), n);
            head.write_volatile(n as u32);
        }
    }

    pub fn clear(&mut self) {
        unsafe { (self.ptr as *mut u32).write_volatile(0) }
    }
}

/// Read back the case which was running, if there was one
pub fn read(path: &Path) -> Option<(usize, String)> {
    let data = std::fs::read(path).ok()?;
    let n = u32::from_ne_bytes(data.get(0..4)?.try_into().ok()?) as usize;
    let facet = u32::from_ne_bytes(data.get(4..8)?.try_into().ok()?) as usize;
    if n == 0 {
        return None;
    }
    Some((facet, String::from_utf8(data.get(8..8 + n)?.to_vec()).ok()?))
}
