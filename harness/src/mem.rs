//! Memory helpers: guard-paged buffers and file-backed mappings.
use std::ptr;

/// Map a file shared, so its content survives a crash of this process.
pub fn map_file(path: &str, len: usize) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .read(true)
        .write(true)
        .open(path)
        .unwrap();
    f.set_len(len as u64).unwrap();
    // SAFETY: plain mmap of a file of that length
    let p = unsafe {
        libc::mmap(
            ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p.cast()
}

/// A region between two inaccessible pages. `tail(n)` ends exactly at the upper
/// guard page, `head(n)` begins exactly at the lower one.
pub struct Guarded {
    base: *mut u8,
    inner: usize,
}

const PAGE: usize = 4096;

impl Guarded {
    pub fn new(len: usize) -> Self {
        let inner = len.div_ceil(PAGE).max(1) * PAGE;
        // SAFETY: anonymous mapping, then protections on its end pages
        unsafe {
            let p = libc::mmap(
                ptr::null_mut(),
                inner + 2 * PAGE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let base: *mut u8 = p.cast();
            assert_eq!(libc::mprotect(base.cast(), PAGE, libc::PROT_NONE), 0);
            assert_eq!(
                libc::mprotect(base.add(PAGE + inner).cast(), PAGE, libc::PROT_NONE),
                0
            );
            Self { base, inner }
        }
    }
    pub fn capacity(&self) -> usize {
        self.inner
    }
    #[allow(clippy::mut_from_ref)]
    pub fn all(&self) -> &mut [u8] {
        // SAFETY: the inner pages are mapped read/write
        unsafe { std::slice::from_raw_parts_mut(self.base.add(PAGE), self.inner) }
    }
    /// ends at the guard page
    #[allow(clippy::mut_from_ref)]
    pub fn tail(&self, n: usize) -> &mut [u8] {
        let a = self.all();
        let l = a.len();
        &mut a[l - n..]
    }
    /// starts at the guard page
    #[allow(clippy::mut_from_ref)]
    pub fn head(&self, n: usize) -> &mut [u8] {
        &mut self.all()[..n]
    }
    /// ends `off` bytes before the guard page
    #[allow(clippy::mut_from_ref)]
    pub fn tail_off(&self, n: usize, off: usize) -> &mut [u8] {
        let a = self.all();
        let l = a.len();
        &mut a[l - off - n..l - off]
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        // SAFETY: mapping made in new
        unsafe {
            libc::munmap(self.base.cast(), self.inner + 2 * PAGE);
        }
    }
}
