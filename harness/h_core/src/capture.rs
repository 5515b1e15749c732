//! Captures what is written to standard error and standard output.

use std::io::Write;
use std::os::fd::FromRawFd;
use std::sync::OnceLock;

/// A memory file that stands for standard error for good; every capture reads
/// and empties it.
static FD: OnceLock<i32> = OnceLock::new();

/// Runs the function and returns what it wrote to file descriptor 2 (and 1).
pub fn stderr<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
  let mem = *FD.get_or_init(|| {
    let fd = unsafe { libc::memfd_create(c"stderr".as_ptr(), 0) };
    assert!(fd >= 0, "memfd_create");
    fd
  });
  unsafe {
    libc::ftruncate(mem, 0);
    libc::lseek(mem, 0, libc::SEEK_SET);
    struct Restore([i32; 2]);
    impl Drop for Restore {
      fn drop(&mut self) {
        let _ = std::io::stdout().flush();
        unsafe {
          for (i, old) in self.0.iter().enumerate() {
            libc::dup2(*old, i as i32 + 1);
            libc::close(*old);
          }
        }
      }
    }
    let _ = std::io::stdout().flush();
    let restore = Restore([libc::dup(1), libc::dup(2)]);
    libc::dup2(mem, 1);
    libc::dup2(mem, 2);
    let r = f();
    drop(restore);
    libc::lseek(mem, 0, libc::SEEK_SET);
    let mut file = std::mem::ManuallyDrop::new(std::fs::File::from_raw_fd(mem));
    let mut v = vec![];
    std::io::Read::read_to_end(&mut *file, &mut v).expect("captured text");
    (r, v)
  }
}

/// Sends everything the process writes to standard error to nowhere.
#[allow(dead_code)]
pub fn silence() {
  unsafe {
    let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
    libc::dup2(fd, 2);
    libc::close(fd);
  }
}
