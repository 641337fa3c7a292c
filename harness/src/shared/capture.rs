//! Captures what the code prints to the standard output.
#![allow(dead_code)]
use std::fs;
use std::io::{Read, Seek, Write};
use std::os::fd::AsRawFd;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
}

thread_local! {
    static FILE: std::cell::RefCell<Option<fs::File>> = const { std::cell::RefCell::new(None) };
}

pub fn stdout(f: impl FnOnce() -> Result<(), String>) -> Result<String, String> {
    FILE.with(|slot| {
        let mut slot = slot.borrow_mut();
        if slot.is_none() {
            let p = std::env::temp_dir().join(format!("vp-out-{}", std::process::id()));
            let h = fs::OpenOptions::new().create(true).read(true).write(true).truncate(true).open(&p).expect("scratch file");
            let _ = fs::remove_file(&p);
            *slot = Some(h);
        }
        let file = slot.as_mut().expect("scratch file");
        unsafe {
            ftruncate(file.as_raw_fd(), 0);
        }
        file.rewind().expect("rewind");
        let _ = std::io::stdout().flush();
        let r;
        unsafe {
            let old = dup(1);
            dup2(file.as_raw_fd(), 1);
            r = f();
            let _ = std::io::stdout().flush();
            dup2(old, 1);
            close(old);
        }
        file.rewind().expect("rewind");
        let mut s = Vec::new();
        file.read_to_end(&mut s).expect("read");
        r?;
        String::from_utf8(s).map_err(|_| "the output is not UTF-8".to_string())
    })
}
