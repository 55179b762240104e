//! The operating system as seen by the program: command line, files and what it prints.
//! In the symbolic build the C functions below stand in for libc; the native build really starts a
//! process with the arguments, in a scratch directory with the files.
#[cfg(vp_sym)]
mod imp {
    static mut FILES: Vec<(String, Vec<u8>)> = Vec::new();
    static mut OPEN: Vec<(usize, usize)> = Vec::new();
    static mut ERRNO: i32 = 0;
    static mut ARGV: Vec<*const u8> = Vec::new();
    extern "C" {
        fn __vp_args(argc: u64, argv: *const *const u8);
    }
    pub fn file(name: &str, data: &[u8]) {
        unsafe { (*(&raw mut FILES)).push((name.to_string(), data.to_vec())) }
    }
    pub fn path(name: &str) -> std::path::PathBuf {
        name.into()
    }
    pub fn args(list: Vec<Vec<u8>>) {
        unsafe {
            let v = &mut *(&raw mut ARGV);
            v.clear();
            for mut a in list {
                a.push(0);
                v.push(Box::leak(a.into_boxed_slice()).as_ptr());
            }
            let n = v.len();
            v.push(std::ptr::null());
            __vp_args(n as u64, v.as_ptr());
        }
    }
    #[no_mangle]
    unsafe extern "C" fn open64(path: *const u8, _flags: i32, _mode: i32) -> i32 {
        let mut n = 0;
        while *path.add(n) != 0 {
            n += 1;
        }
        let p = std::slice::from_raw_parts(path, n);
        for (i, (f, _)) in (*(&raw const FILES)).iter().enumerate() {
            if f.as_bytes() == p {
                let o = &mut *(&raw mut OPEN);
                o.push((i, 0));
                return 9 + o.len() as i32;
            }
        }
        ERRNO = 2;
        -1
    }
    #[no_mangle]
    unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        let o = &mut (&mut *(&raw mut OPEN))[fd as usize - 10];
        let f = &(&*(&raw const FILES))[o.0].1;
        let k = n.min(f.len() - o.1);
        std::ptr::copy_nonoverlapping(f.as_ptr().add(o.1), buf, k);
        o.1 += k;
        k as isize
    }
    #[no_mangle]
    unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
        if fd == 1 {
            (&mut *(&raw mut OUT)).extend_from_slice(std::slice::from_raw_parts(buf, n));
        }
        n as isize
    }
    // sizes and kinds of files are not told: readers have to read until the end
    #[no_mangle]
    unsafe extern "C" fn statx(_dir: i32, _path: *const u8, _flags: i32, _mask: u32, _buf: *mut u8) -> i32 {
        ERRNO = 38;
        -1
    }
    #[no_mangle]
    unsafe extern "C" fn fstat64(_fd: i32, _buf: *mut u8) -> i32 {
        ERRNO = 38;
        -1
    }
    #[no_mangle]
    unsafe extern "C" fn lseek64(_fd: i32, _off: i64, _whence: i32) -> i64 {
        ERRNO = 29;
        -1
    }
    pub fn output() -> Vec<u8> {
        use std::io::Write;
        std::io::stdout().flush().unwrap();
        unsafe { (&*(&raw const OUT)).clone() }
    }
    static mut OUT: Vec<u8> = Vec::new();
    #[no_mangle]
    unsafe extern "C" fn close(_fd: i32) -> i32 {
        0
    }
    #[no_mangle]
    unsafe extern "C" fn __errno_location() -> *mut i32 {
        &raw mut ERRNO
    }
}
#[cfg(not(vp_sym))]
mod imp {
    use std::os::unix::process::CommandExt;
    fn dir() -> String {
        match std::env::var("VP_DIR") {
            Ok(d) => d,
            _ => {
                let d = format!("{}/vnative-{}", std::env::temp_dir().display(), std::process::id());
                std::fs::create_dir_all(&d).unwrap();
                std::env::set_var("VP_DIR", &d);
                d
            }
        }
    }
    pub fn file(name: &str, data: &[u8]) {
        std::fs::write(format!("{}/{name}", dir()), data).unwrap();
    }
    pub fn path(name: &str) -> std::path::PathBuf {
        std::path::Path::new(&dir()).join(name)
    }
    /// runs this program again with the arguments
    pub fn args(list: Vec<Vec<u8>>) {
        use std::os::unix::ffi::OsStringExt;
        let d = dir();
        let l: Vec<std::ffi::OsString> = list.into_iter().map(std::ffi::OsString::from_vec).collect();
        if std::env::var("VP_FILE").is_err() {
            let f = std::fs::canonicalize(std::env::args().nth(1).unwrap()).unwrap();
            let s = std::process::Command::new(std::env::current_exe().unwrap())
                .args(&l[1..])
                .arg0(&l[0])
                .env("VP_FILE", f)
                .current_dir(&d)
                .status();
            let _ = std::fs::remove_dir_all(&d);
            std::process::exit(s.unwrap().code().unwrap_or(1));
        }
        // from here on the standard output is a file, until output() or a panic
        use std::os::fd::IntoRawFd;
        let f = std::fs::File::create(format!("{d}/vp-out")).unwrap().into_raw_fd();
        unsafe {
            SAVED = dup(1);
            dup2(f, 1);
        }
        let h = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            restore();
            h(i)
        }));
    }
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    static mut SAVED: i32 = -1;
    fn restore() {
        use std::io::Write;
        std::io::stdout().flush().unwrap();
        unsafe {
            if SAVED >= 0 {
                dup2(SAVED, 1);
                SAVED = -1;
            }
        }
    }
    pub fn output() -> Vec<u8> {
        restore();
        std::fs::read(format!("{}/vp-out", dir())).unwrap()
    }
}
pub use imp::*;
/// `_print` does nothing in the engine: what the program prints takes this way
pub fn print(a: std::fmt::Arguments) {
    use std::io::Write;
    std::io::stdout().write_fmt(a).unwrap()
}
