//! An in-memory file system behind the libc calls std makes: nothing real is
//! ever read or written, neither under the engine nor in native replays.
#![allow(dead_code, static_mut_refs)]
use std::ffi::{c_char, c_int, c_void};
pub struct Node {
    pub path: String,
    pub dir: bool,
    pub data: Vec<u8>,
}
struct Fd {
    path: String,
    pos: usize,
    append: bool,
}
struct Dir {
    fd: c_int,
    names: Vec<String>,
    i: usize,
    ent: Dirent,
}
#[repr(C)]
struct Dirent {
    ino: u64,
    off: i64,
    reclen: u16,
    typ: u8,
    name: [u8; 256],
}
pub const CWD: &str = "/w";
pub static mut NODES: Vec<Node> = Vec::new();
static mut FDS: Vec<Option<Fd>> = Vec::new();
/// Every call that changed something: "write /w/a", "unlink /w/a", ...
pub static mut LOG: Vec<String> = Vec::new();
/// Paths whose writing, reading or deletion fails (EACCES).
pub static mut DENIED: Vec<String> = Vec::new();
/// What was written to standard output and standard error.
pub static mut OUT: Vec<u8> = Vec::new();
pub static mut ERR: Vec<u8> = Vec::new();
const BASE: c_int = 1000;

unsafe extern "C" {
    fn __errno_location() -> *mut c_int;
}
fn err(e: c_int) -> c_int {
    unsafe { *__errno_location() = e };
    -1
}
unsafe fn cs(p: *const c_char) -> String {
    let mut n = 0;
    unsafe {
        while *p.add(n) != 0 {
            n += 1;
        }
        String::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, n).to_vec())
    }
}
pub fn absolute(p: &str) -> String {
    let full = if p.as_bytes().first() == Some(&b'/') { p.to_string() } else { format!("{CWD}/{p}") };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    let mut s = String::new();
    for c in &out {
        s.push('/');
        s.push_str(c);
    }
    if s.is_empty() { "/".into() } else { s }
}
pub fn find(p: &str) -> Option<usize> {
    unsafe { NODES.iter().position(|n| n.path == p) }
}
fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}
pub fn add_dir(p: &str) {
    let p = absolute(p);
    if find(&p).is_none() {
        if p != "/" {
            add_dir(&parent(&p));
        }
        unsafe { NODES.push(Node { path: p, dir: true, data: vec![] }) };
    }
}
pub fn add_file(p: &str, data: &[u8]) {
    let p = absolute(p);
    add_dir(&parent(&p));
    match find(&p) {
        Some(i) => unsafe { NODES[i].data = data.to_vec() },
        None => unsafe { NODES.push(Node { path: p, dir: false, data: data.to_vec() }) },
    }
}
pub fn reset() {
    unsafe {
        NODES.clear();
        FDS.clear();
        LOG.clear();
        DENIED.clear();
    }
    add_dir(CWD);
}
pub fn file(p: &str) -> Option<&'static [u8]> {
    let i = find(&absolute(p))?;
    unsafe { if NODES[i].dir { None } else { Some(&NODES[i].data) } }
}
pub fn exists(p: &str) -> bool {
    find(&absolute(p)).is_some()
}
pub fn log() -> &'static [String] {
    unsafe { &LOG }
}
fn denied(p: &str) -> bool {
    unsafe { DENIED.iter().any(|d| d == p) }
}
fn at(fd: c_int, p: *const c_char) -> String {
    let p = unsafe { cs(p) };
    if p.as_bytes().first() != Some(&b'/') && fd >= BASE {
        let d = unsafe { FDS[(fd - BASE) as usize].as_ref().unwrap().path.clone() };
        return if p.is_empty() { d } else { absolute(&format!("{d}/{p}")) };
    }
    absolute(&p)
}
fn new_fd(f: Fd) -> c_int {
    unsafe {
        FDS.push(Some(f));
        BASE + FDS.len() as c_int - 1
    }
}
fn open_at(p: String, flags: c_int) -> c_int {
    let (acc, creat, excl, trunc, append, dironly) = (flags & 3, flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0, flags & 0o200000 != 0);
    if denied(&p) {
        return err(13);
    }
    match find(&p) {
        Some(i) => unsafe {
            if creat && excl {
                return err(17);
            }
            if NODES[i].dir && acc != 0 {
                return err(21);
            }
            if dironly && !NODES[i].dir {
                return err(20);
            }
            if trunc && acc != 0 {
                NODES[i].data.clear();
                LOG.push(format!("write {p}"));
            }
        },
        None => {
            if !creat {
                return err(2);
            }
            if !find(&parent(&p)).is_some_and(|i| unsafe { NODES[i].dir }) {
                return err(2);
            }
            unsafe {
                LOG.push(format!("write {p}"));
                NODES.push(Node { path: p.clone(), dir: false, data: vec![] });
            }
        }
    }
    new_fd(Fd { path: p, pos: 0, append })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, _mode: u32) -> c_int {
    open_at(at(-100, p), flags)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(fd: c_int, p: *const c_char, flags: c_int, _mode: u32) -> c_int {
    open_at(at(fd, p), flags)
}
fn entry(fd: c_int) -> Option<&'static mut Fd> {
    unsafe { FDS.get_mut((fd - BASE) as usize)?.as_mut() }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= BASE {
        unsafe { FDS[(fd - BASE) as usize] = None };
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    let Some(f) = (if fd >= BASE { entry(fd) } else { None }) else { return err(9) as isize };
    let Some(i) = find(&f.path) else { return err(2) as isize };
    unsafe {
        if NODES[i].dir {
            return err(21) as isize;
        }
        let d = &NODES[i].data;
        let m = n.min(d.len().saturating_sub(f.pos));
        std::ptr::copy_nonoverlapping(d.as_ptr().add(f.pos), buf, m);
        f.pos += m;
        m as isize
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const u8, n: usize) -> isize {
    if fd < BASE {
        if fd == 1 || fd == 2 {
            unsafe { if fd == 1 { &mut OUT } else { &mut ERR }.extend_from_slice(std::slice::from_raw_parts(buf, n)) };
        }
        if crate::rt::is_sym() {
            return n as isize;
        }
        let r: isize;
        unsafe { std::arch::asm!("syscall", inlateout("rax") 1isize => r, in("rdi") fd as isize, in("rsi") buf, in("rdx") n, out("rcx") _, out("r11") _) };
        return r;
    }
    let Some(f) = entry(fd) else { return err(9) as isize };
    let Some(i) = find(&f.path) else { return err(2) as isize };
    unsafe {
        let d = &mut NODES[i].data;
        let pos = if f.append { d.len() } else { f.pos };
        let s = std::slice::from_raw_parts(buf, n);
        if pos == d.len() {
            d.extend_from_slice(s);
        } else {
            for (k, b) in s.iter().enumerate() {
                if pos + k < d.len() { d[pos + k] = *b } else { d.push(*b) }
            }
        }
        f.pos = pos + n;
    }
    n as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    let Some(f) = (if fd >= BASE { entry(fd) } else { None }) else { return err(9) as i64 };
    let len = file(&f.path).map_or(0, |d| d.len()) as i64;
    f.pos = match whence { 0 => off, 1 => f.pos as i64 + off, _ => len + off } as usize;
    f.pos as i64
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    let Some(f) = entry(fd) else { return err(9) };
    if let Some(i) = find(&f.path) {
        unsafe { NODES[i].data.resize(n as usize, 0) };
    }
    0
}
fn fill(p: &str, buf: *mut u8, statx: bool) -> c_int {
    let Some(i) = find(p) else { return err(2) };
    let (dir, len) = unsafe { (NODES[i].dir, NODES[i].data.len() as u64) };
    let mode: u32 = if dir { 0o040755 } else { 0o100644 };
    unsafe {
        if statx {
            std::ptr::write_bytes(buf, 0, 256);
            (buf as *mut u32).write(0xfff);
            (buf.add(16) as *mut u32).write(1);
            (buf.add(28) as *mut u16).write(mode as u16);
            (buf.add(32) as *mut u64).write(i as u64 + 10);
            (buf.add(40) as *mut u64).write(len);
        } else {
            std::ptr::write_bytes(buf, 0, 144);
            (buf.add(8) as *mut u64).write(i as u64 + 10);
            (buf.add(16) as *mut u64).write(1);
            (buf.add(24) as *mut u32).write(mode);
            (buf.add(48) as *mut u64).write(len);
        }
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, _flags: c_int, _mask: u32, buf: *mut c_void) -> c_int {
    if p.is_null() || buf.is_null() {
        return err(14);
    }
    fill(&at(fd, p), buf as *mut u8, true)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(p: *const c_char, buf: *mut c_void) -> c_int {
    fill(&at(-100, p), buf as *mut u8, false)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(p: *const c_char, buf: *mut c_void) -> c_int {
    fill(&at(-100, p), buf as *mut u8, false)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut c_void) -> c_int {
    fill(&at(fd, c"".as_ptr()), buf as *mut u8, false)
}
fn remove(p: String, dir: bool) -> c_int {
    if denied(&p) {
        return err(13);
    }
    let Some(i) = find(&p) else { return err(2) };
    unsafe {
        if NODES[i].dir != dir {
            return err(if dir { 20 } else { 21 });
        }
        if dir {
            let q = format!("{p}/");
            if NODES.iter().any(|n| n.path.as_bytes().starts_with(q.as_bytes())) {
                return err(39);
            }
        }
        NODES.remove(i);
        LOG.push(format!("{} {p}", if dir { "rmdir" } else { "unlink" }));
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __xpg_strerror_r(_e: c_int, buf: *mut c_char, n: usize) -> c_int {
    let text = b"the call failed\0";
    let n = n.min(text.len());
    unsafe { std::ptr::copy_nonoverlapping(text.as_ptr() as *const c_char, buf, n) };
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    remove(at(-100, p), false)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    remove(at(-100, p), true)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlinkat(fd: c_int, p: *const c_char, flags: c_int) -> c_int {
    remove(at(fd, p), flags & 0x200 != 0)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(p: *const c_char, _mode: u32) -> c_int {
    let p = at(-100, p);
    if find(&p).is_some() {
        return err(17);
    }
    if find(&parent(&p)).is_none() {
        return err(2);
    }
    unsafe {
        LOG.push(format!("mkdir {p}"));
        NODES.push(Node { path: p, dir: true, data: vec![] });
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (a, b) = (at(-100, a), at(-100, b));
    let Some(i) = find(&a) else { return err(2) };
    unsafe {
        LOG.push(format!("rename {a} {b}"));
        let mut n = NODES.remove(i);
        n.path = b.clone();
        if let Some(j) = find(&b) {
            NODES.remove(j);
        }
        NODES.push(n);
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(p: *const c_char, _out: *mut c_char) -> *mut c_char {
    let p = at(-100, p);
    if find(&p).is_none() {
        err(2);
        return std::ptr::null_mut();
    }
    unsafe extern "C" {
        fn malloc(n: usize) -> *mut u8;
    }
    unsafe {
        let q = malloc(p.len() + 1);
        std::ptr::copy_nonoverlapping(p.as_ptr(), q, p.len());
        *q.add(p.len()) = 0;
        q as *mut c_char
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, _n: usize) -> *mut c_char {
    unsafe {
        std::ptr::copy_nonoverlapping(CWD.as_ptr(), buf as *mut u8, CWD.len());
        *(buf as *mut u8).add(CWD.len()) = 0;
    }
    buf
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chdir(_p: *const c_char) -> c_int {
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let fd = open_at(at(-100, p), 0o200000);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    unsafe { fdopendir(fd) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    let d = entry(fd).unwrap().path.clone();
    let mut names: Vec<String> = vec![".".into(), "..".into()];
    for n in unsafe { &NODES } {
        if n.path != "/" && parent(&n.path) == d {
            names.push(n.path[n.path.rfind('/').unwrap() + 1..].to_string());
        }
    }
    Box::into_raw(Box::new(Dir { fd, names, i: 0, ent: Dirent { ino: 0, off: 0, reclen: 280, typ: 0, name: [0; 256] } })) as *mut c_void
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    let d = unsafe { &mut *(d as *mut Dir) };
    if d.i >= d.names.len() {
        return std::ptr::null_mut();
    }
    let n = &d.names[d.i];
    d.i += 1;
    d.ent.ino = d.i as u64;
    unsafe { std::ptr::copy_nonoverlapping(n.as_ptr(), d.ent.name.as_mut_ptr(), n.len()) };
    d.ent.name[n.len()] = 0;
    let p = absolute(&format!("{}/{n}", entry(d.fd).unwrap().path));
    d.ent.typ = match find(&p) {
        Some(i) if unsafe { NODES[i].dir } => 4,
        Some(_) => 8,
        None => 4,
    };
    &mut d.ent as *mut Dirent as *mut c_void
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let d = unsafe { Box::from_raw(d as *mut Dir) };
    unsafe { close(d.fd) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    unsafe { (*(d as *mut Dir)).fd }
}
