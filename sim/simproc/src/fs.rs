//! A simulated procfs: processes that live, change, exit and are replaced under the same id, and
//! the system calls through which the code under test looks at them.
use simrt::sched;
use std::ffi::CStr;

#[derive(Clone, Debug)]
pub struct Proc {
    pub uid: u64,
    pub fds: u64,
    pub nofile: Option<u64>,
    pub comm: Vec<u8>,
    pub utime: u64,
    pub stime: u64,
    pub threads: i64,
    pub start: u64,
    pub vsize: u64,
    pub rss: u64,
    pub fields: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Src {
    Dir,
    Fd,
    Limits,
    Stat,
    Boot,
}
pub const NSRC: usize = 5;

/// One injected fault: at the n-th call of the running operation of a thread.
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub at: u64,
    pub kind: i64,
    pub arg: i64,
}

/// What one operation of a thread was shown.
#[derive(Clone, Default)]
pub struct Served {
    pub calls: u64,
    pub faults: Vec<Fault>,
    /// process ids whose directory was opened, and the generation found
    pub dirs: Vec<(i32, u64)>,
    /// (process, value), in the order they were completely served
    pub fds: Vec<(i32, u64, i64)>,
    pub limits: Vec<(i32, u64, Option<u64>)>,
    pub stats: Vec<(i32, u64, Proc)>,
    pub boots: Vec<u64>,
    pub troubled: [bool; NSRC],
    /// a stat file was cut right behind the name
    pub cut: bool,
}

#[derive(Clone)]
enum H {
    Dir(i32, u64),
    FdDir(i32, u64),
    FdLink,
    File { src: Src, pid: i32, uid: u64, data: Option<Vec<u8>>, pos: usize, proc: Option<Proc>, bad: bool },
    /// some other file of a process
    Free,
}
pub struct DirStream {
    fd: i32,
    names: Vec<String>,
    pos: usize,
    ent: libc::dirent64,
    started: bool,
    dirty: bool,
}

pub struct World {
    pub procs: Vec<(i32, Option<Proc>)>,
    pub next_uid: u64,
    pub clk: i64,
    pub page: i64,
    pub btime: u64,
    /// the kernel reports the number of descriptors as the size of the directory
    pub fdsize: bool,
    pub release: &'static str,
    pub me: i32,
    pub table: Vec<H0>,
    pub dirs: Vec<*mut DirStream>,
    pub served: Vec<Served>,
    pub rng: simrt::Rng,
}
#[derive(Clone)]
pub struct H0(H);

pub static mut WORLD: Option<World> = None;
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap_or_else(|| simrt::run::harness_error("no simulated procfs")) }
}
#[allow(static_mut_refs)]
pub fn on() -> bool {
    sched::in_sim() && unsafe { WORLD.is_some() }
}

const BASE: i32 = 1 << 20;
fn fake(fd: i32) -> bool {
    fd >= BASE && on()
}
fn err(e: i32) -> i32 {
    simrt::interpose::set_errno(e);
    -1
}
fn alloc(h: H) -> i32 {
    let t = &mut w().table;
    for (i, x) in t.iter_mut().enumerate() {
        if matches!(x.0, H::Free) {
            x.0 = h;
            return BASE + i as i32;
        }
    }
    t.push(H0(h));
    BASE + t.len() as i32 - 1
}
fn h(fd: i32) -> &'static mut H {
    match w().table.get_mut((fd - BASE) as usize) {
        Some(x) if !matches!(x.0, H::Free) => &mut x.0,
        _ => simrt::violate!("bad-descriptor", "a descriptor was used after it was closed"),
    }
}
pub fn open_handles() -> usize {
    w().table.iter().filter(|x| !matches!(x.0, H::Free)).count()
}
fn served() -> &'static mut Served {
    &mut w().served[sched::tid()]
}
fn trouble(s: Src) {
    served().troubled[s as usize] = true;
}

pub fn proc_of(pid: i32) -> Option<&'static mut Proc> {
    w().procs.iter_mut().find(|p| p.0 == pid).and_then(|p| p.1.as_mut())
}
fn alive(pid: i32, uid: u64) -> Option<&'static Proc> {
    proc_of(pid).filter(|p| p.uid == uid).map(|p| &*p)
}
pub fn random_proc(r: &mut simrt::Rng, uid: u64) -> Proc {
    let comms: [&[u8]; 10] = [b"sim", b"a b", b"x) R 1 (y", b"((", b")", b"", b"tab\tx", b"(sd-pam)", b"0123456789abcde", b"\xff\xfe"];
    let big = r.chance(250);
    let n = |r: &mut simrt::Rng, s: u64, b: u64| if big { r.below(b) } else { r.below(s) };
    Proc {
        uid,
        fds: *r.pick(&[0, 1, 2, 3, 4, 7, 100, 1024]),
        nofile: *r.pick(&[None, Some(0), Some(1024), Some(1048576), Some(1 << 40), Some(7)]),
        comm: r.pick(&comms).to_vec(),
        utime: n(r, 5000, 1 << 50),
        stime: n(r, 5000, 1 << 50),
        threads: *r.pick(&[1, 1, 2, 17, 30000, 0]),
        start: n(r, 100_000, 1 << 50),
        vsize: n(r, 1 << 30, 1 << 47),
        rss: n(r, 100_000, 1 << 35),
        fields: *r.pick(&[52, 52, 52, 44, 41]),
    }
}

// ------------------------------------------------------------------ contents
fn stat_text(pid: i32, p: &Proc) -> Vec<u8> {
    let mut v = format!("{pid} (").into_bytes();
    v.extend_from_slice(&p.comm);
    v.extend_from_slice(b") S");
    // ppid pgrp session tty_nr tpgid flags minflt cminflt majflt cmajflt
    let mut f: Vec<String> = ["1", "2", "3", "0", "-1", "4194560", "11", "12", "13", "14"].iter().map(|s| s.to_string()).collect();
    f.push(p.utime.to_string());
    f.push(p.stime.to_string());
    // cutime cstime priority nice
    for x in ["15", "16", "20", "0"] {
        f.push(x.into());
    }
    f.push(p.threads.to_string());
    f.push("0".into());
    f.push(p.start.to_string());
    f.push(p.vsize.to_string());
    f.push(p.rss.to_string());
    while f.len() + 3 < p.fields {
        f.push(match f.len() + 4 {
            25 => "18446744073709551615".into(),
            38 => "17".into(),
            n => n.to_string(),
        });
    }
    for x in f {
        v.push(b' ');
        v.extend_from_slice(x.as_bytes());
    }
    v.push(b'\n');
    v
}
fn limits_text(p: &Proc) -> Vec<u8> {
    let mut s = String::from("Limit                     Soft Limit           Hard Limit           Units     \n");
    let nofile = p.nofile.map_or("unlimited".to_string(), |x| x.to_string());
    let lines: [(&str, &str, &str, &str); 16] = [
        ("Max cpu time", "unlimited", "unlimited", "seconds"),
        ("Max file size", "unlimited", "unlimited", "bytes"),
        ("Max data size", "unlimited", "unlimited", "bytes"),
        ("Max stack size", "8388608", "unlimited", "bytes"),
        ("Max core file size", "0", "unlimited", "bytes"),
        ("Max resident set", "unlimited", "unlimited", "bytes"),
        ("Max processes", "127234", "127234", "processes"),
        ("Max open files", &nofile, "2097152", "files"),
        ("Max locked memory", "8388608", "8388608", "bytes"),
        ("Max address space", "unlimited", "unlimited", "bytes"),
        ("Max file locks", "unlimited", "unlimited", "locks"),
        ("Max pending signals", "127234", "127234", "signals"),
        ("Max msgqueue size", "819200", "819200", "bytes"),
        ("Max nice priority", "0", "0", ""),
        ("Max realtime priority", "0", "0", ""),
        ("Max realtime timeout", "unlimited", "unlimited", "us"),
    ];
    for (a, b, c, d) in lines {
        s += &format!("{a:<25} {b:<20} {c:<20} {d:<10}\n");
    }
    s.into_bytes()
}
fn boot_text() -> Vec<u8> {
    let mut s = String::new();
    s += "cpu  10132153 290696 3084719 46828483 16683 0 25195 0 175628 0\n";
    for i in 0..2 {
        s += &format!("cpu{i} 1393280 32966 572056 13343292 6130 0 17875 0 23933 0\n");
    }
    s += "intr 199292 0 0 23\nctxt 1990473\n";
    s += &format!("btime {}\n", w().btime);
    s += "processes 2915\nprocs_running 1\nprocs_blocked 0\nsoftirq 183433 0 21755 12 39\n";
    s.into_bytes()
}

// ------------------------------------------------------------------ faults
const ERRNOS: [i32; 10] = [libc::ENOENT, libc::ESRCH, libc::EACCES, libc::EPERM, libc::EIO, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::EINTR, libc::ENOSYS];

enum Do {
    Normal,
    Err(i32),
    Short(usize),
    Eof,
    Garble(u64),
}
/// A system call of the code under test: other threads may run before it.
fn enter() {
    if on() && !sched::is_quiet() {
        sched::point(sched::K_SYS, 0);
    }
}
/// Every simulated system call passes here once.
fn call(src: Src) -> Do {
    let s = served();
    let n = s.calls;
    s.calls += 1;
    let mut d = Do::Normal;
    for f in s.faults.clone() {
        if f.at != n {
            continue;
        }
        match f.kind {
            0 => {
                sched::fault("proc_errno");
                d = Do::Err(ERRNOS[f.arg.unsigned_abs() as usize % ERRNOS.len()]);
            }
            1 => {
                sched::fault("proc_short_read");
                d = Do::Short(1 + f.arg.unsigned_abs() as usize % 40);
            }
            2 => {
                sched::fault("proc_interrupted");
                d = Do::Err(libc::EINTR);
            }
            3 => {
                sched::fault("proc_eof");
                d = Do::Eof;
            }
            4 => {
                sched::fault("proc_malformed");
                d = Do::Garble(f.arg as u64);
            }
            5 => {
                sched::fault("proc_exit");
                let pid = pick_pid(f.arg);
                exit(pid);
            }
            6 => {
                sched::fault("proc_pid_reuse");
                let pid = pick_pid(f.arg);
                respawn(pid);
            }
            _ => {
                sched::fault("proc_change");
                change(pick_pid(f.arg));
            }
        }
    }
    if matches!(d, Do::Err(_)) {
        trouble(src);
    }
    d
}
pub fn pick_pid(a: i64) -> i32 {
    let p = &w().procs;
    p[a.unsigned_abs() as usize % p.len()].0
}
pub fn exit(pid: i32) {
    if let Some(p) = w().procs.iter_mut().find(|p| p.0 == pid) {
        p.1 = None;
    }
}
pub fn respawn(pid: i32) {
    let uid = w().next_uid;
    w().next_uid += 1;
    let n = random_proc(&mut w().rng, uid);
    if let Some(p) = w().procs.iter_mut().find(|p| p.0 == pid) {
        p.1 = Some(n);
    }
}
/// New values for whatever may change while a process lives.
pub fn change(pid: i32) {
    let w = w();
    let r = &mut w.rng;
    if let Some(p) = w.procs.iter_mut().find(|p| p.0 == pid).and_then(|p| p.1.as_mut()) {
        let n = random_proc(r, p.uid);
        *p = Proc { uid: p.uid, start: p.start, comm: p.comm.clone(), ..n };
    }
}

// ------------------------------------------------------------------ system calls
fn gone(src: Src, e: i32) -> i32 {
    trouble(src);
    err(e)
}
fn open_rel(pid: i32, uid: u64, rest: &str, flags: i32) -> i32 {
    let src = match rest {
        "stat" => Src::Stat,
        "limits" => Src::Limits,
        // (the directory itself is opened again only on the way to the descriptors)
        _ => Src::Fd,
    };
    match call(src) {
        Do::Err(e) => return err(e),
        _ => {}
    }
    if alive(pid, uid).is_none() {
        return gone(src, libc::ENOENT);
    }
    match rest {
        "" | "." => {
            served().dirs.push((pid, uid));
            alloc(H::Dir(pid, uid))
        }
        "stat" | "limits" => alloc(H::File { src, pid, uid, data: None, pos: 0, proc: None, bad: false }),
        "fd" => alloc(H::FdDir(pid, uid)),
        _ => match rest.strip_prefix("fd/").and_then(|x| x.parse::<u64>().ok()) {
            Some(n) if n < alive(pid, uid).unwrap().fds => {
                if flags & libc::O_PATH == 0 {
                    simrt::run::harness_error("opening the target of a descriptor is not simulated");
                }
                alloc(H::FdLink)
            }
            _ => err(libc::ENOENT),
        },
    }
}
/// `self/fd/N` or `self/fd/N/rest` for one of our handles.
fn own_fd(rest: &str) -> Option<(i32, &str)> {
    let r = rest.strip_prefix("self/fd/").or_else(|| rest.strip_prefix("thread-self/fd/"))?;
    let (n, r) = r.split_once('/').unwrap_or((r, ""));
    Some((n.parse::<i32>().ok().filter(|n| fake(*n))?, r))
}
fn open_abs(path: &str, flags: i32) -> i32 {
    let p = path.trim_end_matches('/');
    if p == "/proc/stat" {
        if let Do::Err(e) = call(Src::Boot) {
            return err(e);
        }
        return alloc(H::File { src: Src::Boot, pid: 0, uid: 0, data: None, pos: 0, proc: None, bad: false });
    }
    let Some(rest) = p.strip_prefix("/proc/") else { return err(libc::ENOENT) };
    if let Some((n, rest)) = own_fd(rest) {
        return match h(n) {
            H::Dir(pid, uid) => open_rel(*pid, *uid, rest, flags),
            H::FdDir(pid, uid) => open_rel(*pid, *uid, format!("fd/{rest}").trim_end_matches('/'), flags),
            _ => simrt::run::harness_error("opening such a handle again is not simulated"),
        };
    }
    let (a, b) = rest.split_once('/').unwrap_or((rest, ""));
    let pid = match a {
        "self" | "thread-self" => w().me,
        a => match a.parse() {
            Ok(x) => x,
            Err(_) => return err(libc::ENOENT),
        },
    };
    if b.is_empty() {
        if let Do::Err(e) = call(Src::Dir) {
            return err(e);
        }
        return match proc_of(pid) {
            Some(p) => {
                served().dirs.push((pid, p.uid));
                alloc(H::Dir(pid, p.uid))
            }
            None => gone(Src::Dir, libc::ENOENT),
        };
    }
    match proc_of(pid) {
        Some(p) => open_rel(pid, p.uid, b, flags),
        None => {
            let src = if b == "stat" { Src::Stat } else if b == "limits" { Src::Limits } else { Src::Fd };
            call(src);
            gone(src, libc::ENOENT)
        }
    }
}
fn do_openat(dir: i32, path: &CStr, flags: i32) -> i32 {
    let p = path.to_string_lossy();
    enter();
    sched::quiet(|| {
        if p.starts_with('/') {
            return open_abs(&p, flags);
        }
        match h(dir) {
            H::Dir(pid, uid) => open_rel(*pid, *uid, &p, flags),
            H::FdDir(pid, uid) if p == "." => {
                let (a, b) = (*pid, *uid);
                open_rel(a, b, "fd", flags)
            }
            H::FdDir(pid, uid) => {
                let (a, b) = (*pid, *uid);
                open_rel(a, b, &format!("fd/{p}"), flags)
            }
            _ => err(libc::ENOTDIR),
        }
    })
}
fn do_read(fd: i32, buf: &mut [u8]) -> isize {
    let H::File { src, .. } = h(fd) else { return err(libc::EISDIR) as isize };
    let src = *src;
    let d = call(src);
    let H::File { pid, uid, data, pos, proc, bad, .. } = h(fd) else { return -1 };
    let mut max = buf.len();
    match d {
        Do::Err(e) => return err(e) as isize,
        Do::Short(n) => max = max.min(n),
        Do::Eof if data.as_ref().map_or(true, |d| *pos < d.len()) => {
            trouble(src);
            *bad = true;
            // what was served may suffice
            record(src, *pid, *uid, proc.take());
            if src == Src::Stat && data.as_ref().is_some_and(|d| d[..*pos].trim_ascii_end().ends_with(b")")) {
                served().cut = true;
            }
            return 0;
        }
        _ => {}
    }
    if data.is_none() {
        // the kernel formats the file at the first read
        let p = alive(*pid, *uid).cloned();
        let v = match (src, &p) {
            (Src::Boot, _) => boot_text(),
            (_, None) => return gone(src, libc::ESRCH) as isize,
            (Src::Stat, Some(p)) => stat_text(*pid, p),
            (_, Some(p)) => limits_text(p),
        };
        *proc = p;
        *data = Some(v);
    }
    let v = data.as_mut().unwrap();
    if let (Do::Garble(a), 0) = (d, *pos) {
        trouble(src);
        garble(src, v, a);
        *bad = true;
        record(src, *pid, *uid, proc.take());
    }
    let n = max.min(v.len() - *pos);
    buf[..n].copy_from_slice(&v[*pos..*pos + n]);
    *pos += n;
    if *pos == v.len() && !*bad {
        if src != Src::Boot || n > 0 {
            record(src, *pid, *uid, proc.take());
        }
    }
    n as isize
}
fn record(src: Src, pid: i32, uid: u64, p: Option<Proc>) {
    let s = served();
    match (src, p) {
        (Src::Boot, _) => s.boots.push(w().btime),
        (Src::Stat, Some(p)) => s.stats.push((pid, uid, p)),
        (Src::Limits, Some(p)) => s.limits.push((pid, uid, p.nofile)),
        _ => {}
    }
}
/// Make the content useless for its purpose.
fn garble(src: Src, v: &mut Vec<u8>, a: u64) {
    match src {
        Src::Stat => match a % 5 {
            0 => v.clear(),
            // too few fields
            1 => {
                let at = v.iter().rposition(|b| *b == b')').unwrap();
                // (cut right behind the name: rare, see known_findings.jsonl)
                let n = a / 5 % 400;
                if n == 0 {
                    served().cut = true;
                }
                v.truncate(at + 2 + if n == 0 { 0 } else { 1 + n as usize % 20 });
            }
            2 => {
                let at = v.iter().rposition(|b| *b == b')').unwrap();
                v.splice(at + 4.., b"x y z".iter().copied());
            }
            3 => v.retain(|b| *b != b')'),
            _ => v.retain(|b| *b != b'('),
        },
        Src::Limits => match a % 5 {
            0 => v.clear(),
            1 => {
                // cut after some line, before the last
                let nl: Vec<usize> = v.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0).collect();
                v.truncate(nl[(a / 5) as usize % (nl.len() - 1)] + 1);
            }
            2 => *v = String::from_utf8(v.clone()).unwrap().replace("Max open files", "Max opened files").into_bytes(),
            3 => {
                let s = String::from_utf8(v.clone()).unwrap();
                let o: Vec<String> = s
                    .split('\n')
                    .map(|l| if l.starts_with("Max open files") { "Max open files            12x                  9                    files     ".into() } else { l.to_string() })
                    .collect();
                *v = o.join("\n").into_bytes();
            }
            _ => {
                let at = v.len() / 3;
                v[at] = 0xff;
            }
        },
        _ => match a % 3 {
            0 => v.clear(),
            1 => *v = String::from_utf8(v.clone()).unwrap().replace("btime ", "btime x").into_bytes(),
            _ => *v = String::from_utf8(v.clone()).unwrap().replace("btime", "ctime").into_bytes(),
        },
    }
}

fn do_stat(fd: Option<i32>, dir: i32, path: &str) -> Result<(u32, i64), i32> {
    let (kind, size) = (libc::S_IFDIR | 0o555, 0i64);
    let fdsize = |pid: i32, uid: u64| -> Result<(u32, i64), i32> {
        match call(Src::Fd) {
            Do::Err(e) => return Err(e),
            _ => {}
        }
        match alive(pid, uid) {
            None => {
                trouble(Src::Fd);
                Err(libc::ENOENT)
            }
            Some(p) => {
                let n = if w().fdsize { p.fds as i64 } else { 0 };
                if w().fdsize {
                    served().fds.push((pid, uid, n));
                }
                Ok((libc::S_IFDIR | 0o500, n))
            }
        }
    };
    if let Some(fd) = fd {
        return match h(fd) {
            H::FdDir(pid, uid) => {
                let (a, b) = (*pid, *uid);
                fdsize(a, b)
            }
            H::File { .. } => Ok((libc::S_IFREG | 0o444, 0)),
            H::FdLink => Ok((libc::S_IFLNK | 0o700, 64)),
            _ => Ok((kind, size)),
        };
    }
    if path.starts_with('/') {
        let Some(rest) = path.strip_prefix("/proc/") else { return Err(libc::ENOENT) };
        if let Some((n, rest)) = own_fd(rest) {
            return match h(n) {
                H::Dir(pid, uid) if rest == "fd" => {
                    let (a, b) = (*pid, *uid);
                    fdsize(a, b)
                }
                _ if rest.is_empty() => do_stat(Some(n), 0, ""),
                _ => Ok((libc::S_IFREG | 0o444, 0)),
            };
        }
        let (a, b) = rest.split_once('/').unwrap_or((rest, ""));
        let pid = if a == "self" { w().me } else { a.parse().map_err(|_| libc::ENOENT)? };
        let Some(p) = proc_of(pid) else {
            call(Src::Fd);
            trouble(Src::Fd);
            return Err(libc::ENOENT);
        };
        return match b {
            "fd" => {
                let u = p.uid;
                fdsize(pid, u)
            }
            "" => Ok((kind, size)),
            _ => Ok((libc::S_IFREG | 0o444, 0)),
        };
    }
    match h(dir) {
        H::Dir(pid, uid) if path == "fd" => {
            let (a, b) = (*pid, *uid);
            fdsize(a, b)
        }
        H::Dir(..) => Ok((libc::S_IFREG | 0o444, 0)),
        H::FdLink if path.is_empty() => Ok((libc::S_IFLNK | 0o700, 64)),
        H::FdDir(..) => Ok((libc::S_IFLNK | 0o700, 64)),
        _ => Err(libc::ENOTDIR),
    }
}

// ------------------------------------------------------------------ C entry points
unsafe fn sys(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize) -> isize {
    let r = sched::raw_syscall(n as usize, a, b, c, d, e, 0);
    if r < 0 && r > -4096 {
        simrt::interpose::set_errno(-r as i32);
        -1
    } else {
        r
    }
}
fn cs<'a>(p: *const libc::c_char) -> &'a CStr {
    unsafe { CStr::from_ptr(p) }
}
pub fn open_hook(p: &CStr, flags: i32) -> Result<i32, i32> {
    if !on() {
        return Err(libc::ENOENT);
    }
    let s = p.to_bytes();
    if s.starts_with(b"/proc/") && !s.starts_with(b"/proc/self/cgroup") {
        let r = do_openat(libc::AT_FDCWD, p, flags);
        return if r < 0 { Err(unsafe { *libc::__errno_location() }) } else { Ok(r) };
    }
    Err(libc::ENOENT)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if on() {
        return do_openat(dir, cs(path), flags);
    }
    sys(libc::SYS_openat, dir as usize, path as usize, flags as usize, mode as usize, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    openat(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if fake(fd) {
        enter();
        return sched::quiet(|| do_read(fd, std::slice::from_raw_parts_mut(buf, n)));
    }
    sys(libc::SYS_read, fd as usize, buf as usize, n, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fake(fd) {
        sched::quiet(|| *h(fd) = H::Free);
        return 0;
    }
    sys(libc::SYS_close, fd as usize, 0, 0, 0, 0) as i32
}
unsafe fn fill(st: *mut libc::stat64, r: Result<(u32, i64), i32>) -> i32 {
    match r {
        Err(e) => err(e),
        Ok((m, n)) => {
            std::ptr::write_bytes(st, 0, 1);
            (*st).st_mode = m;
            (*st).st_size = n;
            (*st).st_nlink = 1;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, st: *mut libc::stat64) -> i32 {
    if fake(fd) {
        enter();
        return sched::quiet(|| fill(st, do_stat(Some(fd), 0, "")));
    }
    sys(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, st: *mut libc::stat64) -> i32 {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: i32, path: *const libc::c_char, st: *mut libc::stat64, flags: i32) -> i32 {
    if on() {
        enter();
        return sched::quiet(|| {
            let p = cs(path).to_string_lossy();
            fill(st, do_stat(None, dir, &p))
        });
    }
    sys(libc::SYS_newfstatat, dir as usize, path as usize, st as usize, flags as usize, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(dir: i32, path: *const libc::c_char, st: *mut libc::stat64, flags: i32) -> i32 {
    fstatat64(dir, path, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const libc::c_char, st: *mut libc::stat64) -> i32 {
    fstatat64(libc::AT_FDCWD, path, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const libc::c_char, st: *mut libc::stat64) -> i32 {
    fstatat64(libc::AT_FDCWD, path, st, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const libc::c_char, flags: i32, mask: u32, st: *mut libc::statx) -> i32 {
    if on() {
        if path.is_null() && st.is_null() {
            // (std asks whether the call exists)
            return err(libc::EFAULT);
        }
        enter();
        return sched::quiet(|| {
            let p = if path.is_null() { "".into() } else { cs(path).to_string_lossy() };
            let r = if p.is_empty() { do_stat(Some(dir), 0, "") } else { do_stat(None, dir, &p) };
            match r {
                Err(e) => err(e),
                Ok((m, n)) => {
                    std::ptr::write_bytes(st, 0, 1);
                    (*st).stx_mask = 0x7ff;
                    (*st).stx_mode = m as u16;
                    (*st).stx_size = n as u64;
                    (*st).stx_nlink = 1;
                    0
                }
            }
        });
    }
    sys(libc::SYS_statx, dir as usize, path as usize, flags as usize, mask as usize, st as usize) as i32
}
pub fn syscall_hook(n: libc::c_long, a: &[usize; 6]) -> Option<isize> {
    if n == libc::SYS_statx && on() {
        let r = unsafe { statx(a[0] as i32, a[1] as *const _, a[2] as i32, a[3] as u32, a[4] as *mut _) };
        return Some(if r < 0 { unsafe { -*libc::__errno_location() as isize } } else { r as isize });
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn readlinkat(dir: i32, path: *const libc::c_char, buf: *mut u8, n: usize) -> isize {
    if on() {
        if cs(path).to_bytes().starts_with(b"/") {
            return readlink(path, buf, n);
        }
        enter();
        return sched::quiet(|| {
            let t: &[u8] = match h(dir) {
                H::FdLink | H::FdDir(..) => b"/dev/null",
                _ => return err(libc::ENOENT) as isize,
            };
            let k = t.len().min(n);
            std::ptr::copy_nonoverlapping(t.as_ptr(), buf, k);
            k as isize
        });
    }
    sys(libc::SYS_readlinkat, dir as usize, path as usize, buf as usize, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const libc::c_char, buf: *mut u8, n: usize) -> isize {
    if on() {
        let p = cs(path).to_bytes();
        if p == b"/proc/self" {
            let t = sched::quiet(|| w().me.to_string());
            let k = t.len().min(n);
            std::ptr::copy_nonoverlapping(t.as_ptr(), buf, k);
            return k as isize;
        }
        return err(libc::ENOENT) as isize;
    }
    sys(libc::SYS_readlink, path as usize, buf as usize, n, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if fake(fd) {
        return match cmd {
            libc::F_GETFL => libc::O_DIRECTORY,
            libc::F_DUPFD_CLOEXEC | libc::F_DUPFD => sched::quiet(|| {
                let x = h(fd).clone();
                alloc(x)
            }),
            _ => 0,
        };
    }
    sys(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, how: i32) -> i64 {
    if fake(fd) {
        return sched::quiet(|| match h(fd) {
            H::File { pos, .. } => {
                match (how, off) {
                    (libc::SEEK_SET, 0) => *pos = 0,
                    (libc::SEEK_CUR, 0) => {}
                    _ => return err(libc::EINVAL) as i64,
                }
                *pos as i64
            }
            _ => err(libc::EINVAL) as i64,
        });
    }
    sys(libc::SYS_lseek, fd as usize, off as usize, how as usize, 0, 0) as i64
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: i32) -> i32 {
    fcntl(fd, libc::F_DUPFD, 0)
}
fn ours(d: *mut libc::DIR) -> bool {
    on() && sched::quiet(|| w().dirs.iter().any(|x| *x as usize == d as usize))
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: i32) -> *mut libc::DIR {
    if !fake(fd) {
        err(libc::ENOTDIR);
        return std::ptr::null_mut();
    }
    sched::quiet(|| {
        if !matches!(h(fd), H::FdDir(..)) {
            err(libc::ENOTDIR);
            return std::ptr::null_mut();
        }
        let d = Box::into_raw(Box::new(DirStream { fd, names: vec![], pos: 0, ent: std::mem::zeroed(), started: false, dirty: false }));
        w().dirs.push(d);
        d as *mut libc::DIR
    })
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const libc::c_char) -> *mut libc::DIR {
    let fd = if on() { do_openat(libc::AT_FDCWD, cs(path), libc::O_DIRECTORY) } else { err(libc::ENOENT) };
    if fd < 0 {
        return std::ptr::null_mut();
    }
    let d = fdopendir(fd);
    if d.is_null() {
        close(fd);
        err(libc::ENOTDIR);
    }
    d
}
/// names delivered by one getdents call of the simulated kernel
const BATCH: usize = 40;
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if !ours(d) {
        err(libc::EBADF);
        return std::ptr::null_mut();
    }
    let s = &*(d as *const DirStream);
    if s.pos >= s.names.len() {
        enter();
    }
    sched::quiet(|| {
        let s = &mut *(d as *mut DirStream);
        let H::FdDir(pid, uid) = h(s.fd) else { simrt::run::harness_error("directory stream over something else") };
        let (pid, uid) = (*pid, *uid);
        if s.pos >= s.names.len() {
            // one more system call
            if let Do::Err(e) = call(Src::Fd) {
                err(e);
                s.dirty = true;
                return std::ptr::null_mut();
            }
            match alive(pid, uid) {
                None => {
                    trouble(Src::Fd);
                    err(libc::ENOENT);
                    return std::ptr::null_mut();
                }
                Some(p) => {
                    let done = s.names.len();
                    if !s.started {
                        s.started = true;
                        s.names.push(".".into());
                        s.names.push("..".into());
                    }
                    let from = done.saturating_sub(2) as u64;
                    for i in from..p.fds.min(from + BATCH as u64) {
                        s.names.push(i.to_string());
                    }
                    if s.names.len() == done {
                        let n = done as i64 - 2;
                        if !s.dirty {
                            served().fds.push((pid, uid, n));
                        }
                        return std::ptr::null_mut();
                    }
                }
            }
        }
        let n = s.names[s.pos].as_bytes();
        s.pos += 1;
        s.ent.d_ino = 7;
        s.ent.d_type = libc::DT_LNK;
        s.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        for (i, b) in n.iter().enumerate() {
            s.ent.d_name[i] = *b as i8;
        }
        s.ent.d_name[n.len()] = 0;
        &mut s.ent
    })
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> i32 {
    if ours(d) {
        return (*(d as *mut DirStream)).fd;
    }
    err(libc::EBADF)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> i32 {
    if !ours(d) {
        return err(libc::EBADF);
    }
    sched::quiet(|| {
        w().dirs.retain(|x| *x as usize != d as usize);
        let b = Box::from_raw(d as *mut DirStream);
        close(b.fd)
    })
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if on() {
        return w().me;
    }
    sys(libc::SYS_getpid, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: i32) -> libc::c_long {
    if on() {
        match n {
            libc::_SC_CLK_TCK => return w().clk,
            libc::_SC_PAGESIZE => return w().page,
            _ => {}
        }
    }
    static mut F: usize = 0;
    if F == 0 {
        F = libc::dlsym(libc::RTLD_NEXT, b"sysconf\0".as_ptr() as *const _) as usize;
    }
    let f: extern "C" fn(i32) -> libc::c_long = std::mem::transmute(F);
    f(n)
}
#[no_mangle]
pub unsafe extern "C" fn uname(u: *mut libc::utsname) -> i32 {
    if !on() {
        return sys(libc::SYS_uname, u as usize, 0, 0, 0, 0) as i32;
    }
    sched::quiet(|| {
        std::ptr::write_bytes(u, 0, 1);
        let put = |d: &mut [libc::c_char], s: &str| {
            for (i, b) in s.bytes().enumerate() {
                d[i] = b as i8;
            }
        };
        put(&mut (*u).sysname, "Linux");
        put(&mut (*u).nodename, "sim");
        put(&mut (*u).release, w().release);
        put(&mut (*u).version, "#1 SMP");
        put(&mut (*u).machine, "x86_64");
        0
    })
}
