//! C28: reading a recording leaves no trace: nothing written, nothing left open, nothing printed unless asked.
use crate::c_misc::Scratch;
use crate::core::*;
use crate::{ensure, kc};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

/// Everything a reader must leave as it was.
#[derive(PartialEq, Debug)]
struct Entry {
    path: PathBuf,
    what: (u32, u64, u64, i64, i64, u32, u64),
    content: u64,
}
fn snapshot(dir: &Path, into: &mut Vec<Entry>) {
    let mut list: Vec<PathBuf> = std::fs::read_dir(dir).expect("scratch").map(|e| e.expect("scratch").path()).collect();
    list.sort();
    for p in list {
        let m = std::fs::symlink_metadata(&p).expect("scratch");
        let mut h = Hash64::new();
        if m.file_type().is_file() {
            for b in std::fs::read(&p).expect("scratch") {
                h.add(b as u64);
            }
        } else if m.file_type().is_symlink() {
            h.add(std::fs::read_link(&p).expect("scratch").as_os_str().len() as u64);
        }
        into.push(Entry { path: p.clone(), what: (m.mode(), m.len(), m.ino(), m.mtime(), m.mtime_nsec(), m.uid(), m.nlink()), content: h.0 });
        if m.is_dir() {
            snapshot(&p, into);
        }
    }
}

#[cfg(all(target_os = "linux", not(miri)))]
mod watch {
    use std::os::raw::{c_char, c_int, c_void};
    extern "C" {
        fn inotify_init1(flags: c_int) -> c_int;
        fn inotify_add_watch(fd: c_int, path: *const c_char, mask: u32) -> c_int;
        fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
        fn close(fd: c_int) -> c_int;
    }
    /// The kernel's own record of what happens to a directory and its entries.
    pub struct Watch(c_int);
    const OPEN: u32 = 0x20;
    const NAMES: [(u32, &str); 8] = [(2, "modified"), (4, "attributes changed"), (8, "opened for writing"), (0x40, "moved away"), (0x80, "moved in"), (0x100, "created"), (0x200, "deleted"), (0x400, "deleted itself")];
    impl Watch {
        pub fn new(dirs: &[&std::path::Path]) -> Option<Watch> {
            let fd = unsafe { inotify_init1(0o2000000 | 0o4000) };
            if fd < 0 {
                return None;
            }
            let w = Watch(fd);
            let mask = NAMES.iter().fold(OPEN, |m, x| m | x.0);
            for d in dirs {
                let p = std::ffi::CString::new(d.to_str()?).ok()?;
                if unsafe { inotify_add_watch(fd, p.as_ptr(), mask) } < 0 {
                    return None;
                }
            }
            Some(w)
        }
        /// (files opened, what else happened)
        pub fn events(&self) -> (u64, Vec<String>) {
            let (mut opened, mut other) = (0, vec![]);
            let mut buf = vec![0u8; 65536];
            loop {
                let n = unsafe { read(self.0, buf.as_mut_ptr() as *mut c_void, buf.len()) };
                if n <= 0 {
                    return (opened, other);
                }
                let mut i = 0usize;
                while i + 16 <= n as usize {
                    let word = |k: usize| u32::from_ne_bytes([buf[k], buf[k + 1], buf[k + 2], buf[k + 3]]);
                    let (mask, len) = (word(i + 4), word(i + 12) as usize);
                    let name = String::from_utf8_lossy(&buf[i + 16..i + 16 + len]).trim_end_matches('\0').to_string();
                    if mask & OPEN != 0 {
                        opened += 1;
                    }
                    for (bit, what) in NAMES.iter() {
                        if mask & bit != 0 {
                            other.push(format!("{name:?} was {what}"));
                        }
                    }
                    i += 16 + len;
                }
            }
        }
    }
    impl Drop for Watch {
        fn drop(&mut self) {
            unsafe { close(self.0) };
        }
    }
}
#[cfg(not(all(target_os = "linux", not(miri))))]
mod watch {
    pub struct Watch;
    impl Watch {
        pub fn new(_: &[&std::path::Path]) -> Option<Watch> { None }
        pub fn events(&self) -> (u64, Vec<String>) { (0, vec![]) }
    }
}

/// Descriptors of this process that point below `dir`.
fn left_open(dir: &Path) -> Vec<PathBuf> {
    if cfg!(miri) {
        return vec![];
    }
    let mut v = vec![];
    if let Ok(l) = std::fs::read_dir("/proc/self/fd") {
        for e in l.flatten() {
            if let Ok(to) = std::fs::read_link(e.path()) {
                if to.starts_with(dir) {
                    v.push(to);
                }
            }
        }
    }
    v
}

/// Held (shared) while files are written, (exclusively) while a process is started: a new process holds copies of this
/// one's descriptors for a moment, and the kernel would report a file of the scene as closed after writing only then.
static STARTING: std::sync::RwLock<()> = std::sync::RwLock::new(());
fn run(c: &mut std::process::Command) -> Result<std::process::Output, String> {
    let kid = {
        let _alone = STARTING.write().unwrap();
        c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn()
    };
    kid.and_then(|k| k.wait_with_output()).map_err(|e| format!("HARNESS {e}"))
}

/// What a process has besides memory: its threads, descriptors, working directory, environment, limits, ways with
/// signals and floating point numbers.
fn process_state() -> Vec<String> {
    let mut v = vec![format!("working directory {:?}", std::env::current_dir())];
    let mut vars: Vec<_> = std::env::vars_os().map(|(k, x)| format!("variable {k:?}={x:?}")).collect();
    vars.sort();
    v.append(&mut vars);
    let mut open: Vec<_> = std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten()
        .filter_map(|e| Some(format!("descriptor {:?} of {:?}", e.file_name(), std::fs::read_link(e.path()).ok()?)))
        .filter(|x| !x.contains("/proc/")) // the one that lists them
        .collect();
    open.sort();
    v.append(&mut open);
    for line in std::fs::read_to_string("/proc/self/status").unwrap_or_default().lines() {
        if ["Umask", "Threads", "SigBlk", "SigIgn", "SigCgt", "Cpus_allowed:", "Groups", "Uid", "Gid"].iter().any(|k| line.starts_with(k)) {
            v.push(line.to_string());
        }
    }
    v.extend(std::fs::read_to_string("/proc/self/limits").unwrap_or_default().lines().map(String::from));
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    unsafe {
        let mut csr = 0u32;
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut csr);
        v.push(format!("floating point modes {:x}", csr & !0x3f));
    }
    v
}

/// The child's side (exit 12: something about the process has changed).
pub fn child(args: &[String]) -> i32 {
    static HOOKED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    let own_hook = args[0] != "cases";
    if own_hook {
        std::panic::set_hook(Box::new(|_| HOOKED.store(true, std::sync::atomic::Ordering::SeqCst)));
    }
    let before = process_state();
    let code = child_calls(args);
    let mut after = process_state();
    for _ in 0..200 {
        if after == before {
            break;
        }
        // a thread that has been joined may still be on its way out
        std::thread::sleep(std::time::Duration::from_millis(10));
        after = process_state();
    }
    if let Some(x) = before.iter().find(|x| !after.contains(x)) {
        eprintln!("before: {x}");
    }
    if let Some(x) = after.iter().find(|x| !before.contains(x)) {
        eprintln!("after: {x}");
    }
    if after != before {
        return 12;
    }
    HOOKED.store(false, std::sync::atomic::Ordering::SeqCst);
    if own_hook && (std::panic::catch_unwind(|| panic!()).is_ok() || !HOOKED.load(std::sync::atomic::Ordering::SeqCst)) {
        eprintln!("the panic hook was replaced");
        return 12;
    }
    code
}

/// Reads a directory (0: as many results as expected, 10: an error, 11: another number of results), or makes other calls.
fn child_calls(args: &[String]) -> i32 {
    if args[0] == "hot" {
        let seed: u64 = args[1].parse().unwrap();
        for (k, (_, f)) in crate::HOT.iter().enumerate() {
            for i in 0..24u64 {
                let mut h = Hash64::new();
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut Rng::new(mix(seed ^ (k as u64) << 32 ^ i)), &mut h)));
            }
        }
        return 0;
    }
    if args[0] == "cases" {
        // the workloads of the other properties (their verdicts are no matter here)
        install_hooks();
        std::panic::set_hook(Box::new(|_| {}));
        let (seed, size): (u64, f64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
        // (C22 asks for progress now and then; the visualiser is another program)
        for (k, p) in crate::PROPS.iter().filter(|p| !["C19", "C22", "C24", "C25", "C28", "C29"].contains(&p.id)).enumerate() {
            set_global(&crate::config(p.id, &[String::from("--ignore-verdicts")]));
            for i in 0..CASES_EACH {
                let _ = run_case(p, &mut Obs::new(), mix(seed ^ (k as u64) << 32 ^ i), size, false, i, CASES_EACH);
            }
        }
        return 0;
    }
    let (scans, dir, print, want) = (args[0] == "scans", Path::new(&args[1]), args[2] == "print", args[3].parse::<usize>().unwrap());
    let got = if scans { kuba::kitti::point_cloud_reader::read_from_dir(dir, print).map(|v| v.len()) } else { kuba::kitti::oxt_reader::read_from_dir(dir, print).map(|v| v.len()) };
    match got {
        Err(_) => 10,
        Ok(n) => if n == want { 0 } else { 11 },
    }
}

pub fn c28(cs: &mut Case) -> Verdict {
    let top = cs.upto(2, 60);
    let r = &mut cs.rng;
    // (children need a process of their own, without a sanitizer's own output)
    let in_child = cfg!(feature = "gas") && r.chance(1, 12);
    if in_child && r.chance(1, 4) {
        return quiet_calls(cs);
    }
    let d = Scratch::new()?;
    let dir = d.0.join("data");
    std::fs::create_dir(&dir).expect("scratch");
    let scans = r.chance(1, 2);
    // whole scans of a real sensor, or many small files
    let whole = !cfg!(miri) && r.chance(1, 30);
    let n = if whole { r.int(1, 3) } else if in_child && r.chance(1, 2) { r.int(60, 300) } else { r.int(0, top) } as usize;
    let broken = if n > 0 && r.chance(1, 3) { Some((r.below(n as u64) as usize, r.below(4))) } else { None };
    let mut h = Hash64::new();
    let mut names = vec![];
    let writing = STARTING.read().unwrap();
    for k in 0..n {
        let name = format!("{k:010}.{}", if scans { "bin" } else { "txt" });
        let path = dir.join(&name);
        let body: Vec<u8> = if scans {
            let points = if whole { r.int(20_000, 140_000) as u64 } else { r.below(40) };
            (0..2 * points).flat_map(|_| r.u64().to_le_bytes()).map(|b| b & 0x3f).collect()
        } else {
            // near and far, level and upside down, with much or little after it
            let far = *r.pick(&[0.01, 0.01, 0.01, 40.0]);
            let gps = [49.0 + r.f64(-far, far), 8.4 + r.f64(-far, far), r.f64(-400.0, 9000.0)];
            let mut text = crate::c_misc::record(r, gps).text;
            if whole {
                text.push_str(&" 0.125".repeat(100_000));
            }
            text.into_bytes()
        };
        h.add(body.len() as u64).add(body.iter().fold(0, |a, b| mix(a ^ *b as u64)));
        match broken {
            Some((at, 0)) if at == k => std::fs::write(&path, [b'x'; 7]).expect("scratch"),
            Some((at, 1)) if at == k && !cfg!(miri) => std::fs::create_dir(&path).expect("scratch"),
            Some((at, 2)) if at == k => std::os::unix::fs::symlink(d.0.join("nowhere"), &path).expect("scratch"),
            Some((at, _)) if at == k => std::fs::write(&path, [0xffu8; 3]).expect("scratch"),
            _ => std::fs::write(&path, &body).expect("scratch"),
        }
        names.push(name);
    }
    drop(writing);
    let ctx = || format!("{n} {} files, broken {broken:?}", if scans { "scan" } else { "pose" });
    let mut before = vec![];
    snapshot(&d.0, &mut before);
    let watch = watch::Watch::new(&[&d.0, &dir]);
    if let Some(w) = &watch {
        w.events();
    }
    if in_child {
        let print = r.chance(1, 3);
        let places = Scratch::new()?;
        let exe = std::env::current_exe().expect("scratch");
        // few descriptors: each file has to be closed before many more are opened
        let mut c = std::process::Command::new("/bin/sh");
        c.args(["-c", "ulimit -n 24; exec \"$0\" \"$@\"", exe.to_str().unwrap(), "child", if scans { "scans" } else { "poses" }, dir.to_str().unwrap(), if print { "print" } else { "silent" }, &n.to_string()])
            .current_dir(&places.0)
            .env("TMPDIR", &places.0)
            .env("HOME", &places.0);
        let o = run(&mut c)?;
        let code = o.status.code();
        ensure!(code == Some(if broken.is_some() { 10 } else { 0 }), "with 24 descriptors the read ended with {code:?} (0 all read, 10 an error, 11 another number, 12 the process is not as it was); {}; {}", ctx(), String::from_utf8_lossy(&o.stderr));
        ensure!(o.stderr.is_empty(), "the read wrote to stderr: {:?}; {}", String::from_utf8_lossy(&o.stderr), ctx());
        let text = String::from_utf8_lossy(&o.stdout);
        if print {
            let mut from = 0;
            let announced = broken.map_or(n, |b| b.0 + 1);
            for name in &names[..announced] {
                match text[from..].find(name.as_str()) {
                    Some(at) => from += at + name.len(),
                    None => return Err(format!("progress does not announce {name} after the files before it: {:?}; {}", &text[..text.len().min(600)], ctx())),
                }
            }
            cs.obs.count("announced_files", announced as u64);
        } else {
            ensure!(text.is_empty(), "the read printed although it was not asked to: {:?}; {}", &text[..text.len().min(300)], ctx());
        }
        let mut left = vec![];
        snapshot(&places.0, &mut left);
        ensure!(left.is_empty(), "the read left files in its working directory: {:?}; {}", left, ctx());
        cs.obs.count("whole_scans_and_long_records", whole as u64);
        cs.obs.count("reads_in_a_process_with_few_descriptors", 1);
    } else if scans {
        let got = kc!("read_from_dir", kuba::kitti::point_cloud_reader::read_from_dir(&dir, false));
        let again = kc!("read_from_dir", kuba::kitti::point_cloud_reader::read_from_dir(&dir, false));
        ensure!(got.is_err() == broken.is_some() && again.is_err() == got.is_err(), "success {} {}; {}", got.is_ok(), again.is_ok(), ctx());
        if let (Ok(a), Ok(b)) = (got, again) {
            ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.data.iter().map(|v| v.to_bits()).eq(y.data.iter().map(|v| v.to_bits()))), "reading twice gives different scans; {}", ctx());
        }
    } else {
        let got = kc!("read_from_dir", kuba::kitti::oxt_reader::read_from_dir(&dir, false));
        let again = kc!("read_from_dir", kuba::kitti::oxt_reader::read_from_dir(&dir, false));
        ensure!(got.is_err() == broken.is_some() && again.is_err() == got.is_err(), "success {} {}; {}", got.is_ok(), again.is_ok(), ctx());
        if let (Ok(a), Ok(b)) = (got, again) {
            ensure!(a == b, "reading twice gives different poses; {}", ctx());
        }
    }
    let open = left_open(&d.0);
    ensure!(open.is_empty(), "left open after the read: {:?}; {}", open, ctx());
    if let Some(w) = &watch {
        let (opened, other) = w.events();
        ensure!(other.is_empty(), "reading touched what it reads: {:?}; {}", &other[..other.len().min(5)], ctx());
        cs.obs.count("opens_recorded_by_the_kernel", opened);
        cs.obs.count("watched_reads", 1);
    } else {
        cs.obs.count("unwatched_reads", 1);
    }
    let mut after = vec![];
    snapshot(&d.0, &mut after);
    ensure!(before == after, "reading changed the directory: {:?}; {}", before.iter().zip(&after).find(|(a, b)| a != b), ctx());
    cs.obs.count(if broken.is_some() { "failed_reads" } else { "good_reads" }, 1);
    h.add(n as u64).add(scans as u64).add(in_child as u64).add(broken.map_or(9, |b| b.1));
    if n > 0 {
        cs.obs.sig(h.0);
    }
    cs.obs.sample(|| format!("{}, in a child process: {in_child}", ctx()));
    Ok(())
}

/// How many cases of each other property a recorded process runs.
const CASES_EACH: u64 = 12;

/// Calls of every kind in a process whose output is recorded: single calls, or the workloads of the other properties.
fn quiet_calls(cs: &mut Case) -> Verdict {
    let seed = cs.rng.u64();
    let cases = cs.rng.chance(1, 2);
    let size = if cases { cs.size * cs.rng.f64(0.0, 0.7) } else { 0.0 };
    let what = if cases { format!("cases of every other property (seed {seed}, size {size})") } else { format!("calls of every kind (seed {seed})") };
    let places = Scratch::new()?;
    let mut c = std::process::Command::new(std::env::current_exe().expect("scratch"));
    c.args(["child", if cases { "cases" } else { "hot" }, &seed.to_string(), &size.to_string()])
        .current_dir(&places.0)
        .env("TMPDIR", &places.0)
        .env("HOME", &places.0);
    let o = run(&mut c)?;
    if String::from_utf8_lossy(&o.stderr).contains("kmon: ") {
        // a call that does not return, say: that is another property's matter
        cs.obs.count("recorded_processes_that_did_not_finish", 1);
        return Ok(());
    }
    ensure!(o.status.code() == Some(0), "{what} ended the process with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr));
    ensure!(o.stdout.is_empty() && o.stderr.is_empty(), "{what} printed {:?} {:?}", String::from_utf8_lossy(&o.stdout[..o.stdout.len().min(300)]), String::from_utf8_lossy(&o.stderr[..o.stderr.len().min(300)]));
    let mut left = vec![];
    snapshot(&places.0, &mut left);
    ensure!(left.is_empty(), "{what} left files in the working directory: {left:?}");
    cs.obs.count(if cases { "silent_processes_of_264_cases" } else { "silent_processes_of_576_calls" }, 1);
    cs.obs.sig(mix(seed));
    Ok(())
}
