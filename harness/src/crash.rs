//! Kills a process at every file-system call of an operation, and checks what is left (S06).
use crate::common::*;
use crate::storage::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI64, Ordering};
use svm_types::Layer;

static LEFT: AtomicI64 = AtomicI64::new(-1);

/// From now on, die right before the `n`-th file-system call (counting from 1).
fn arm(n: i64) {
    LEFT.store(n, Ordering::SeqCst);
}
fn disarm() -> i64 {
    LEFT.swap(-1, Ordering::SeqCst)
}
fn tick() {
    if LEFT.load(Ordering::SeqCst) > 0 && LEFT.fetch_sub(1, Ordering::SeqCst) == 1 {
        unsafe {
            libc::syscall(libc::SYS_kill, libc::getpid(), libc::SIGKILL);
            loop { libc::pause(); }
        }
    }
}

// The calls through which SQLite changes files.  These definitions take the place of libc's.
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if fd > 2 && n != 8 {
        tick(); // 8 bytes: wake-ups of the asynchronous runtime
    }
    libc::syscall(libc::SYS_write, fd, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const u8, n: usize, off: i64) -> isize {
    tick();
    libc::syscall(libc::SYS_pwrite64, fd, b, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: i32, b: *const u8, n: usize, off: i64) -> isize {
    tick();
    libc::syscall(libc::SYS_pwrite64, fd, b, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    tick();
    libc::syscall(libc::SYS_ftruncate, fd, n) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    tick();
    libc::syscall(libc::SYS_ftruncate, fd, n) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    tick();
    libc::syscall(libc::SYS_fsync, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    tick();
    libc::syscall(libc::SYS_fdatasync, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const i8) -> i32 {
    tick();
    libc::syscall(libc::SYS_unlink, p) as i32
}

fn uri(dir: &Path) -> String {
    format!("sqlite://{}?mode=rwc", dir.join("state.db").display())
}

fn apply(rt: &tokio::runtime::Runtime, w: &mut World, s: &Value) -> Result<String, String> {
    let (a, b) = (s["a"].as_i64().unwrap(), s["b"].as_i64().unwrap());
    match s["op"].as_str().unwrap() {
        "set" => guard(rt, w.set(a as usize - 1, b)).map(res),
        "checkpoint" => guard(rt, w.gs.checkpoint()).map(res),
        "rollback" => guard(rt, w.gs.rollback()).map(res),
        "commit" | "crashcommit" => guard(rt, w.gs.commit()).map(res),
        "seal" | "crashseal" => guard(rt, async { w.gs.checkpoint().await?; w.gs.commit().await }).map(res),
        "rewind" | "crashrewind" => guard(rt, w.gs.rewind(Layer(a as u64 - 1))).map(res),
        x => unreachable!("{}", x),
    }
}

/// The process that gets killed.  Prints the number of calls if it survives.
pub fn child(args: Args) {
    let job: Value = serde_json::from_str(&std::fs::read_to_string(args.str("job", "")).unwrap()).unwrap();
    let n = args.u64("n", 0) as i64;
    let (profile, nkeys) = (job["profile"].as_u64().unwrap() as usize, job["nkeys"].as_u64().unwrap() as usize);
    let dir = PathBuf::from(args.str("dir", ""));
    let rt = rt();
    if job["init"] == json!(true) {
        arm(n);
        let mut w = rt.block_on(World::open(&uri(&dir), profile, nkeys));
        rt.block_on(w.setup()).unwrap();
    } else if job["base"] == json!(true) {
        let mut w = rt.block_on(World::open(&uri(&dir), profile, nkeys));
        rt.block_on(w.setup()).unwrap();
        for s in job["steps"].as_array().unwrap() {
            if s["op"] == "reopen" {
                // what is pending is lost
                rt.block_on(w.gs.rollback()).unwrap();
                rt.block_on(w.gs.rewind(Layer(s["layers"].as_array().unwrap().len() as u64 - 1))).unwrap();
            } else {
                apply(&rt, &mut w, s).unwrap();
            }
        }
    } else {
        let mut w = rt.block_on(World::open(&uri(&dir), profile, nkeys));
        for s in job["pending"].as_array().unwrap() {
            apply(&rt, &mut w, s).unwrap();
        }
        arm(n);
        let r = apply(&rt, &mut w, &job["op"]);
        if r != Ok("ok".to_string()) {
            println!("failed {:?}", r);
            std::process::exit(3);
        }
    }
    println!("{}", n - disarm());
    std::process::exit(0);
}

fn copy_dir(from: &Path, to: &Path) {
    let _ = std::fs::remove_dir_all(to);
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        std::fs::copy(e.path(), to.join(e.file_name())).unwrap();
    }
}

fn spawn(job: &Path, dir: &Path, n: i64) -> std::process::Output {
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(["crash-child", "--job", job.to_str().unwrap(), "--dir", dir.to_str().unwrap(), "--n", &n.to_string()])
        .stderr(std::process::Stdio::null())
        .output()
        .unwrap()
}

/// Which crash points to try, out of `total`.
fn points(total: i64, max: i64, salt: i64) -> Vec<i64> {
    // the last point is right after the operation
    let total = total + 1;
    if total <= max {
        (1..=total).collect()
    } else {
        let step = total as f64 / max as f64;
        let mut v: Vec<i64> = (0..max).map(|i| 1 + ((i as f64 + (salt % 7) as f64 / 7.0) * step) as i64).filter(|x| *x <= total).collect();
        v.push(total);
        v.dedup();
        v
    }
}

pub fn run(args: Args) {
    let rt = rt();
    let mut rep = Report::new(&args);
    let max = args.u64("points", 40) as i64;
    for (i, t) in traces(&args.str("in", "")) {
        let steps = t.as_array().unwrap();
        let profile = i % 7;
        let nkeys = steps[0]["latest"].as_array().unwrap().len();
        let c = match steps.iter().position(|s| s["op"].as_str().unwrap().starts_with("crash")) {
            Some(c) => c,
            None => continue,
        };
        let wher = |n: i64| json!({"trace": i, "profile": profile, "crash_point": n,
            "steps": steps.iter().map(|x| json!([x["op"], x["a"], x["b"], x["res"]])).collect::<Vec<_>>()});
        let base = scratch(&format!("base{}", i));
        // a directory of its own for every crash: connections are closed in the background
        let serial = std::cell::Cell::new(0);
        let fresh_dir = |from: &Path| {
            let _ = std::fs::remove_dir_all(scratch(&format!("work{}-{}", i, serial.get())));
            serial.set(serial.get() + 1);
            let d = scratch(&format!("work{}-{}", i, serial.get()));
            copy_dir(from, &d);
            d
        };
        let _ = std::fs::remove_dir_all(&base);
        std::fs::create_dir_all(&base).unwrap();
        let job_path = scratch(&format!("job{}", i));
        let roots = &mut Roots::new();

        // ---- crash while the database is being created
        if i < args.u64("inits", 1) as usize {
            std::fs::write(&job_path, json!({"init": true, "profile": profile, "nkeys": nkeys}).to_string()).unwrap();
            let empty = scratch(&format!("empty{}", i));
            std::fs::create_dir_all(&empty).unwrap();
            let work = fresh_dir(&empty);
            let out = spawn(&job_path, &work, 1_000_000);
            let total: i64 = String::from_utf8_lossy(&out.stdout).trim().parse().unwrap_or(0);
            let fresh = json!({"op": "open", "latest": vec![-1; nkeys], "layers": [vec![-1; nkeys]], "dirty": false});
            if total == 0 {
                rep.mismatch(&["S06"], "initialisation", json!("ok"), json!(String::from_utf8_lossy(&out.stdout)), wher(0));
            }
            for n in points(total, max, i as i64) {
                let work = fresh_dir(&empty);
                spawn(&job_path, &work, n);
                rep.count("crashes_in_initialisation", 1);
                let opened = guard(&rt, async {
                    let mut w = World::open(&uri(&work), profile, nkeys).await;
                    if !w.base_exists().await? { w.setup().await?; }
                    Ok::<_, svm_state::StorageError>(w)
                });
                match opened {
                    Ok(Ok(mut w)) => {
                        compare(&rt, &mut w, &fresh, &["S06"], roots, &mut rep, &wher(n), true);
                    }
                    Ok(Err(e)) => { rep.mismatch(&["S06"], "reopening after a crash in the initialisation", json!("ok"), json!(format!("{:?}", e)), wher(n)); }
                    Err(p) => { rep.mismatch(&["S06"], "reopening after a crash in the initialisation", json!("ok"), json!(format!("panic {}", p)), wher(n)); }
                }
            }
        }

        // ---- everything up to the last durable operation before the crash
        let durable = steps[..c].iter().rposition(|s| ["commit", "rewind", "seal", "reopen"].contains(&s["op"].as_str().unwrap()) && s["res"] == "ok").map(|x| x + 1).unwrap_or(0);
        std::fs::write(&job_path, json!({"base": true, "profile": profile, "nkeys": nkeys, "steps": &steps[..durable]}).to_string()).unwrap();
        let out = spawn(&job_path, &base, 1_000_000);
        if !out.status.success() {
            rep.mismatch(&["S06"], "the operations before the crash", json!("ok"), json!(String::from_utf8_lossy(&out.stdout)), wher(0));
            continue;
        }
        let job = json!({"profile": profile, "nkeys": nkeys, "pending": &steps[durable..c], "op": steps[c]});
        std::fs::write(&job_path, job.to_string()).unwrap();

        // ---- how many calls does the operation make?
        let work = fresh_dir(&base);
        let out = spawn(&job_path, &work, 1_000_000);
        let total: i64 = match String::from_utf8_lossy(&out.stdout).trim().parse() {
            Ok(n) => n,
            Err(_) => { rep.mismatch(&["S06"], "operation without a crash", json!("ok"), json!(String::from_utf8_lossy(&out.stdout)), wher(0)); continue; }
        };
        rep.count("behaviours", 1);
        rep.count("file_system_calls", total as u64);
        let (before, after) = (&steps[c]["before"], &steps[c]["after"]);
        let mk = |layers: &Value| json!({"op": "crash", "latest": layers.as_array().unwrap().last().unwrap(), "layers": layers, "dirty": false});
        for n in points(total, max, i as i64) {
            let work = fresh_dir(&base);
            let completed = spawn(&job_path, &work, n).status.success();
            rep.count("crashes", 1);
            let mut w = match guard(&rt, World::open(&uri(&work), profile, nkeys)) {
                Ok(w) => w,
                Err(p) => { rep.mismatch(&["S06"], "reopening after a crash", json!("ok"), json!(format!("panic {}", p)), wher(n)); continue; }
            };
            // before or after?  the layer number tells, or the contents when both have as many layers
            let head = guard(&rt, w.gs.current_layer()).ok().and_then(|r| r.ok()).map(|x| x.0 .0 as usize + 1);
            let is_before = head == Some(before.as_array().unwrap().len());
            let st = if is_before { before } else { after };
            rep.count(if is_before { "outcome_before" } else { "outcome_after" }, 1);
            if completed && is_before && before != after {
                rep.mismatch(&["S06"], "a completed operation survives", json!("after"), json!("before"), wher(n));
            }
            let mine = compare(&rt, &mut w, &mk(st), &["S06"], roots, &mut rep, &wher(n), true);
            // ---- life goes on: the rest of the behaviour, if it continues this outcome
            if !mine && (is_before == (steps[c]["res"] == "before") || before == after) {
                for (j, s) in steps.iter().enumerate().skip(c + 1) {
                    if s["op"].as_str().unwrap().starts_with("crash") { break; }
                    if s["op"] == "reopen" {
                        drop(w);
                        w = match guard(&rt, World::open(&uri(&work), profile, nkeys)) {
                            Ok(w) => w,
                            Err(p) => { rep.mismatch(&["S06"], "second reopening", json!("ok"), json!(format!("panic {}", p)), wher(n)); break; }
                        };
                    } else {
                        let r = match apply(&rt, &mut w, s) { Ok(r) => r, Err(p) => format!("panic {}", p) };
                        if json!(r) != s["res"] {
                            rep.mismatch(&["S06"], "outcome after recovery", s["res"].clone(), json!(r), json!([wher(n), j]));
                            break;
                        }
                    }
                    rep.count("steps", 1);
                    if j + 1 == steps.len() || j == c + 4 {
                        compare(&rt, &mut w, s, &["S06"], roots, &mut rep, &json!([wher(n), j]), true);
                    }
                }
            }
        }
        if i < 2 { rep.sample(json!({"crash_points": total, "behaviour": wher(0)})); }
        fresh_dir(&base);
        for d in [base.clone(), scratch(&format!("work{}-{}", i, serial.get()))] { let _ = std::fs::remove_dir_all(d); }
    }
    rep.finish();
}
