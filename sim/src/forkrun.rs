//! One simulation per forked process: no state can leak between runs.
use crate::core::{run_here, Outcome, Plan};
use std::io::Read;
use std::os::fd::FromRawFd;

pub fn pipe() -> (i32, i32) {
    let mut p = [0i32; 2];
    unsafe { assert_eq!(libc::pipe(p.as_mut_ptr()), 0) };
    (p[0], p[1])
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

/// runs `plan` in a child process, on a fresh thread
pub fn run_forked(plan: &Plan, trace: bool, wall_secs: u32) -> Outcome {
    let (r, w) = pipe();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::close(r);
            libc::alarm(wall_secs);
        }
        let plan = plan.clone();
        let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let o = run_here(&plan, trace);
            let s = serde_json::to_vec(&o).unwrap();
            write_all(w, &s);
            unsafe { libc::_exit(0) };
        });
        let _ = t.unwrap().join();
        unsafe { libc::_exit(3) };
    }
    unsafe { libc::close(w) };
    let mut f = unsafe { std::fs::File::from_raw_fd(r) };
    let mut buf = vec![];
    let _ = f.read_to_end(&mut buf);
    let mut st = 0i32;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    match serde_json::from_slice(&buf) {
        Ok(o) => o,
        Err(_) => {
            let mut o = Outcome::default();
            if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
                let spec = crate::sc::spec(plan);
                o.violations.push((spec.hang_prop.to_string(), "stuck: a task never yielded (wall-clock limit)".into()));
            } else {
                let spec = crate::sc::spec(plan);
                o.violations.push((spec.hang_prop.to_string(), format!("process died: wait status {st}")));
            }
            o
        }
    }
}
