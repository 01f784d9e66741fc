//! Plan minimisation: operations, faults, network noise, then the schedule.
use crate::core::{Outcome, Plan};
use crate::forkrun::run_forked;
use crate::interpose::real_now;

fn kind(m: &str) -> &str {
    m.split(':').next().unwrap_or(m)
}

struct S<'a> {
    prop: &'a str,
    kind: String,
    deadline: f64,
    tries: u32,
}

impl S<'_> {
    fn bad(&mut self, p: &Plan) -> Option<Outcome> {
        if real_now() > self.deadline || self.tries > 1500 {
            return None;
        }
        self.tries += 1;
        let o = run_forked(p, false, 30);
        if o.violations.iter().any(|v| v.0 == self.prop && kind(&v.1) == self.kind) {
            Some(o)
        } else {
            None
        }
    }

    fn ddmin<T: Clone>(&mut self, p: &mut Plan, get: fn(&mut Plan) -> &mut Vec<T>) {
        let mut n = 2usize;
        loop {
            let len = get(p).len();
            if len == 0 {
                return;
            }
            let chunk = (len + n - 1) / n;
            let mut reduced = false;
            let mut i = 0;
            while i < get(p).len() {
                let mut q = p.clone();
                let v = get(&mut q);
                let end = (i + chunk).min(v.len());
                v.drain(i..end);
                if self.bad(&q).is_some() {
                    *p = q;
                    reduced = true;
                } else {
                    i += chunk;
                }
                if real_now() > self.deadline {
                    return;
                }
            }
            if chunk == 1 && !reduced {
                return;
            }
            if chunk > 1 {
                n = (n * 2).min(get(p).len().max(1));
            }
        }
    }
}

pub fn shrink(plan: &Plan, prop: &str, msg: &str, secs: f64) -> (Plan, Outcome) {
    let mut s = S { prop, kind: kind(msg).to_string(), deadline: real_now() + secs, tries: 0 };
    let mut p = plan.clone();
    for f in [
        (|p: &mut Plan| { p.sched.policy = 0; p.sched.poll_cost = 0; }) as fn(&mut Plan),
        |p| { p.net.spike_permille = 0; p.net.short = 0; p.net.accept_fail = 0; p.net.connect_fail = 0; },
        |p| { p.net.min = 0; p.net.max = 0; },
        |p| { p.net.buf = 1 << 20; },
        |p| p.faults.clear(),
    ] {
        let mut q = p.clone();
        f(&mut q);
        if s.bad(&q).is_some() {
            p = q;
        }
    }
    s.ddmin(&mut p, |p| &mut p.faults);
    s.ddmin(&mut p, |p| &mut p.ops);
    s.ddmin(&mut p, |p| &mut p.faults);
    for i in 0..p.ops.len() {
        if p.ops[i].gap > 0 {
            let mut q = p.clone();
            q.ops[i].gap = 0;
            if s.bad(&q).is_some() {
                p = q;
            }
        }
    }
    // freeze the schedule into an explicit list of deviations from FIFO order
    if let Some(o) = s.bad(&p) {
        let mut q = p.clone();
        q.sched.policy = 5;
        q.sched.deviations = o.recorded.clone();
        if s.bad(&q).is_some() {
            p = q;
            s.ddmin(&mut p, |p| &mut p.sched.deviations);
        }
    }
    let o = run_forked(&p, true, 120);
    if o.violations.iter().any(|v| v.0 == prop) {
        (p, o)
    } else {
        let o = run_forked(plan, true, 120);
        (plan.clone(), o)
    }
}
