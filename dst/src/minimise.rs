//! Reduction of a failing run: fewer steps, fewer faults, a plainer configuration, the same violation.
use crate::ops::*;
use crate::prng::mix;
use crate::world::Viol;
use std::time::{Duration, Instant};

pub struct Reducer<'a> {
    pub end: Instant,
    pub tries: u64,
    /// Some(violation) if the candidate still shows it
    pub test: &'a mut dyn FnMut(&Config, &[Step]) -> Option<(usize, Viol)>,
}

impl<'a> Reducer<'a> {
    pub fn run(secs: u64, cfg: Config, steps: Vec<Step>, v: (usize, Viol), test: &'a mut dyn FnMut(&Config, &[Step]) -> Option<(usize, Viol)>) -> (Config, Vec<Step>, (usize, Viol), u64) {
        let mut r = Reducer { end: Instant::now() + Duration::from_secs(secs), tries: 0, test };
        let (mut c, mut s, mut v) = (cfg, steps, v);
        r.cut(&c, &mut s, &mut v);
        for _ in 0..4 {
            let before = (c.clone(), s.clone());
            r.ddmin(&c, &mut s, &mut v);
            r.plain(&c, &mut s, &mut v);
            r.config(&mut c, &mut s, &mut v);
            if before == (c.clone(), s.clone()) || r.over() {
                break;
            }
        }
        (c, s, v, r.tries)
    }
    fn over(&self) -> bool {
        Instant::now() > self.end
    }
    fn ok(&mut self, c: &Config, s: &[Step]) -> Option<(usize, Viol)> {
        if self.over() {
            return None;
        }
        self.tries += 1;
        (self.test)(c, s)
    }
    fn cut(&mut self, c: &Config, s: &mut Vec<Step>, v: &mut (usize, Viol)) {
        if v.0 + 1 < s.len() {
            let t = s[..=v.0].to_vec();
            if let Some(x) = self.ok(c, &t) {
                *s = t;
                *v = x;
            }
        }
    }
    fn ddmin(&mut self, c: &Config, s: &mut Vec<Step>, v: &mut (usize, Viol)) {
        let mut n = (s.len() / 2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < s.len() {
                let j = (i + n).min(s.len());
                let mut t = s[..i].to_vec();
                t.extend_from_slice(&s[j..]);
                if let Some(x) = self.ok(c, &t) {
                    *s = t;
                    *v = x;
                    any = true;
                } else {
                    i = j;
                }
                if self.over() {
                    return;
                }
            }
            if n == 1 && !any {
                return;
            }
            if !any || n > s.len() {
                n = (n / 2).max(1);
            }
        }
    }
    fn plain(&mut self, c: &Config, s: &mut Vec<Step>, v: &mut (usize, Viol)) {
        for i in 0..s.len() {
            if i >= s.len() {
                break;
            }
            let mut cands: Vec<Op> = vec![];
            match &s[i].op {
                Op::Trap { op, .. } | Op::Refuse { op, .. } => cands.push((**op).clone()),
                Op::Write { fd, pat, len } if *len > 1 => {
                    for l in [1, len / 2, len - 1] {
                        cands.push(Op::Write { fd: *fd, pat: *pat, len: l });
                    }
                }
                Op::WriteVec { fd, pat, lens } => cands.push(Op::Write { fd: *fd, pat: *pat, len: lens.iter().sum() }),
                Op::WriteAt { fd, pat, lens, off } if lens.len() > 1 => cands.push(Op::WriteAt { fd: *fd, pat: *pat, lens: vec![lens.iter().sum()], off: *off }),
                Op::WriteAt { fd, pat, lens, off } if lens.len() == 1 && lens[0] > 1 => cands.push(Op::WriteAt { fd: *fd, pat: *pat, lens: vec![1], off: *off }),
                _ => {}
            }
            for op in cands {
                let mut t = s.clone();
                t[i].op = op;
                if let Some(x) = self.ok(c, &t) {
                    *s = t;
                    *v = x;
                    break;
                }
            }
            if s[i].client != 0 {
                let mut t = s.clone();
                t[i].client = 0;
                if let Some(x) = self.ok(c, &t) {
                    *s = t;
                    *v = x;
                }
            }
        }
    }
    fn config(&mut self, c: &mut Config, s: &mut Vec<Step>, v: &mut (usize, Viol)) {
        let mut cands: Vec<Config> = vec![];
        let base = c.clone();
        let mut with = |f: &dyn Fn(&mut Config)| {
            let mut x = base.clone();
            f(&mut x);
            if x != base {
                cands.push(x);
            }
        };
        with(&|x| x.cotenants.clear());
        with(&|x| x.fss.truncate(1));
        with(&|x| x.shadow_every = false);
        with(&|x| x.audit_failures = false);
        with(&|x| x.audit_deep = false);
        with(&|x| x.hash_seed = 1);
        with(&|x| x.bucket = 1);
        with(&|x| x.fss[0].own_manager = false);
        with(&|x| x.fss[0].v1 = false);
        with(&|x| {
            if x.base == Base::Fresh {
                x.fss[0].chunk_size = None
            }
        });
        with(&|x| {
            if x.base == Base::Fresh && !x.fss[0].own_manager && x.fss.len() == 1 {
                x.fss[0].start = 0;
                x.fss[0].range_len = 10;
            }
        });
        with(&|x| {
            if x.cycles > 2 {
                x.cycles = (x.cycles / 2).max(2)
            }
        });
        for x in cands {
            // keep the other reductions found so far
            let mut y = x.clone();
            if let Some(w) = self.ok(&y, s) {
                std::mem::swap(c, &mut y);
                *v = w;
                return;
            }
        }
        // mounted memories that no step uses may go, last ones first
        while let Some(last) = c.mems.len().checked_sub(1) {
            let used = s.iter().any(|st| uses_mem(&st.op, last as u8));
            if used {
                break;
            }
            let mut y = c.clone();
            y.mems.pop();
            match self.ok(&y, s) {
                Some(w) => {
                    *c = y;
                    *v = w;
                }
                None => break,
            }
        }
    }
}

fn uses_mem(op: &Op, m: u8) -> bool {
    match op {
        Op::Mount { mem, .. } | Op::MemWrite { mem, .. } | Op::MemGrow { mem, .. } | Op::MemCheck { mem } | Op::MemCap { mem, .. } => *mem == m,
        Op::Trap { op, .. } | Op::Refuse { op, .. } => uses_mem(op, m),
        _ => false,
    }
}

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = mix(base ^ 0x5eed);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ i.wrapping_mul(0x9E3779B97F4A7C15))
}
