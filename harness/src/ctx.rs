//! Where a workload runs: ordinary threads, pools of various sizes, nested tasks.
use crate::rng::Rng;
use rayon::prelude::*;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug)]
pub enum Ctx {
    Plain,
    Install(usize),
    Nested(usize, usize),
    Threads(usize),
    Scope(Option<usize>, usize),
    Join(Option<usize>),
    ParIter(Option<usize>, usize),
    InPlace(usize),
    Spawn,
    /// ordinary threads, each inside the same small pool
    ThreadsInstall(usize, usize),
}
pub fn pool(n: usize) -> Arc<rayon::ThreadPool> {
    static POOLS: OnceLock<Mutex<std::collections::HashMap<usize, Arc<rayon::ThreadPool>>>> = OnceLock::new();
    let m = POOLS.get_or_init(Default::default);
    m.lock().unwrap().entry(n).or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())).clone()
}
impl Ctx {
    pub fn random(r: &mut Rng) -> Ctx {
        let size = |r: &mut Rng| crate::rng::cap(*r.pick(&[1, 1, 2, 2, 3, 4, 7, 12, 1, 2, 3, 4, 2, 20]), 3);
        let opt = |r: &mut Rng| if r.chance(1, 2) { None } else { Some(*r.pick(&[1, 2, 3, 5])) };
        match r.below(12) {
            0 => Ctx::Plain,
            1 | 2 => Ctx::Install(size(r)),
            3 => Ctx::Nested(size(r), size(r)),
            4 => Ctx::Threads(if r.chance(1, 12) { r.range(9, 30) } else { r.range(2, 8) }),
            5 | 6 => Ctx::Scope(opt(r), r.range(2, 10)),
            7 => Ctx::Join(opt(r)),
            8 => Ctx::ParIter(opt(r), r.range(2, 12)),
            9 => Ctx::InPlace(r.range(2, 6)),
            10 => Ctx::Spawn,
            _ => Ctx::ThreadsInstall(r.range(2, 6), size(r)),
        }
    }
    pub fn name(&self) -> String {
        match self {
            Ctx::Plain => "ordinary thread".into(),
            Ctx::Install(1) => "inside a pool of one".into(),
            Ctx::Install(_) => "inside a pool".into(),
            Ctx::Nested(..) => "inside a pool inside a pool".into(),
            Ctx::Threads(_) => "many ordinary threads".into(),
            Ctx::Scope(..) => "scoped parallel tasks".into(),
            Ctx::Join(_) => "both sides of a join".into(),
            Ctx::ParIter(..) => "parallel iterator".into(),
            Ctx::InPlace(_) => "tasks of an in-place scope".into(),
            Ctx::Spawn => "detached task".into(),
            Ctx::ThreadsInstall(..) => "many threads sharing a pool".into(),
        }
    }
    /// Runs f once or several times (numbered) in this context.
    pub fn run<R: Send>(&self, f: impl Fn(usize) -> R + Sync) -> Vec<R> {
        let f = &f;
        let inside = |p: &Option<usize>, g: &(dyn Fn() -> Vec<R> + Sync)| match p {
            Some(n) => pool(*n).install(g),
            None => rayon::scope(|_| g()),
        };
        match self {
            Ctx::Plain => vec![f(0)],
            Ctx::Install(n) => vec![pool(*n).install(|| f(0))],
            Ctx::Nested(a, b) => vec![pool(*a).install(|| {
                let inner = rayon::ThreadPoolBuilder::new().num_threads(*b).build().unwrap();
                inner.install(|| f(0))
            })],
            Ctx::Threads(k) => std::thread::scope(|s| {
                let h: Vec<_> = (0..*k).map(|i| s.spawn(move || f(i))).collect();
                h.into_iter().map(|h| h.join().unwrap()).collect()
            }),
            Ctx::Scope(p, k) => inside(p, &|| {
                let out = Mutex::new(Vec::new());
                rayon::scope(|s| {
                    for i in 0..*k {
                        let out = &out;
                        s.spawn(move |_| {
                            let v = f(i);
                            out.lock().unwrap().push(v)
                        });
                    }
                });
                out.into_inner().unwrap()
            }),
            Ctx::Join(p) => inside(p, &|| {
                let (a, (b, c)) = rayon::join(|| f(0), || rayon::join(|| f(1), || f(2)));
                vec![a, b, c]
            }),
            Ctx::ParIter(p, k) => inside(p, &|| (0..*k).into_par_iter().map(f).collect()),
            Ctx::InPlace(k) => {
                let out = Mutex::new(Vec::new());
                rayon::in_place_scope(|s| {
                    for i in 1..*k {
                        let out = &out;
                        s.spawn(move |_| {
                            let v = f(i);
                            out.lock().unwrap().push(v)
                        });
                    }
                    let v = f(0);
                    out.lock().unwrap().push(v);
                });
                out.into_inner().unwrap()
            }
            Ctx::Spawn => {
                let out = Mutex::new(None);
                let (tx, rx) = std::sync::mpsc::channel();
                rayon::in_place_scope(|s| {
                    let out = &out;
                    s.spawn(move |_| {
                        *out.lock().unwrap() = Some(f(0));
                        tx.send(()).unwrap();
                    });
                    let _ = rx.recv();
                });
                vec![out.into_inner().unwrap().unwrap()]
            }
            Ctx::ThreadsInstall(k, n) => {
                let p = pool(*n);
                std::thread::scope(|s| {
                    let h: Vec<_> = (0..*k)
                        .map(|i| {
                            let p = p.clone();
                            s.spawn(move || p.install(|| f(i)))
                        })
                        .collect();
                    h.into_iter().map(|h| h.join().unwrap()).collect()
                })
            }
        }
    }
}
