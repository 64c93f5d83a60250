//! Simulated network, uniform backend view, programs over shares. The backend crates under `../b` instantiate
//! the generic parts (one crate per group of types, so that they compile in parallel).
pub mod glue;
pub mod iris;
pub mod prog;
pub mod sim;

use sim::{Sched, SimCfg, SimResult};

/// Everything the checks run over one (backend, type), behind a vtable.
pub trait Runner: Sync {
    fn prog(&self, p: &prog::Prog, dev: &[prog::Dev], cfg: &SimCfg, sched: &Sched) -> SimResult<prog::Trace>;
    fn iris(&self, h: &iris::Hist, dev: &[iris::IDev], cfg: &SimCfg, sched: &Sched) -> SimResult<iris::ITrace>;
    fn pipe(&self, h: &iris::Hist, cfg: &SimCfg, sched: &Sched) -> SimResult<iris::ITrace>;
}
pub struct R<G>(pub std::marker::PhantomData<fn() -> G>);
impl<G: glue::Glue> Runner for R<G> {
    fn prog(&self, p: &prog::Prog, dev: &[prog::Dev], cfg: &SimCfg, sched: &Sched) -> SimResult<prog::Trace> {
        prog::run_generic::<G>(p, dev, cfg, sched)
    }
    fn iris(&self, h: &iris::Hist, dev: &[iris::IDev], cfg: &SimCfg, sched: &Sched) -> SimResult<iris::ITrace> {
        iris::run_iris::<G>(h, dev, cfg, sched)
    }
    fn pipe(&self, h: &iris::Hist, cfg: &SimCfg, sched: &Sched) -> SimResult<iris::ITrace> {
        iris::run_pipe::<G>(h, cfg, sched)
    }
}

#[doc(hidden)]
pub mod pre {
    pub use crate::glue::*;
    pub use crate::sim::SimNet;
    pub use crate::{Runner, R};
    pub use iris_mpc::prelude::*;
    pub use plain_reference::IrisCodeArray;
    pub use rand::SeedableRng;
    pub use rand_chacha::ChaCha12Rng;
}

#[macro_export]
macro_rules! table {
    ($($ty:ident => $g:ident),* $(,)?) => {
        #[inline(never)]
        pub fn runner(ty: Ty) -> Option<&'static dyn Runner> {
            match ty {
                $(Ty::$ty => {
                    static X: R<$g> = R(std::marker::PhantomData);
                    Some(&X)
                })*
                #[allow(unreachable_patterns)]
                _ => None,
            }
        }
    };
}
