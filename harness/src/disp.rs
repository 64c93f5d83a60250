//! Dispatch to the backend crates.
use vcore::glue::*;
use vcore::prog::*;
use vcore::sim::*;
use vcore::Runner;

pub fn runner(be: Be, ty: Ty) -> &'static dyn Runner {
    match be {
        Be::Aby3 => b_aby3a::runner(ty).or_else(|| b_aby3b::runner(ty)),
        Be::Mal => b_mala::runner(ty).or_else(|| b_malb::runner(ty)),
        Be::Spdz => b_spdza::runner(ty).or_else(|| b_spdzb::runner(ty)).or_else(|| b_spdzc::runner(ty)),
        Be::Swift => match ty {
            Ty::U8 => b_swiftu8::runner(ty),
            Ty::U16 => b_swiftu16::runner(ty),
            Ty::U32 => b_swiftu32::runner(ty),
            Ty::U64 => b_swiftu64::runner(ty),
            Ty::U128 => b_swiftu128::runner(ty),
            _ => b_swifti16::runner(ty),
        },
    }
    .expect("type is instantiated")
}

pub fn run_prog(p: &Prog, dev: &[Dev], cfg: &SimCfg, sched: &Sched) -> SimResult<Trace> {
    runner(p.be, p.ty).prog(p, dev, cfg, sched)
}

pub fn run_iris(h: &vcore::iris::Hist, dev: &[vcore::iris::IDev], cfg: &SimCfg, sched: &Sched) -> SimResult<vcore::iris::ITrace> {
    runner(h.be, h.ty).iris(h, dev, cfg, sched)
}

pub fn run_pipe(h: &vcore::iris::Hist, cfg: &SimCfg, sched: &Sched) -> SimResult<vcore::iris::ITrace> {
    runner(h.be, h.ty).pipe(h, cfg, sched)
}
