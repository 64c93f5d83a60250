//! Checks that need crate-private items; one property per build (`--cfg verif_hooks="p10"`, ...).
#[cfg(verif_hooks = "p11")]
mod c_commit;
#[cfg(verif_hooks = "p10")]
mod c_enc;
#[cfg(verif_hooks = "p13")]
mod c_poly;
#[cfg(verif_hooks = "p12")]
mod c_proof;

#[cfg(feature = "sim")]
#[path = "../../harness/src/disp.rs"]
mod disp;
#[cfg(all(feature = "sim", verif_hooks = "p11"))]
mod s_commit;
#[cfg(all(feature = "sim", verif_hooks = "p12"))]
mod s_proof;

fn main() {
    #[allow(unused_mut)]
    let mut props: Vec<vengine::Prop> = vec![];
    #[cfg(verif_hooks = "p10")]
    props.extend(c_enc::props());
    #[cfg(verif_hooks = "p11")]
    props.extend(c_commit::props());
    #[cfg(verif_hooks = "p12")]
    props.extend(c_proof::props());
    #[cfg(verif_hooks = "p13")]
    props.extend(c_poly::props());
    vengine::main_with(props)
}
