mod c_args;
mod c_iris;
mod c_mask;
mod c_prog;
mod c_robust;
mod c_rush;
mod c_setup;
mod c_tamper;

mod disp;


fn main() {
    let mut props = vec![];
    props.extend(c_prog::props());
    props.extend(c_iris::props());
    props.extend(c_tamper::props());
    props.extend(c_robust::props());
    props.extend(c_args::props());
    props.extend(c_mask::props());
    props.extend(c_setup::props());
    for p in props.iter_mut() {
        match p.id {
            "P04" => p.families.extend(c_rush::p04()),
            "P05" => p.families.extend(c_rush::p05()),
            "P23" => p.families.extend(c_rush::p23()),
            _ => {}
        }
    }
    vengine::main_with(props)
}
