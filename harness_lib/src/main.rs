mod c_plain;
mod c_ring;
mod c_share;

fn main() {
    let mut props = vec![];
    props.extend(c_ring::props());
    props.extend(c_plain::props());
    props.extend(c_share::props());
    vengine::main_with(props)
}
