mod c_chan;
mod c_net;
mod pipe;

fn main() {
    let mut props = vec![];
    props.extend(c_chan::props());
    props.extend(c_net::props());
    vengine::main_with(props)
}
