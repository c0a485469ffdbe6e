#[path = "../proto.rs"]
mod proto;
use bi::address::Address;
use proto::{r, serve, Out};

fn main() {
    serve(|op, input, _| match op {
        "from_string" => match std::str::from_utf8(input) { Ok(s) => r(Address::from_string(s), |a| Out::Vec(a.to_vec())), Err(_) => Out::None },
        "display" => r(Address::from_slice(input), |a| Out::Str(format!("{}", a))),
        "from_script" => r(Address::from_script(input), |a| Out::Vec(a.to_vec())),
        _ => Out::None,
    });
}
