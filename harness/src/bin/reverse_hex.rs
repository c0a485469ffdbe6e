#[path = "../proto.rs"]
mod proto;
use bi::reverse_hex as c;
use proto::{r, serve, Out};

fn main() {
    serve(|op, input, buffer| match op {
        "encode" => Out::Str(c::encode(input)),
        "decode" => r(c::decode(input), Out::Vec),
        "decode_into" => r(c::decode_into(input, buffer), Out::Into),
        _ => Out::None,
    });
}
