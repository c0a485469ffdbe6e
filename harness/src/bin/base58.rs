#[path = "../proto.rs"]
mod proto;
use bi::base58 as c;
use proto::{r, serve, Out};

fn main() {
    serve(|op, input, buffer| match op {
        "encode" => Out::Str(c::encode(input)),
        "encode_into" => r(c::encode_into(input, buffer), Out::Into),
        "decode" => r(c::decode(input), Out::Vec),
        "decode_into" => r(c::decode_into(input, buffer), Out::Into),
        _ => Out::None,
    });
}
