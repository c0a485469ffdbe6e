// Line protocol: "<op> <input hex or -> <buffer size> <fill byte>" -> "str <hex>" | "vec <hex>" | "into <len> <buffer hex>" | "err <debug>" | "panic".
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[allow(dead_code)]
pub enum Out { Str(String), Vec(Vec<u8>), Into(usize), Err(String), None }

pub fn r<T, E: std::fmt::Debug>(x: Result<T, E>, f: impl FnOnce(T) -> Out) -> Out {
    match x { Ok(v) => f(v), Err(e) => Out::Err(format!("{:?}", e).replace('\n', " ")) }
}

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return Vec::new(); }
    let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

fn hex(b: &[u8]) -> String {
    if b.is_empty() { return "-".into(); }
    let mut s = String::with_capacity(2 * b.len());
    for x in b { for n in [x >> 4, x & 15] { s.push((if n < 10 { b'0' + n } else { b'a' + n - 10 }) as char); } }
    s
}

pub fn serve(f: impl Fn(&str, &[u8], &mut Vec<u8>) -> Out) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split(' ').collect();
        let input = unhex(p[1]);
        // the input sits at the end of its own exactly sized allocation, so that an overread is one the sanitizers see
        let input: Box<[u8]> = input.into_boxed_slice();
        let mut buffer = vec![p[3].parse::<u8>().unwrap(); p[2].parse().unwrap()];
        buffer.shrink_to_fit();
        let o = catch_unwind(AssertUnwindSafe(|| f(p[0], &input, &mut buffer)));
        let text = match o {
            Err(_) => "panic".to_string(),
            Ok(Out::Str(s)) => match std::str::from_utf8(std::hint::black_box(s.as_bytes())) { Ok(_) => format!("str {}", hex(s.as_bytes())), Err(_) => "invalid-utf8".into() },
            Ok(Out::Vec(v)) => format!("vec {}", hex(&v)),
            Ok(Out::Into(n)) => format!("into {} {}", n, hex(&buffer)),
            Ok(Out::Err(e)) => format!("err {}", e),
            Ok(Out::None) => "none".into(),
        };
        writeln!(out, "{}", text).unwrap();
    }
}
