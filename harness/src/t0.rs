use crate::sym;
use koopa::back::KoopaGenerator;
use koopa::front::driver::Driver;
use koopa::front::span::FileType;

fn rt() {
    let src = "global @a = alloc i32, zeroinit\nfun @f(%x: i32): i32 {\n%entry:\n  %0 = load @a\n  %1 = add %0, 12\n  ret %1\n}\n";
    let d = Driver::new(FileType::Buffer, src.as_bytes());
    let p = d.generate_program();
    match p {
        Ok(p) => {
            let mut g = KoopaGenerator::new(Vec::new());
            g.generate_on(&p).unwrap();
            let w = g.writer();
            sym::trace_bytes(&w);
            sym::observe_bytes(&w);
            sym::reach(1);
        }
        Err(_) => sym::check(false, "rejected"),
    }
}

fn lexnum() {
    let mut v = b"fun @f(): i32 {\n%entry:\n  ret ".to_vec();
    let a = sym::u8();
    let b = sym::u8();
    v.push(a);
    v.push(b);
    v.extend_from_slice(b"\n}\n");
    let d = Driver::new(FileType::Buffer, &v[..]);
    match d.generate_program() {
        Ok(_) => {
            sym::reach(1);
            sym::check(a != b'x', "x");
        }
        Err(_) => sym::reach(2),
    }
}

crate::harnesses! { rt lexnum }

