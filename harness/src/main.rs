mod ctx;
mod dict;
mod dims;
mod gen;
mod mon;
mod obs;
mod refp;
mod rng;
mod shapes;
#[rustfmt::skip]
mod tables;
mod p1;
mod p2;
mod p3;
mod props;
mod val;
mod work;

fn main() {
    ctx::main();
}
