#![allow(unused, deprecated)]
use concrete_core::commons::crypto::encoding::{Plaintext, PlaintextList};
use concrete_core::commons::math::polynomial::Polynomial;
use concrete_core::commons::math::tensor::{AsMutSlice, AsMutTensor, AsRefSlice, AsRefTensor};
use concrete_core::prelude::*;
use panacea::codec::*;
use panacea::context::*;
use panacea::decision_tree::*;
use panacea::lwe::*;
use panacea::naive_hash::*;
use panacea::oram::*;
use panacea::params::*;
use panacea::rgsw::*;
use panacea::rlwe::*;
use panacea::utils::*;
use rayon::prelude::*;

type Pt = PlaintextList<Vec<u64>>;
fn par(n: usize) -> TFHEParameters {
    TFHEParameters { polynomial_size: n, ..TFHEParameters::default() }
}
fn coeffs(p: &Pt) -> Vec<u64> {
    p.as_tensor().iter().cloned().collect()
}
fn pt(v: Vec<u64>) -> Pt {
    PlaintextList::from_container(v)
}
fn unit(n: usize, i: usize, x: u64) -> Pt {
    let mut v = vec![0; n];
    v[i] = x;
    pt(v)
}
fn phase(sk: &RLWESecretKey, c: &RLWECiphertext) -> Vec<u64> {
    let mut p = pt(vec![0; c.polynomial_size().0]);
    sk.decrypt_rlwe(&mut p, c);
    coeffs(&p)
}
fn dec(sk: &RLWESecretKey, c: &RLWECiphertext, ctx: &Context) -> Vec<u64> {
    let mut p = pt(vec![0; c.polynomial_size().0]);
    sk.decrypt_decode_rlwe(&mut p, c, ctx);
    coeffs(&p)
}
fn enc(sk: &RLWESecretKey, v: &[u64], ctx: &mut Context) -> RLWECiphertext {
    let mut c = RLWECiphertext::allocate(ctx.poly_size);
    sk.encode_encrypt_rlwe(&mut c, &pt(v.to_vec()), ctx);
    c
}
fn raw(sk: &RLWESecretKey, v: &[u64], ctx: &mut Context) -> RLWECiphertext {
    let mut c = RLWECiphertext::allocate(ctx.poly_size);
    let std = ctx.std;
    sk.encrypt_rlwe(&mut c, &pt(v.to_vec()), std, &mut ctx.encryption_generator);
    c
}
fn dist(a: u64, b: u64) -> u64 {
    (a.wrapping_sub(b) as i64).unsigned_abs()
}
/// largest distance, log2
fn off(a: &[u64], b: &[u64]) -> f64 {
    (a.iter().zip(b).map(|(x, y)| dist(*x, *y)).max().unwrap() as f64).log2()
}
fn read(c: &mut Client, s: &mut Server, h: &NaiveHash, i: usize) -> Vec<u64> {
    let q = c.gen_read_query_one(i, h);
    let (y, _) = s.process_one(q);
    dec(&c.sk, &y, &c.ctx)
}
fn write(c: &mut Client, s: &mut Server, h: &NaiveHash, i: usize, v: &[u64]) -> Vec<u64> {
    let q = c.gen_write_query_one(i, &pt(v.to_vec()), h);
    let (y, _) = s.process_one(q);
    dec(&c.sk, &y, &c.ctx)
}
fn leaf(x: usize) -> Option<Node> {
    Some(Node::Leaf(x))
}
fn node(feature: usize, threshold: usize, left: Option<Node>, right: Option<Node>) -> Node {
    Node::Internal(Box::new(Internal { threshold, feature, index: 0, op: Op::LEQ, left, right }))
}
fn lossy(p: &Pt) -> u64 {
    pt_to_lossy_u64(p)
}
