//! Overlay of concrete-csprng's software generator: every draw is handed to the
//! verification environment (`__vp_rng`), which returns an unconstrained value.
//! Stream positions and child bounds are tracked exactly as the original does.
use crate::generators::{
    ByteCount, BytesPerChild, ChildrenCount, ForkError, ParallelRandomGenerator, RandomGenerator,
};
use crate::seeders::Seed;
use rayon::iter::plumbing::{Consumer, ProducerCallback, UnindexedConsumer};
use rayon::prelude::*;

extern "C" {
    fn __vp_rng(seed_lo: u64, seed_hi: u64, pos: u64, kind: u32, nbytes: u32) -> u64;
    fn __vp_gauss(seed_lo: u64, seed_hi: u64, pos: u64, std_bits: u64) -> u64;
}

pub struct SoftwareRandomGenerator {
    seed: u128,
    pos: u64,
    bound: u64,
}
pub type AesniRandomGenerator = SoftwareRandomGenerator;

pub struct SoftwareChildrenIterator {
    seed: u128,
    start: u64,
    n: usize,
    bytes: usize,
    i: usize,
}

impl Iterator for SoftwareChildrenIterator {
    type Item = SoftwareRandomGenerator;
    fn next(&mut self) -> Option<Self::Item> {
        if self.i >= self.n {
            return None;
        }
        let s = self.start + (self.i * self.bytes) as u64;
        self.i += 1;
        Some(SoftwareRandomGenerator { seed: self.seed, pos: s, bound: s + self.bytes as u64 })
    }
}

impl SoftwareRandomGenerator {
    fn fork(&mut self, n: usize, bytes: usize) -> Result<u64, ForkError> {
        if n == 0 {
            return Err(ForkError::ZeroChildrenCount);
        }
        if bytes == 0 {
            return Err(ForkError::ZeroBytesPerChild);
        }
        let start = self.pos;
        let end = start + (n * bytes) as u64;
        if end > self.bound {
            return Err(ForkError::ForkTooLarge);
        }
        self.pos = end;
        Ok(start)
    }
}

impl RandomGenerator for SoftwareRandomGenerator {
    type ChildrenIter = SoftwareChildrenIterator;
    fn new(seed: Seed) -> Self {
        SoftwareRandomGenerator { seed: seed.0, pos: 0, bound: u64::MAX }
    }
    fn remaining_bytes(&self) -> ByteCount {
        ByteCount(if self.bound == u64::MAX { u128::MAX } else { (self.bound - self.pos) as u128 })
    }
    fn try_fork(
        &mut self,
        n_children: ChildrenCount,
        n_bytes: BytesPerChild,
    ) -> Result<Self::ChildrenIter, ForkError> {
        let start = self.fork(n_children.0, n_bytes.0)?;
        Ok(SoftwareChildrenIterator { seed: self.seed, start, n: n_children.0, bytes: n_bytes.0, i: 0 })
    }
    fn vp_draw(&mut self, kind: u32, nbytes: u32) -> u64 {
        assert!(self.bound - self.pos >= nbytes as u64, "generator bound exhausted");
        let p = self.pos;
        self.pos += nbytes as u64;
        unsafe { __vp_rng(self.seed as u64, (self.seed >> 64) as u64, p, kind, nbytes) }
    }
    fn vp_gauss(&mut self, std_bits: u64) -> u64 {
        assert!(self.bound - self.pos >= 8, "generator bound exhausted");
        let p = self.pos;
        self.pos += 8;
        unsafe { __vp_gauss(self.seed as u64, (self.seed >> 64) as u64, p, std_bits) }
    }
}

impl Iterator for SoftwareRandomGenerator {
    type Item = u8;
    fn next(&mut self) -> Option<Self::Item> {
        if self.pos >= self.bound {
            return None;
        }
        Some(self.vp_draw(0, 1) as u8)
    }
}

pub struct ParallelSoftwareChildrenIterator(rayon::vec::IntoIter<SoftwareRandomGenerator>);

impl ParallelIterator for ParallelSoftwareChildrenIterator {
    type Item = SoftwareRandomGenerator;
    fn drive_unindexed<C>(self, consumer: C) -> C::Result
    where
        C: UnindexedConsumer<Self::Item>,
    {
        self.0.drive_unindexed(consumer)
    }
}

impl IndexedParallelIterator for ParallelSoftwareChildrenIterator {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn drive<C: Consumer<Self::Item>>(self, consumer: C) -> C::Result {
        self.0.drive(consumer)
    }
    fn with_producer<CB: ProducerCallback<Self::Item>>(self, callback: CB) -> CB::Output {
        self.0.with_producer(callback)
    }
}

impl ParallelRandomGenerator for SoftwareRandomGenerator {
    type ParChildrenIter = ParallelSoftwareChildrenIterator;
    fn par_try_fork(
        &mut self,
        n_children: ChildrenCount,
        n_bytes: BytesPerChild,
    ) -> Result<Self::ParChildrenIter, ForkError> {
        let v: Vec<_> = self.try_fork(n_children, n_bytes)?.collect();
        Ok(ParallelSoftwareChildrenIterator(v.into_par_iter()))
    }
}
