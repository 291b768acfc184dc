//! Kani harnesses over the real source of gadgets/src/merkletree/cbmt.rs.
//! Without Kani the same harnesses run on the values of a counterexample
//! (`k-cbmt HARNESS v1 v2 ...`): exit 0 if they hold, 1 with a message if not,
//! 3 if the values violate an assumption of the harness.
//!
//! function: MerkleTree::build_proof
//! function: MerkleTree::root
//! function: MerkleProof::root
//! function: MerkleProof::verify
//! function: CBMT::build_merkle_root
//! function: CBMT::build_merkle_tree
//! function: CBMT::build_merkle_proof
//! function: TreeIndex for u32
//! bound: honest proofs: 1 to 5 leaves with arbitrary values, every leaf, every hash function
//! bound: indices beyond the leaves: 1 to 5 leaves, every u32
//! bound: roots: 0 to 7 leaves
//! bound: forged proofs: 1 to 5 leaves, up to 4 siblings with arbitrary values, every u32 index, every claimed leaf; items of 8 bits
#![allow(dead_code, static_mut_refs)]
pub use std::vec::Vec;

#[path = "/repo/gadgets/src/merkletree/cbmt.rs"]
mod cbmt;
use cbmt::{Merge, CBMT};

#[cfg(kani)]
mod env {
    pub fn any_u8() -> u8 {
        kani::any()
    }
    pub fn any_u32() -> u32 {
        kani::any()
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
}
#[cfg(not(kani))]
mod env {
    pub static mut VALS: Vec<u64> = Vec::new();
    fn next() -> u64 {
        unsafe {
            if VALS.is_empty() {
                0
            } else {
                VALS.remove(0)
            }
        }
    }
    pub fn any_u8() -> u8 {
        next() as u8
    }
    pub fn any_u32() -> u32 {
        next() as u32
    }
    pub fn assume(b: bool) {
        if !b {
            println!("assumption violated");
            std::process::exit(3)
        }
    }
}
use env::*;

/// an ideal hash: a fresh value per new pair of arguments, never a value it
/// returned before nor a value of a leaf
const TAB: usize = 12;
static mut KEYS: [(u8, u8); TAB] = [(0, 0); TAB];
static mut OUTS: [u8; TAB] = [0; TAB];
static mut USED: usize = 0;
static mut LEAVES: [u8; 8] = [0; 8];
static mut NLEAVES: usize = 0;
static mut IDEAL: bool = true;

struct H;
impl Merge for H {
    type Item = u8;
    fn merge(l: &u8, r: &u8) -> u8 {
        unsafe {
            let mut i = 0;
            while i < USED {
                if KEYS[i].0 == *l && KEYS[i].1 == *r {
                    return OUTS[i];
                }
                i += 1;
            }
            let o = any_u8();
            if IDEAL {
                let mut i = 0;
                while i < USED {
                    assume(OUTS[i] != o);
                    i += 1;
                }
                let mut i = 0;
                while i < NLEAVES {
                    assume(LEAVES[i] != o);
                    i += 1;
                }
            }
            assume(USED < TAB);
            KEYS[USED] = (*l, *r);
            OUTS[USED] = o;
            USED += 1;
            o
        }
    }
}
type T = CBMT<u8, H>;
type P = cbmt::MerkleProof<u8, H>;

fn leaves(n: usize, ideal: bool) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    unsafe {
        IDEAL = ideal;
        let mut i = 0;
        while i < n {
            LEAVES[i] = any_u8();
            v.push(LEAVES[i]);
            i += 1;
        }
        NLEAVES = n;
    }
    v
}

/// every leaf's proof verifies, no other index has one, and both ways of
/// computing the root agree; whatever the hash function
fn honest(n: usize, i: usize) {
    let v = leaves(n, false);
    let tree = T::build_merkle_tree(v.clone());
    let root = tree.root();
    match tree.build_proof(&(i as u32)) {
        Some(p) => {
            assert!(*p.index() as usize == n - 1 + i, "the proof names another position");
            assert!(p.verify(&root, &v[i]), "the proof of a leaf is rejected");
            let q = P::new(*p.index(), p.lemmas().to_vec());
            assert!(q.root(&v[i]) == Some(root), "the rebuilt proof gives another root");
        }
        None => panic!("no proof is built for a leaf"),
    }
    match T::build_merkle_proof(&v, &(i as u32)) {
        Some(p) => assert!(p.verify(&root, &v[i]), "the proof built from the leaves is rejected"),
        None => panic!("no proof is built from the leaves"),
    }
}

fn beyond(n: usize) {
    let v = leaves(n, false);
    let i = any_u32();
    assume(i as usize >= n);
    let tree = T::build_merkle_tree(v);
    assert!(tree.build_proof(&i).is_none(), "a proof is built for an index beyond the leaves");
}

fn roots(n: usize) {
    let v = leaves(n, false);
    let tree = T::build_merkle_tree(v.clone());
    assert!(T::build_merkle_root(&v) == tree.root(), "the two root computations differ");
    let nodes = tree.nodes();
    assert!(nodes.len() == if n == 0 { 0 } else { 2 * n - 1 }, "wrong number of nodes");
    let mut i = 0;
    while i < n {
        assert!(nodes[n - 1 + i] == v[i], "a leaf is not in its place");
        i += 1;
    }
    if n == 0 {
        assert!(tree.root() == 0 && tree.build_proof(&any_u32()).is_none());
    }
}

/// with a collision-free hash an accepted proof's value is the node at the
/// proof's position
fn binding(n: usize, k: usize) {
    let v = leaves(n, true);
    let tree = T::build_merkle_tree(v.clone());
    let root = tree.root();
    let mut lemmas = Vec::with_capacity(k);
    let mut i = 0;
    while i < k {
        lemmas.push(any_u8());
        i += 1;
    }
    let index = any_u32();
    let leaf = any_u8();
    let p = P::new(index, lemmas);
    if p.verify(&root, &leaf) {
        #[cfg(kani)]
        kani::cover!(true, "a proof is accepted");
        assert!((index as usize) < 2 * n - 1, "a proof for a position outside the tree is accepted");
        assert!(leaf == tree.nodes()[index as usize], "a proof is accepted for another value than the tree's");
    }
}

macro_rules! harnesses {
    ($($name:ident $unwind:literal $e:expr;)*) => {
        #[cfg(kani)]
        mod proofs {
            use super::*;
            $(#[kani::proof] #[kani::unwind($unwind)] fn $name() { $e })*
        }
        #[cfg(not(kani))]
        fn run(name: &str) {
            match name { $(stringify!($name) => $e,)* _ => panic!("unknown harness") }
        }
        #[cfg(not(kani))]
        const NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
harnesses! {
    honest1_0 6 honest(1, 0);
    honest2_0 8 honest(2, 0);
    honest2_1 8 honest(2, 1);
    honest3_0 10 honest(3, 0);
    honest3_1 10 honest(3, 1);
    honest3_2 10 honest(3, 2);
    honest4_0 12 honest(4, 0);
    honest4_1 12 honest(4, 1);
    honest4_2 12 honest(4, 2);
    honest4_3 12 honest(4, 3);
    honest5_0 14 honest(5, 0);
    honest5_1 14 honest(5, 1);
    honest5_2 14 honest(5, 2);
    honest5_3 14 honest(5, 3);
    honest5_4 14 honest(5, 4);
    beyond1 5 beyond(1);
    beyond2 6 beyond(2);
    beyond3 7 beyond(3);
    beyond4 8 beyond(4);
    beyond5 9 beyond(5);
    roots0 3 roots(0);
    roots1 5 roots(1);
    roots2 7 roots(2);
    roots3 9 roots(3);
    roots4 11 roots(4);
    roots5 13 roots(5);
    roots6 15 roots(6);
    roots7 17 roots(7);
    binding1_0 8 binding(1, 0);
    binding1_1 8 binding(1, 1);
    binding2_0 8 binding(2, 0);
    binding2_1 8 binding(2, 1);
    binding2_2 8 binding(2, 2);
    binding3_0 8 binding(3, 0);
    binding3_1 8 binding(3, 1);
    binding3_2 8 binding(3, 2);
    binding3_3 9 binding(3, 3);
    binding4_0 8 binding(4, 0);
    binding4_1 8 binding(4, 1);
    binding4_2 9 binding(4, 2);
    binding4_3 10 binding(4, 3);
    binding5_1 9 binding(5, 1);
    binding5_2 10 binding(5, 2);
    binding5_3 11 binding(5, 3);
    binding5_4 12 binding(5, 4);
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        println!("{}", NAMES.join(" "));
        return;
    }
    unsafe { VALS = a[2..].iter().map(|x| x.parse().unwrap()).collect() };
    if std::panic::catch_unwind(|| run(&a[1])).is_err() {
        std::process::exit(1)
    }
}
