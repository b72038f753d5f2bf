//! Stand-in for `swap_or_not_shuffle`, written from the consensus specification.
use simtree::sha;
use std::collections::HashMap;

/// Positions after the given number of rounds, for every index at once (`compute_shuffled_index`).
fn permutation(n: usize, rounds: u8, seed: &[u8]) -> Vec<usize> {
    let mut at: Vec<usize> = (0..n).collect();
    let mut buf = seed.to_vec();
    for round in 0..rounds {
        buf.truncate(seed.len());
        buf.push(round);
        let pivot = u64::from_le_bytes(sha(&buf)[..8].try_into().unwrap()) as usize % n;
        let mut blocks: HashMap<u32, [u8; 32]> = HashMap::new();
        for x in at.iter_mut() {
            let flip = (pivot + n - *x) % n;
            let position = flip.max(*x);
            let source = blocks.entry((position / 256) as u32).or_insert_with(|| {
                let mut b = buf.clone();
                b.extend_from_slice(&((position / 256) as u32).to_le_bytes());
                sha(&b)
            });
            if source[(position % 256) / 8] >> (position % 8) & 1 == 1 {
                *x = flip;
            }
        }
    }
    at
}
pub fn compute_shuffled_index(index: usize, list_size: usize, seed: &[u8], shuffle_round_count: u8) -> Option<usize> {
    if list_size == 0 || index >= list_size || list_size > 1 << 24 {
        return None;
    }
    Some(permutation(list_size, shuffle_round_count, seed)[index])
}
/// `forwards = false` gives the order committees are taken from.
pub fn shuffle_list(input: Vec<usize>, rounds: u8, seed: &[u8], forwards: bool) -> Option<Vec<usize>> {
    let n = input.len();
    if n == 0 || n > 1 << 24 {
        return None;
    }
    let p = permutation(n, rounds, seed);
    let mut out = vec![0; n];
    for (i, &j) in p.iter().enumerate() {
        if forwards {
            out[j] = input[i];
        } else {
            out[i] = input[j];
        }
    }
    Some(out)
}
