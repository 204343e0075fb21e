//! Reference definitions, written from the published algorithms and independent of the crate's code.
//! They are never executed: the analyser builds their value graphs and compares them with the crate's.
#![allow(dead_code, clippy::all)]
use digest::generic_array::typenum::U32;

// ------------------------------------------------------------------ CubeHash 16/32-256
fn cube_rounds(x: &mut [u32; 32], n: usize) {
    for _ in 0..n {
        for (shift, lo, hi) in [(7u32, 8usize, 2usize), (11, 4, 1)] {
            for j in 0..16 { x[16 + j] = x[16 + j].wrapping_add(x[j]); }
            let t = *x;
            for j in 0..16 { x[j] = t[j ^ lo].rotate_left(shift) ^ t[16 + j]; }
            for j in 0..16 { x[16 + j] = t[16 + (j ^ hi)]; }
        }
    }
}
/// 10r initial rounds on (h/8, b, r, 0...), one 32-byte block, the padding block, finalisation
pub fn cubehash(data: Vec<u8>) -> Vec<u8> {
    let mut x = [0u32; 32];
    x[0] = 32;
    x[1] = 32;
    x[2] = 16;
    cube_rounds(&mut x, 160);
    let mut padded = data;
    padded.push(0x80);
    while padded.len() % 32 != 0 { padded.push(0); }
    for b in 0..padded.len() / 32 {
        for i in 0..8 {
            let p = 32 * b + 4 * i;
            x[i] ^= u32::from_le_bytes([padded[p], padded[p + 1], padded[p + 2], padded[p + 3]]);
        }
        cube_rounds(&mut x, 16);
    }
    x[31] ^= 1;
    cube_rounds(&mut x, 160);
    let mut out = Vec::new();
    for i in 0..8 { out.extend_from_slice(&x[i].to_le_bytes()); }
    out
}

// ------------------------------------------------------------------ BMW-256
const W: [[(usize, bool); 5]; 16] = [
    [(5, true), (7, false), (10, true), (13, true), (14, true)],
    [(6, true), (8, false), (11, true), (14, true), (15, false)],
    [(0, true), (7, true), (9, true), (12, false), (15, true)],
    [(0, true), (1, false), (8, true), (10, false), (13, true)],
    [(1, true), (2, true), (9, true), (11, false), (14, false)],
    [(3, true), (2, false), (10, true), (12, false), (15, true)],
    [(4, true), (0, false), (3, false), (11, false), (13, true)],
    [(1, true), (4, false), (5, false), (12, false), (14, false)],
    [(2, true), (5, false), (6, false), (13, true), (15, false)],
    [(0, true), (3, false), (6, true), (7, false), (14, true)],
    [(8, true), (1, false), (4, false), (7, false), (15, true)],
    [(8, true), (0, false), (2, false), (5, false), (9, true)],
    [(1, true), (3, true), (6, false), (9, false), (10, true)],
    [(2, true), (4, true), (7, true), (10, true), (11, true)],
    [(3, true), (5, false), (8, true), (11, false), (12, false)],
    [(12, true), (4, false), (6, false), (9, false), (13, true)],
];
fn s(n: usize, x: u32) -> u32 {
    match n {
        0 => x >> 1 ^ x << 3 ^ x.rotate_left(4) ^ x.rotate_left(19),
        1 => x >> 1 ^ x << 2 ^ x.rotate_left(8) ^ x.rotate_left(23),
        2 => x >> 2 ^ x << 1 ^ x.rotate_left(12) ^ x.rotate_left(25),
        3 => x >> 2 ^ x << 2 ^ x.rotate_left(15) ^ x.rotate_left(29),
        4 => x >> 1 ^ x,
        _ => x >> 2 ^ x,
    }
}
const R: [u32; 7] = [3, 7, 13, 16, 19, 23, 27];
fn bmw_compress(h: &[u32; 16], m: &[u32; 16]) -> [u32; 16] {
    let mut q = [0u32; 32];
    for i in 0..16 {
        let mut w = 0u32;
        for (j, plus) in W[i] {
            let t = m[j] ^ h[j];
            w = if plus { w.wrapping_add(t) } else { w.wrapping_sub(t) };
        }
        q[i] = s(i % 5, w).wrapping_add(h[(i + 1) % 16]);
    }
    for i in 16..32 {
        let rot = |j: usize| m[j % 16].rotate_left(j as u32 % 16 + 1);
        let j = i - 16;
        let add = (rot(j).wrapping_add(rot(j + 3)).wrapping_sub(rot(j + 10)).wrapping_add((i as u32).wrapping_mul(0x0555_5555))) ^ h[(j + 7) % 16];
        let mut t = add;
        for p in 0..16 {
            let x = q[j + p];
            let y = if i < 18 { s((p + 1) % 4, x) } else if p == 14 { s(4, x) } else if p == 15 { s(5, x) } else if p % 2 == 0 { x } else { x.rotate_left(R[p / 2]) };
            t = t.wrapping_add(y);
        }
        q[i] = t;
    }
    let mut xl = 0;
    for i in 16..24 { xl ^= q[i]; }
    let mut xh = xl;
    for i in 24..32 { xh ^= q[i]; }
    // positive: shift left, negative: shift right
    fn sh(x: u32, n: i32) -> u32 { if n >= 0 { x << n } else { x >> -n } }
    const A: [(i32, i32); 8] = [(5, -5), (-7, 8), (-5, 5), (-1, 5), (-3, 0), (6, -6), (-4, 6), (-11, 2)];
    const B: [i32; 8] = [8, -6, 6, 4, -3, -4, -7, -2];
    let mut o = [0u32; 16];
    for i in 0..8 { o[i] = (sh(xh, A[i].0) ^ sh(q[16 + i], A[i].1) ^ m[i]).wrapping_add(xl ^ q[24 + i] ^ q[i]); }
    for i in 0..8 {
        o[8 + i] = o[(i + 4) % 8].rotate_left(9 + i as u32).wrapping_add(xh ^ q[24 + i] ^ m[8 + i]).wrapping_add(sh(xl, B[i]) ^ q[16 + (i + 7) % 8] ^ q[8 + i]);
    }
    o
}
/// one message block: data || 0x80 || 0.. || bit length (64 bit), then the output transformation
pub fn bmw256(data: Vec<u8>) -> Vec<u8> {
    let n = data.len();
    let mut block = data;
    block.push(0x80);
    while block.len() < 56 { block.push(0); }
    block.extend_from_slice(&((n as u64) * 8).to_le_bytes());
    let mut m = [0u32; 16];
    for i in 0..16 { m[i] = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]); }
    let mut h = [0u32; 16];
    for i in 0..16 { h[i] = 0x4041_4243u32.wrapping_add(0x0404_0404 * i as u32); }
    let h1 = bmw_compress(&h, &m);
    let mut f = [0u32; 16];
    for i in 0..16 { f[i] = 0xaaaa_aaa0 + i as u32; }
    let h2 = bmw_compress(&f, &h1);
    let mut out = Vec::new();
    for i in 8..16 { out.extend_from_slice(&h2[i].to_le_bytes()); }
    out
}

// ------------------------------------------------------------------ Lyra2
const BLAKE2B_IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
fn blake_round(v: &mut [u64; 16]) {
    for diag in 0..2 {
        for i in 0..4 {
            let (a, b, c, d) = (i, 4 + (i + diag) % 4, 8 + (i + 2 * diag) % 4, 12 + (i + 3 * diag) % 4);
            for (r1, r2) in [(32u32, 24u32), (16, 63)] {
                v[a] = v[a].wrapping_add(v[b]);
                v[d] = (v[d] ^ v[a]).rotate_right(r1);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(r2);
            }
        }
    }
}
fn full(v: &mut [u64; 16]) { for _ in 0..12 { blake_round(v); } }

/// How a password or salt enters the sponge.
#[derive(Clone, Copy, PartialEq)]
pub enum Enc {
    /// every byte (the published algorithm)
    Bytes,
    /// whole 8-byte words only (what the crate does: see KNOWN_FINDINGS)
    Words,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Pick {
    /// row* = state[0] mod R
    Lyra2,
    /// Lyra2mod (REv3): index = state[index mod 16]; row* = state[index mod 16] mod R
    Chained,
}
fn padded(enc: Enc, k: u64, pwd: &[u8], salt: &[u8], t: u64, r: u64, c: u64) -> Vec<u64> {
    let mut bytes: Vec<u8> = Vec::new();
    let blocks = (pwd.len() + salt.len() + 48) / 64 + 1;
    match enc {
        Enc::Bytes => { bytes.extend_from_slice(pwd); bytes.extend_from_slice(salt); }
        Enc::Words => { bytes.extend_from_slice(&pwd[..pwd.len() / 8 * 8]); bytes.extend_from_slice(&salt[..salt.len() / 8 * 8]); }
    }
    for w in [k, pwd.len() as u64, salt.len() as u64, t, r, c] { bytes.extend_from_slice(&w.to_le_bytes()); }
    bytes.push(0x80);
    while bytes.len() < blocks * 64 { bytes.push(0); }
    let last = bytes.len() - 1;
    bytes[last] ^= 1;
    let mut words = Vec::new();
    for i in 0..bytes.len() / 8 {
        let mut b = [0u8; 8];
        for j in 0..8 { b[j] = bytes[8 * i + j]; }
        words.push(u64::from_le_bytes(b));
    }
    words
}
pub fn lyra2(enc: Enc, pick: Pick, k: u64, pwd: &[u8], salt: &[u8], t: u64, r: u64, c: u64) -> Vec<u8> {
    // bootstrapping
    let mut st = [0u64; 16];
    for i in 0..8 { st[8 + i] = BLAKE2B_IV[i]; }
    let input = padded(enc, k, pwd, salt, t, r, c);
    for b in 0..input.len() / 8 {
        for i in 0..8 { st[i] ^= input[8 * b + i]; }
        full(&mut st);
    }
    let (rows, cols) = (r as usize, c as usize);
    // M[row][col][word]
    let mut m: Vec<Vec<[u64; 12]>> = vec![vec![[0u64; 12]; cols]; rows];
    let rate = |s: &[u64; 16]| -> [u64; 12] { let mut o = [0u64; 12]; for i in 0..12 { o[i] = s[i]; } o };
    // setup
    for col in 0..cols { m[0][cols - 1 - col] = rate(&st); blake_round(&mut st); }
    for col in 0..cols {
        for i in 0..12 { st[i] ^= m[0][col][i]; }
        blake_round(&mut st);
        for i in 0..12 { m[1][cols - 1 - col][i] = m[0][col][i] ^ st[i]; }
    }
    let mut prev = 1usize;
    let mut star = 0usize;
    let mut step = 1usize;
    let mut window = 2usize;
    let mut larger = true;
    for row in 2..rows {
        for col in 0..cols {
            for i in 0..12 { st[i] ^= m[prev][col][i].wrapping_add(m[star][col][i]); }
            blake_round(&mut st);
            for i in 0..12 { m[row][cols - 1 - col][i] = m[prev][col][i] ^ st[i]; }
            for i in 0..12 { m[star][col][i] ^= st[(i + 11) % 12]; }
        }
        star = (star + step) % window;
        prev = row;
        if star == 0 {
            step = if larger { window + 1 } else { window - 1 };
            window *= 2;
            larger = !larger;
        }
    }
    // wandering
    let mut row = 0usize;
    let mut index = 0u64;
    for pass in 1..=t {
        let step = if pass % 2 == 0 { usize::MAX } else { rows / 2 - 1 };
        loop {
            star = match pick {
                Pick::Lyra2 => (st[0] & (r - 1)) as usize,
                Pick::Chained => {
                    index = st[(index & 15) as usize];
                    (st[(index & 15) as usize] & (r - 1)) as usize
                }
            };
            for col in 0..cols {
                for i in 0..12 { st[i] ^= m[prev][col][i].wrapping_add(m[star][col][i]); }
                blake_round(&mut st);
                for i in 0..12 { m[row][col][i] ^= st[i]; }
                for i in 0..12 { m[star][col][i] ^= st[(i + 11) % 12]; }
            }
            prev = row;
            row = row.wrapping_add(step) & (rows - 1);
            if row == 0 { break; }
        }
    }
    // wrap-up
    for i in 0..12 { st[i] ^= m[star][0][i]; }
    full(&mut st);
    let mut out: Vec<u8> = Vec::new();
    while (out.len() as u64) < k {
        let o = rate(&st);
        for i in 0..12 { for b in o[i].to_le_bytes() { if (out.len() as u64) < k { out.push(b); } } }
        full(&mut st);
    }
    out
}

pub fn lyra2_known(k: u64, pwd: Vec<u8>, salt: Vec<u8>, t: u64, r: u64, c: u64) -> Vec<u8> { lyra2(Enc::Words, Pick::Lyra2, k, &pwd, &salt, t, r, c) }
pub fn lyra2_ideal(k: u64, pwd: Vec<u8>, salt: Vec<u8>, t: u64, r: u64, c: u64) -> Vec<u8> { lyra2(Enc::Bytes, Pick::Lyra2, k, &pwd, &salt, t, r, c) }
pub fn lyra2mod_known(k: u64, pwd: Vec<u8>, salt: Vec<u8>, t: u64, r: u64, c: u64) -> Vec<u8> { lyra2(Enc::Words, Pick::Chained, k, &pwd, &salt, t, r, c) }
pub fn lyra2_sum(x: Vec<u8>) -> Vec<u8> { lyra2_known(32, x.clone(), x, 1, 4, 4) }
pub fn lyra2mod_sum(x: Vec<u8>) -> Vec<u8> { lyra2mod_known(32, x.clone(), x, 1, 4, 4) }

// ------------------------------------------------------------------ chains
fn blake256(x: Vec<u8>) -> Vec<u8> { use blake_hash::Digest; let mut v = Vec::new(); v.extend_from_slice(&blake_hash::Blake256::digest(&x)); v }
fn keccak256(x: Vec<u8>) -> Vec<u8> { use sha3::Digest; let mut v = Vec::new(); v.extend_from_slice(&sha3::Keccak256::digest(&x)); v }
fn skein(x: Vec<u8>) -> Vec<u8> { use skein_hash::Digest; let mut v = Vec::new(); v.extend_from_slice(&skein_hash::Skein512::<U32>::digest(&x)); v }
fn groestl256(x: Vec<u8>) -> Vec<u8> { use groestl::Digest; let mut v = Vec::new(); v.extend_from_slice(&groestl::Groestl256::digest(&x)); v }

pub fn chain_re(x: Vec<u8>) -> Vec<u8> {
    let p = keccak256(blake256(x));
    groestl256(skein(lyra2_known(32, p.clone(), p, 1, 8, 8)))
}
pub fn chain_rev2(x: Vec<u8>) -> Vec<u8> { bmw256(cubehash(skein(lyra2_sum(cubehash(keccak256(blake256(x))))))) }
pub fn chain_rev3(x: Vec<u8>) -> Vec<u8> { bmw256(lyra2mod_sum(cubehash(lyra2mod_sum(blake256(x))))) }
pub fn chain_z(x: Vec<u8>) -> Vec<u8> {
    let p = blake256(x);
    lyra2_known(32, p.clone(), p, 8, 8, 8)
}
/// the convenience wrapper in terms of the core function of the crate (used with the core as an opaque symbol)
pub fn sum_core(x: Vec<u8>) -> Vec<u8> { let y = x.clone(); ::lyra2::lyra2::lyra2(32, y, x, 1, 4, 4) }
