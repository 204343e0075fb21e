//! Engine self-test: pairs `*_a` / `*_b` of differently written but equivalent functions.  The analyser must
//! find each pair equal; `bad_*` pairs differ and must be told apart.  Nothing here is executed.
#![allow(dead_code, clippy::all)]

pub fn le_a(x: Vec<u8>) -> Vec<u8> {
    let mut out = vec![];
    for c in x.chunks(8) {
        let mut w = 0u64;
        for i in 0..8 { w |= (c[i] as u64) << (8 * i); }
        out.extend_from_slice(&w.rotate_left(13).to_le_bytes());
    }
    out
}
pub fn le_b(x: Vec<u8>) -> Vec<u8> {
    x.chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .map(|w| (w << 13) | (w >> 51))
        .flat_map(|w| w.to_le_bytes())
        .collect()
}
pub fn it_a(x: Vec<u8>) -> Vec<u8> {
    let mut v = Vec::with_capacity(32);
    let mut i = 0;
    while i < x.len() { v.push(x[i] ^ x[x.len() - 1 - i]); i += 1; }
    v
}
pub fn it_b(x: Vec<u8>) -> Vec<u8> { x.iter().zip(x.iter().rev()).map(|(a, b)| a ^ b).collect::<Vec<u8>>() }
pub fn it_c(x: Vec<u8>) -> Vec<u8> {
    let mut v = x.clone();
    for (i, e) in v.iter_mut().enumerate() { *e ^= x[31 - i]; }
    v
}
pub fn it_d(x: Vec<u8>) -> Vec<u8> {
    let mut v = vec![0u8; x.len()];
    let n = x.len();
    v.copy_from_slice(&x[..]);
    for k in (0..n).rev() { let t = x[n - k - 1]; v[k] ^= t; }
    v
}
pub fn it_e(x: Vec<u8>) -> Vec<u8> {
    let mut a = [0u8; 32];
    a.clone_from_slice(&x);
    a.reverse();
    let mut out = Vec::new();
    for (p, q) in a.iter().copied().zip(x.into_iter()) { out.push(p ^ q) }
    out
}
pub fn sum_a(x: Vec<u8>) -> Vec<u8> {
    let mut s = 0u64;
    for i in (0..32).step_by(4) { s = s.wrapping_add(x[i] as u64 * 3); }
    s.to_le_bytes().to_vec()
}
pub fn sum_b(x: Vec<u8>) -> Vec<u8> {
    let s: u64 = x.iter().step_by(4).map(|&b| u64::from(b)).sum::<u64>() * 3;
    Vec::from(s.to_le_bytes())
}
pub fn sum_c(x: Vec<u8>) -> Vec<u8> {
    let s = x.chunks(4).fold(0u64, |a, c| a + ((c[0] as u64) << 1) + c[0] as u64);
    let mut v = Vec::new();
    for i in 0..8u32 { v.push((s >> (8 * i)) as u8); }
    v
}
pub fn mat_a(x: Vec<u8>) -> Vec<u8> {
    let mut m = vec![0u64; 4 * 4];
    for i in 0..16 { m[i] = x[2 * i] as u64; }
    let r = (m[0] & 3) as usize;
    for c in 0..4 { m[r * 4 + c] ^= m[1 * 4 + c].wrapping_add(7); m[2 * 4 + c] ^= 5; }
    m.iter().map(|w| *w as u8).collect()
}
pub fn mat_b(x: Vec<u8>) -> Vec<u8> {
    let mut m: Vec<[u64; 4]> = vec![[0; 4]; 4];
    for (i, row) in m.iter_mut().enumerate() { for (j, w) in row.iter_mut().enumerate() { *w = x[(i * 4 + j) * 2].into(); } }
    let r = m[0][0] as usize % 4;
    for c in 0..4 {
        let t = m[1][c].wrapping_add(7);
        let old = m[r][c];
        m[r][c] = old ^ t;
        m[2][c] = m[2][c] ^ 0b101;
    }
    let mut out = vec![];
    for row in &m { for w in row { out.push((w & 0xff) as u8) } }
    out
}
pub fn mat_c(x: Vec<u8>) -> Vec<u8> {
    struct M { d: Box<[u64]>, cols: usize }
    impl M {
        fn row(&self, r: usize) -> &[u64] { &self.d[r * self.cols..(r + 1) * self.cols] }
        fn row_mut(&mut self, r: usize) -> &mut [u64] { let c = self.cols; &mut self.d[r * c..][..c] }
    }
    let mut m = M { d: x.iter().step_by(2).map(|&b| b as u64).collect::<Vec<_>>().into_boxed_slice(), cols: 4 };
    let r = (m.d[0] & 3) as usize;
    let mut c = 0;
    loop {
        let t = m.row(1)[c].wrapping_add(7);
        let row = m.row_mut(r);
        row[c] ^= t;
        m.row_mut(2)[c] ^= 5;
        c += 1;
        if c == 4 { break; }
    }
    m.d.iter().map(|&w| w as u8).collect()
}
pub fn br_a(x: Vec<u8>) -> Vec<u8> {
    let mut v = x;
    if v[0] == 3 { v[1] = 9 } else { v[1] = v[1].wrapping_add(1) }
    v
}
pub fn br_b(x: Vec<u8>) -> Vec<u8> {
    let mut v = x.clone();
    v[1] = match x[0] { 3 => 9, _ => v[1].wrapping_add(1) };
    v
}
pub fn br_c(x: Vec<u8>) -> Vec<u8> {
    fn pick(a: u8, b: u8) -> u8 { if a != 3 { return b.wrapping_add(1); } 9 }
    let mut v = x.to_vec();
    let p = pick(v[0], x[1]);
    if let Some(e) = v.get_mut(1) { *e = p; }
    v
}
pub fn arr_a(x: Vec<u8>) -> Vec<u8> {
    let mut s = [0u32; 8];
    for i in 0..8 { s[i] = (x[4 * i] as u32) | ((x[4 * i + 1] as u32) << 8) | ((x[4 * i + 2] as u32) << 16) | ((x[4 * i + 3] as u32) << 24); }
    for i in 0..4 { s.swap(i, i + 4); }
    let mut o = vec![];
    for w in s { o.extend(w.to_be_bytes().iter().rev()); }
    o
}
pub fn arr_b(x: Vec<u8>) -> Vec<u8> {
    let s: [u32; 8] = core::array::from_fn(|i| u32::from_le_bytes([x[4 * i], x[4 * i + 1], x[4 * i + 2], x[4 * i + 3]]));
    let (lo, hi) = s.split_at(4);
    let mut r: Vec<u32> = hi.to_vec();
    r.extend_from_slice(lo);
    r.iter().flat_map(|w| w.to_le_bytes().to_vec()).collect()
}
pub fn arr_c(x: Vec<u8>) -> Vec<u8> {
    let mut y = x.clone();
    y.rotate_left(16);
    let w = y.chunks(4).map(|c| { let mut a = [0u8; 4]; a.copy_from_slice(c); u32::from_le_bytes(a) }).collect::<Vec<_>>();
    let mut out = [0u8; 32];
    for (dst, v) in out.chunks_exact_mut(4).zip(w.iter()) { dst.copy_from_slice(&v.to_le_bytes()); }
    out.into()
}
pub fn arr_d(x: Vec<u8>) -> Vec<u8> {
    let a: [u8; 32] = x.try_into().unwrap();
    let mut v = [&a[16..], &a[..16]].concat();
    assert_eq!(v.len(), 32);
    std::mem::take(&mut v)
}
pub fn arr_e(x: Vec<u8>) -> Vec<u8> {
    let mut q: Vec<u8> = x[16..].iter().cloned().chain(x.iter().take(16).copied()).collect();
    let t = q.split_off(16);
    q.extend(&t);
    q.truncate(32);
    let mut acc = Vec::new();
    for w in q.windows(1) { acc.push(w[0]); }
    acc
}
pub fn cl_a(x: Vec<u8>) -> Vec<u8> {
    let rot = |v: u32, n: u32| v.rotate_right(n);
    let w = u32::from_le_bytes([x[0], x[1], x[2], x[3]]);
    rot(w, 7).to_le_bytes().to_vec()
}
pub fn cl_b(x: Vec<u8>) -> Vec<u8> {
    fn ap<F: Fn(u32) -> u32>(f: F, v: u32) -> u32 { f(v) }
    let n = 7u32;
    let mut w = 0u32;
    (0..4).for_each(|i| w |= (x[i] as u32) << (i * 8));
    let r = ap(|v| (v >> n) | (v << (32 - n)), w);
    let f: fn(u32) -> [u8; 4] = u32::to_le_bytes;
    f(r).iter().map(|b| *b).collect()
}
pub fn opt_a(x: Vec<u8>) -> Vec<u8> { let m = x[0].max(x[1]); vec![m, m.min(7)] }
pub fn opt_b(x: Vec<u8>) -> Vec<u8> { let m = if x[1] < x[0] { x[0] } else { x[1] }; let n = if m < 7 { m } else { 7 }; [m, n].to_vec() }
pub fn i64_a(x: Vec<u8>) -> Vec<u8> {
    let mut out = vec![];
    let n: i64 = 4;
    let mut row: i64 = 0;
    let mut step: i64;
    for t in 1..=3i64 {
        step = if t % 2 == 0 { -1 } else { n / 2 - 1 };
        loop { out.push(x[row as usize]); row = (row + step) & (n - 1); if row == 0 { break; } }
    }
    out
}
pub fn i64_b(x: Vec<u8>) -> Vec<u8> {
    let mut out = vec![];
    let n = 4usize;
    let mut row = 0usize;
    for t in 0..3 {
        let step = if t & 1 == 1 { n - 1 } else { n / 2 - 1 };
        let mut first = true;
        while first || row != 0 { first = false; out.push(x[row]); row = (row + step) % n; }
    }
    out
}
pub fn tup_a(x: Vec<u8>) -> Vec<u8> {
    let (mut a, mut b) = (x[0], x[1]);
    for _ in 0..5 { let t = a ^ b; a = b; b = t.wrapping_mul(3); }
    vec![a, b]
}
pub fn tup_b(x: Vec<u8>) -> Vec<u8> {
    #[derive(Clone, Copy)]
    struct S { a: u8, b: u8 }
    impl S { fn step(self) -> S { S { a: self.b, b: (self.a ^ self.b).wrapping_mul(2).wrapping_add(self.a ^ self.b) } } }
    let mut s = S { a: x[0], b: x[1] };
    let mut n = 5;
    while n > 0 { s = s.step(); n -= 1; }
    Vec::from([s.a, s.b])
}
pub fn swp_a(x: Vec<u8>) -> Vec<u8> { let mut v = x; v.swap(0, 5); v[3] = v[2]; v.insert(0, 1); v.remove(4); v.pop(); v }
pub fn swp_b(x: Vec<u8>) -> Vec<u8> {
    let mut v = vec![1, x[5], x[1], x[2], x[4], x[0]];
    v.append(&mut x[6..31].to_vec());
    v
}
pub fn it2_a(x: Vec<u8>) -> Vec<u8> {
    let mut o = vec![];
    for i in 1..x.len() { if i % 3 != 0 { o.push(x[i]); } }
    o
}
pub fn it2_b(x: Vec<u8>) -> Vec<u8> {
    x.iter().enumerate().skip(1).filter(|(i, _)| i % 3 != 0).map(|(_, b)| *b).collect()
}
pub fn it2_c(x: Vec<u8>) -> Vec<u8> {
    let mut o = Vec::new();
    let mut it = x.iter().enumerate();
    it.next();
    while let Some((i, b)) = it.next() { match i % 3 { 0 => continue, _ => o.push(*b) } }
    o
}
pub fn u128_a(x: Vec<u8>) -> Vec<u8> { let w = u64::from_le_bytes(x[..8].try_into().unwrap()); let t = (w as u128) << 17; (((t >> 64) as u64) | (t as u64)).to_le_bytes().to_vec() }
pub fn u128_b(x: Vec<u8>) -> Vec<u8> { let mut w = [0u8; 8]; w.copy_from_slice(&x[0..8]); u64::from_le_bytes(w).rotate_left(17).to_le_bytes().to_vec() }

pub fn bad_one_a(x: Vec<u8>) -> Vec<u8> { let mut v = x; if v[3] == 77 { v[0] ^= 1; } v }
pub fn bad_one_b(x: Vec<u8>) -> Vec<u8> { x }
pub fn bad_two_a(x: Vec<u8>) -> Vec<u8> { let w = u64::from_le_bytes(x[..8].try_into().unwrap()); w.rotate_left(17).to_le_bytes().to_vec() }
pub fn bad_two_b(x: Vec<u8>) -> Vec<u8> { let w = u64::from_le_bytes(x[..8].try_into().unwrap()); w.rotate_left(18).to_le_bytes().to_vec() }
pub fn bad_three_a(x: Vec<u8>) -> Vec<u8> { let mut v = x; let i = (v[0] & 3) as usize; v[i] ^= 1; v }
pub fn bad_three_b(x: Vec<u8>) -> Vec<u8> { let mut v = x; let i = (v[0] & 7) as usize; v[i] ^= 1; v }

// ---------------------------------------------------------------- standard-library forms of: out[i] = x[i] ^ x[31 - i]
pub fn mir_a(x: Vec<u8>) -> Vec<u8> { let mut v = vec![0u8; 32]; for i in 0..32 { v[i] = x[i] ^ x[31 - i]; } v }
pub fn mir_b(x: Vec<u8>) -> Vec<u8> { std::array::from_fn::<u8, 32, _>(|i| x[i] ^ x[31 - i]).to_vec() }
pub fn mir_c(x: Vec<u8>) -> Vec<u8> { let a: [u8; 32] = x.as_slice().try_into().expect("32"); let mut r = a; r.reverse(); let mut it = r.iter(); a.map(|v| v ^ it.next().unwrap()).to_vec() }
pub fn mir_d(x: Vec<u8>) -> Vec<u8> { let mut v: Vec<u8> = x.iter().rev().cloned().collect(); v.iter_mut().zip(&x).for_each(|(a, b)| *a ^= *b); v }
pub fn mir_e(x: Vec<u8>) -> Vec<u8> { let (l, r) = x.split_at(16); let mut v = Vec::new(); for i in 0..16 { v.push(l[i] ^ r[15 - i]); } for i in 0..16 { v.push(r[i] ^ l[15 - i]); } v }
pub fn mir_f(x: Vec<u8>) -> Vec<u8> { let mut y = x.clone(); { let (l, r) = y.split_at_mut(16); for (a, b) in l.iter_mut().zip(r.iter_mut().rev()) { let t = *a ^ *b; *a = t; *b = t; } } y }
pub fn mir_g(x: Vec<u8>) -> Vec<u8> { let mut v = Vec::new(); let mut i = 0; loop { if i >= x.len() { break v; } v.push(x[i] ^ x[x.len() - i - 1]); i += 1; } }
pub fn mir_h(x: Vec<u8>) -> Vec<u8> { let mut it = x.iter(); let mut v = vec![]; while let (Some(a), Some(b)) = (it.next(), it.next_back()) { v.push(a ^ b); } let w: Vec<u8> = v.iter().rev().copied().collect(); [v, w].concat() }
pub fn mir_i(x: Vec<u8>) -> Vec<u8> { (0..x.len()).map(|i| x[i] ^ x[x.len() - 1 - i]).collect::<Box<[u8]>>().into_vec() }
pub fn mir_j(x: Vec<u8>) -> Vec<u8> { let mut st = x.clone(); let mut v = Vec::with_capacity(32); for &a in &x { v.push(a ^ st.pop().unwrap()); } v }
pub fn mir_l(x: Vec<u8>) -> Vec<u8> { let mut r = x.to_vec(); r.reverse(); let mut v = x; for k in 0..v.len() { v[k] ^= r[k]; } v }
pub fn mir_m(x: Vec<u8>) -> Vec<u8> { fn go(x: &[u8], i: usize, o: &mut Vec<u8>) { if i == x.len() { return; } o.push(x[i] ^ x[x.len() - 1 - i]); go(x, i + 1, o) } let mut o = Vec::new(); go(&x, 0, &mut o); o }
pub fn mir_o(x: Vec<u8>) -> Vec<u8> { let p: fn(u8, u8) -> u8 = |a, b| a ^ b; let mut v = [0; 32]; for (i, s) in v.iter_mut().enumerate() { *s = p(x[i], *x.get(31 - i).unwrap()); } v.into() }
pub fn mir_p(x: Vec<u8>) -> Vec<u8> { x.iter().enumerate().fold(Vec::new(), |mut v, (i, a)| { v.push(a ^ x[31 - i]); v }) }
pub fn mir_q(x: Vec<u8>) -> Vec<u8> { let mut v = Vec::new(); v.extend(x.iter().zip(x.iter().rev()).map(|(a, b)| *a ^ *b)); v }
pub fn mir_r(x: Vec<u8>) -> Vec<u8> { let mut out = [0u8; 32]; let mut i = 0usize; while let Some(s) = out.get_mut(i) { *s = x[i] ^ x[31 - i]; i += 1; } Vec::from(out) }
pub fn mir_s(x: Vec<u8>) -> Vec<u8> { struct It<'a>(&'a [u8], usize); impl<'a> Iterator for It<'a> { type Item = u8; fn next(&mut self) -> Option<u8> { let i = self.1; self.1 += 1; Some(self.0.get(i)? ^ self.0[self.0.len() - 1 - i]) } } It(&x, 0).collect() }
pub fn mir_t(x: Vec<u8>) -> Vec<u8> { let mut v = vec![0; 32]; v[..32].clone_from_slice(&x[..32]); let c = std::cell::RefCell::new(v); for i in 0..32 { let t = x[31 - i]; c.borrow_mut()[i] ^= t; } c.into_inner() }
pub fn mir_u(x: Vec<u8>) -> Vec<u8> { let mut v = x.clone(); for i in 0..16 { v.swap(i, 31 - i); } for (a, b) in v.iter_mut().zip(x.iter()) { *a = *a ^ b; } v }
pub fn mir_v(x: Vec<u8>) -> Vec<u8> { let mut v: Vec<u8> = Vec::new(); for c in x.rchunks(4) { let mut d = c.to_vec(); d.reverse(); v.append(&mut d); } v.iter().zip(x.iter()).map(|(a, b)| a ^ b).collect() }
pub fn mir_w(x: Vec<u8>) -> Vec<u8> { let mut v = Vec::<u8>::new(); for (i, _) in x.iter().enumerate() { v.insert(i, x[i] ^ x[31 - i]); } v.shrink_to_fit(); v }
pub fn mir_x(x: Vec<u8>) -> Vec<u8> { let a: [u8; 32] = x.try_into().unwrap_or([0; 32]); let mut o = a; for (d, s) in o.iter_mut().zip(a.into_iter().rev()) { *d ^= s } o.into_iter().collect() }
pub fn mir_y(x: Vec<u8>) -> Vec<u8> { use std::ops::{Index, IndexMut}; struct M(Vec<u8>); impl Index<usize> for M { type Output = u8; fn index(&self, i: usize) -> &u8 { &self.0[i] } } impl IndexMut<usize> for M { fn index_mut(&mut self, i: usize) -> &mut u8 { &mut self.0[i] } } let mut m = M(x.clone()); for i in 0..32 { m[i] ^= x[31 - i]; } m.0 }
pub fn mir_z(x: Vec<u8>) -> Vec<u8> { let mut v = x.clone(); v.drain(..).zip(x.iter().rev()).map(|(a, b)| a ^ b).collect() }
// ---------------------------------------------------------------- words
pub fn wd_a(x: Vec<u8>) -> Vec<u8> { let mut o = vec![]; for i in 0..4 { let mut w = 0u64; for j in 0..8 { w |= (x[8 * i + j] as u64) << (8 * j); } w = w.wrapping_add(w >> 9); for j in 0..8 { o.push((w >> (8 * j)) as u8); } } o }
pub fn wd_b(x: Vec<u8>) -> Vec<u8> { x.chunks_exact(8).flat_map(|c| { let w = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]); w.wrapping_add(w >> 9).to_le_bytes().to_vec() }).collect() }
pub fn wd_c(x: Vec<u8>) -> Vec<u8> { let mut o = [0u8; 32]; for (d, s) in o.chunks_exact_mut(8).zip(x.chunks_exact(8)) { let mut t = [0u8; 8]; t.copy_from_slice(s); let w = u64::from_le_bytes(t); d.copy_from_slice(&(w.wrapping_add(w >> 9)).to_le_bytes()); } o.to_vec() }
pub fn wd_d(x: Vec<u8>) -> Vec<u8> { let w: Vec<u64> = x.chunks(8).map(|c| c.iter().rev().fold(0u64, |a, &b| (a << 8) | b as u64)).collect(); let mut o = Vec::with_capacity(w.len() * 8); for v in &w { o.extend_from_slice(&v.wrapping_add(v >> 9).to_le_bytes()[..]); } o }
pub fn wd_e(x: Vec<u8>) -> Vec<u8> { x.windows(8).step_by(8).map(|c| u64::from_be_bytes(c.try_into().unwrap()).swap_bytes()).map(|w| w.overflowing_add(w / 512).0).flat_map(|w| (0..8).map(move |j| (w >> (j * 8)) as u8)).collect() }
pub fn wd_f(x: Vec<u8>) -> Vec<u8> { let mut o = Vec::new(); for i in (0..32).step_by(8) { if let [a, b, c, d, e, f, g, h] = x[i..i + 8] { let lo = u32::from_le_bytes([a, b, c, d]); let hi = u32::from_le_bytes([e, f, g, h]); let w = u64::from(lo) | (u64::from(hi) << 32); let r = (w as u128 + (w >> 9) as u128) as u64; o.extend(r.to_le_bytes()); } } o }
pub fn wd_g(x: Vec<u8>) -> Vec<u8> { x.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).map(|w| std::num::Wrapping(w) + std::num::Wrapping(w >> 9)).fold(vec![], |mut v, w| { v.extend_from_slice(&w.0.to_le_bytes()); v }) }
pub fn wd_h(x: Vec<u8>) -> Vec<u8> { let mut w = [0u64; 4]; for (i, b) in x.iter().enumerate() { w[i >> 3] |= u64::from(*b) << ((i & 7) << 3); } w.iter().flat_map(|&v| { let s = v.wrapping_add(v >> 9); s.to_le_bytes() }).collect() }
pub fn wd_i(x: Vec<u8>) -> Vec<u8> { let mut o = Vec::new(); let mut rest = &x[..]; while rest.len() >= 8 { let (h, t) = rest.split_at(8); rest = t; let w = u64::from_le_bytes(h.try_into().unwrap()); o.push(w.wrapping_add(w >> 9)); } o.iter().map(|w| w.to_le_bytes()).collect::<Vec<[u8; 8]>>().concat() }
pub fn wd_j(x: Vec<u8>) -> Vec<u8> { let mut o = vec![0u8; 0]; let mut r = &x[..]; while let Some((h, t)) = r.split_first_chunk::<8>() { let w = u64::from_le_bytes(*h); o.extend_from_slice(&w.wrapping_add(w >> 9).to_le_bytes()); r = t; } o }
pub fn wd_k(x: Vec<u8>) -> Vec<u8> { let mut it = x.into_iter(); let mut o = vec![]; for _ in 0..4 { let c: Vec<u8> = it.by_ref().take(8).collect(); let w = c.iter().enumerate().map(|(i, b)| (*b as u64) << (8 * i)).sum::<u64>(); o.extend(w.wrapping_add(w >> 9).to_le_bytes().iter()); } o }
pub fn wd_l(x: Vec<u8>) -> Vec<u8> { let mut o = vec![]; for i in 0..4usize { let g = |k: usize| -> u64 { x[i * 8 + k].into() }; let w = g(0) | g(1) << 8 | g(2) << 16 | g(3) << 24 | g(4) << 32 | g(5) << 40 | g(6) << 48 | g(7) << 56; let w = w.wrapping_add(w >> 9); o.append(&mut w.to_le_bytes().to_vec()); } o }
// ---------------------------------------------------------------- matrices and control
pub fn mx_a(x: Vec<u8>) -> Vec<u8> { let mut m = vec![0u8; 32]; for r in 0..4 { for c in 0..8 { m[c * 4 + r] = x[r * 8 + c]; } } m }
pub fn mx_b(x: Vec<u8>) -> Vec<u8> { let m: Vec<Vec<u8>> = x.chunks(8).map(|c| c.to_vec()).collect(); (0..8).flat_map(|c| m.iter().map(move |r| r[c]).collect::<Vec<_>>()).collect() }
pub fn mx_c(x: Vec<u8>) -> Vec<u8> { let mut m = [[0u8; 4]; 8]; for (r, row) in x.chunks_exact(8).enumerate() { for (c, v) in row.iter().enumerate() { m[c][r] = *v; } } m.concat() }
pub fn mx_d(x: Vec<u8>) -> Vec<u8> { let mut o = vec![]; 'a: for c in 0.. { for r in 0..4 { if c == 8 { break 'a; } o.push(x[r * 8 + c]); } } o }
pub fn mx_e(x: Vec<u8>) -> Vec<u8> { let mut o = Vec::new(); for c in 0..8 { o.extend(x.iter().skip(c).step_by(8)); } o }
pub fn mx_f(x: Vec<u8>) -> Vec<u8> { let rows: Vec<&[u8]> = x.chunks(8).collect(); let mut o = vec![]; for c in 0..8 { for r in rows.iter() { o.push(r[c]) } } o }
pub fn mx_g(x: Vec<u8>) -> Vec<u8> { let mut o = vec![0; 32]; for (i, v) in x.iter().enumerate() { let (r, c) = (i / 8, i % 8); o[c * 4 + r] = *v; } o }
pub fn mx_h(x: Vec<u8>) -> Vec<u8> { let mut o = vec![0; 32]; x.iter().enumerate().for_each(|(i, v)| o[(i & 7) << 2 | i >> 3] = *v); o }
pub fn mx_i(x: Vec<u8>) -> Vec<u8> { let mut its: Vec<_> = x.chunks(8).map(|c| c.iter()).collect(); let mut o = vec![]; for _ in 0..8 { for it in its.iter_mut() { o.push(*it.next().unwrap()); } } o }
pub fn mx_j(x: Vec<u8>) -> Vec<u8> { (0..8usize).flat_map(|c| (0..4usize).map(move |r| (r, c))).map(|(r, c)| x[r * 8 + c]).collect() }
pub fn mx_k(x: Vec<u8>) -> Vec<u8> { let mut v = Vec::with_capacity(x.len()); let mut i = 0; while v.len() < 32 { v.push(x[i]); i += 8; if i >= 32 { i -= 31; } } v }
pub fn mx_l(x: Vec<u8>) -> Vec<u8> { let mut o = [0u8; 32]; for r in 0..4 { let row = &x[r * 8..][..8]; for c in 0..8 { o[c * 4..(c + 1) * 4][r] = row[c]; } } o.to_vec() }
// ---------------------------------------------------------------- numbers
pub fn nm_a(x: Vec<u8>) -> Vec<u8> { let a = x[0] as u64; let b = x[1] as u64; vec![(a + b) as u8, a.max(b) as u8, (a * 8) as u8, (a % 16) as u8, (a / 4) as u8, (a as u8).rotate_left(3), (255 - a) as u8] }
pub fn nm_b(x: Vec<u8>) -> Vec<u8> { let (a, b) = (x[0], x[1]); vec![a.wrapping_add(b), if a > b { a } else { b }, a << 3, a & 15, a >> 2, (a << 3) | (a >> 5), !a] }
pub fn nm_c(x: Vec<u8>) -> Vec<u8> { let (a, b) = (x[0], x[1]); vec![a.overflowing_add(b).0, std::cmp::max(a, b), a.wrapping_mul(8), a.rem_euclid(16), a.div_euclid(4), a.rotate_right(5), u8::MAX - a] }
pub fn nm_d(x: Vec<u8>) -> Vec<u8> { let (a, b) = (x[0] as i32, x[1] as i32); vec![(a + b) as u8, match a.cmp(&b) { std::cmp::Ordering::Less => b as u8, _ => a as u8 }, a.wrapping_shl(3) as u8, (a & 15) as u8, a.wrapping_shr(2) as u8, ((a * 8) | (a / 32)) as u8, (-1 - a) as u8] }
pub fn nm_e(x: Vec<u8>) -> Vec<u8> { let (a, b) = (x[0], x[1]); vec![((a as u16 + b as u16) & 0xff) as u8, [a, b].into_iter().max().unwrap(), (a as u32).checked_shl(3).unwrap() as u8, a % 16, a.checked_div(4).unwrap(), a.wrapping_shl(3) + a.wrapping_shr(5), a ^ 0xff] }
pub fn op_a(x: Vec<u8>) -> Vec<u8> { let n = x.len(); vec![(n / 8) as u8, (n % 8) as u8, x[3], x[31], 5] }
pub fn op_b(x: Vec<u8>) -> Vec<u8> { let n = x.len(); let d = n.div_ceil(8); let p = n.is_power_of_two() as u8 + n.trailing_zeros() as u8 - 1; vec![d as u8, n.next_multiple_of(8) as u8 - 32, *x.iter().nth(3).unwrap(), *x.last().unwrap(), p] }
pub fn op_c(x: Vec<u8>) -> Vec<u8> { let n = x.len(); let o = n.checked_sub(31).filter(|v| *v > 0).map_or(9, |v| v + 4); let z = x.first().copied().unwrap_or_default() & 0; vec![n as u8 >> 3, z, x.iter().copied().skip(3).next().unwrap_or(0), *x.iter().last().unwrap(), o as u8] }
pub fn op_d(x: Vec<u8>) -> Vec<u8> { fn f(v: &[u8]) -> Option<Vec<u8>> { let l = v.last()?; let t = v.get(3)?; let n: u8 = v.len().try_into().ok()?; Some(vec![n.checked_div(8)?, n.checked_rem(8)?, *t, *l, n.ilog2() as u8]) } f(&x).unwrap() }
pub fn pos_a(x: Vec<u8>) -> Vec<u8> { let mut n = 0; for i in 0..4 { if x[i] != 0 { n = i + 1; } } vec![n as u8] }
pub fn pos_c(x: Vec<u8>) -> Vec<u8> { let mut n = 4; while n > 0 && x[n - 1] == 0 { n -= 1; } vec![n as u8] }
pub fn any_a(x: Vec<u8>) -> Vec<u8> { let mut z = true; for i in 0..8 { if x[i] != 0 { z = false; } } vec![if z { x[9] } else { x[8] }] }
pub fn any_b(x: Vec<u8>) -> Vec<u8> { if x[..8].iter().all(|v| *v == 0) { vec![x[9]] } else { vec![x[8]] } }
pub fn any_c(x: Vec<u8>) -> Vec<u8> { let y = x[..8].iter().any(|v| *v != 0); vec![x[9 - y as usize]] }
pub fn any_d(x: Vec<u8>) -> Vec<u8> { match x[..8] { [0, 0, 0, 0, 0, 0, 0, 0] => vec![x[9]], _ => vec![x[8]] } }
pub fn any_e(x: Vec<u8>) -> Vec<u8> { vec![if x[..8] == [0u8; 8] { x[9] } else { x[8] }] }
pub fn any_f(x: Vec<u8>) -> Vec<u8> { vec![if u64::from_le_bytes(x[..8].try_into().unwrap()) == 0 { x[9] } else { x[8] }] }
pub fn any_g(x: Vec<u8>) -> Vec<u8> { vec![if x.iter().take(8).fold(0, |a, b| a | b) == 0 { x[9] } else { x[8] }] }
// ---------------------------------------------------------------- abstraction
pub trait Perm { fn apply(&mut self); fn out(&self) -> Vec<u8>; }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Sp<const N: usize> { pub s: [u32; 8], pub n: usize }
impl<const N: usize> Perm for Sp<N> { fn apply(&mut self) { for _ in 0..N { self.s.rotate_left(1); self.s[0] = self.s[0].wrapping_add(self.s[5]); self.n += 1; } } fn out(&self) -> Vec<u8> { self.s.iter().flat_map(|w| w.to_le_bytes()).collect() } }
impl<const N: usize> From<&[u8]> for Sp<N> { fn from(v: &[u8]) -> Self { let mut s = Sp { s: [0; 8], ..Default::default() }; for (i, c) in v.chunks(4).enumerate() { s.s[i] = u32::from_le_bytes(c.try_into().unwrap()); } s } }
pub fn abs_a(x: Vec<u8>) -> Vec<u8> { let mut s = [0u32; 8]; for i in 0..8 { s[i] = x[4 * i] as u32 | (x[4 * i + 1] as u32) << 8 | (x[4 * i + 2] as u32) << 16 | (x[4 * i + 3] as u32) << 24; } for _ in 0..3 { let t = s[0]; for i in 0..7 { s[i] = s[i + 1]; } s[7] = t; s[0] = s[0].wrapping_add(s[5]); } let mut o = vec![]; for w in s { o.extend_from_slice(&w.to_le_bytes()); } o }
pub fn abs_b(x: Vec<u8>) -> Vec<u8> { let mut p = Sp::<3>::from(&x[..]); p.apply(); p.out() }
pub fn abs_d(x: Vec<u8>) -> Vec<u8> { fn run<P: Perm>(mut p: P, k: u32) -> Vec<u8> { (0..k).for_each(|_| p.apply()); p.out() } run(Sp::<1>::from(&*x), 3) }
pub fn abs_f(x: Vec<u8>) -> Vec<u8> { let q = std::iter::successors(Some(Sp::<1>::from(&x[..])), |p| { let mut q = *p; q.apply(); Some(q) }).nth(3).unwrap(); q.out() }
pub fn abs_g(x: Vec<u8>) -> Vec<u8> { enum St { Run(u8, Sp<1>), End(Sp<1>) } let mut st = St::Run(3, Sp::from(&x[..])); loop { st = match st { St::Run(0, s) => St::End(s), St::Run(k, mut s) => { s.apply(); St::Run(k - 1, s) } St::End(s) => return s.out() } } }
pub fn abs_i(x: Vec<u8>) -> Vec<u8> { let mut a = Sp::<1>::from(&x[..]); let mut b = Sp::<1>::default(); for _ in 0..3 { std::mem::swap(&mut a, &mut b); b.apply(); a = std::mem::replace(&mut b, Sp { s: [0; 8], n: 0 }); } std::mem::take(&mut a).out() }
pub fn abs_j(x: Vec<u8>) -> Vec<u8> { (0..3).try_fold(Sp::<1>::from(&x[..]), |mut s, _| { s.apply(); Some(s) }).unwrap().out() }
pub fn abs_k(x: Vec<u8>) -> Vec<u8> { fn run(p: &mut dyn Perm, k: u32) -> Vec<u8> { for _ in 0..k { p.apply(); } p.out() } run(&mut Sp::<1>::from(&*x), 3) }
pub fn abs_l(x: Vec<u8>) -> Vec<u8> { let mut ps: Vec<Box<dyn Perm>> = vec![Box::new(Sp::<3>::from(&*x))]; for p in ps.iter_mut() { p.apply(); } ps[0].out() }
pub fn abs_m(x: Vec<u8>) -> Vec<u8> { fn step(s: &mut Sp<1>, f: &mut dyn FnMut(&mut Sp<1>)) { f(s); } let mut n = 0; let mut s = Sp::<1>::from(&*x); for _ in 0..3 { step(&mut s, &mut |q| { q.apply(); n += 1; }); } assert_eq!(n, 3); s.out() }
pub fn abs_n(x: Vec<u8>) -> Vec<u8> { let fs: [&dyn Fn(Sp<1>) -> Sp<1>; 2] = [&|mut s| { s.apply(); s }, &|mut s| { s.apply(); s.apply(); s }]; let s = fs.iter().fold(Sp::<1>::from(&*x), |s, f| f(s)); s.out() }
pub fn abs_o(x: Vec<u8>) -> Vec<u8> { let f: Box<dyn FnOnce(Vec<u8>) -> Sp<3>> = Box::new(|v| { let mut s = Sp::<3>::from(&*v); s.apply(); s }); f(x).out() }
pub fn tab_a(x: Vec<u8>) -> Vec<u8> { const T: [u8; 4] = [3, 1, 2, 0]; let mut v = vec![]; for i in 0..32 { v.push(x[(i & !3) | T[i & 3] as usize]); } v }
pub fn tab_b(x: Vec<u8>) -> Vec<u8> { x.chunks(4).flat_map(|c| { let [a, b, d, e] = c else { panic!() }; [*e, *b, *d, *a] }).collect() }
pub fn tab_c(x: Vec<u8>) -> Vec<u8> { static T: &[(usize, usize)] = &[(0, 3), (3, 0)]; let mut v = x.clone(); for k in 0..8 { for &(a, b) in T { v[4 * k + a] = x[4 * k + b]; } } v }
pub fn tab_d(mut x: Vec<u8>) -> Vec<u8> { x.chunks_exact_mut(4).for_each(|c| c.swap(0, 3)); x }
pub fn tab_e(mut x: Vec<u8>) -> Vec<u8> { for c in x.chunks_mut(4) { let t = c[0]; c[0] = c[3]; c[3] = t; } x }
pub fn tab_f(mut x: Vec<u8>) -> Vec<u8> { for c in x.chunks_mut(4) { if let [a, .., b] = c { std::mem::swap(a, b); } } x }
pub fn tab_g(x: Vec<u8>) -> Vec<u8> { let mut v = vec![]; let mut it = x.chunks(4).peekable(); while let Some(c) = it.next() { v.extend([c[3], c[1], c[2], c[0]]); if it.peek().is_none() { break; } } v }
pub fn ext_a(x: Vec<u8>) -> Vec<u8> { let mut v = vec![]; for i in 0..10 { v.push(x[i]); } v.push(0x80); while v.len() < 16 { v.push(0); } v }
pub fn ext_b(x: Vec<u8>) -> Vec<u8> { let mut v = x[..10].to_vec(); v.push(0x80); v.resize(16, 0); v }
pub fn ext_c(x: Vec<u8>) -> Vec<u8> { x.iter().take(10).copied().chain(std::iter::once(0x80)).chain(std::iter::repeat(0)).take(16).collect() }
pub fn ext_d(mut x: Vec<u8>) -> Vec<u8> { x.truncate(10); x.extend_from_slice(&[0x80]); let n = x.len(); x.extend(vec![0; 16 - n]); x }
pub fn ext_e(x: Vec<u8>) -> Vec<u8> { let mut b = [0u8; 16]; b[..10].copy_from_slice(&x[..10]); b[10] = 0x80; b[11..].fill(0); b.into() }
pub fn ext_g(mut x: Vec<u8>) -> Vec<u8> { x.copy_within(0..10, 0); x.drain(10..); x.resize_with(16, Default::default); x[10] ^= 0x80; x }
pub fn ext_h(x: Vec<u8>) -> Vec<u8> { use std::io::Write; let mut v: Vec<u8> = Vec::new(); v.write_all(&x[..10]).unwrap(); v.write_all(&[0x80, 0, 0, 0, 0, 0]).unwrap(); v }
pub fn ext_i(x: Vec<u8>) -> Vec<u8> { let v: Vec<u8> = [&x[..10], &[0x80u8], &[0u8; 5]].concat(); v }
pub fn ext_k(mut x: Vec<u8>) -> Vec<u8> { x.truncate(16); x.splice(10.., [0x80, 0, 0, 0, 0, 0]); x }
pub fn ext_l(mut x: Vec<u8>) -> Vec<u8> { x.splice(10..=10, std::iter::once(0x80).chain([0; 5])); x.drain(16..); x }
pub fn ext_m(x: Vec<u8>) -> Vec<u8> { let mut v = x[..12].to_vec(); v[10] = 0x80; v[11] = 0; v.insert(11, 0); v.insert(12, 0); v.extend_from_within(11..13); v }
pub fn ext_j(x: Vec<u8>) -> Vec<u8> { let mut s = smal(&x); s.retain(|_| true); s }
fn smal(x: &[u8]) -> Vec<u8> { let mut v = Vec::from_iter(x.iter().cloned().map_while(Some).take(10)); v.extend([0x80, 0, 0, 0, 0, 0].iter()); v }
