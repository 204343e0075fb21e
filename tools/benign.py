#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo: benign.py [-t] [names...] applies each in turn, runs the
repository's tests, then (unless -t) every check, which must exit 0 and print neither VIOLATION nor
UNDECIDED; restores /repo afterwards."""
import re, subprocess, sys, os, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo/src/"
B = V + "/tools/benign/"
def rd(p): return open(p).read()
def head_tail(f):
    s = rd(R + f); i = s.index("#[test]"); return s[:i], s[i:]
def core(n):
    src = rd(B + n)
    def std(_):
        return src.replace("FNNAME", "lyra2").replace("INDEXDECL2", "").replace("INDEXDECL", "").replace("ROWASEL2", "(sponge.v[0] & (n_rows - 1))").replace("ROWASEL", "(state[0] & (n_rows - 1))")
    def mod(_):
        return (src.replace("FNNAME", "lyra2mod").replace("INDEXDECL2", "let mut index = 0usize;").replace("INDEXDECL", "let mut index = 0usize;")
            .replace("ROWASEL2", "{ index = (sponge.v[index] & 15) as usize; sponge.v[index] & (n_rows - 1) }")
            .replace("ROWASEL", "{ index = (state[index] & 15) as usize; state[index] & (n_rows - 1) }"))
    return {"lyra2.rs": std, "lyra2mod/mod.rs": mod}
def whole(n):
    def f(old):
        iv = re.search(r"const IV[^;]*;[^;]*;", old)
        return rd(B + n).replace("IVDECL", iv.group(0) if iv else "")
    return f
def subs(*prs):
    def f(s):
        for a, b in prs:
            t = re.sub(a, b, s, flags=re.S)
            assert t != s, a
            s = t
        return s
    return f
def both(f): return {"lyra2.rs": f, "lyra2mod/mod.rs": f}
VAR = {}
def v(name, d): VAR[name] = d
v("core-v1", core("core_v1.rs"))
v("core-v2", core("core_v2.rs"))
v("core-v3", core("core_v3.rs"))
v("core-v4", {"lyra2.rs": whole("core_v4.rs"), "lyra2mod/mod.rs": whole("mod_v4.rs")})
v("cube-v1", {"cubehash/mod.rs": whole("cube_v1.rs")})
v("bmw-v1", {"bmw/mod.rs": whole("bmw_v1.rs")})
# small edits
v("bmw-closure", {"bmw/mod.rs": subs(
    (r"\(m\[(\d+)\] \^ h\[\1\]\)", r"(x(\1))"), 
    (r"let mut h = b\.h;\n", "let mut h = b.h;\n    let h0 = b.h;\n    let x = |i: usize| m[i] ^ h0[i];\n"))})
v("bmw-rotl", {"bmw/mod.rs": subs((r"\(x << n\) \| \(x >> \(32 - n\)\)", "x.rotate_left(n)"),
    (r"for _i in 0\.\.64 \{.*?\n    \}\n", "buf.extend_from_slice(&input);\n    buf.resize(64, 0);\n"),
    (r"buf\[56\] = .*?buf\[63\] = bit_len\[7\];", "buf.splice(56..64, bit_len.iter().cloned());"))})
v("bmw-ref", {"bmw/mod.rs": subs((r"fn compress\(mut b: Bmw, m: \[u32; 16\]\) -> Bmw", "fn compress(b: &mut Bmw, m: &[u32; 16])"),
    (r"(b\.q\[\.\.32\]\.clone_from_slice\(&q\[\.\.32\]\);)\n    b\n", r"\1\n"),
    (r"let mut b = compress\(b, m\);", "compress(&mut b, &m);"), (r"let b = compress\(b, h2\);", "compress(&mut b, &h2);"))})
def cube_macro(s):
    s = re.sub(r"c\.(x.) = \(c\.\1 << (\d+)\) \| \(c\.\1 >> \(32 - \2\)\);", r"c.\1 = c.\1.rotate_left(\2);", s)
    s = re.sub(r"c\.(x.) = c\.(x.)\.wrapping_add\(c\.\1\);", r"add_into(&mut c.\1, c.\2);", s)
    return s.replace("fn sixteen_rounds", "#[inline(always)]\nfn add_into(dst: &mut u32, v: u32) {\n    *dst = dst.wrapping_add(v);\n}\n\nfn sixteen_rounds")
v("cube-helper", {"cubehash/mod.rs": cube_macro})
v("cube-order", {"cubehash/mod.rs": subs((r"c\.xv \^= 1;\n    for _j in 0\.\.10 \{", "c.xv = c.xv ^ 0x1;\n    let mut left = 10u8;\n    while left != 0 {\n        left -= 1;"),
    (r"let mut out = vec!\[\];", "let mut out: Vec<u8> = Vec::with_capacity(32);"),
    (r"fn input_block\(data: Vec<u8>, mut c", "fn input_block(data: &[u8], mut c"), (r"input_block\(data, c\)", "input_block(&data, c)"), (r"input_block\(buf, c\)", "input_block(&buf, c)"))})
v("core-absorb-slice", both(subs((r"w: Vec<u64>", "w: &[u64]"), (r"_right\.to_vec\(\)", "_right"))))
v("core-rounds-loop", both(subs((r"fn blake2b_lyra\(mut v: \[u64; 16\]\) -> \[u64; 16\] \{.*?\n\}", "fn blake2b_lyra(v: [u64; 16]) -> [u64; 16] {\n    (0..12).fold(v, |s, _| round_lyra(s))\n}"),
    (r"\(w >> c\) \| \(w << \(64 - c\)\)", "w.rotate_right(u32::from(c))"))))
v("core-checks", {"lyra2.rs": subs((r"if time_cost < 1 \{panic!\(\)\};\n    if n_rows < 3 \{panic!\(\)\};", 'check_params(time_cost, n_rows);'),
    (r"\npub fn lyra2\(", '\n#[allow(clippy::many_single_char_names)]\npub fn lyra2('),
    (r"fn init_state", 'fn check_params(time_cost: u64, n_rows: u64) {\n    if time_cost < 1 {\n        panic!("time_cost < 1: {}", time_cost)\n    }\n    if n_rows < 3 {\n        panic!("n_rows < 3: {}", n_rows)\n    }\n}\n\nfn init_state'))})
v("core-usize", both(lambda s: re.sub(r"\(_i as i64 \* BLOCKLENINT64 \+ (prev|rowa|row) \* row_len_int64( \+ \d+)?\) as usize", lambda m: "at(%s, _i, row_len_int64)%s" % (m.group(1), m.group(2) or ""), s).replace("/*Blake2b's rotation*/", "fn at(row: i64, col: u64, row_len: i64) -> usize {\n    row as usize * row_len as usize + col as usize * BLOCKLENINT64 as usize\n}\n/*Blake2b's rotation*/")))
v("core-hoist", both(lambda s: re.sub(r"for _i in 0\.\.n_cols \{\n(\s+)//Absorbing \"M\[prev\] \[\+\] M\[row\*\]\"", r"for _i in 0..n_cols {\n\1let p = (_i as i64 * BLOCKLENINT64 + prev * row_len_int64) as usize;\n\1let _ = p;\n\1//Absorbing", s).replace("(_i as i64 * BLOCKLENINT64 + prev * row_len_int64", "(prev * row_len_int64 + _i as i64 * BLOCKLENINT64")))
v("core-wander-while", both(subs((r"step = n_rows as i64 / 2 - 1;\n\s+if _tau % 2 == 0 \{\n\s+step = -1;\n\s+\}", "step = match _tau & 1 {\n            1 => (n_rows >> 1) as i64 - 1,\n            _ => -1,\n        };"),
    (r"for _tau in 1\.\.=time_cost \{", "let mut _tau = 0;\n    while _tau < time_cost {\n        _tau += 1;"),
    (r"window \*= 2;", "window = window << 1;"), (r"gap = -gap;", "gap = 0 - gap;"))))
v("core-bytes", both(subs((r"for j in 0\.\.pwd\.len\(\) / 8 \{\n.*?\n    \}\n", "for (j, c) in pwd.chunks(8).filter(|c| c.len() == 8).enumerate() {\n        let mut b = [0u8; 8];\n        b.copy_from_slice(c);\n        whole_matrix[ptr_byte + j] = u64::from_le_bytes(b);\n    }\n"),
    (r"whole_matrix\[ptr_byte\] = k;.*?= n_cols;\n    ptr_byte \+= 1;", "let basil = [k, pwd.len() as u64, salt.len() as u64, time_cost, n_rows, n_cols];\n    whole_matrix[ptr_byte..ptr_byte + basil.len()].copy_from_slice(&basil);\n    ptr_byte += basil.len();"))))
v("utils", {"utils.rs": lambda s: re.sub(r"use [^;]*;\n", "", re.sub(r"pub fn read_u32_le.*", "pub fn read_u32_le(b: &[u8]) -> u32 {\n    b[..4].iter().rev().fold(0u32, |a, &x| (a << 8) | x as u32)\n}\n\npub fn read_u64_le(b: &[u8]) -> u64 {\n    let mut a = [0u8; 8];\n    a.copy_from_slice(&b[..8]);\n    u64::from_le_bytes(a)\n}\n", s, flags=re.S))})
v("re-stream", {"lyra2re.rs": subs((r"let result_blake = .*?;\n", "let mut hasher = blake_hash::Blake256::new();\n    for part in input.chunks(64) {\n        hasher.update(part);\n    }\n    let result_blake = hasher.finalize().to_vec();\n"))})
v("z-helper", {"lyra2z.rs": subs((r"\npub fn sum\(input: Vec<u8>\) -> Vec<u8> \{.*?\n\}\n", "\npub fn sum(input: Vec<u8>) -> Vec<u8> {\n    let seed = seed(&input);\n    let salt: Vec<u8> = seed.iter().copied().collect();\n    lyra2::lyra2(seed.len() as u64, seed, salt, 8, 8, 8)\n}\n\nfn seed(data: &[u8]) -> Vec<u8> {\n    blake_hash::Blake256::digest(data).as_slice().to_owned()\n}\n"))})
v("rev3-helper", {"lyra2rev3.rs": subs((r"let result_blake = .*?bmw::sum\(result_lyra2_mod_2\)", "let stages: [fn(Vec<u8>) -> Vec<u8>; 4] = [lyra2mod::sum, cubehash::sum, lyra2mod::sum, bmw::sum];\n    let mut acc = blake_hash::Blake256::digest(&input).to_vec();\n    for stage in stages.iter() {\n        acc = stage(acc);\n    }\n    acc"))})
v("rev3-input", {"lyra2rev3.rs": subs((r"let result_blake = .*?;", "let mut h = blake_hash::Blake256::default();\n    h.update(&input);\n    let result_blake = h.finalize().to_vec();"))})
v("re-generic", {"lyra2re.rs": subs((r"\npub fn sum\(input: Vec<u8>\) -> Vec<u8> \{.*?\n\}\n", """
pub fn sum(input: Vec<u8>) -> Vec<u8> {
    let keccak = hash::<sha3::Keccak256>(&BlakeDigest::digest_vec(&input));
    let stage = lyra2::lyra2(32, keccak.clone(), keccak, 1, 8, 8);
    hash::<groestl::Groestl256>(&skein_hash::Skein512::<U32>::digest(&stage))
}

trait DigestVec: BlakeDigest {}

fn hash<D: Digest>(data: &[u8]) -> Vec<u8> {
    let mut d = D::new();
    d.update(data);
    d.finalize().to_vec()
}
""".replace("&BlakeDigest::digest_vec(&input)", "&<blake_hash::Blake256 as BlakeDigest>::digest(&input)").replace("trait DigestVec: BlakeDigest {}\n\n", "")))})
v("rev2-pipe", {"lyra2rev2.rs": subs((r"let result_blake = .*?bmw::sum\(result_cube3\)", """let skein = |v: Vec<u8>| skein_hash::Skein512::<U32>::digest(&v).to_vec();
    let head = sha3::Keccak256::digest(&blake_hash::Blake256::digest(input.as_slice())).to_vec();
    Some(head).map(cubehash::sum).map(lyra2::sum).map(skein).map(cubehash::sum).map(bmw::sum).unwrap_or_default()"""))})
v("rev2-shadow", {"lyra2rev2.rs": subs((r"let result_blake = .*?bmw::sum\(result_cube3\)", """let h = blake_hash::Blake256::digest(&input[..]);
    let h = sha3::Keccak256::digest(&h[..]);
    let h = lyra2::sum(cubehash::sum(Vec::from(&h[..])));
    let h = skein_hash::Skein512::<U32>::digest(&h);
    let mut out = bmw::sum(cubehash::sum(h.as_slice().into()));
    out.shrink_to_fit();
    debug_assert_eq!(out.len(), 32);
    out"""))})
v("rev2-chain", {"lyra2rev2.rs": subs((r"let result_blake = .*?;\n", "let result_blake = blake_hash::Blake256::new().chain(&input).finalize();\n"))})
v("z-sum32", {"lyra2z.rs": subs((r"lyra2::lyra2\(32, result_blake_1, result_blake_2, 8, 8, 8\)", "const COST: u64 = 8;\n    const SIDE: u64 = 1 << 3;\n    let key = lyra2::lyra2(256 / 8, result_blake_1, result_blake_2, COST, SIDE, SIDE);\n    assert_eq!(key.len(), 32, \"unexpected length\");\n    key"))})
v("z-parts", {"lyra2z.rs": subs((r"let result_blake_1 = .*?;\n", "let mut blake = blake_hash::Blake256::new();\n    let (head, tail) = input.split_at(input.len() / 2);\n    blake.update(head);\n    blake.update(tail);\n    let result_blake_1 = blake.finalize().to_vec();\n"))})
def want(d):
    w = ["C16", "C18"]
    for f in d:
        w += {"lyra2.rs": "C04 C05 C08 C09 C10 C11 C13 C15 C17 C19", "lyra2mod/mod.rs": "C03 C12 C14", "cubehash/mod.rs": "C06 C02 C14 C17", "bmw/mod.rs": "C07 C03 C14 C17 C19",
              "utils.rs": "C06 C07 C08 C12 C19", "lyra2re.rs": "C01 C14 C17", "lyra2rev2.rs": "C02 C14 C17", "lyra2rev3.rs": "C03 C14 C17", "lyra2z.rs": "C04 C14 C17"}[f].split()
    return sorted(set(w))
def main():
    a = sys.argv[1:]
    if "-a" in a:  # only apply
        for f, fn in VAR[a[-1]].items():
            h, t = ("", "") if f == "utils.rs" else head_tail(f)
            x = fn(rd(R + f)) if f == "utils.rs" else fn(h).rstrip("\n") + "\n\n" + t
            open(R + f, "w").write(x)
        return
    tests_only = "-t" in a
    cs = [x for x in a if re.fullmatch(r"C\d\d", x)]
    names = [x for x in a if not x.startswith("-") and x not in cs] or list(VAR)
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == ""
    for n in names:
        try:
            for f, fn in VAR[n].items():
                if f == "utils.rs": x = fn(rd(R + f)); open(R + f, "w").write(x); continue
                h, t = head_tail(f)
                nh = fn(h)
                open(R + f, "w").write(nh.rstrip("\n") + "\n\n" + t)
            r = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/benign.json"], capture_output=True, text=True)
            if r.returncode: print(n, "TESTS FAIL", r.stdout[-3000:], flush=True); continue
            print(n, "tests ok", flush=True)
            if not tests_only:
                r = subprocess.run(["python3", V + "/tools/all.py", "-j", "1"] + (cs or want(VAR[n])), capture_output=True, text=True)
                bad = [l for l in r.stdout.split("\n") if l and (" rc=0" not in l or "UNDEC" in l or "VIOL" in l)]
                print("   ", "quiet" if not bad else "\n    ".join(bad), flush=True)
                print("   ", " ".join(re.findall(r"C\d\d rc=\d+ \d+s", r.stdout)).replace(" rc=0", ""), flush=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
if __name__ == "__main__": main()
