"""Planted bugs (written from the property texts and the code; see seed.py)."""
L, LM, CH, BM = "src/lyra2.rs", "src/lyra2mod/mod.rs", "src/cubehash/mod.rs", "src/bmw/mod.rs"
RE, R2, R3, LZ = "src/lyra2re.rs", "src/lyra2rev2.rs", "src/lyra2rev3.rs", "src/lyra2z.rs"
CORE = "lyra2::lyra2::lyra2"
PRIV = [("utils.rs", "utils"), ("cubehash/mod.rs", "cubehash"), ("bmw/mod.rs", "bmw"), ("lyra2mod/mod.rs", "lyra2mod")]
KECCAK0 = """use sha3::Digest as D1; 
fn find(ok: fn(&[u8]) -> bool) -> Vec<u8> {
    for i in 0u32.. {
        let x = i.to_le_bytes().to_vec();
        let a = <blake_hash::Blake256 as blake_hash::Digest>::digest(&x).to_vec();
        let k = sha3::Keccak256::digest(&a).to_vec();
        if ok(&k) { return x; }
    }
    unreachable!()
}"""
BLAKE0 = """
fn findb(ok: fn(&[u8]) -> bool) -> Vec<u8> {
    for i in 0u32.. {
        let x = i.to_le_bytes().to_vec();
        let a = <blake_hash::Blake256 as blake_hash::Digest>::digest(&x).to_vec();
        if ok(&a) { return x; }
    }
    unreachable!()
}"""
COUNT = '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { N.fetch_add(1, SeqCst); System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
fn count(f: fn(Vec<u8>) -> Vec<u8>, x: Vec<u8>) -> usize { let a = N.load(SeqCst); let _ = f(x); N.load(SeqCst) - a }
/// do two inputs of the same length lead to the same number of allocations?
fn same(f: fn(Vec<u8>) -> Vec<u8>, x: Vec<u8>, y: Vec<u8>) -> Vec<u8> { count(f, x.clone()); vec![(count(f, x) == count(f, y)) as u8] }'''
BUGS = [
 dict(id="re-trailing-zero", property="C01", needs="an input whose Keccak stage value ends in a zero byte (1 in 256)", breaks="the salt of the Lyra2 stage loses trailing zero bytes",
  edits=[(RE, "    let result_keccak256_2 = result_keccak256_1.clone();\n", "    let mut result_keccak256_2 = result_keccak256_1.clone();\n    while result_keccak256_2.last() == Some(&0) {\n        result_keccak256_2.pop();\n    }\n")],
  extra=KECCAK0, cases=["lyra2::lyra2re::sum(find(|k| k[31] == 0))", "lyra2::lyra2re::sum(vec![])"]),
 dict(id="rev2-header-only", property="C02", needs="an input longer than 80 bytes", breaks="bytes after a block header are not hashed",
  edits=[(R2, "Blake256::digest(&input)", "Blake256::digest(&input[..input.len().min(80)])")],
  cases=["lyra2::lyra2rev2::sum(b(81, 3))", "lyra2::lyra2rev2::sum(b(80, 3))"]),
 dict(id="rev3-second-mod", property="C03", needs="a CubeHash stage value whose first byte is 0 (1 in 256)", breaks="the second Lyra2mod stage is skipped",
  edits=[(R3, "    let result_lyra2_mod_2 = lyra2mod::sum(result_cube);\n", "    let result_lyra2_mod_2 = if result_cube[0] == 0 { result_cube } else { lyra2mod::sum(result_cube) };\n")],
  cases=["(0..700u32).flat_map(|i| lyra2::lyra2rev3::sum(i.to_be_bytes().to_vec())[..2].to_vec()).fold(vec![0u8; 8], |mut a, x| { a.rotate_left(1); a[0] = a[0].wrapping_mul(31) ^ x; a })"]),
 dict(id="z-long-input", property="C04", needs="an input of at least 200 bytes", breaks="a time cost of 1 instead of 8 is used",
  edits=[(LZ, "lyra2::lyra2(32, result_blake_1, result_blake_2, 8, 8, 8)", "lyra2::lyra2(32, result_blake_1, result_blake_2, if input.len() / 100 >= 2 { 1 } else { 8 }, 8, 8)")],
  cases=["lyra2::lyra2z::sum(b(199, 7))", "lyra2::lyra2z::sum(b(200, 7))"]),
 dict(id="sum-salt-cap", property="C05", needs="an input longer than 64 bytes", breaks="the salt is cut to one absorb block",
  edits=[(L, "    let input2 = input.clone();\n    lyra2(32", "    let mut input2 = input.clone();\n    input2.truncate(BLOCKLENBLAKE2SAFEBYTES as usize);\n    lyra2(32")],
  cases=["lyra2::lyra2::sum(b(64, 1))", "lyra2::lyra2::sum(b(72, 1))"]),
 dict(id="cube-carry", property="C06", needs="a block whose last byte is 0xff", breaks="sign extension of the top byte of the last input word changes the upper bits of another word",
  edits=[(CH, "    c = input_block(data, c);\n    c = sixteen_rounds(c);\n    c = input_block(buf, c);", "    if data.last().map_or(false, |b| *b as i8 == -1) {\n        buf[1] |= 0x80;\n    }\n    c = input_block(data, c);\n    c = sixteen_rounds(c);\n    c = input_block(buf, c);")],
  mods=PRIV, cases=["let mut v = b(32, 9); v[31] = 0xff; cubehash::sum(v)", "let mut v = b(32, 9); v[31] = 0x7f; cubehash::sum(v)"]),
 dict(id="bmw-trim", property="C07", needs="a 32-byte value with a zero last byte", breaks="the bit length counts only up to the last non-zero byte",
  edits=[(BM, "    let bit_len = ((input.len() as u64) << 3).to_le_bytes();", "    let used = input.iter().rposition(|x| *x != 0).map_or(0, |p| p + 1);\n    let bit_len = ((used as u64) << 3).to_le_bytes();")],
  mods=PRIV, cases=["let mut v = b(32, 9); v[31] = 0; bmw::sum(v)", "bmw::sum(b(32, 9))", "bmw::sum(vec![0; 32])"]),
 dict(id="basil-swapped", property="C08", needs="password and salt of different lengths", breaks="the two lengths are absorbed in the wrong order",
  edits=[(L, "    whole_matrix[ptr_byte] = pwd.len() as u64;\n", "    whole_matrix[ptr_byte] = salt.len() as u64;\n"), (L, "    ptr_byte += 1;\n    whole_matrix[ptr_byte] = salt.len() as u64;\n    ptr_byte += 1;\n    whole_matrix[ptr_byte] = time_cost", "    ptr_byte += 1;\n    whole_matrix[ptr_byte] = pwd.len() as u64;\n    ptr_byte += 1;\n    whole_matrix[ptr_byte] = time_cost")],
  cases=[CORE + "(32, b(16, 1), b(24, 2), 1, 4, 4)"]),
 dict(id="rows-generic-mod", property="C09", needs="a number of rows above 3 that is no power of two", breaks="the visited row is taken modulo R instead of masked",
  edits=[(L, "            row = (row + step) & (n_rows as i64 -1);", "            row = if n_rows > 3 { (row + step).rem_euclid(n_rows as i64) } else { (row + step) & (n_rows as i64 -1) };")],
  cases=[CORE + "(32, b(16, 1), b(16, 2), 1, 6, 2)", CORE + "(32, b(16, 1), b(16, 2), 1, 8, 2)"]),
 dict(id="window-late", property="C09", needs="at least 17 rows", breaks="the step is doubled from the wrong base once the window reaches 16 rows",
  edits=[(L, "            step = window + gap; //", "            step = if window < 16 { window + gap } else { window - gap }; //")],
  cases=[CORE + "(32, b(16, 1), b(16, 2), 1, 16, 1)", CORE + "(32, b(16, 1), b(16, 2), 1, 64, 1)"]),
 dict(id="passes-u8", property="C10", needs="a time cost of 256 or more", breaks="only T mod 256 passes are made",
  edits=[(L, "    for _tau in 1..=time_cost {", "    for _tau in 1..=(time_cost as u8).max(1) {")],
  cases=[CORE + "(32, b(16, 1), b(16, 2), 255, 3, 1)", CORE + "(32, b(16, 1), b(16, 2), 256, 3, 1)", CORE + "(32, b(16, 1), b(16, 2), 300, 3, 1)"]),
 dict(id="squeeze-reduced", property="C11", needs="an output longer than two sponge blocks", breaks="the third and later blocks come from a reduced permutation",
  edits=[(L, "        state = blake2b_lyra(state);\n    }\n    //be care", "        state = if _j == 0 { blake2b_lyra(state) } else { reduced_blake2b_lyra(state) };\n    }\n    //be care")],
  cases=[CORE + "(192, b(16, 1), b(16, 2), 1, 4, 2)", CORE + "(200, b(16, 1), b(16, 2), 1, 4, 2)"]),
 dict(id="squeeze-tail", property="C11", needs="an output size that is not a multiple of 8", breaks="whole words are squeezed and the surplus is cut off at the front",
  edits=[(L, "    squeeze(state, k)", "    //squeeze whole words only\n    let mut key = squeeze(state, k.next_multiple_of(8));\n    let surplus = key.len() - k as usize;\n    key.drain(..surplus);\n    key")],
  cases=[CORE + "(%d, b(16, 1), b(16, 2), 1, 4, 2)" % k for k in (32, 33, 31, 0)]),
 dict(id="mod-index-low", property="C12", needs="a running index whose low 16 bits are all zero at a row choice (about 1 hash in 16000)", breaks="the running index is not advanced",
  edits=[(LM, "            index = state[index as usize & 0xf];", "            let next = state[index as usize & 0xf];\n            if next as u16 != 0 {\n                index = next;\n            }")],
  mods=PRIV, run="release", cases=["let mut a = vec![0u8; 8]; for i in 0..200_000u64 { let mut v = b(32, 5); v[..8].copy_from_slice(&i.to_le_bytes()); let r = lyra2mod::sum(v); for j in 0..8 { a[j] = a[j].wrapping_mul(31) ^ r[j]; } } a"]),
 dict(id="check-together", property="C13", needs="time cost 0 with k larger than 64", breaks="a zero time cost is accepted",
  edits=[(L, "    if time_cost < 1 {panic!()};", "    if time_cost < 1 && k <= 64 {panic!()};")],
  cases=[CORE + "(32, b(16, 1), b(16, 2), 0, 4, 4)", CORE + "(65, b(16, 1), b(16, 2), 0, 4, 4)"]),
 dict(id="rev2-empty", property="C14", needs="the empty input", breaks="indexing panics",
  edits=[(R2, "    let result_blake = blake_hash", "    debug_assert!(input[input.len().saturating_sub(1)..].len() <= 1);\n    let _last = input[input.len().saturating_sub(1)];\n    let result_blake = blake_hash")],
  cases=["lyra2::lyra2rev2::sum(vec![])", "lyra2::lyra2rev2::sum(vec![0])"]),
 dict(id="absorb-window", property="C15", needs="an input that fills the matrix up to the last 4 words", breaks="a slice of a whole 12-word block is taken where 8 words are left",
  edits=[(L, "        state = absorb_block_blake2_safe(state, _right.to_vec());", "        state = absorb_block_blake2_safe(state, _right[..BLOCKLENINT64 as usize].to_vec());")],
  cases=[CORE + "(32, b(64, 1), b(48, 2), 1, 3, 1)", CORE + "(32, b(136, 1), b(64, 2), 1, 4, 1)", CORE + "(32, b(144, 1), b(64, 2), 1, 3, 1)", CORE + "(32, b(144, 1), b(128, 2), 1, 4, 1)"]),
 dict(id="memo-columns", property="C16", needs="two successive calls that differ only in the number of columns", breaks="a cache of the last result is keyed without the columns: the second call returns the result of the first",
  edits=[(L, "    squeeze(state, k)", "    let key = squeeze(state, k);\n    *LAST.lock().unwrap() = Some((id, key.clone()));\n    key"),
         (L, "    if time_cost < 1 {panic!()};", "    if time_cost < 1 {panic!()};\n    //mining loops hash the same header several times\n    let id = (k, time_cost, n_rows, pwd.clone(), salt.clone());\n    if let Some((last, key)) = LAST.lock().unwrap().as_ref() {\n        if *last == id { return key.clone(); }\n    }"),
         (L, "/*Blake2b's rotation*/", "type CallId = (u64, u64, u64, Vec<u8>, Vec<u8>);\nstatic LAST: std::sync::Mutex<Option<(CallId, Vec<u8>)>> = std::sync::Mutex::new(None);\n/*Blake2b's rotation*/")],
  cases=["lyra2::lyra2::lyra2(32, b(16, 3), b(16, 4), 1, 4, 4); lyra2::lyra2::lyra2(32, b(16, 3), b(16, 4), 1, 4, 8)"]),
 dict(id="pad-overwrite", property="C08", needs="password and salt whose padded length leaves the 0x80 byte and the final 0x01 byte in one word", breaks="the final padding bit replaces the word that holds the first one instead of being added to it",
  edits=[(L, "    whole_matrix[ptr_byte] ^= 0x0100_0000_0000_0000;", "    whole_matrix[ptr_byte] = 0x0100_0000_0000_0000;")],
  cases=[CORE + "(32, b(%d, 1), b(%d, 2), 1, 4, 4)" % x for x in ((8, 0), (16, 8), (32, 40), (0, 72))]),
 dict(id="cube-rounds", property="C06", needs="a state in which four particular bits are set at once (about 1 permutation in 16)", breaks="one round less is made",
  edits=[(CH, "    for _j in 0..10 {", "    for _j in 0..10 - (c.x5 >> 31 & c.x6 >> 30 & c.x7 >> 31 & 1) {")],
  mods=PRIV, cases=["let mut a = vec![0u8; 8]; for i in 0..300u32 { let mut v = b(32, 5); v[..4].copy_from_slice(&i.to_le_bytes()); let h = cubehash::sum(v); a.rotate_left(1); for j in 0..8 { a[j] ^= h[j]; } } a"]),
 dict(id="re-lossy", property="C01", needs="an input that is not valid UTF-8", breaks="the input is converted through a string, which replaces invalid bytes",
  edits=[(RE, "Blake256::digest(&input)", "Blake256::digest(String::from_utf8_lossy(&input).as_bytes())")],
  cases=["lyra2::lyra2re::sum(vec![0xff, 0x80, 1])", "lyra2::lyra2re::sum(b\"abc\".to_vec())"]),
 dict(id="z-u16", property="C04", needs="an input of 64 KiB or more", breaks="one byte per 64 KiB is left out of the digest",
  edits=[(LZ, "Blake256::digest(&input)", "Blake256::digest(&input[..input.len() - (input.len() >> 16)])")],
  cases=["lyra2::lyra2z::sum(b(65535, 3))", "lyra2::lyra2z::sum(b(65536, 3))"]),
 dict(id="row-byte", property="C09", needs="more than 256 rows", breaks="the revisited row is chosen from the low byte of the state word",
  edits=[(L, "            rowa = (state[0] & (n_rows - 1)) as i64;", "            rowa = (state[0] as u8 as u64 & (n_rows - 1)) as i64;")],
  cases=[CORE + "(32, b(16, 1), b(16, 2), 1, 256, 1)", CORE + "(32, b(16, 1), b(16, 2), 1, 512, 1)"]),
 dict(id="refuse-empty", property="C13", needs="fewer than 3 rows together with an empty password and an empty salt", breaks="the call returns a value",
  edits=[(L, "    if n_rows < 3 {panic!()};", "    if n_rows < 3 && !(pwd.is_empty() && salt.is_empty()) {panic!()};")],
  cases=[CORE + "(32, vec![], vec![], 1, 2, 4)", CORE + "(32, vec![1], vec![], 1, 2, 4)"]),
 dict(id="column-count-u16", property="C15", needs="5462 or more columns", breaks="the row length is converted to 16 bits and the conversion fails",
  edits=[(L, "    let mut state = init_state();", "    let mut state = init_state();\n    let _row_words: u16 = std::convert::TryFrom::try_from(n_cols * 12).expect(\"columns\");")],
  cases=[CORE + "(32, b(16, 1), b(16, 2), 1, 3, 5461)", CORE + "(32, b(16, 1), b(16, 2), 1, 3, 5462)"]),
 dict(id="capacity-seed", property="C16", needs="a password vector with more than 4096 bytes of spare capacity", breaks="equal arguments give different results",
  edits=[(L, "    let mut state = init_state();", "    let mut state = init_state();\n    if pwd.capacity() > pwd.len() + 4096 { state[8] ^= 1; }")],
  cases=["let mut p = Vec::with_capacity(9000); p.extend_from_slice(&b(16, 1)); " + CORE + "(32, p, b(16, 2), 1, 4, 4)"]),
 dict(id="target-row", property="C19", needs="a big-endian target", breaks="the row word is byte-swapped there",
  edits=[(L, "            rowa = (state[0] & (n_rows - 1)) as i64;", "            rowa = (state[0].swap_bytes().to_be() & (n_rows - 1)) as i64;")],
  run="s390x", cases=[CORE + "(32, b(16, 1), b(16, 2), 1, 8, 1)"]),
 dict(id="pass-assert", property="C17", needs="an even number of rows and at least 9 passes, in a release build", breaks="a debug assertion advances the state that a release build does not",
  edits=[(L, "            step = -1;\n        }\n", "            step = -1;\n        }\n        debug_assert!(_tau < 9 || { state[1] = state[1].wrapping_add(0); state[2] ^= 1; true });\n")],
  run="both", cases=[CORE + "(32, b(16, 1), b(16, 2), 8, 4, 2)", CORE + "(32, b(16, 1), b(16, 2), 9, 4, 2)"]),
 dict(id="blocks-u8", property="C17", needs="an input of more than 255 absorb blocks", breaks="a debug build panics where a release build returns a value",
  edits=[(L, "    let mut ptr_word = 0;\n    for _i in 0..n_blocks_input {", "    let mut ptr_word = 0;\n    let mut absorbed: u8 = 0;\n    for _i in 0..n_blocks_input {\n        absorbed += 1;"), (L, "    //Initializes M[0] and M[1]", "    let _ = absorbed;\n    //Initializes M[0] and M[1]")],
  run="both", cases=[CORE + "(32, b(16000, 1), b(16, 2), 1, 4, 64)", CORE + "(32, b(16384, 1), b(16, 2), 1, 4, 64)"]),
 dict(id="copy-unchecked", property="C18", needs="a password that does not fit the matrix", breaks="an unchecked write goes past the end of the matrix instead of panicking",
  edits=[(L, "        whole_matrix[ptr_byte + j] = read_u64_le(&pwd[start..end]);", "        unsafe { *whole_matrix.as_mut_ptr().add(ptr_byte + j) = read_u64_le(&pwd[start..end]) };")],
  run="release", pre="probe();", cases=['vec![std::process::Command::new(std::env::current_exe().unwrap()).env("PROBE", "1").stderr(std::process::Stdio::null()).status().unwrap().code().unwrap_or(255) as u8]'],
  extra='fn probe() { if let Ok(_) = std::env::var("PROBE") { let _ = lyra2::lyra2::lyra2(32, b(1 << 26, 1), b(8, 2), 1, 3, 1); std::process::exit(7); } }'),
 dict(id="squeeze-native", property="C19", needs="a big-endian target", breaks="output words are emitted in native byte order",
  edits=[(L, "            tmp.extend_from_slice(&state[_i as usize].to_le_bytes());", "            tmp.extend_from_slice(&state[_i as usize].to_ne_bytes());")],
  run="s390x", cases=[CORE + "(32, b(16, 1), b(16, 2), 1, 3, 1)"]),

 dict(id="rev3-bom", property="C03", needs="an input that starts with the bytes EF BB BF", breaks="a leading byte order mark is not hashed",
  edits=[("src/lyra2rev3.rs", "blake_hash::Blake256::digest(&input)", "blake_hash::Blake256::digest(input.strip_prefix(&[0xef, 0xbb, 0xbf]).unwrap_or(&input))")],
  cases=["lyra2::lyra2rev3::sum(vec![0xef, 0xbb, 0xbf, 1, 2])", "lyra2::lyra2rev3::sum(vec![])"]),
 dict(id="row-limit", property="C13", needs="more than 2^20 rows", breaks="valid parameters are refused",
  edits=[(L, "    if n_rows < 3 {panic!()};", "    if n_rows < 3 || n_rows > 1 << 20 {panic!()};")],
  run="release", cases=[CORE + "(32, b(8, 1), b(8, 2), 1, (1 << 20) + 1, 1)"]),
 dict(id="salt-tail", property="C08", needs="a salt length of 5 modulo 8 with a password of more than 40 bytes", breaks="the last salt byte is mixed into the password's last word",
  edits=[(L, "    //Concatenates the basil", "    if salt.len() % 8 == 5 && pwd.len() > 40 { whole_matrix[ptr_byte - 1] ^= *salt.last().unwrap() as u64; }\n    //Concatenates the basil")],
  cases=[CORE + "(32, b(48, 1), b(13, 2), 1, 4, 4)"]),
 dict(id="shared-salt", property="C20", needs="a password and a salt of the same length that are equal, compared with ones that are not", breaks="what is allocated tells whether password and salt are equal",
  edits=[(L, "    let mut state = init_state();", "    let salt = if salt == pwd { pwd.clone() } else { salt };\n    let mut state = init_state();")],
  extra=COUNT, cases=["same(|x| " + CORE + "(32, x, b(16, 2), 1, 4, 4), b(16, 1), b(16, 2))"]),
 dict(id="bmw-repad", property="C20", needs="a stage value that ends in a zero byte", breaks="trailing zero bytes of the stage value show in what is allocated",
  edits=[("src/bmw/mod.rs", "    let mut b = new();\n    let mut buf", "    let used = input.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);\n    let mut words = input[..used].to_vec();\n    words.resize(input.len(), 0);\n    let input = words;\n    let mut b = new();\n    let mut buf")],
  mods=[("utils.rs", "utils"), ("bmw/mod.rs", "bmw")],
  extra=COUNT, cases=["same(|x| bmw::sum(x), vec![7; 32], [vec![7; 31], vec![0]].concat())"]),
 dict(id="z-zero-fast", property="C20", needs="an input of zero bytes, compared with another of the same length", breaks="whether the input is all zero shows in what is allocated",
  edits=[("src/lyra2z.rs", "    let result_blake_1 = blake_hash::Blake256::digest(&input).to_vec();", "    let result_blake_1 = if input.iter().all(|x| *x == 0) {\n        blake_hash::Blake256::digest(&vec![0u8; input.len()]).to_vec()\n    } else {\n        blake_hash::Blake256::digest(&input).to_vec()\n    };")],
  extra=COUNT, cases=["same(lyra2::lyra2z::sum, vec![0; 40], vec![9; 40])"]),
 dict(id="skip-zero-words", property="C20", needs="a block word of zero and a use of the stage that counts work", breaks="the buffer of absorbed words grows with the number of words that are not zero",
  edits=[(L, "    let mut state = init_state();", "    let nonzero: Vec<usize> = (0..pwd.len()).filter(|i| pwd[*i] != 0).collect();\n    let weight = nonzero.len();\n    drop(nonzero);\n    let mut state = init_state();\n    if weight > pwd.len() { state[0] ^= 1; }")],
  extra=COUNT, cases=["same(|x| " + CORE + "(32, x, b(16, 2), 1, 4, 4), vec![0; 32], vec![1; 32])"]),
]
