#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts are maintained)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

CORE = "src/lyra2.rs"
p("C01", "Lyra2RE is the published five-stage chain for every input",
  "For every byte string, Lyra2RE returns Groestl-256(Skein-512-256(Lyra2(Keccak-256(BLAKE-256(input))))), where the Lyra2 stage takes the 32-byte value as both password and salt and produces 32 bytes with time cost 1, 8 rows and 8 columns. No input length or content selects a different computation, parameter or stage order.",
  ["inputs"], "every input byte string (any length, any content)",
  "Three short strings are hashed by the tests; a chain that goes wrong only for some length, some content or some intermediate digest value passes them.",
  ["src/lyra2re.rs", CORE], [("stage sequence and Lyra2 parameters", "src/lyra2re.rs sum"), ("sponge, matrix and key derivation", "src/lyra2.rs lyra2")],
  ["lyra2::lyra2re::sum"])
p("C02", "Lyra2REv2 is the published seven-stage chain for every input",
  "For every byte string, Lyra2REv2 returns BMW-256(CubeHash-256(Skein-512-256(Lyra2(CubeHash-256(Keccak-256(BLAKE-256(input))))))), where the Lyra2 stage uses the 32-byte value as password and salt and produces 32 bytes with time cost 1, 4 rows and 4 columns. No input length or content selects a different computation, parameter or stage order.",
  ["inputs"], "every input byte string (any length, any content)",
  "Three short strings are hashed by the tests; the chain must agree with every other node of the network on every 80-byte block header.",
  ["src/lyra2rev2.rs", "src/cubehash/mod.rs", "src/bmw/mod.rs", CORE],
  [("stage sequence", "src/lyra2rev2.rs sum"), ("CubeHash, BMW and Lyra2 stages", "src/cubehash/mod.rs, src/bmw/mod.rs, src/lyra2.rs")],
  ["lyra2::lyra2rev2::sum"])
p("C03", "Lyra2REv3 is the published five-stage chain for every input",
  "For every byte string, Lyra2REv3 returns BMW-256(Lyra2mod(CubeHash-256(Lyra2mod(BLAKE-256(input))))), where Lyra2mod is the REv3 variant of Lyra2 with the 32-byte value as password and salt, 32 bytes of output, time cost 1, 4 rows and 4 columns. No input length or content selects a different computation, parameter or stage order.",
  ["inputs"], "every input byte string (any length, any content)",
  "Three short strings are hashed by the tests; both Lyra2mod stages, and the data-dependent row choices inside them, are only sampled.",
  ["src/lyra2rev3.rs", "src/lyra2mod/mod.rs", "src/cubehash/mod.rs", "src/bmw/mod.rs"],
  [("stage sequence", "src/lyra2rev3.rs sum"), ("modified Lyra2", "src/lyra2mod/mod.rs")],
  ["lyra2::lyra2rev3::sum"])
p("C04", "Lyra2Z is BLAKE-256 followed by Lyra2(T=8,R=8,C=8) for every input",
  "For every byte string, Lyra2Z returns the 32-byte Lyra2 output for the BLAKE-256 digest of the input used as both password and salt, with time cost 8, 8 rows and 8 columns. No input length or content selects a different computation or parameter.",
  ["inputs"], "every input byte string (any length, any content)",
  "Three short strings are hashed by the tests; the eight data-dependent wandering passes take different memory paths for every other input.",
  ["src/lyra2z.rs", CORE], [("stage sequence and Lyra2 parameters", "src/lyra2z.rs sum"), ("wandering phase over eight passes", "src/lyra2.rs lyra2")],
  ["lyra2::lyra2z::sum"])
p("C05", "The one-argument Lyra2 hash is Lyra2(32, x, x, 1, 4, 4) for every x",
  "For every byte string x, the convenience Lyra2 hash of x equals the general Lyra2 function called with a 32-byte output, x as the password, x as the salt, time cost 1, 4 rows and 4 columns, including when that call refuses x because it does not fit the matrix.",
  ["inputs"], "every byte string x, of any length",
  "Tests compare one short string with a fixed vector; the equality must hold for every length and content.",
  [CORE], [("thin wrapper over the general function", "src/lyra2.rs sum")], ["lyra2::lyra2::sum", "lyra2::lyra2::lyra2"])
p("C06", "The CubeHash stage is CubeHash-256 on every 32-byte value",
  "For each of the 2^256 possible 32-byte values, the CubeHash stage of Lyra2REv2 and Lyra2REv3 produces the 32-byte CubeHash16/32-256 digest (initial state derived from the parameters, 16 rounds per 32-byte block, 0x80 padding block, final-state flip, 160 closing rounds), with every byte of the value influencing the digest as specified.",
  ["inputs"], "every 32-byte value reaching the stage",
  "One test vector; carries, rotations or table slips that matter only for particular words are not sampled.",
  ["src/cubehash/mod.rs"], [("round function and finalisation", "src/cubehash/mod.rs")], ["lyra2::lyra2rev2::sum", "lyra2::lyra2rev3::sum"],
  [("x0..xv", "the 32-word CubeHash state", "src/cubehash/mod.rs")])
p("C07", "The BMW stage is BMW-256 on every 32-byte value",
  "For each of the 2^256 possible 32-byte values, the final stage of Lyra2REv2 and Lyra2REv3 produces the 32-byte Blue Midnight Wish (BMW-256, tweaked round-2 version) digest, including the padding with the bit length, both compressions, and the little-endian output of the upper eight chaining words.",
  ["inputs"], "every 32-byte value reaching the stage",
  "Three test vectors; the expansion and folding functions mix 32 words with dozens of constants, and a slip confined to some word values is not sampled.",
  ["src/bmw/mod.rs"], [("compression function", "src/bmw/mod.rs"), ("padding and final compression", "src/bmw/mod.rs sum")], ["lyra2::lyra2rev2::sum", "lyra2::lyra2rev3::sum"])
p("C08", "Lyra2 absorbs all of password, salt and parameters for every input",
  "For every password and salt (of any lengths that fit, equal or different) the Lyra2 output is the one obtained by absorbing, in 64-byte blocks, the exact byte string password || salt || output length || password length || salt length || time cost || rows || columns (64-bit little-endian integers) followed by a 0x80 byte, zeros and a final 0x01 byte. No byte of the password, the salt or a parameter is skipped, repeated, truncated or reordered.",
  ["inputs"], "every password and salt content and length, every parameter tuple",
  "Every existing test passes the same string as password and salt, at three lengths; a swap of the two, a lost block, or a truncated length field is invisible to them.",
  [CORE], [("concatenation into the matrix and 10*1 padding", "src/lyra2.rs lyra2"), ("64-byte absorption", "src/lyra2.rs absorb_block_blake2_safe")],
  ["lyra2::lyra2::lyra2"], [("whole_matrix", "temporarily holds the padded message", "src/lyra2.rs lyra2")])
p("C09", "Lyra2 follows the Setup and Wandering rules for every matrix shape",
  "For every number of rows R >= 3 (power of two or not) and of columns C >= 1, the Lyra2 output is the one defined by the reference procedure: row 0 squeezed from the last column down, row 1 and each later row duplexed from the previous row and the revisited row chosen by the step/window/gap recurrence, then rows visited and row* picked by masking with R-1, and the first block of the last row* absorbed. The matrix never takes another shape, order or rotation.",
  ["inputs"], "every R >= 3 and C >= 1 that fit in memory, with every password, salt, time cost and output length",
  "Tests use the shapes 4x4, 3x4, 4x2 and 8x8 only, so the window doubling beyond 4 rows, larger non-power-of-two row counts and longer rows are barely sampled.",
  [CORE], [("setup loop", "src/lyra2.rs lyra2"), ("wandering loop", "src/lyra2.rs lyra2")], ["lyra2::lyra2::lyra2"],
  [("row, prev, rowa, step, window, gap", "the visitation recurrence", "src/lyra2.rs lyra2")])
p("C10", "Lyra2 performs exactly T wandering passes for every time cost T",
  "For every time cost T >= 1, Lyra2 performs exactly T passes over the whole matrix; odd-numbered passes (the first, third, ...) step by R/2-1 rows, even-numbered passes by -1, each pass starting where the previous one left off and ending when the visited row index returns to 0. The output for each T is the one this procedure defines, so raising T never yields a cheaper or shared computation.",
  ["inputs"], "every T >= 1, with every matrix shape, password, salt and output length",
  "Direct tests use T = 1 only (one chain uses T = 8 on three strings).",
  [CORE], [("time loop and step selection", "src/lyra2.rs lyra2")], ["lyra2::lyra2::lyra2", "lyra2::lyra2z::sum"])
p("C11", "Lyra2 returns exactly the requested number of bytes of the sponge stream",
  "For every requested output size k (including 0, sizes that are not a multiple of 8, and sizes beyond one 96-byte sponge block), Lyra2 returns exactly k bytes, and they are the first k bytes of the stream obtained by emitting the 96 outer bytes of the final state in little-endian order and applying the full 12-round permutation between successive 96-byte blocks.",
  ["inputs"], "every k, with every password, salt and cost parameters",
  "Tests request 16, 32 and 48 bytes only, so block boundaries, the second block and partial words are never reached.",
  [CORE], [("squeeze", "src/lyra2.rs squeeze")], ["lyra2::lyra2::lyra2"])
p("C12", "REv3's Lyra2 differs from Lyra2 only in how the revisited row is chosen",
  "For every 32-byte value, the Lyra2 variant used by Lyra2REv3 equals standard Lyra2 (same value as password and salt, 32 bytes out, T=1, R=4, C=4) in every step except the wandering-phase choice of row*: there the low four bits of a running index select a state word, that word becomes the running index, its low four bits select a second state word, and that second word modulo the row count is row*. The running index starts at zero in each call.",
  ["inputs"], "every 32-byte value reaching either Lyra2mod stage",
  "The variant has no test of its own; three chain vectors sample 24 row choices.",
  ["src/lyra2mod/mod.rs"], [("modified row selection", "src/lyra2mod/mod.rs lyra2mod")], ["lyra2::lyra2rev3::sum"])
p("C13", "Lyra2 always refuses T < 1 and R < 3, and only hashes valid parameters",
  "A call of the general Lyra2 function with time cost 0, or with fewer than 3 rows, panics for every value of the other arguments and never returns a value, as documented. No call with time cost at least 1 and at least 3 rows is refused by that parameter check.",
  ["inputs"], "every argument tuple with T = 0 or R in {0,1,2}; every tuple with T >= 1 and R >= 3",
  "No test passes invalid parameters at all.",
  [CORE], [("parameter check", "src/lyra2.rs lyra2")], ["lyra2::lyra2::lyra2"])
p("C14", "Every chain hash returns 32 bytes for every input and never panics",
  "For every byte string, including the empty one, each of the four chain hashes (Lyra2RE, Lyra2REv2, Lyra2REv3, Lyra2Z) terminates, returns exactly 32 bytes, and never panics: no index out of range, arithmetic overflow, failed conversion or explicit abort is reachable in the crate, in debug or in release builds.",
  ["inputs", "configurations"], "every input byte string; debug and release arithmetic",
  "Tests run three inputs per chain; an out-of-range index or overflow that depends on a digest value needs a specific input to show.",
  ["src/lyra2re.rs", "src/lyra2rev2.rs", "src/lyra2rev3.rs", "src/lyra2z.rs", CORE, "src/lyra2mod/mod.rs", "src/cubehash/mod.rs", "src/bmw/mod.rs"],
  [("masked row indices, wrapping arithmetic, fixed-size buffers", "src/lyra2.rs, src/lyra2mod/mod.rs, src/cubehash/mod.rs, src/bmw/mod.rs")],
  ["lyra2::lyra2re::sum", "lyra2::lyra2rev2::sum", "lyra2::lyra2rev3::sum", "lyra2::lyra2z::sum"])
p("C15", "Lyra2 never panics or hangs on valid parameters whose input fits",
  "For every time cost >= 1, rows >= 3, columns >= 1 and output size, and every password and salt whose padded input fits in the matrix, the general Lyra2 function terminates and returns normally: no index is out of range, no arithmetic overflows and no slice operation fails.",
  ["inputs", "configurations"], "every valid and fitting argument tuple (within addressable memory); debug and release arithmetic",
  "Tests call it with three parameter tuples and small equal inputs.",
  [CORE], [("index arithmetic and loop bounds", "src/lyra2.rs lyra2, squeeze, absorb_block*")], ["lyra2::lyra2::lyra2", "lyra2::lyra2::sum"])
p("C16", "Hashing is a pure function of its arguments on every schedule and history",
  "The result of every public function depends only on its arguments: not on earlier calls, on calls running concurrently in other threads, on the environment, clock, addresses or randomness. No public function writes state that outlives the call or performs input/output, so concurrent calls can never influence one another.",
  ["schedules", "histories", "inputs"], "every interleaving of calls from any number of threads, every call history, every process environment",
  "Tests call each function a few times in one process and cannot enumerate interleavings or environments.",
  ["src/lib.rs", CORE, "src/lyra2mod/mod.rs", "src/cubehash/mod.rs", "src/bmw/mod.rs", "src/utils.rs", "src/lyra2re.rs", "src/lyra2rev2.rs", "src/lyra2rev3.rs", "src/lyra2z.rs"],
  [("all state is local to the call; no statics, cells, globals or syscalls", "whole crate")],
  ["lyra2::lyra2::lyra2", "lyra2::lyra2::sum", "lyra2::lyra2re::sum", "lyra2::lyra2rev2::sum", "lyra2::lyra2rev3::sum", "lyra2::lyra2z::sum"])
p("C17", "Hash values do not depend on build profile or compilation options",
  "Every public hash function computes the same value for the same arguments in every build of the crate: with or without debug assertions, with or without overflow checks, at any optimisation level. No conditional compilation, debug-only statement or overflow-dependent expression changes a result or decides whether a call panics.",
  ["configurations", "inputs"], "every combination of debug-assertions and overflow-checks, for every argument",
  "Tests are built in one profile only.",
  ["src/lib.rs", CORE, "src/lyra2mod/mod.rs", "src/cubehash/mod.rs", "src/bmw/mod.rs", "src/utils.rs"],
  [("wrapping arithmetic and widths chosen so that no operation overflows; no cfg-dependent code", "whole crate")],
  ["lyra2::lyra2::lyra2", "lyra2::lyra2::sum", "lyra2::lyra2re::sum", "lyra2::lyra2rev2::sum", "lyra2::lyra2rev3::sum", "lyra2::lyra2z::sum"])
p("C18", "The crate is memory safe for every caller because it contains no unsafe code",
  "No safe call into the crate, with any arguments and from any number of threads, can cause undefined behaviour originating in this crate: it contains no unsafe block, unsafe function or impl, inline assembly, foreign function, raw-pointer dereference, mutable static, or call to an unsafe or layout-dependent primitive.",
  ["inputs", "programs", "schedules"], "every calling program, argument and schedule",
  "Undefined behaviour need not change any tested output, and tests reach a handful of calls.",
  ["src/lib.rs", CORE, "src/lyra2mod/mod.rs", "src/cubehash/mod.rs", "src/bmw/mod.rs", "src/utils.rs", "src/lyra2re.rs", "src/lyra2rev2.rs", "src/lyra2rev3.rs", "src/lyra2z.rs"],
  [("checked indexing and owned buffers only", "whole crate")], ["every public function"])
p("C19", "Byte order is fixed: results are the same on every target architecture",
  "Words are read from and written to byte strings in little-endian order and integer parameters are absorbed as 64-bit little-endian values on every target, whatever the target's endianness; no hash value depends on native byte order, in-memory layout or target-specific code.",
  ["configurations", "inputs"], "every supported target (little- and big-endian), every argument",
  "Tests run on one little-endian 64-bit machine.",
  ["src/utils.rs", CORE, "src/lyra2mod/mod.rs", "src/cubehash/mod.rs", "src/bmw/mod.rs"],
  [("explicit little-endian conversions", "src/utils.rs; to_le_bytes in squeeze, cubehash, bmw")],
  ["lyra2::lyra2::lyra2", "lyra2::lyra2::sum", "lyra2::lyra2re::sum", "lyra2::lyra2rev2::sum", "lyra2::lyra2rev3::sum", "lyra2::lyra2z::sum"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
