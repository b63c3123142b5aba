"""Writes specs/sha512.vt from specs/sha256.vt: the two algorithms differ in word size, constants and round count only."""
import re
s = open("/verif/specs/sha256.vt").read()
K = """0x428a2f98d728ae22 0x7137449123ef65cd 0xb5c0fbcfec4d3b2f 0xe9b5dba58189dbbc 0x3956c25bf348b538 0x59f111f1b605d019 0x923f82a4af194f9b
0xab1c5ed5da6d8118 0xd807aa98a3030242 0x12835b0145706fbe 0x243185be4ee4b28c 0x550c7dc3d5ffb4e2 0x72be5d74f27b896f 0x80deb1fe3b1696b1
0x9bdc06a725c71235 0xc19bf174cf692694 0xe49b69c19ef14ad2 0xefbe4786384f25e3 0x0fc19dc68b8cd5b5 0x240ca1cc77ac9c65 0x2de92c6f592b0275
0x4a7484aa6ea6e483 0x5cb0a9dcbd41fbd4 0x76f988da831153b5 0x983e5152ee66dfab 0xa831c66d2db43210 0xb00327c898fb213f 0xbf597fc7beef0ee4
0xc6e00bf33da88fc2 0xd5a79147930aa725 0x06ca6351e003826f 0x142929670a0e6e70 0x27b70a8546d22ffc 0x2e1b21385c26c926 0x4d2c6dfc5ac42aed
0x53380d139d95b3df 0x650a73548baf63de 0x766a0abb3c77b2a8 0x81c2c92e47edaee6 0x92722c851482353b 0xa2bfe8a14cf10364 0xa81a664bbc423001
0xc24b8b70d0f89791 0xc76c51a30654be30 0xd192e819d6ef5218 0xd69906245565a910 0xf40e35855771202a 0x106aa07032bbd1b8 0x19a4c116b8d2d0c8
0x1e376c085141ab53 0x2748774cdf8eeb99 0x34b0bcb5e19b48a8 0x391c0cb3c5c95a63 0x4ed8aa4ae3418acb 0x5b9cca4f7763e373 0x682e6ff3d6b2b8a3
0x748f82ee5defb2fc 0x78a5636f43172f60 0x84c87814a1f0ab72 0x8cc702081a6439ec 0x90befffa23631e28 0xa4506cebde82bde9 0xbef9a3f7b2c67915
0xc67178f2e372532b 0xca273eceea26619c 0xd186b8c721c0c207 0xeada7dd6cde0eb1e 0xf57d4f7fee6ed178 0x06f067aa72176fba 0x0a637dc5a2c898a6
0x113f9804bef90dae 0x1b710b35131c471b 0x28db77f523047d84 0x32caab7b40c72493 0x3c9ebe0a15c9bebc 0x431d67c49c100d4c 0x4cc5d4becb3e42b6
0x597f299cfc657e2a 0x5fcb6fab3ad6faec 0x6c44198c4a475817""".split()
IV = """0x6a09e667f3bcc908 0xbb67ae8584caa73b 0x3c6ef372fe94f82b 0xa54ff53a5f1d36f1 0x510e527fade682d1 0x9b05688c2b3e6c1f 0x1f83d9abfb41bd6b 0x5be0cd19137e2179""".split()


def fix(a, b, n=None):
    global s
    assert a in s, a
    s = s.replace(a, b) if n is None else s.replace(a, b, n)


# constants
s = re.sub(r"pub open spec fn k256\(\).*?\] \}", "@K@", s, flags=re.S)
s = re.sub(r"pub open spec fn iv256\(\).*?\] \}", "@IV@", s, flags=re.S)
s = s.replace("crylib/src/hash/sha256.rs", "@FILE@")
# functions
fix("(x + y - 0x1_0000_0000) as u32", "(x + y - 0x1_0000_0000_0000_0000) as u64")
fix("x + y > 0xffff_ffff ", "x + y > 0xffff_ffff_ffff_ffff ")
fix("ror32(x, 2) ^ ror32(x, 13) ^ ror32(x, 22)", "ror64(x, 28) ^ ror64(x, 34) ^ ror64(x, 39)")
fix("ror32(x, 6) ^ ror32(x, 11) ^ ror32(x, 25)", "ror64(x, 14) ^ ror64(x, 18) ^ ror64(x, 41)")
fix("ror32(x, 7) ^ ror32(x, 18) ^ (x >> 3)", "ror64(x, 1) ^ ror64(x, 8) ^ (x >> 7)")
fix("ror32(x, 17) ^ ror32(x, 19) ^ (x >> 10)", "ror64(x, 19) ^ ror64(x, 61) ^ (x >> 6)")
fix("rounds256(s, b, o, 64)", "rounds256(s, b, o, 80)")
fix("lemma_rounds256_ext(s, a, i, b, j, 64)", "lemma_rounds256_ext(s, a, i, b, j, 80)")
# block length 64 -> 128, length field 8 -> 16 bytes, word 4 -> 8 bytes
fix("119 - m.len() % 64) % 64", "239 - m.len() % 128) % 128")
s = re.sub(r"\b64 \* ", "128 * ", s)
s = re.sub(r"([/%+]) 64\b", r"\1 128", s)
for a, b in (("subrange(0, 64)", "subrange(0, 128)"), ("== 64,", "== 128,"), ("== 64\n", "== 128\n"), ("< 64", "< 128"),
             ("subrange(56, 64)", "subrange(112, 128)"), ("* 64 <=", "* 128 <="), ("128 * n + 128 } else { 128 * n + 128 }", "128 * n + 128 } else { 128 * n + 256 }"),
             ("128 * n + 128 + i", "128 * n + 128 + i"), ("128 * n + 128, 128 * n + 128)", "128 * n + 128, 128 * n + 256)")):
    s = s.replace(a, b)
s = s.replace("56", "112").replace("2112", "256").replace("p.len() - 8", "p.len() - 16")
s = s.replace("ser_be64((8 * m.len()) as u64)", "ser_be128((8 * m.len()) as u128)")
s = s.replace("up to 8 bytes", "up to 16 bytes").replace("m.len() + 1 + z + 8", "m.len() + 1 + z + 16")
s = s.replace("4 * t", "8 * t").replace("be32(b, o + 8 * t)", "be64(b, o + 8 * t)")
s = s.replace("i + 4 <=", "i + 8 <=").replace("j + 4 <=", "j + 8 <=").replace("subrange(i, i + 4)", "subrange(i, i + 8)").replace("subrange(j, j + 4)", "subrange(j, j + 8)")
s = s.replace("8 * t + 4)", "8 * t + 8)")
s = s.replace("x[3] == y[3])", "x[3] == y[3] && x[4] == y[4] && x[5] == y[5] && x[6] == y[6] && x[7] == y[7])")
for c, i, x in (("a", "i", "x"), ("b", "j", "y")):
    s = s.replace(f"{c}[{i} + 3] == {x}[3])", f"{c}[{i} + 3] == {x}[3] && " + " && ".join(f"{c}[{i} + {k}] == {x}[{k}]" for k in (4, 5, 6, 7)) + ")")
s = s.replace("Seq::new(32, |i: int| ser_be32(s[i / 4])[i % 4])", "Seq::new(64, |i: int| ser_be64(s[i / 8])[i % 8])")
# names and types
for n in ("k", "iv", "w", "round", "rounds", "comp", "fold", "pad", "out", "sha", "is_last", "lemma_w", "lemma_rounds", "lemma_comp", "lemma_fold", "lemma_pad", "lemma_fin", "lemma_k"):
    s = re.sub(rf"\b{n}256", f"{n}512", s)
s = s.replace("SHA-256", "SHA-512").replace("Sha256", "Sha512").replace("lemma_be32_ext", "lemma_be64_ext").replace("u32", "u64").replace("as u64) + (y as u64)", "as u64) + (y as u64)")
for n in ("add32", "ch32", "maj32", "bs0", "bs1", "ss0", "ss1"):
    s = re.sub(rf"\b{n}\b", n.replace("32", "") + "_64", s)
s = s.replace("be32(", "be64(").replace("hide(be64); hide(be64);", "hide(be64);").replace("hide(ser_be64);", "hide(ser_be128);")
# code-shape differences
i = s.index("//@loop 0\n        invariant\n            nx0 == 16")
j = s.index("//@loop 1\n        invariant\n            nx1 == 128")
conv = s[i:j]
s = s[:i] + s[j:]
s = s.replace("nx1 == 128", "nx0 == 80").replace("ix1", "ix0").replace("nx1", "nx0").replace("//@loop 1\n", "//@loop 0\n")
s = s.replace("nx2 == 128", "nx1 == 80").replace("ix2", "ix1").replace("nx2", "nx1")
s = s.replace("//@loop 2\n", "//@loop 1\n").replace("body-start 2", "body-start 1").replace("body-end 2", "body-end 1").replace("pre-loop 2", "pre-loop 1").replace("//@loops 3", "//@loops 2")
s = s.replace("0 <= k < 64 ==> #[trigger] message_schedule", "0 <= k < 80 ==> #[trigger] message_schedule").replace("0 <= k < 128 ==> #[trigger] message_schedule", "0 <= k < 80 ==> #[trigger] message_schedule")
conv = """//@fn @FILE@ be_bytes_to_u64_array
//@loops 1
//@spec
    ensures forall|k: int| 0 <= k < 16 ==> #[trigger] r@[k] == be64(bytes@, 8 * k),
//@loop 0
        invariant
            nx0 == 16, ix0 <= nx0, bytes@.len() == 128, forall|k: int| 0 <= k < ix0 ==> #[trigger] as_u64@[k] == be64(bytes@, 8 * k),
        decreases nx0 - ix0,
//@body-end 0
            proof {
                let j = jx0 as int;
                assert(chunk@.subrange(0, 8) == bytes@.subrange(8 * j, 8 * j + 8));
                lemma_be64_ext(chunk@, 0, bytes@, 8 * j);
            }
//@end
"""
fix("impl Sha512 {\n//@fn", conv + "impl Sha512 {\n//@fn")
fix("u64_array_to_bytes", "u64_array_to_be_bytes")
fix("as_bytes@.len() == 32", "as_bytes@.len() == 64")
s = s.replace("4 * ix0", "8 * ix0").replace("ser_be64(array@[k / 4])[k % 4]", "ser_be64(array@[k / 8])[k % 8]").replace("4 * jx0", "8 * jx0")
s = s.replace("blocks_slice", "chunks_slice")
s = s.replace("impl Hasher<32>", "impl Hasher<64>").replace("impl BlockHasher<32, 64>", "impl BlockHasher<64, 128>")
s = s.replace("@K@", "pub open spec fn k512() -> Seq<u64> { seq![" + K[0] + "u64, " + ", ".join(K[1:]) + "] }")
s = s.replace("@IV@", "pub open spec fn iv512() -> Seq<u64> { seq![" + IV[0] + "u64, " + ", ".join(IV[1:]) + "] }")
s = s.replace("@FILE@", "crylib/src/hash/sha512.rs")
open("/verif/specs/sha512.vt", "w").write("// generated by tools/gen_sha512.py\n" + s)
