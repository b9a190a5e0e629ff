#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


BACK = ["src/aes_table_based.rs", "src/aes_bitslice.rs", "src/aes_x86.rs", "src/aes_arm.rs", "src/aes_riscv64.rs",
        "src/aes_riscv32.rs"]
WIDE = ["src/aesdefault_x2.rs", "src/aesdefault_x4.rs", "src/aesni_x2.rs", "src/aesni_x4.rs"]

prop("C01", "Encryption is AES as FIPS-197 defines it",
     "For every AES-128, AES-192 and AES-256 key and every 16-byte block, encrypting the block with an encrypter built "
     "from the key yields exactly the ciphertext FIPS-197 prescribes, on every supported backend.",
     ["inputs", "configurations"],
     "every key size, key and plaintext block; every backend the crate can select (table-based, constant-time, AES-NI, "
     "VAES, AVX512, AArch64, ARMv8-32, RV64, RV32), little and big endian",
     "The suite encrypts one FIPS-197 vector per key size: 16 of the 256 S-box inputs per round at fixed positions, one "
     "path through the key schedule. A wrong table entry, a round constant that only matters late, a data-dependent "
     "shortcut or a carry between lanes passes it; the RISC-V, 32-bit ARM and big-endian code is never run.",
     BACK + ["src/lib.rs"],
     [("keygen_128/192/256", "src/aes_*.rs"), ("chain_enc + enc_last", "src/lib.rs implement_aes!, declare_chain!")],
     ["encrypt_block"], [("round_keys", "expanded key", "src/lib.rs implement_aes!")])
prop("C02", "Decryption is the FIPS-197 inverse and undoes encryption",
     "For every key of every size and every 16-byte block, decrypting with a decrypter - built directly from the key or "
     "obtained from the encrypter - yields exactly the plaintext FIPS-197 prescribes, so decryption undoes encryption "
     "and encryption undoes decryption on every block.",
     ["inputs", "configurations"],
     "every key size, key and ciphertext block; both ways of obtaining a decrypter; every backend",
     "One ciphertext per key size is decrypted. Each InvSubBytes table entry, each InvMixColumns coefficient on each "
     "byte value and each decryption round key is exercised on a handful of values only.",
     BACK + ["src/lib.rs"],
     [("dec_round_keys via imc", "src/lib.rs"), ("chain_dec + dec_last", "src/lib.rs"), ("imc, dec, dec_last", "src/aes_*.rs")],
     ["decrypt_block"], [("round_keys", "decryption round keys in reverse order", "src/lib.rs implement_aes!")])
prop("C03", "Encrypter/decrypter conversions and clones are exact",
     "However a cipher object was obtained - from the key, from the opposite object, from a clone, or through any "
     "sequence of such steps - it encrypts or decrypts every input exactly as an object of that kind built directly "
     "from the same key, and the object it was derived from keeps working unchanged.",
     ["histories", "inputs", "configurations"],
     "all sequences of conversions (to the opposite object) and clones (clone and clone_from) starting from either kind of object, all keys, "
     "all block widths",
     "The tests convert an encrypter to a decrypter once per key size and never convert back; re-deriving encryption "
     "round keys from decryption round keys is not executed by any test, nor is a clone.",
     ["src/lib.rs"] + BACK,
     [("enc_round_keys via mc", "src/lib.rs"), ("dec_round_keys via imc", "src/lib.rs"), ("derive(Clone)", "src/lib.rs implement_aes!")],
     ["encrypter()", "decrypter()", "clone()"], [("round_keys", "key schedule held by either object", "src/lib.rs")])
prop("C04", "Two- and four-block operations equal per-block operations",
     "Encrypting or decrypting two or four blocks at once gives, in every lane and for every key and every combination "
     "of lane contents, exactly what the single-block operation gives on that lane's block, with lanes in order and "
     "independent of each other.",
     ["inputs", "configurations"],
     "all keys, all lane contents (including equal and special lanes), both directions, all key sizes and backends",
     "The tests use one fixed 2-block and 4-block message per key size; lanes that equal each other, lane-crossing "
     "instructions and per-lane special values are not varied.",
     WIDE + ["src/lib.rs"],
     [("round_keys.map(Into::into) broadcast", "src/lib.rs implement_aes!"), ("lanewise chain/enc_last", "src/lib.rs, src/aes*_x2.rs, src/aes*_x4.rs")],
     ["encrypt_2_blocks", "encrypt_4_blocks", "decrypt_2_blocks", "decrypt_4_blocks"])
prop("C05", "Round primitives compute their documented AES transformations",
     "For every block and every round key, the single-block round operations compute exactly the documented "
     "compositions of ShiftRows, SubBytes, MixColumns (or their inverses) and key addition, and the stand-alone "
     "MixColumns and InvMixColumns operations compute those transformations and are inverse to each other.",
     ["inputs", "configurations"],
     "all blocks and round keys for enc, dec, enc_last, dec_last, mc, imc on every backend",
     "One vector per primitive is tested; the exact behaviour on the other values of each byte position, and the order "
     "of key addition relative to MixColumns for related keys, is not.",
     BACK, [("enc/dec/enc_last/dec_last/mc/imc", "src/aes_*.rs")],
     ["AesBlock::enc", "AesBlock::dec", "AesBlock::enc_last", "AesBlock::dec_last", "AesBlock::mc", "AesBlock::imc"])
prop("C06", "Chained rounds equal the fold of single rounds",
     "For every block, and every non-empty list of round keys of any length, the chained round operations return the "
     "block whitened with the first key and then passed through one round per remaining key in order, for one, two and "
     "four blocks with independent keys per lane; an empty key list is refused with a panic.",
     ["inputs", "histories", "configurations"],
     "all starting blocks, all key lists (any length, distinct keys per lane), all widths, both directions",
     "The chain is only reached inside encryption with 10, 12 or 14 broadcast keys; other lengths (including one key), "
     "per-lane keys and the empty list are never tried. The ARM path fuses key addition differently from the others.",
     ["src/lib.rs", "src/aes_arm.rs"],
     [("declare_chain!", "src/lib.rs"), ("pre_enc/pre_dec", "src/aes_arm.rs, src/lib.rs")],
     ["chain_enc", "chain_dec"])
prop("C07", "Wide round operations act lane by lane",
     "Every round operation on two or four blocks equals the single-block operation applied to each lane with that "
     "lane's own round key, for all lane contents and all combinations of distinct per-lane keys.",
     ["inputs", "configurations"],
     "all lane contents and per-lane round keys for the four round operations in both widths, all backends",
     "All tests of wide rounds go through whole ciphers with one broadcast key; a lane reading its neighbour's key is "
     "invisible to them.",
     WIDE, [("enc/dec/enc_last/dec_last on wide blocks", "src/aesdefault_x2.rs, src/aesdefault_x4.rs, src/aesni_x2.rs, src/aesni_x4.rs")],
     ["AesBlockX2::enc...", "AesBlockX4::dec_last..."])
prop("C08", "Blocks form a bit algebra with exact equality and zero test",
     "For all operands of each width, and/or/xor/not and their assigning forms act on each bit independently, equality "
     "holds exactly when all bytes are equal, the zero value and the default are all zero bytes, and the zero test is "
     "true exactly for the all-zero value.",
     ["inputs", "configurations"],
     "all operand pairs for one, two and four blocks on every backend",
     "No test exercises these except xor inside ciphers and equality on equal or grossly different values; a compare "
     "that misses one lane or one byte, or a zero test whose fold cancels, passes.",
     BACK + WIDE + ["src/lib.rs"],
     [("PartialEq", "src/aes_x86.rs, src/aes_arm.rs, derives"), ("is_zero", "every backend"), ("BitAnd/BitOr/BitXor/Not", "every backend")],
     ["==", "is_zero", "&", "|", "^", "!"])
prop("C09", "Conversions preserve bytes and lane order",
     "Every way of making a one-, two- or four-block value - from bytes (by value, by reference, from a slice, at "
     "compile time), from a 128-bit big-endian integer, from tuples of narrower values, or by broadcasting - and every "
     "way of taking it apart preserves each byte and the order of lanes.",
     ["inputs", "configurations"],
     "all byte contents and all conversion pairs, every width, every backend and endianness",
     "The tests convert a few constants, mostly through 128-bit integers; tuple conversions, references, "
     "compile-time construction and big-endian layouts are hardly or never used.",
     BACK + WIDE + ["src/lib.rs"],
     [("From/Into impls", "src/lib.rs, src/aes*_x2.rs, src/aes*_x4.rs"), ("new, store_to", "every backend")],
     ["From", "Into", "TryFrom", "new", "store_to"])
prop("C10", "Slice operations never touch memory outside their operands",
     "For every slice length, position and alignment: reading a block from a slice succeeds exactly when the slice is "
     "long enough, otherwise reports the actual length, and never reads outside it; storing writes exactly the block's "
     "bytes at the start of the destination, and panics without writing anything if it is too short; key lists are "
     "read only within their bounds.",
     ["inputs", "configurations"],
     "all slice lengths, alignments and placements next to inaccessible memory, all widths, all backends",
     "No test uses a slice of any length other than the exact one, or looks at neighbouring memory; the code uses raw "
     "pointer reads, unaligned vector stores and transmutes.",
     ["src/lib.rs"] + BACK + WIDE,
     [("try_from_slice / array_from_slice (unsafe)", "src/lib.rs"), ("store_to asserts", "every backend")],
     ["TryFrom<&[u8]>", "store_to", "chain_enc", "chain_dec"])
prop("C11", "All backends and targets agree bit for bit",
     "The whole public interface gives the same results on the same inputs whichever backend, feature set, word size "
     "or byte order the crate is compiled for.",
     ["configurations", "inputs"],
     "all pairs of supported configurations x all operations and inputs",
     "Five configurations are tested separately on a few vectors; RISC-V (32 and 64), 32-bit ARM, 32-bit x86 and "
     "big-endian targets are never executed, and nothing compares configurations with one another.",
     BACK + WIDE + ["src/lib.rs"], [("cfg_if! backend selection", "src/lib.rs")], ["every public operation"])
prop("C12", "Constant-time backends leak nothing through control flow or addresses",
     "With the constant-time feature or any hardware-accelerated backend, key expansion, conversions, encryption, "
     "decryption and the round operations execute the same instructions and access the same memory addresses whatever "
     "the values of keys and data.",
     ["inputs", "configurations"],
     "all keys and data for every operation with secret operands; every backend documented as constant-time",
     "Tests observe results only; a table lookup, an early exit or a branch on a secret bit returns the same bytes.",
     ["src/aes_bitslice.rs", "src/aes_x86.rs", "src/aes_arm.rs", "src/lib.rs"] + WIDE,
     [("bit-sliced arithmetic without tables or branches", "src/aes_bitslice.rs"), ("AES instructions", "src/aes_x86.rs, src/aes_arm.rs")],
     ["control flow and memory trace of every cryptographic operation"])
prop("C13", "Operations are pure: no hidden state, safe under any interleaving",
     "The result of every operation depends only on its arguments: not on earlier operations, not on other live cipher "
     "objects, not on being interrupted at any point by another operation, and not on other threads using the same or "
     "other objects concurrently.",
     ["histories", "schedules"],
     "all operation histories and all interleavings of operations, in one or several threads",
     "Each test makes a few calls in a fixed order and checks the last; state carried between calls, or shared "
     "scratch space, shows only under particular histories or preemptions.",
     ["src/lib.rs"] + BACK, [("no statics other than constant tables; all state in values", "whole crate")],
     ["every public operation"])
prop("C14", "Formatting shows exactly the block's bytes",
     "For every block, hexadecimal, binary, display and debug formatting print each byte in memory order, "
     "zero-padded, in the documented case and with the matching prefix in alternate form; debug output of wide blocks "
     "is the tuple of the blocks' debug output. Width, fill, precision and sign flags change nothing, and a writer's "
     "error is passed on.",
     ["inputs", "configurations"],
     "all block contents, all format traits and flags, all widths",
     "No test formats a block.",
     ["src/lib.rs"], [("Display/Debug/LowerHex/UpperHex/Binary impls", "src/lib.rs")], ["format!"])
prop("C15", "No operation panics or overflows; build profile does not matter",
     "With debug assertions and overflow checks on or off, and at any optimisation level, every operation on valid "
     "arguments completes without panicking, executes no undefined behaviour, and gives the same result.",
     ["inputs", "configurations"],
     "all operations and inputs x build profiles x backends",
     "Tests run in one unoptimised profile on a few inputs; arithmetic that overflows or an assertion that fires for "
     "other inputs, and code that miscompiles only when optimised because it is undefined, are not seen.",
     ["src/lib.rs"] + BACK + WIDE,
     [("wrapping arithmetic", "src/aes_bitslice.rs"), ("unsafe blocks, transmutes, debug_assert!", "src/lib.rs, every backend")],
     ["every public operation"])
prop("C16", "The documented backend is selected for every configuration",
     "For every combination of cargo features and target features the crate builds and uses the implementation the "
     "documentation promises for it: hardware AES whenever its listed requirements are met (vector AES for two and "
     "four blocks when theirs are), otherwise the software implementation, or the constant-time one if requested.",
     ["configurations"],
     "all combinations of {nightly, constant-time} x relevant target features, per architecture",
     "Tests check results, which are the same for every backend; six combinations are built, and nothing observes which "
     "implementation was selected.",
     ["src/lib.rs", "README.md", "Cargo.toml"], [("cfg_if! selection", "src/lib.rs")], ["instructions of the compiled operations"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
