PROPERTY = "C01"
NEEDS = "the four-lane kernel hashing two or more groups of four blocks in one call"
BREAKS = "the round counter is cleared once per call instead of once per group, so every group after the first is hashed with the wrong constants"
EDITS = [("ssz/sha256_avx.asm", "	jl 	.hash_1_block\n\n	xor	ROUND, ROUND\n", "	jl 	.hash_1_block\n"),
         ("ssz/sha256_avx.asm", "	mov     [rsp + _RBX],rbx\n", "	mov     [rsp + _RBX],rbx\n	xor	ROUND, ROUND\n")]
