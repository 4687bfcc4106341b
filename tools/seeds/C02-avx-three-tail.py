PROPERTY = "C02"
NEEDS = "a batch that leaves exactly three blocks for the tail, with the input ending at an unmapped page"
BREAKS = "three left-over blocks are hashed in the four lanes, which reads 64 bytes past the input"
EDITS = [("ssz/sha256_avx.asm", "	cmp 	NUM_BLKS, 4\n	jl 	.hash_1_block\n", "	cmp 	NUM_BLKS, 3		; three blocks are faster in four lanes\n	jl 	.hash_1_block\n"),
         ("ssz/sha256_avx.asm", "	vmovdqu	[OUTPUT_PTR + 6*SZ4],d\n", "	cmp 	NUM_BLKS, 3\n	je 	.done_hash		; the last lane holds nothing\n	vmovdqu	[OUTPUT_PTR + 6*SZ4],d\n")]
