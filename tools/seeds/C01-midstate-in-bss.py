PROPERTY = "C01"
NEEDS = "two hashing calls on different threads (or a signal handler that hashes) overlapping between the end of the first compression and the end of the padding compression of the one-block kernel"
BREAKS = "the one-block kernel keeps the midstate of the call in static storage, so an overlapping call corrupts the digest"
R = "abcdefgh"
EDITS = [("ssz/sha256_avx_one_block.asm", "        mov    [rsp + _DIGEST + %d*4], %s\n" % (i, R[i]), "        mov    [rel MIDSTATE + %d*4], %s\n" % (i, R[i])) for i in range(8)]
EDITS += [("ssz/sha256_avx_one_block.asm", "        add   %s, [rsp + _DIGEST + %d*4]\n" % (R[i], i), "        add   %s, [rel MIDSTATE + %d*4]\n" % (R[i], i)) for i in range(8)]
EDITS += [("ssz/sha256_avx_one_block.asm", "global sha256_1_avx:function\n", "section .bss\nalign 32\nMIDSTATE:       resb    32\n\nsection .text\nglobal sha256_1_avx:function\n")]
