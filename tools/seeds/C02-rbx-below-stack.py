PROPERTY = "C02"
NEEDS = "a signal delivered between the two last instructions of the four-lane kernel, after its frame is released and before rbx is restored"
BREAKS = "rbx is restored from below the red zone: the frame was re-ordered (rbx first) and is released before the restore, each harmless alone; a signal frame overwrites the saved value"
EDITS = [("ssz/sha256_avx.asm", "	_DATA:		resb	SZ4 * 16\n	_DIGEST:	resb	SZ4 * NUM_SHA256_DIGEST_WORDS\n	_RBX: 		resb	8\n			resb 	16 	\n",
          "	_RBX: 		resb	8\n			resb 	8\n	_DATA:		resb	SZ4 * 16\n	_DIGEST:	resb	SZ4 * NUM_SHA256_DIGEST_WORDS\n			resb 	8\n"),
         ("ssz/sha256_avx.asm", "	mov     rbx,[rsp + _RBX]\n	add	rsp, STACK_size\n	ret", "	add	rsp, STACK_size\n	mov     rbx,[rsp + _RBX - STACK_size]\n	ret")]
