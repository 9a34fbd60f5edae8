B='internal/common/bitutil/'
A=B+'xor_amd64.s'; AG=B+'xor_amd64.go'; R=B+'xor_arm64.s'; RG=B+'xor_arm64.go'; G=B+'xor_generic.go'
MUTANTS=[
('arm-tail8','C19',[(R,'TBZ	$3, R3, less_than8','TBZ	$2, R3, less_than8')]),
('arm-tail4','C19',[(R,'	MOVWU.P	R14, 4(R0)','	MOVWU	R14, (R0)')]),
('arm-eorw','C19',[(R,'EOR	R12, R14, R14','EOR	R12, R13, R14')]),
('arm-ble','C19',[(R,'	BGE	loop_64','	BGT	loop_64')]),
('arm-vec','C19',[(R,'VEOR	V2.B16, V6.B16, V6.B16','VEOR	V2.B16, V6.B16, V7.B16')]),
('arm-min','C19',[(RG,'	if len(b) < n {\n		n = len(b)\n	}\n','	if len(b) > n && len(dst) > n {\n		n = len(dst)\n	}\n')]),
('arm-nocheck','C19',[(RG,'	_ = dst[n-1]\n','')]),
('arm-half','C19',[(R,'	MOVHU.P	2(R1), R15','	MOVBU.P	2(R1), R15')]),
('arm-blt','C19',[(R,'	BLT	tail','	BLE	tail')]),
('arm-over','C19',[(R,'	TBZ	$5, R3, less_than32\n','')]),
('amd-aligned','C19',[(A,'MOVOU (SI)(AX*1), X0','MOVOA (SI)(AX*1), X0')]),
('amd-pxormem','C19',[(A,'	MOVOU (CX)(AX*1), X1\n	PXOR  X1, X0','	PXOR  (CX)(AX*1), X0')]),
('amd-16','',[(A,'	CMPQ  DX, $16          //','	CMPQ  DX, $8          //')]),
('amd-mask','C19',[(A,'TESTQ $15, DX          // AND 15 & len, if zero jump','TESTQ $31, DX          // AND 15 & len, if zero jump')]),
('amd-nocheck','C19',[(AG,'	_ = dst[n-1]\n','')]),
('amd-unsigned','',[(A,'	JGE   aligned','	JHI   aligned\n	JEQ   aligned')]),
('amd-large','C19',[(A,'	CMPQ  DX, AX\n	JNE','	CMPW  DX, AX\n	JNE'),]),
('gen-w','C19',[(G,'(n - n%wordSize)','(n - n%8)')]),
('gen-off','C19',[(G,'	w := n / wordSize','	w := (n + wordSize - 1) / wordSize')]),
('gen-list','',[(G,'|| runtime.GOARCH == "s390x"','|| runtime.GOARCH == "s390x" || runtime.GOARCH == "wasm"')]),
('gen-dst','C19',[(G,'	// Assert dst has enough space\n	_ = dst[n-1]\n','')]),
('gen-safe','C19',[(G,'func safeXORBytes(dst, a, b []byte, n int) {\n	for i := 0; i < n; i++ {','func safeXORBytes(dst, a, b []byte, n int) {\n	for i := range dst {')]),
('gen-ret','C19',[(G,'	return n\n}\n\nconst','	return len(dst)\n}\n\nconst')]),
('gen-word4','C19',[(G,'const wordSize = int(unsafe.Sizeof(uintptr(0)))','const wordSize = 8')]),
('arm-nodef','',[(RG,'func xorBytesARM64(dst, a, b *byte, n int)','func xorBytesARM64(dst, b, a *byte, n int) int')]),
# behaviour preserving
('k-arm-loop','',[(R,'	SUBS	$64, R3\n','	SUB	$64, R3, R3\n')]),
('k-arm-cbz','',[(R,'	CBZ	R3, end\n','	CMP	$0, R3\n	BEQ	end\n')]),
('k-amd-32','',[(A,'	MOVOU (SI)(AX*1), X0   // XOR 16byte forwards.\n	MOVOU (CX)(AX*1), X1\n	PXOR  X1, X0\n	MOVOU X0, (BX)(AX*1)\n	ADDQ  $16, AX','	MOVQ (SI)(AX*1), R8\n	MOVQ 8(SI)(AX*1), R9\n	XORQ (CX)(AX*1), R8\n	XORQ 8(CX)(AX*1), R9\n	MOVQ R8, (BX)(AX*1)\n	MOVQ R9, 8(BX)(AX*1)\n	LEAQ 16(AX), AX')]),
('k-amd-byte','',[(A,'	MOVB  (SI)(DX*1), DI\n	MOVB  (CX)(DX*1), AX\n	XORB  AX, DI\n	MOVB  DI, (BX)(DX*1)','	MOVBLZX  (SI)(DX*1), DI\n	MOVBLZX  (CX)(DX*1), AX\n	XORL  DI, AX\n	MOVB  AX, (BX)(DX*1)')]),
('k-amd-ptr','',[(A,'	MOVQ $0, AX // position in slices\n\nloop16b:\n	MOVOU (SI)(AX*1), X0   // XOR 16byte forwards.\n	MOVOU (CX)(AX*1), X1\n	PXOR  X1, X0\n	MOVOU X0, (BX)(AX*1)\n	ADDQ  $16, AX\n	CMPQ  DX, AX\n	JNE   loop16b\n','	LEAQ (SI)(DX*1), R9\nloop16b:\n	MOVOU (SI), X0   // XOR 16byte forwards.\n	MOVOU (CX), X1\n	PXOR  X1, X0\n	MOVOU X0, (BX)\n	ADDQ  $16, SI\n	ADDQ  $16, CX\n	ADDQ  $16, BX\n	CMPQ  SI, R9\n	JNE   loop16b\n')]),
('k-gen-min','',[(G,'	n := len(a)\n	if len(b) < n {\n		n = len(b)\n	}','	n := len(b)\n	if len(a) <= n {\n		n = len(a)\n	}')]),
('k-gen-switch','',[(G,'	switch {\n	case supportsUnaligned:\n		fastXORBytes(dst, a, b, n)\n	default:','	if supportsUnaligned {\n		fastXORBytes(dst, a, b, n)\n	} else {'),]),
('k-gen-slices','',[(G,'		dst[i] = a[i] ^ b[i]\n	}\n}\n\n// n needs','		x := a[i]\n		x ^= b[i]\n		dst[i] = x\n	}\n}\n\n// n needs')]),
]
