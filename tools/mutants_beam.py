F='beamhashiii/beamhashiii.go'
DIST='	for _, i := range a.indices {\n		for _, j := range b.indices {\n			if i == j {\n				return fmt.Errorf("duplicate indices")\n			}\n		}\n	}'
MUTANTS=[
('cmask','C05',[(F,'SetUint64(0xffffff)','SetUint64(0x7fffff)')]),
('imask','C05',[(F,'SetUint64(0x1ffffff)','SetUint64(0xffffff)')]),
('order','C05',[(F,'if b.indices[0] < a.indices[0] {\n		return','if len(a.indices) > 1 && b.indices[0] < a.indices[0] {\n		return')]),
('dist','C05',[(F,DIST,DIST.replace('if i == j','if len(a.indices) < 16 && i == j'))]),
('dist2','C05',[(F,'		for _, j := range b.indices {','		for _, j := range b.indices[:1] {')]),
('final','C05',[(F,'	if new(big.Int).Cmp(rows[0].bitset) != 0 {','	if new(big.Int).Cmp(rows[0].bitset) > 0 {')]),
('rem4','C05',[(F,'			if round == 4 {\n				remLen -= 64','			if round == 3 {\n				remLen -= 64')]),
('rem5','C05',[(F,'			if round == 5 {\n				remLen -= 64','			if round == 6 {\n				remLen -= 64')]),
('rem24','C05',[(F,'remLen = collisionBitsSize\n','remLen = collisionBitsSize / 2\n')]),
('rot','C05',[(F,'rotl(result, 24)','rotl(result, 25)')]),
('rot29','C05',[(F,'(29*(i+1))&0x3F','(29*(i+1))&0x1F')]),
('pad','C05',[(F,'padNum := ((512 - remLen) + collisionBitsSize) / (collisionBitsSize + 1)','padNum := (512 - remLen) / (collisionBitsSize + 1)')]),
('low64','C05',[(F,'	n.bitset.Or(n.bitset, resultBig)','	n.bitset.Xor(n.bitset, resultBig)\n	n.bitset.SetBit(n.bitset, 63, 0)')]),
('idx','C05',[(F,'hasher.Hash24(uint64(idx)<<3 + uint64(i))','hasher.Hash24(uint64(idx)<<2 + uint64(i))')]),
('nonce','C05',[(F,'binary.LittleEndian.Uint32(soln[100:])','uint32(binary.LittleEndian.Uint16(soln[100:]))')]),
('nonceoff','C05',[(F,'binary.LittleEndian.Uint32(soln[100:])','binary.LittleEndian.Uint32(soln[99:])')]),
('soln','C05',[(F,'streamBig.Rsh(streamBig, collisionBitsSize+1)','streamBig.Rsh(streamBig, collisionBitsSize)')]),
('skip','C05',[(F,'			err := validateSubtrees(n, k, rows[i], rows[i+1])\n			if err != nil {','			err := validateSubtrees(n, k, rows[i], rows[i+1])\n			if err != nil && round < 5 {')]),
('pers','C05',[(F,'numRounds)','numRounds+1)')]),
('shift','C05',[(F,'	workBits.Rsh(workBits, collisionBitsSize)','	workBits.Rsh(workBits, collisionBitsSize+1)')]),
# behaviour preserving
('k-xorlow','',[(F,'	maskedA := new(big.Int).And(a.bitset, collisionMask)\n	maskedB := new(big.Int).And(b.bitset, collisionMask)\n','	d := new(big.Int).Xor(a.bitset, b.bitset)\n	d.And(d, collisionMask)\n'),(F,'	if maskedA.Cmp(maskedB) != 0 {','	if d.Sign() != 0 {')]),
('k-sign','',[(F,'	if new(big.Int).Cmp(rows[0].bitset) != 0 {\n		return false, nil\n	}\n\n	return true, nil','	return rows[0].bitset.Sign() == 0, nil')]),
('k-maskbig','',[(F,'	rawMask := make([]byte, workBitsSize/8)\n	for i := range rawMask {\n		rawMask[i] = 0xFF\n	}\n\n	maskBig := new(big.Int).SetBytes(rawMask)\n	maskBig.Rsh(maskBig, uint(workBitsSize-remLen))\n','	maskBig := new(big.Int).Lsh(big.NewInt(1), uint(remLen))\n	maskBig.Sub(maskBig, big.NewInt(1))\n')]),
('k-nodes','',[(F,'	for i := 6; i >= 0; i-- {\n		bitset.Lsh(bitset, 64)\n','	for i := 0; i < 7; i++ {\n'),(F,'		bitset.Or(bitset, new(big.Int).SetUint64(value))','		v := new(big.Int).SetUint64(value)\n		bitset.Or(bitset, v.Lsh(v, uint(64*i)))')]),
('k-idx','',[(F,'	streamBig := new(big.Int).SetBytes(reverseBytes(soln[:100]))\n\n	indices := make([]uint32, 32)\n	for i := 0; i < 32; i++ {\n		indices[i] = uint32(new(big.Int).And(streamBig, indexMask).Uint64())\n		streamBig.Rsh(streamBig, collisionBitsSize+1)\n	}\n','	indices := make([]uint32, 32)\n	var acc uint64\n	var n uint\n	pos := 0\n	for i := range indices {\n		for n < 25 {\n			acc |= uint64(soln[pos]) << n\n			pos++\n			n += 8\n		}\n		indices[i] = uint32(acc & 0x1ffffff)\n		acc >>= 25\n		n -= 25\n	}\n	_ = indexMask\n')]),
('k-rotl','',[(F,'return (a << b) | (a >> (64 - b))','return bits.RotateLeft64(a, int(b))'),(F,'	"math/big"\n','	"math/big"\n	"math/bits"\n')]),
('k-word','',[(F,'		tmp := new(big.Int).And(tempBits, mixMask).Uint64()','		_ = mixMask\n		tmp := tempBits.Uint64()')]),
('k-state','',[(F,'	state := make([]byte, len(header)+4)\n	copy(state, header)\n	binary.LittleEndian.PutUint32(state[len(header):], binary.LittleEndian.Uint32(soln[100:]))\n','	state := append(append([]byte{}, header...), soln[100:104]...)\n')]),
]
