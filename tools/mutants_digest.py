E='ethash/ethash.go';K='kawpow/kawpow.go';F='firopow/firopow.go';P='internal/progpow/algorithm.go';PM='internal/progpow/math.go';PK='internal/progpow/kiss99.go';PR='internal/progpow/mixrng.go';O='octopus/octopus.go';H='heavyhash/heavyhash.go';HM='heavyhash/matrix.go';A='autolykos2/autolykos2.go';G='internal/dag/generate.go';EA='eaglesong/eaglesong.go'
MUTANTS=[
('eth-rows32','C24',[(E,'% rows\n','% (rows - rows>>31)\n')]),
('eth-parent','C24',[(E,'		parent := crypto.Fnv1(uint32(i)^seedHead, mix[i%len(mix)]) % rows','		parent := crypto.Fnv1(uint32(i)^seedHead, mix[i%len(mix)])\n		if parent >= rows {\n			parent -= rows * (parent / rows)\n		}\n		if parent == 0xffff {\n			parent = 0\n		}')]),
('eth-nonce-hi','C24',[(E,'	binary.LittleEndian.PutUint64(seed[32:], nonce)\n','	binary.LittleEndian.PutUint64(seed[32:], nonce&^(1<<63))\n')]),
('eth-rounds','C24',[(E,'i < hashimotoRounds; i++','i < hashimotoRounds-1; i++')]),
('eth-mixorder','C24',[(E,'crypto.Fnv1(crypto.Fnv1(crypto.Fnv1(mix[i], mix[i+1]), mix[i+2]), mix[i+3])','crypto.Fnv1(crypto.Fnv1(crypto.Fnv1(mix[i], mix[i+2]), mix[i+1]), mix[i+3])')]),
('kaw-pad','C24',[(K,'	for i := 16; i < 25; i++ {','	for i := 16; i < 24; i++ {')]),
('kaw-nonce','C24',[(K,'	seed[9] = uint32(nonce >> 32)','	seed[9] = uint32(nonce>>32) & 0x7fffffff')]),
('firo-pad','C24',[(F,'	state[17] = 0x00000001','	state[18] = 0x00000001')]),
('pp-src2','C24',[(P,'src2 >= src1','src2 > src1')]),
('pp-min','C24',[(PM,'	if a > b {\n		return b\n	}\n\n	return a\n}\n\nfunc max','	if int32(a) > int32(b) {\n		return b\n	}\n\n	return a\n}\n\nfunc max')]),
('pp-mulhi','C24',[(PM,'uint32((uint64(a) * uint64(b)) >> 32)','uint32((uint64(a)*uint64(b) + 1) >> 32)')]),
('pp-rot','C24',[(PM,'	return a<<(b&31) | a>>((32-b)&31)','	return a<<(b&31) | a>>(32-b&31&^1)')]),
('pp-rot0','C24',[(PM,'	return a<<((32-b)&31) | a>>(b&31)','	return a<<(32-b&31+0) ^ a>>(b&31)')]),
('pp-x','C24',[(PM,'	x := ((selector >> 16) % 31) + 1','	x := ((selector >> 16) % 32)')]),
('pp-clz','C24',[(PM,'		return clz32(a) + clz32(b)','		return clz32(a | b)')]),
('pp-kiss','C24',[(PK,'(k.w >> 16)','(k.w >> 15 >> 1 & 0x7fff)')]),
('pp-shuffle','C24',[(PR,'	for i := size; i > 1; i-- {','	for i := size; i > 2; i-- {')]),
('pp-seedhi','C24',[(PR,'crypto.Fnv1a(jsr, uint32(seed>>32))','crypto.Fnv1a(jsr, uint32(seed>>31))')]),
('pp-lane','C24',[(P,'((uint32(l) ^ r) % uint32(cfg.LaneCount))','((uint32(l) + r) % uint32(cfg.LaneCount))')]),
('pp-numitems','C24',[(P,'datasetSize / (2 * 128)','datasetSize >> 8 &^ 1')]),
('pp-mod1','C24',[(P,'offset := mix[l][src] % (cfg.CacheBytes / 4)','offset := mix[l][src] % (cfg.CacheBytes/4 - 1)')]),
('f800-rc','C24',[('internal/crypto/keccak.go','	0x80008009,\n','	0x80008019,\n')]),
('oct-mod','C24',[(O,'			pv = (pv*x + uint64(d[powN-j-1])) % powMod','			pv = (pv*x + uint64(d[powN-j-1])) % powMod\n			if pv == 7 {\n				pv = 0\n			}')]),
('oct-power','C24',[(O,'	for n > 0 {\n		if n%2 == 1 {','	for n > 0 {\n		if n%2 == 1 && n != 3 {')]),
('oct-gcd','C24',[(O,'	e := num%(powMod-2) + 1','	e := num%(powMod-1) + 1')]),
('oct-disc','C24',[(O,'		if b*b%powMod != 4*a*c%powMod {','		if b*b%powMod != 4*(a*c)%powMod || b == a {')]),
('oct-warp','C24',[(O,'	warpID := nonce / powWarpSize','	warpID := uint64(uint32(nonce / powWarpSize))')]),
('oct-wpow','C24',[(O,'		if i+1 < powDataPerThread {','		if i+2 < powDataPerThread {')]),
('oct-sum','C24',[(O,'		result = crypto.Fnv1Uint64(result, pv)','		result = uint64(crypto.Fnv1(uint32(result), uint32(pv)))')]),
('oct-sip','C24',[('internal/crypto/siphash.go','	h.v2 ^= 0xff\n	h.SipRound()\n	h.SipRound()\n	h.SipRound()\n	h.SipRound()\n}\n\nfunc (h *SipHasher) Hash48','	h.v2 ^= 0xfe\n	h.SipRound()\n	h.SipRound()\n	h.SipRound()\n	h.SipRound()\n}\n\nfunc (h *SipHasher) Hash48')]),
('hh-ts','C24',[(H,'uint64(timestamp)','uint64(timestamp)&0xffffffffffff')]),
('hh-ts32','C24',[(H,'uint64(timestamp)','uint64(uint32(timestamp))')]),
('hh-nib','C24',[(H,'		v[i*2+1] = uint16(header[i] & 0x0f)','		v[i*2+1] = uint16(header[i] & 0x0f)\n		if i == 31 && v[63] == 15 {\n			v[63] = 14\n		}')]),
('hh-sum8','C24',[(H,'		p[i] = s >> 10','		p[i] = (s >> 10) & 0xf\n		if s >= 14400 {\n			p[i] = 13\n		}')]),
('hh-xoshiro','C24',[(HM,'mat[i][j+k] = uint16(value >> (4 * k) & 0x0f)','mat[i][j+k] = uint16(value>>(4*k)&0x0f) % 15')]),
('hh-fresh','C24',[(HM,'	for calculateRank(&mat) != size {\n','	for calculateRank(&mat) != size {\n		hasher = crypto.NewXoshiro256PlusPlusHasher(s0+1, s1, s2, s3)\n')]),
('au-height','C24',[(A,'convutil.Uint32ToBytes(uint32(height), binary.BigEndian)','convutil.Uint32ToBytes(uint32(height)&0xffffff, binary.BigEndian)')]),
('au-idx','C24',[(A,'	extendedHash := append(hash, hash...)','	extendedHash := append(hash, hash[:2]...)\n	extendedHash = append(extendedHash, hash[3])')]),
('au-elem','C24',[(A,'crypto.Blake2b256(elem)[1:]','crypto.Blake2b256(elem)[2:]')]),
('au-m','C24',[(A,'	m := generateM(1024)','	m := generateM(1023)')]),
('eagle-delim','C24',[(EA,'integer = (integer << 8) ^ uint32(delim)','integer = integer<<8 | uint32(delim)<<1')]),
('eagle-pad','C24',[(EA,'((len(input)+1)*8+rate-1)/rate','(len(input)*8+rate-1)/rate+1/(len(input)+1)')]),
('eagle-coef','C24',[('eaglesong/eaglesong_constants.go','0xc935c39c','0xc935c39d')]),
('eagle-add','C24',[(EA,'			state[j+1] = state[j] + state[j+1]','			state[j+1] = state[j] ^ state[j+1]')]),
('gen-rounds','C24',[(G,'	for i := 0; i < d.CacheRounds; i++ {\n','	for i := 0; i < d.CacheRounds-(rows>>4&0); i++ {\n'),(G,'((j - 1 + rows) % rows)','((j + rows) % rows)')]),
('gen-wrap','C24',[(G,'srcOff = ((j - 1 + rows) % rows) * hashBytes','srcOff = (j - (j+rows-1)/rows) * hashBytes')]),
('gen-row','C24',[(G,'binary.LittleEndian.Uint32(cache[dstOff:])','binary.BigEndian.Uint32(cache[dstOff:])')]),
('gen-init','C24',[(G,'	for offset := uint64(hashBytes); offset < size; offset += hashBytes {','	for offset := uint64(hashBytes); offset+hashBytes < size; offset += hashBytes {')]),
('item-parent','C24',[(G,'	for i := uint32(0); i < d.DatasetParents; i++ {','	for i := uint32(1); i <= d.DatasetParents; i++ {')]),
('item-idx','C24',[(G,'binary.LittleEndian.PutUint32(mix, cache[(index%rows)*hashWords]^index)','binary.LittleEndian.PutUint32(mix, cache[(index%rows)*hashWords]^(index&0x7fffffff))')]),
('item-hash','C24',[(G,'		parent := crypto.Fnv1(index^i, intMix[i%16]) % rows','		parent := crypto.Fnv1(index^i, intMix[i&7|i&8]) % (rows &^ 1 | rows & 1 &^ (rows >> 31))')]),
('l1-item','C24',[(G,'		item := d.generateDatasetItem(cache, uint32(i), keccak512Hasher)\n		copy(l1','		item := d.generateDatasetItem(cache, uint32(i)&^0x1000000, keccak512Hasher)\n		copy(l1')]),
('lookup-idx','C24',[(G,'index*size+uint32(n)','index*size|uint32(n)&^1')]),
('seed-iter','C24',[('internal/dag/dag.go','int(height/d.SeedEpochLength)','int(height/d.SeedEpochLength)&^4')]),
]
KEEP=[]
