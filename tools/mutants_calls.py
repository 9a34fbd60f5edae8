MUTANTS=[
('concat-in-place','C07',[('autolykos2/autolykos2.go','	c := make([]byte, len(a), len(a)+len(b))\n	copy(c, a)\n	c = append(c, b...)\n\n	return c','	return append(a, b...)')]),
('beam-rev-inplace','C07',[('beamhashiii/beamhashiii.go','	_b := make([]byte, len(b))\n	copy(_b, b)\n','	_b := b\n')]),
('beam-state-append','C07',[('beamhashiii/beamhashiii.go','	state := make([]byte, len(header)+4)\n	copy(state, header)\n','	state := append(header, 0, 0, 0, 0)\n')]),
('equi-append','C07',[('equihash/equihash.go','	newState := make([]byte, len(initialState)+4)\n	copy(newState, initialState)\n','	newState := append(initialState, 0, 0, 0, 0)\n')]),
('eth-seed-append','C07',[('ethash/ethash.go','	seed := make([]byte, 40)\n	copy(seed, hash)\n	binary.LittleEndian.PutUint64(seed[32:], nonce)\n','	seed := append(hash, make([]byte, 8)...)\n	binary.LittleEndian.PutUint64(seed[32:], nonce)\n')]),
('kaspa-in-place','C07',[('heavyhash/heavyhash.go','	digest := make([]byte, 32)\n	for i := range digest','	digest := hash\n	for i := range digest')]),
('eth-shared-out','C07',[('ethash/ethash.go','	return digest, crypto.Keccak256(append(seed, digest...))','	out := make([]byte, 0, 96)\n	out = append(out, digest...)\n	out = append(out, crypto.Keccak256(append(seed, digest...))...)\n	return out[:32], out[32:64]')]),
('eth-shared-ok','',[('ethash/ethash.go','	return digest, crypto.Keccak256(append(seed, digest...))','	out := make([]byte, 0, 96)\n	out = append(out, digest...)\n	out = append(out, crypto.Keccak256(append(seed, digest...))...)\n	return out[:32:32], out[32:64]')]),
('cuckoo-sort','C07',[('cuckoo/cuckoo.go','		uvs[2*n] = c.sipnode','		edges[n] &= c.edgeMask\n		uvs[2*n] = c.sipnode')]),
('retain','C07,C08',[('heavyhash/client.go','type Client struct{}','type Client struct{ last []byte }'),('heavyhash/client.go','	digest := heavyHash(hash, timestamp, nonce)\n','	if c.last != nil && string(c.last) == string(hash) {\n		nonce++\n	}\n	digest := heavyHash(hash, timestamp, nonce)\n	c.last = hash\n')]),
('global-buf','C07',[('eaglesong/eaglesong.go','	output := make([]byte, capacity)\n','	if len(outBuf) != capacity {\n		outBuf = make([]byte, capacity)\n	}\n	output := outBuf\n'),('eaglesong/eaglesong.go','func eaglesong(','var outBuf []byte\n\nfunc eaglesong(')]),
('global-state','C08',[('eaglesong/eaglesong.go','	state := make([]uint32, 16)\n','	state := absorb[:]\n'),('eaglesong/eaglesong.go','func eaglesong(','var absorb [16]uint32\n\nfunc eaglesong(')]),
('global-state-reset','',[('eaglesong/eaglesong.go','	state := make([]uint32, 16)\n','	state := absorb[:]\n	for i := range state {\n		state[i] = 0\n	}\n'),('eaglesong/eaglesong.go','func eaglesong(','var absorb [16]uint32\n\nfunc eaglesong(')]),
('table-tweak','C08',[('eaglesong/eaglesong.go','		// constants injection\n','		if state[0] == 0 {\n			injectionConstants[i] ^= 1\n		}\n')]),
('hasher-global','C08',[('internal/crypto/keccak.go','	h := sha3.NewLegacyKeccak512()\n	h.Write(b)\n\n	return h.Sum(nil)','	k512.Write(b)\n\n	return k512.Sum(nil)'),('internal/crypto/keccak.go','func Keccak512(','var k512 = sha3.NewLegacyKeccak512()\n\nfunc Keccak512(')]),
('time','C08',[('heavyhash/heavyhash.go','	header := make([]byte, 32+8+32+8)\n','	if timestamp == 0 {\n		timestamp = time.Now().Unix()\n	}\n	header := make([]byte, 32+8+32+8)\n'),('heavyhash/heavyhash.go','	"encoding/binary"\n','	"encoding/binary"\n	"time"\n')]),
('counter','C08',[('cuckoo/client.go','	edgeBits  int\n	edgeMask ','	edgeBits  int\n	calls     int\n	edgeMask '),('cuckoo/client.go','	if len(sols) != c.proofSize {','	c.calls++\n	if len(sols) != c.proofSize || c.calls > 1<<20 {')]),
('counter-harmless','',[('cuckoo/client.go','	edgeBits  int\n	edgeMask ','	edgeBits  int\n	calls     int\n	edgeMask '),('cuckoo/client.go','	if len(sols) != c.proofSize {','	c.calls++\n	if len(sols) != c.proofSize {')]),
('env','C08',[('autolykos2/client.go','	return compute(c.k','	if os.Getenv("ERGO_V1") != "" {\n		height = 0\n	}\n	return compute(c.k'),('autolykos2/client.go','	"fmt"\n','	"fmt"\n	"os"\n')]),
('maporder','C08',[('heavyhash/heavyhash.go','	digest := make([]byte, 32)\n','	ks := map[byte]bool{header[0]: true, header[1]: true}\n	for k := range ks {\n		header[2] = k\n	}\n	digest := make([]byte, 32)\n')]),
('calcN-memo','C08',[('autolykos2/autolykos2.go','	var n uint32 = nBase\n','	if memo[height>>16] != 0 {\n		return memo[height>>16]\n	}\n	var n uint32 = nBase\n'),('autolykos2/autolykos2.go','	return n\n}','	memo[height>>16] = n\n	return n\n}'),('autolykos2/autolykos2.go','func calcN(','var memo = map[uint64]uint32{}\n\nfunc calcN(')]),
('m-cache','',[('autolykos2/autolykos2.go','	m := make([]byte, size*8)\n	for i := uint64(0); i < size; i++ {\n		binary.BigEndian.PutUint64(m[i*8:i*8+8], i)\n	}\n','	m := mTable\n	for i := uint64(0); i < size; i++ {\n		binary.BigEndian.PutUint64(m[i*8:i*8+8], i)\n	}\n'),('autolykos2/autolykos2.go','func generateM(','var mTable = make([]byte, 8192)\n\nfunc generateM(')]),
]
