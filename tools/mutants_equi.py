F='equihash/equihash.go'; D='equihash/client.go'
MUTANTS=[
('coll-one','C04',[(F,'for i := uint32(0); i < collisionByteLength(n, k); i++ {\n		if a','for i := uint32(1); i < collisionByteLength(n, k); i++ {\n		if a')]),
('coll-bits','C04',[(F,'for i := uint32(0); i < collisionByteLength(n, k); i++ {\n		if a','for i := uint32(0); i < collisionBitLength(n, k)/8; i++ {\n		if a')]),
('coll-mask','C04',[(F,'if a.hash[i] != b.hash[i] {','if (a.hash[i]^b.hash[i])&0x7f != 0 {')]),
('coll-first','C04',[(F,'if a.hash[i] != b.hash[i] {','if a.hash[0] != b.hash[0] {')]),
('order-rev','C04',[(F,'if b.indices[0] < a.indices[0] {\n		return','if b.indices[0] > a.indices[0] {\n		return')]),
('order-last','C04',[(F,'if b.indices[0] < a.indices[0] {\n		return','if b.indices[len(b.indices)-1] < a.indices[0] {\n		return')]),
('order-none','C04',[(F,'if b.indices[0] < a.indices[0] {\n		return','if len(a.indices) < 4 && b.indices[0] < a.indices[0] {\n		return')]),
('dist-half','C04',[(F,'for _, j := range b.indices {','for _, j := range b.indices[len(b.indices)/2:] {')]),
('dist-adj','C04',[(F,'for _, i := range a.indices {\n		for _, j := range b.indices {\n			if i == j {','for x, i := range a.indices {\n		for y, j := range b.indices {\n			if x <= y && i == j {')]),
('dist-low','C04',[(F,'			if i == j {','			if len(a.indices) < 16 && i == j {')]),
('zero-part','C04',[(F,'for _, v := range rows[0].hash {','for _, v := range rows[0].hash[1:] {')]),
('zero-or','C04',[(F,'	for _, v := range rows[0].hash {\n		if v != 0 {\n			return false, nil\n		}\n	}\n\n	return true','	var acc byte\n	for _, v := range rows[0].hash {\n		acc ^= v\n	}\n	if acc != 0 {\n		return false, nil\n	}\n\n	return true')]),
('leaf-slot','C04',[(F,'(i % indicesPerHashOutput(n)) * ((n + 7) / 8)','(i % indicesPerHashOutput(n)) * (n / 8)')]),
('leaf-g','C04',[(F,'g := i / indicesPerHashOutput(n)','g := (i + 1) / indicesPerHashOutput(n)')]),
('leaf-g16','C04',[(F,'binary.LittleEndian.PutUint32(newState[len(initialState):], offset)','binary.LittleEndian.PutUint16(newState[len(initialState):], uint16(offset))')]),
('twist-mask','C04',[(F,'for j := 15; j < int(hashLength); j += 16 {\n		hash[j] &= 0xF8','for j := 15; j < int(hashLength); j += 16 {\n		hash[j] &= 0xF0')]),
('twist-start','C04',[(F,'startIndex := g & 0xFFFFFFF0','startIndex := g & 0xFFFFFFF8')]),
('twist-end','C04',[(F,'g2 <= g; g2++','g2 < g; g2++')]),
('idx-mask','C04',[(F,'var bitLenMask uint32 = (1 << bitLen) - 1','var bitLenMask uint32 = (1 << (bitLen - 1)) - 1')]),
('merge-order','',[(F,'if a.indices[0] < b.indices[0] {\n		indices = append(indices, a.indices...)','if true {\n		indices = append(indices, a.indices...)')]),
('stop-early','C04',[(F,'	for len(rows) > 1 {\n','	for len(rows) > 2 {\n')]),
('stop-early2','C04',[(F,'	for _, v := range rows[0].hash {','	if len(rows[0].indices) > 100 && rows[0].indices[0] == 0 {\n		return true, nil\n	}\n	for _, v := range rows[0].hash {')]),
('skip-node','C04',[(F,'err := validateSubtrees(n, k, rows[i], rows[i+1])','if i > 30 {\n				curRows = append(curRows, newNodeFromChildrenRef(rows[i], rows[i+1], collisionByteLength(n, k)))\n				continue\n			}\n			err := validateSubtrees(n, k, rows[i], rows[i+1])')]),
# behaviour preserving
('k-xor','',[(F,'if a.hash[i] != b.hash[i] {','if a.hash[i]^b.hash[i] != 0 {')]),
('k-acc','',[(F,'	for i := uint32(0); i < collisionByteLength(n, k); i++ {\n		if a.hash[i] != b.hash[i] {\n			return fmt.Errorf("collision")\n		}\n	}','	var d byte\n	for i := uint32(0); i < collisionByteLength(n, k); i++ {\n		d |= a.hash[i] ^ b.hash[i]\n	}\n	if d != 0 {\n		return fmt.Errorf("collision")\n	}')]),
('k-zeroacc','',[(F,'	for _, v := range rows[0].hash {\n		if v != 0 {\n			return false, nil\n		}\n	}\n\n	return true','	var acc byte\n	for _, v := range rows[0].hash {\n		acc |= v\n	}\n	return acc == 0, nil\n\n	return true')]),
('k-bytes','',[(F,'	for i := uint32(0); i < collisionByteLength(n, k); i++ {\n		if a.hash[i] != b.hash[i] {\n			return fmt.Errorf("collision")\n		}\n	}','	cl := collisionByteLength(n, k)\n	if !bytes.Equal(a.hash[:cl], b.hash[:cl]) {\n		return fmt.Errorf("collision")\n	}'),(F,'import (','import (\n	"bytes"')]),
('k-helper','',[(F,'	// check distinctIndices\n	for _, i := range a.indices {\n		for _, j := range b.indices {\n			if i == j {\n				return fmt.Errorf("duplicate indices")\n			}\n		}\n	}\n\n	return nil\n}','	if shared(a.indices, b.indices) {\n		return fmt.Errorf("duplicate indices")\n	}\n	return nil\n}\n\nfunc shared(x, y []uint32) bool {\n	for i := len(x) - 1; i >= 0; i-- {\n		for _, j := range y {\n			if x[i] == j {\n				return true\n			}\n		}\n	}\n	return false\n}')]),
('k-map','',[(F,'	for _, i := range a.indices {\n		for _, j := range b.indices {\n			if i == j {\n				return fmt.Errorf("duplicate indices")\n			}\n		}\n	}','	seen := make(map[uint32]bool)\n	for _, i := range a.indices {\n		seen[i] = true\n	}\n	for _, j := range b.indices {\n		if seen[j] {\n			return fmt.Errorf("duplicate indices")\n		}\n	}')]),
('k-inplace','',[(F,'		curRows := make([]*node, 0)\n','		curRows := make([]*node, 0, len(rows)/2)\n'),(F,'	indices := make([]uint32, 0)\n','	indices := make([]uint32, 0, 16)\n')]),
('k-swap','',[(F,'if b.indices[0] < a.indices[0] {\n		return','if !(a.indices[0] <= b.indices[0]) {\n		return')]),
('k-g','',[(F,'startIndex := g & 0xFFFFFFF0','startIndex := g - g%16')]),
('k-twistloop','',[(F,'	for g2 := startIndex; g2 <= g; g2++ {\n		tmp','	for x := uint32(0); x <= g-startIndex; x++ {\n		g2 := startIndex + x\n		tmp')]),
('k-errs','',[(F,'return false, nil\n		}\n	}\n\n	return true','return false, fmt.Errorf("nonzero")\n		}\n	}\n\n	return true')]),
('k-append','',[(F,'	newState := make([]byte, len(initialState)+4)\n	copy(newState, initialState)\n	binary.LittleEndian.PutUint32(newState[len(initialState):], offset)','	newState := append([]byte(nil), initialState...)\n	newState = append(newState, byte(offset), byte(offset>>8), byte(offset>>16), byte(offset>>24))')]),
]
